import numpy as np

_Q = 12289
_cache = {}


def _rev10(x):
    r = 0
    for i in range(10):
        r = 2 * r + ((x >> i) & 1)
    return r


def _mats(n):
    if n not in _cache:
        pts = []
        for j in range(n):
            if n == 1:
                pts.append(1)
                continue
            w = pow(7, _rev10(n // 2 + j // 2), _Q)
            pts.append(w if j % 2 == 0 else _Q - w)
        fwd = np.zeros((n, n), dtype=np.int64)
        inv = np.zeros((n, n), dtype=np.int64)
        ni = pow(n, _Q - 2, _Q)
        for j, w in enumerate(pts):
            wi = pow(w, _Q - 2, _Q)
            a, b = 1, ni
            for i in range(n):
                fwd[j, i] = a
                inv[i, j] = b
                a = a * w % _Q
                b = b * wi % _Q
        _cache[n] = (fwd, inv)
    return _cache[n]


def _vec(x):
    return np.array([int(v) % _Q for v in x], dtype=np.int64)


class NTTIterative:
    def __init__(self, q):
        if q != _Q:
            raise ValueError("only q = 12289")
        self.q = q

    def ntt(self, f):
        return [int(v) for v in _mats(len(f))[0].dot(_vec(f)) % _Q]

    def intt(self, f):
        return [int(v) for v in _mats(len(f))[1].dot(_vec(f)) % _Q]

    def vec_mul(self, a, b):
        return [(int(x) * int(y)) % _Q for x, y in zip(a, b)]

    def vec_add(self, a, b):
        return [(int(x) + int(y)) % _Q for x, y in zip(a, b)]

    def vec_sub(self, a, b):
        return [(int(x) - int(y)) % _Q for x, y in zip(a, b)]

    def vec_div(self, a, b):
        return [(int(x) * pow(int(y), -1, _Q)) % _Q for x, y in zip(a, b)]
