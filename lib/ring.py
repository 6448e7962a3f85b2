"""Harness-side arithmetic in Z_q[x]/(x^n+1) and hashing, used only to construct inputs."""
import functools
import hashlib

import numpy as np

Q = 12289


@functools.lru_cache(None)
def tw():
    p = [pow(7, k, Q) for k in range(2048)]

    def rev(x):
        return int(format(x, "010b")[::-1], 2)
    return (np.array([p[rev(m)] for m in range(1024)]), np.array([p[(2048 - rev(m)) % 2048] for m in range(1024)]))


def ntt(a):
    a = np.array(a, dtype=np.int64) % Q
    n, m = len(a), 1
    while m < n:
        b = a.reshape(m, 2, -1)
        v = b[:, 1] * tw()[0][m:2 * m, None] % Q
        a = np.stack([(b[:, 0] + v) % Q, (b[:, 0] - v) % Q], axis=1).reshape(n)
        m *= 2
    return a


def intt(a):
    a = np.array(a, dtype=np.int64) % Q
    n = len(a)
    m = n // 2
    while m >= 1:
        b = a.reshape(m, 2, -1)
        a = np.stack([(b[:, 0] + b[:, 1]) % Q, (b[:, 0] - b[:, 1]) * tw()[1][m:2 * m, None] % Q], axis=1).reshape(n)
        m //= 2
    return a * pow(n, -1, Q) % Q


@functools.lru_cache(None)
def _inv():
    t = [0] + [pow(k, -1, Q) for k in range(1, Q)]
    return np.array(t)


def inv(a):
    return _inv()[np.array(a) % Q]


def mul(a, b):
    return intt(ntt(a) * ntt(b) % Q)


def centre(a):
    a = np.array(a, dtype=np.int64) % Q
    return np.where(a > Q // 2, a - Q, a)


def invertible(a):
    return bool(np.all(ntt(a) != 0))


def keccak256(b):
    from Crypto.Hash import keccak as k
    h = k.new(digest_bits=256)
    h.update(bytes(b))
    return h.digest()


def stream(xof, data, n):
    if xof == "shake":
        return hashlib.shake_256(data).digest(n)
    if xof == "chain":
        o, b = b"", keccak256(data)
        while len(o) < n:
            o += b
            b = keccak256(b)
        return o[:n]
    h = keccak256 if xof == "keccak" else lambda b: hashlib.blake2s(b).digest()
    key = h(data)
    return b"".join(h(key + i.to_bytes(8, "big")) for i in range(n // 32 + 1))[:n]


def point(xof, nonce, m, n=512):
    nonce = bytes(nonce) if xof != "blake2s" else hashlib.blake2s(bytes(nonce)).digest()
    s = stream(xof, nonce + bytes(m), 2 * n + n // 4 + 64)
    x = []
    for i in range(0, len(s), 2):
        w = (s[i] << 8) | s[i + 1]
        if w < 61445:
            x.append(w % Q)
            if len(x) == n:
                return np.array(x)
    raise RuntimeError


def h_for(c, s1, s2):
    """NTT(h) such that s1 + s2 h = c; None if s2 is not invertible."""
    t = ntt(s2)
    if not np.all(t != 0):
        return None
    return ntt(np.array(c) - np.array(s1)) * inv(t) % Q


def singular(s2, slot):
    """A vector close to s2 whose transform is zero at the slot (the other slots mostly are not)."""
    n = len(s2)
    e = [0] * n
    e[1 if n > 1 else 0] = 1
    r = int(ntt(e)[slot])
    v = int(ntt(s2)[slot])
    best = None
    for b in range(-300, 301):
        a = int(centre([-v - b * r])[0])
        if best is None or a * a + b * b < best[0]:
            best = (a * a + b * b, a, b)
    y = [int(x) for x in s2]
    y[0] += best[1]
    y[1] += best[2]
    assert int(ntt(y)[slot]) == 0
    return y
