from .ntt_iterative import NTTIterative


class Poly:
    """Coefficients are kept as given; results of operations are in 0..q-1."""

    def __init__(self, coeffs, q, ntt=NTTIterative):
        self.coeffs = coeffs
        self.q = q
        self._cls = ntt
        self.NTT = ntt(q)

    def _new(self, c):
        return Poly(c, self.q, ntt=self._cls)

    def __eq__(self, o):
        return [c % self.q for c in self.coeffs] == [c % self.q for c in o.coeffs]

    def __neg__(self):
        return self._new([(-c) % self.q for c in self.coeffs])

    def __add__(self, o):
        return self._new([(a + b) % self.q for a, b in zip(self.coeffs, o.coeffs)])

    def __sub__(self, o):
        return self._new([(a - b) % self.q for a, b in zip(self.coeffs, o.coeffs)])

    def __mul__(self, o):
        T = self.NTT
        return self._new(T.intt(T.vec_mul(T.ntt(self.coeffs), T.ntt(o.coeffs))))

    def __truediv__(self, o):
        T = self.NTT
        y = T.ntt(o.coeffs)
        if any(v == 0 for v in y):
            raise ZeroDivisionError("not invertible")
        return self._new(T.intt([a * pow(b, -1, self.q) % self.q
                                 for a, b in zip(T.ntt(self.coeffs), y)]))

    div = __truediv__

    def inverse(self):
        return self._new([1] + [0] * (len(self.coeffs) - 1)) / self

    def ntt(self):
        return self.NTT.ntt(self.coeffs)

    def intt(self):
        return self.NTT.intt(self.coeffs)
