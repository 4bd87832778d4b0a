"""Number generators and exact bookkeeping shared by the arithmetic checks."""
import math
from fractions import Fraction

EPS = Fraction(1, 2 ** 49)     # the encoding keeps at least 50 bits of a float


def scalar(r, floats=True, big=60):
    """A plain number in JSON-able form [type, value]."""
    c = r.random()
    if not floats or c < .35:
        v = r.choice([0, 1, -1, 2, -2, 10, r.randint(-9, 9), r.randint(-10 ** 6, 10 ** 6),
                      r.randint(-2 ** big, 2 ** big), 2 ** r.randint(0, big), -2 ** r.randint(0, big)])
        t = r.choice(["int", "int", "int64"] if -2 ** 62 < v < 2 ** 62 else ["int"])
        if abs(v) < 2 ** 15:
            t = r.choice([t, t, "int32", "int16"])
        return [t, v]
    v = r.choice([0.0, 1.0, -1.0, .5, -.5, .1, r.random(), r.gauss(0, 1), r.uniform(-1e6, 1e6),
                  r.gauss(0, 1) * 10.0 ** r.randint(-12, 12), r.gauss(0, 1) * 10.0 ** -r.randint(12, 60), 1 / 3, 2.0 ** r.randint(-30, 30), 16.0 ** r.randint(-6, 6),
                  1 - 2.0 ** -r.randint(1, 53), math.nextafter(1, 2), 1e-15, -1e15])
    t = r.choice(["float", "float", "float64"])
    return [t, v]


def make(s):
    import numpy as np
    t, v = s
    return {"int": int, "float": float, "int64": np.int64, "int32": np.int32, "int16": np.int16,
            "float64": np.float64, "float32": np.float32}[t](v)


def exact(s):
    return Fraction(s[1])


def is_int(s):
    return s[0].startswith("int")


class Val:
    """An exact value, how far the encoding may be off it, and what encoding it is held in."""

    def __init__(self, v, err, exp):
        self.v, self.err, self.exp = v, err, exp

    @staticmethod
    def of(s):
        v = exact(s)
        if is_int(s):
            return Val(v, Fraction(0), 0)
        f = float(s[1])
        return Val(v, abs(v) * EPS, math.floor((53 - math.frexp(f)[1]) / 4))

    def bits(self):
        """Size of the integer that holds the value."""
        m = (abs(self.v) + self.err) * Fraction(16) ** self.exp
        return max(1, int(m)).bit_length() + 1

    def __add__(self, o):
        return Val(self.v + o.v, self.err + o.err, max(self.exp, o.exp))

    def neg(self):
        return Val(-self.v, self.err, self.exp)

    def __mul__(self, o):
        return Val(self.v * o.v, self.err * abs(o.v) + o.err * abs(self.v) + self.err * o.err, self.exp + o.exp)

    def shifted_bits(self, o):
        """Size of either operand once their exponents are aligned."""
        e = max(self.exp, o.exp)
        return max(Val(self.v, self.err, e).bits(), Val(o.v, o.err, e).bits())

    def ok(self, got):
        """got is the value up to the encoding's and the final float's rounding."""
        g = Fraction(got)
        return abs(g - self.v) <= self.err + abs(self.v) * Fraction(1, 2 ** 51) + Fraction(1, 10 ** 200)
