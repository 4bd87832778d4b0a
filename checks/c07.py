"""C07: fixed-point numbers encode, compute and compare as the numbers they stand for."""
import math
import operator
from fractions import Fraction

from vrt import nums
from vrt.core import Violation

RULE = ("A case is a modulus (the default or a random larger one) and a random program of fixed-point operations (encode at "
        "automatic, given and maximal precision, decode, +, -, *, / with fixed-point and plain operands on either side, "
        "exponent changes, comparisons), judged by exact fractions with error bounds. Distinct by (operation, sign, "
        "exponents).")
ASSUMPTIONS = ["results stay below a third of the modulus; products are re-encoded as floats, so they keep 50 bits"]
NEED = {"decodings": 1500, "comparisons": 500, "rejected": 30, "finer": 10}


def case(rng, i, tier):
    prog = []
    for _ in range(rng.randint(15, 40)):
        prog.append([rng.choice(["enc", "enc", "prec", "maxexp", "add", "sub", "mul", "div", "iadd", "isub", "imul", "adds", "radds", "subs",
                                 "rsubs", "muls", "rmuls", "divs", "rdivs", "inc", "cmp", "cmps", "eq"]),
                     rng.randrange(1000), rng.randrange(1000), nums.scalar(rng, big=rng.choice([30, 30, 30, 66])), rng.randint(-6, rng.choice([20, 20, 20, 400])),
                     rng.choice([1, .1, .01, 1e-3, 1e-6, 1e-12, 16 ** -4])])
    mod = None if rng.random() < .6 else (1 << rng.choice([200, 256, 512, 1024, 2048, 4096])) + 2 * rng.getrandbits(100) + 1
    return dict(mod=mod and str(mod), prog=prog)


def run_case(cfg, mon):
    from ml.secureprotol.fixedpoint import FixedPointNumber as FP
    check = mon.check
    if cfg["mod"]:
        n = int(cfg["mod"])
        mi = n // 3 - 1
        enc = lambda x, **k: FP.encode(x, n, mi, **k)
    else:
        n, mi = FP.Q, FP.Q // 3 - 1
        enc = lambda x, **k: FP.encode(x, **k)
    limit = mi.bit_length() - 2
    vals, model = [], []

    def judge(c, m, what):
        check(isinstance(c, FP), "kind", "%s gives a %s", what, type(c).__name__)
        check(0 <= c.encoding < n and c.n == n, "encoding", "%s: encoding %r outside [0, n)", what, c.encoding)
        got = c.decode()
        mon.count("decodings")
        check(m.ok(got), "decode", "%s decodes to %r, it should be %r (exponent %d)", what, got, float(m.v), c.exponent)
        mon.state(what, (m.v > 0) - (m.v < 0), c.exponent, cfg["mod"] is None)
        m.exp = c.exponent

    def again(m):
        """m, as large as it may get when it is decoded and encoded as a float again"""
        if m.err and abs(m.v) < 8 * m.err:     # cancellation: may really be anything tiny
            return nums.Val(m.v, m.err, 10 ** 3)
        e = math.floor((53 - math.frexp(float(m.v))[1]) / 4) + 1
        return nums.Val(m.v, m.err, max(m.exp, e, 0))

    def fits(*ms):
        return all(m.bits() <= limit and m.exp <= (600 if not m.v or 1e-150 < abs(m.v) < 1e150 else 100) for m in ms)

    for op, a, b, s, e, prec in [["enc", 0, 0, ["float", 1.25], 0, 1]] + cfg["prog"]:
        x, sm = nums.make(s), nums.Val.of(s)
        if not fits(sm):
            continue
        prec = prec * 100 if abs(sm.v) > 1000 else prec
        u, v, mu, mv = (vals[a % len(vals)], vals[b % len(vals)], model[a % len(vals)], model[b % len(vals)]) if vals else [None] * 4
        keep = [(k, k.encoding, k.exponent) for k in (u, v) if k is not None]
        if op == "enc":
            c, m = enc(x), sm
        elif op == "prec":
            # a precision asks for an error below it
            m = nums.Val(sm.v, sm.err + Fraction(prec), -math.floor(math.log(prec, 16)))
            if m.bits() > limit:
                continue
            c = enc(x, precision=prec)
        elif op == "maxexp":
            e = max(sm.exp, e)
            m = nums.Val(sm.v, sm.err, e)
            if m.bits() > limit:
                continue
            c = enc(x, max_exponent=e)
            check(c.exponent >= e, "exponent", "encode with max_exponent=%d has exponent %d", e, c.exponent)
        elif op in ("add", "sub", "iadd", "isub", "adds", "radds", "subs", "rsubs"):
            o = mv if op in ("add", "sub", "iadd", "isub") else sm
            if op in ("radds", "rsubs"):
                x = x.item() if hasattr(x, "item") else x
            l, r = {"add": (mu, o), "adds": (mu, o), "radds": (mu, o), "sub": (mu, o.neg()), "subs": (mu, o.neg()),
                    "rsubs": (mu.neg(), o), "iadd": (mu, o), "isub": (mu, o.neg())}[op]
            m = l + r
            if l.err or r.err or u.exponent or o.exp or l.v.denominator * r.v.denominator > 1:
                m.err += (abs(l.v) + abs(r.v)) * nums.EPS       # integers are added exactly, whatever their size
            if again(mu).shifted_bits(again(o)) > limit or not fits(m, again(m)) or abs(again(mu).exp - again(o).exp) * 4 > limit - 60:
                continue
            c = {"iadd": lambda: operator.iadd(u, v), "isub": lambda: operator.isub(u, v), "add": lambda: u + v, "sub": lambda: u - v, "adds": lambda: u + x, "radds": lambda: x + u,
                 "subs": lambda: u - x, "rsubs": lambda: x - u}[op]()
        elif op in ("mul", "imul", "muls", "rmuls"):
            o = mv if op in ("mul", "imul") else sm
            m = mu * o
            m.err += abs(m.v) * nums.EPS
            if not fits(m, again(m), again(mu)):
                continue
            if op == "rmuls" and hasattr(x, "item"):
                x = x.item()
            c = {"imul": lambda: operator.imul(u, v), "mul": lambda: u * v, "muls": lambda: u * x, "rmuls": lambda: x * u}[op]()
        elif op in ("div", "divs", "rdivs"):
            num, den = (mu, mv) if op == "div" else (mu, sm) if op == "divs" else (sm, mu)
            if abs(den.v) < Fraction(1, 10 ** 6) or abs(den.v) > 10 ** 6 or abs(num.v) > 10 ** 9 or abs(num.v) < Fraction(1, 10 ** 9):
                continue
            if den.err > abs(den.v) / 1000 or num.err > abs(num.v) / 1000:
                continue
            rel = den.err / abs(den.v) + num.err / max(abs(num.v), Fraction(1, 10 ** 30)) + 6 * nums.EPS
            q = num.v / den.v
            m = nums.Val(q, abs(q) * rel * 2, 0)
            inv = nums.Val.of(["float", float(1 / den.v)])
            if not fits(again(m)) or (num if op != "rdivs" else mu).bits() + inv.bits() > limit or mu.exp + inv.exp > 500:
                continue
            if op == "rdivs":
                if hasattr(x, "item"):
                    x = x.item()
                if not x:
                    continue
                i2 = nums.Val.of(["float", float(1 / sm.v)])
                if mu.bits() + i2.bits() > limit or abs(sm.v) < Fraction(1, 10 ** 6):
                    continue
            c = {"div": lambda: u / v, "divs": lambda: u / x, "rdivs": lambda: x / u}[op]()
        elif op == "inc":
            e2 = u.exponent + abs(e)
            m = nums.Val(mu.v, mu.err, e2)
            if not fits(m):
                continue
            c = u.increase_exponent_to(e2)
            check(c.exponent == e2, "exponent", "increase_exponent_to(%d) gives exponent %d", e2, c.exponent)
            if not mu.err and Fraction(float(mu.v)) == mu.v:      # whole steps of a finer grid: still the same number
                mon.count("finer")
                check(c == u and u == c and not c != u and c <= u and u <= c and c >= u and u >= c and not c < u and not c > u, "compare",
                      "%r at exponent %d does not compare equal to itself at exponent %d", float(mu.v), u.exponent, e2)
        else:
            if op == "cmps":
                if isinstance(x, bool):
                    continue
                lhs, rhs, ml, mr = u, x, mu, nums.Val(sm.v, Fraction(0), 0)
            elif op == "eq":
                lhs, rhs, ml, mr = u, FP(u.encoding, u.exponent, n, mi), mu, mu
                check(lhs == rhs and not lhs != rhs and lhs <= rhs and lhs >= rhs and not lhs < rhs and not lhs > rhs,
                      "compare", "a number does not equal itself: %r", u.decode())
                mon.count("comparisons")
                continue
            else:
                lhs, rhs, ml, mr = u, v, mu, mv
            if not mu.err and u.exponent == 0 and mu.v.denominator == 1:      # integers are told apart however large they are
                for step in (-1, 0, 1):
                    o = int(mu.v) + step
                    for r in (o, FP(o % n, 0, n, mi)):
                        got = tuple(map(bool, (u < r, u <= r, u > r, u >= r, u == r, u != r)))
                        mon.count("comparisons")
                        check(got == (step > 0, step >= 0, step < 0, step <= 0, step == 0, step != 0), "compare",
                              "%d against %d: (<,<=,>,>=,==,!=) is %r", int(mu.v), o, got)
            d = ml.v - mr.v
            if abs(d) <= ml.err + mr.err + (abs(ml.v) + abs(mr.v)) * Fraction(1, 2 ** 50):
                continue
            mon.count("comparisons")
            got = (lhs < rhs, lhs <= rhs, lhs > rhs, lhs >= rhs, lhs == rhs, lhs != rhs)
            want = (d < 0, d < 0, d > 0, d > 0, False, True)
            check(tuple(map(bool, got)) == want, "compare", "%r against %r: (<,<=,>,>=,==,!=) is %r", float(ml.v),
                  float(mr.v), got)
            continue
        check(all(k.encoding == en and k.exponent == ex for k, en, ex in keep), "operand-changed", "%s changed an operand", op)
        judge(c, m, op)
        vals.append(c)
        model.append(m)

    def rejects(what, exc, fn):
        try:
            r = fn()
        except exc:
            mon.count("rejected")
            return
        raise Violation("no-error", "%s gives %r instead of an error" % (what, r))
    rejects("encoding a number beyond the range", ValueError, lambda: enc(mi + 1))
    rejects("encoding a number below the range", ValueError, lambda: enc(-mi - 1))
    rejects("encoding text", TypeError, lambda: enc("1"))
    rejects("lowering an exponent", ValueError, lambda: enc(.3).increase_exponent_to(enc(.3).exponent - 1))
    rejects("decoding in the guard zone", OverflowError, lambda: FP(mi + 1, 0, n, mi).decode())
    rejects("decoding in the guard zone", OverflowError, lambda: FP(n - mi - 1, 0, n, mi).decode())
    rejects("decoding a number outside the modulus", ValueError, lambda: FP(n, 0, n, mi).decode())
    rejects("encoding something that is no number", TypeError, lambda: enc(None))
    rejects("adding text", TypeError, lambda: enc(1) + "1")
    if not cfg["mod"]:          # the modulus is the default one wherever it is left out
        for v in (mi, -mi, 5, -5, 0):
            check(FP(v % n, 0).decode() == v and FP(v % n, 0) == enc(v) and FP(v % n, 0).n == n, "default-modulus", "FixedPointNumber(%d, 0) stands for %r", v % n, FP(v % n, 0).decode())
        z = FP(3, 0) + enc(-5)
        check(z.decode() == -2 and (enc(2.5) * FP(4, 0)).decode() == 10, "default-modulus", "sums with a number of the default modulus are wrong")
        rejects("decoding in the guard zone", OverflowError, lambda: FP(mi + 1, 0).decode())
        rejects("decoding in the guard zone", OverflowError, lambda: FP(n - mi - 1, 0).decode())
    for edge in (mi, -mi, 0, -2 ** 63, 2 ** 63, -2 ** 31, -2 ** 64):
        check(enc(edge).decode() == edge, "decode", "%d, the edge of the range, decodes to %r", edge, enc(edge).decode())
    mon.sample = dict(modulus=cfg["mod"] or "default", program=cfg["prog"][:5], values=[float(m.v) for m in model[:6]])
