"""C22: the RSA and affine ciphers and the big-number helpers compute what they promise."""
import math
from fractions import Fraction

RULE = ("A case generates keys (RSA of 1024 bits, affine of random sizes, ratios and precisions), encrypts random and edge-case plaintexts, "
        "applies random expressions of sums, differences and integer multiples to affine ciphertexts next to exact rational arithmetic, "
        "multiplies RSA ciphertexts, maps whole tables and nested arrays, and calls the modular helpers on random operands of mixed sizes. "
        "Distinct by (cipher, operation, operand size).")
ASSUMPTIONS = ["affine plaintexts and results stay inside the signed range a tenth of the modulus leaves", "RSA plaintexts lie in 0..n-1", "gmpy2 is a pure Python stand-in"]
NEED = {"rsa": 200, "affine": 500, "expressions": 500, "encodings": 200, "refused": 200, "tables": 30, "arrays": 60, "powmod": 2000, "invert": 500, "primes": 60, "prime_sets": 10, "isqrt": 500}
MIN_CASES = 4


def case(rng, i, tier):
    return dict(kind=["affine", "math", "affine", "math", "rsa"][i % 5] if i % 10 != 9 else "math", seed=rng.getrandbits(40))


def raises(f, *kinds):
    try:
        f()
    except kinds:
        return True
    return False


def size(r):
    return r.choice([1, 3, 16, 31, 32, 33, 62, 63, 64, 65, 66, 100, 200, 512, 1100])


def run_case(cfg, mon):
    import random
    r = random.Random(cfg["seed"])
    dict(affine=affine, rsa=rsa, math=maths)[cfg["kind"]](r, mon)


def containers(r, mon, enc, vals, same, np, DTable):
    """encrypt_list, tables and nested arrays do what encrypt and decrypt do one by one."""
    check = mon.check
    back = enc.decrypt_list(enc.encrypt_list(vals))
    check(len(back) == len(vals) and all(same(a, b) for a, b in zip(back, vals)), "list", "%r came back as %r", vals, back)
    t = DTable(True, [("k%d" % j, v) for j, v in enumerate(vals)])
    d = dict(enc.distribute_decrypt(enc.distribute_encrypt(t)).collect())
    mon.count("tables")
    check(set(d) == {"k%d" % j for j in range(len(vals))} and all(same(d["k%d" % j], v) for j, v in enumerate(vals)), "table", "%r came back as %r", vals, d)
    check([v for _, v in sorted(t.collect(), key=lambda kv: int(kv[0][1:]))] == vals, "table", "encrypting a table changed it")
    if len(vals) < 2:
        return
    for shape in ((len(vals),), (len(vals) // 2, 2), (1, 2, len(vals) // 2)):
        k = math.prod(shape)
        a = np.empty(k, dtype=object)
        for j in range(k):
            a[j] = vals[j]
        a = a.reshape(shape)
        src = a if r.random() < .5 or len(shape) > 2 else a.tolist()
        c = enc.recursive_encrypt(src)
        b = np.asarray(enc.recursive_decrypt(c), dtype=float)
        mon.count("arrays")
        want = shape if len(shape) > 1 else (1,) + shape
        check(b.shape == want, "array", "an array of shape %r came back as %r", shape, b.shape)
        check(all(same(x, v) for x, v in zip(b.reshape(-1), vals)), "array", "%r came back as %r", vals, b.tolist())
    flat = [enc.encrypt(v) for v in vals]
    for src in (flat, np.array(flat, dtype=object)):
        b = np.asarray(enc.recursive_decrypt(src), dtype=float)
        check(b.size == len(vals) and all(same(x, v) for x, v in zip(b.reshape(-1), vals)), "array", "a flat list of the ciphertexts of %r was decrypted as %r", vals, b.tolist())
    # a table of rows (or of plain values) is an array too, in the order the table gives them
    rows = {"k%d" % j: vals[2 * j:2 * j + 2] for j in range(len(vals) // 2)}
    for t, shape in ((DTable(True, list(rows.items())), (len(rows), 2)), (DTable(True, [("k%d" % j, v) for j, v in enumerate(vals)]), (1, len(vals)))):
        order = [v for _, v in t.collect()]
        want = [x for v in order for x in (v if isinstance(v, list) else [v])]
        c = enc.recursive_encrypt(t)
        b = np.asarray(enc.recursive_decrypt(c), dtype=float)
        mon.count("arrays")
        check(b.shape == shape and all(same(x, v) for x, v in zip(b.reshape(-1), want)), "array", "a table of %r came back as %r", want, b.tolist())
        ct = DTable(True, [("k%d" % j, list(v)) for j, v in enumerate(c)])
        b = np.asarray(enc.recursive_decrypt(ct), dtype=float)
        want2 = [x for _, v in ct.collect() for x in enc.decrypt_list(v)]
        check(b.shape == shape and all(same(x, v) for x, v in zip(b.reshape(-1), want2)), "array", "an encrypted table of %r was decrypted as %r", want, b.tolist())
        check([v for _, v in t.collect()] == order, "table", "encrypting a table changed it")



def affine(r, mon):
    import numpy as np
    from computing.d_table import DTable
    from ml.secureprotol.affine import AffineCipher, AffineCiphertext
    from ml.secureprotol.encrypt import AffineEncrypt, Encrypt, FakeEncrypt
    check = mon.check
    bits = r.choice([512, 768, 1024, 2048])
    if r.random() < .5:
        enc = AffineEncrypt()
        check(enc.encrypt(1) is None and enc.decrypt(1) is None, "no-key", "an affine cipher without a key answers")
        enc.generate_key(bits) if r.random() < .7 else enc.generate_key()
        key, prec = enc.key, 2 ** 100
    else:
        prec = r.choice([2 ** 100, 2 ** 60, 10 ** 30, 2 ** 20])
        key = AffineCipher.generate_keypair(bits, prec, r.choice([None, 0.0, 1.0, .5, r.random()]), r.choice([None, 0.0, 1.0, .5, r.random()]))
        enc = key
    if key.n.bit_length() < 400:
        return
    if (key.n - 1) // 10 < 1:
        return
    check((key.a * key.a_inv) % key.n == 1, "key", "the stored inverse is not one")
    num = lambda: r.choice([0, 1, -1, 0.0, -0.5, r.randint(-10 ** 6, 10 ** 6), r.gauss(0, 1), r.gauss(0, 1) * 10 ** r.randint(-8, 9), float(r.randint(-9, 9)), r.getrandbits(40)])
    tol = lambda terms, v: float(terms / prec + 1e-12 * abs(v)) + 1e-300
    for _ in range(30):
        x = num()
        c = enc.encrypt(x)
        mon.count("affine")
        mon.state("affine", type(x).__name__, x if abs(x) < 2 else int(math.log10(abs(x))), bits)
        y = enc.decrypt(c)
        check(abs(float(y) - float(x)) <= tol(1, x), "round-trip", "affine: %r came back as %r (%d bits, precision %r)", x, y, bits, prec)
        if prec == 2 ** 100 and (isinstance(x, int) or x == 0 or abs(x) > 1e-6):
            check(float(y) == float(x), "round-trip", "affine: %r came back as %r", x, y)
        check(isinstance(c, AffineCiphertext) and 0 <= c.cipher < key.n, "cipher", "the ciphertext of %r lies outside 0..n-1", x)
    for _ in range(8):       # large whole numbers, up to where the signed range ends
        if key.n.bit_length() - prec.bit_length() > 1000:
            break
        top = key.n // prec
        x = r.choice([top * r.randint(1, 88) // 100, top * r.choice([49, 51, 88]) // 100, -(top * r.randint(1, 9) // 100), -(top * 9 // 100)])
        mon.count("affine")
        y = enc.decrypt(enc.encrypt(x))
        check(abs(Fraction(y) - x) <= abs(x) * Fraction(1, 10 ** 12), "round-trip", "affine: the large number %r came back as %r (%d bits, precision %r)", x, y, bits, prec)
    for _ in range(30):
        x = num()
        c, v, w = enc.encrypt(x), Fraction(x), 1
        m = abs(v)  # the magnitude that rounding is relative to
        ops = []
        for _ in range(r.randint(1, 8)):
            y = num()
            op = r.choice(["+", "-", "*", "r*", "0+", "+0", "0-", "sum", "+=", "-=", "*="])
            ops.append((op, y))
            keep = (c.cipher, c.multiplier)
            old = c
            other = None
            if op in ("+=", "-="):
                other = enc.encrypt(y)
                keep2 = (other.cipher, other.multiplier)
                if op == "+=":
                    c += other
                else:
                    c -= other
                v, w = v + Fraction(y) * (1 if op == "+=" else -1), w + 1
                check((other.cipher, other.multiplier) == keep2, "operand", "%s changed its right operand", op)
            elif op == "*=":
                k = r.choice([0, 1, -1, 2, 7])
                c *= k
                v, w = v * k, w * abs(k) + 1
                ops[-1] = (op, k)
            elif op == "+":
                c, v, w = c + enc.encrypt(y), v + Fraction(y), w + 1
            elif op == "-":
                c, v, w = c - enc.encrypt(y), v - Fraction(y), w + 1
            elif op in ("*", "r*"):
                k = r.choice([0, 1, -1, 2, 7, -13, 1000])
                c, v, w = (c * k if op == "*" else k * c), v * k, w * abs(k) + 1
                ops[-1] = (op, k)
            elif op == "0+":
                c = 0 + c
            elif op == "+0":
                c = c + 0
            elif op == "0-":
                c, v = 0 - c, -v
            else:
                c, v, w = sum([enc.encrypt(y), c]), v + Fraction(y), w + 1
            m = m * max(1, abs(ops[-1][1])) if op in ("*", "r*", "*=") else m + abs(Fraction(y))
            check((old.cipher, old.multiplier) == keep, "operand", "%s changed its operand", op)
            if abs(v) * prec * 20 > key.n or w > 10 ** 25:
                break
        else:
            mon.count("expressions")
            mon.state("expr", [o for o, _ in ops], bits)
            got = enc.decrypt(c)
            check(abs(Fraction(got) - v) <= Fraction(tol(w, float(m))), "homomorphism", "affine: %r then %r decrypts to %r, exact is %r", x, ops, got, float(v))
        junk = r.choice([1, -1, 2.5, "0", None, 0.5])
        mon.count("refused", 3)
        check(raises(lambda: c + junk, TypeError), "refuse", "an affine ciphertext plus %r is accepted", junk)
        check(raises(lambda: c * r.choice([1.5, "2", None, enc.encrypt(1)]), TypeError), "refuse", "an affine ciphertext times a non-integer is accepted")
        check(raises(lambda: c * 2.0, TypeError), "refuse", "an affine ciphertext times a float is accepted")
        check(raises(lambda: c / r.choice([2, 3, 2.5, .5]), TypeError), "refuse", "dividing an affine ciphertext, which has no meaning modulo n, is accepted")

    from ml.secureprotol.affine_encoder import AffineEncoder
    for _ in range(10):      # an offset is taken off once for every number that went into a sum
        mult, trans = r.choice([2 ** 100, 2 ** 60, 10 ** 30, 2 ** 20, 1000]), r.choice([0, 1, -1, 3, 2 ** 20, -7.5, r.gauss(0, 10)])
        e = AffineEncoder(mult, trans)
        xs, ks = [num() for _ in range(r.randint(1, 6))], [r.choice([1, 1, 1, 2, 5, -1]) for _ in range(6)]
        code = [e.encode(x) for x in xs]
        check(all(type(v) is int for v in code), "encoder", "encoding gives %r, not whole numbers", code)
        k = ks[:len(xs)]
        got = e.decode(sum(a * b for a, b in zip(code, k)), sum(k)) if k != [1] or r.random() < .5 else e.decode(code[0])
        want = sum(Fraction(x) * b for x, b in zip(xs, k))
        size = sum((abs(float(x)) + abs(trans)) * abs(b) for x, b in zip(xs, k))
        mon.count("encodings")
        check(abs(Fraction(got) - want) <= Fraction(sum(map(abs, k)) / mult + 1e-12 * size), "encoder", "%r times %r encoded with factor %r and offset %r decode to %r", xs, k, mult, trans, got)

    class Both(Encrypt):
        encrypt = staticmethod(enc.encrypt)
        decrypt = staticmethod(enc.decrypt)
    vals = [num() for _ in range(r.choice([1, 2, 4, 6, 24]))]
    containers(r, mon, Both(), vals, lambda a, b: abs(float(a) - float(b)) <= tol(1, b), np, DTable)
    f = FakeEncrypt()
    vals = [num() for _ in range(r.choice([1, 2, 4, 6, 24]))]
    check(all(f.encrypt(v) is v and f.decrypt(v) is v for v in vals), "fake", "the identity cipher changes values")
    containers(r, mon, f, vals, lambda a, b: float(a) == float(b), np, DTable)
    mon.sample = dict(kind="affine", bits=bits, expression=repr(ops)[:200])


_rsa = []


def rsa(r, mon):
    import numpy as np
    from computing.d_table import DTable
    from ml.secureprotol.encrypt import RsaEncrypt
    check = mon.check
    if len(_rsa) < 2 or r.random() < .02:
        e = RsaEncrypt()
        check(e.encrypt(5) is None and e.decrypt(5) is None, "no-key", "RSA without a key answers")
        e.generate_key() if not _rsa else e.generate_key(r.choice([1024, 1536]))
        _rsa.append(e)
    full = r.choice(_rsa)
    e, d, n = full.get_key_pair()
    check(n.bit_length() >= 1024 and full.get_public_key() == (e, n) and full.get_privacy_key() == (d, n), "key", "RSA keys are inconsistent")
    pub, priv = RsaEncrypt(), RsaEncrypt()
    pub.set_public_key({"e": e, "n": n})
    priv.set_privacy_key({"d": d, "n": n})
    check(pub.decrypt(3) is None and priv.encrypt(3) is None, "no-key", "half a key does the other half's work")
    if len(_rsa) > 1:      # an object may be given other keys later
        e0, d0, n0 = r.choice([k for k in _rsa if k is not full]).get_key_pair()
        pub.set_public_key({"e": e0, "n": n0})
        priv.set_privacy_key({"d": d0, "n": n0})
        check(priv.decrypt(pub.encrypt(77)) == 77, "round-trip", "RSA: an earlier key does not work")
        pub.set_public_key({"e": e, "n": n})
        priv.set_privacy_key({"d": d, "n": n})
        mon.count("rekeyed")
    for _ in range(4):
        m = r.choice([0, 1, 2, n - 1, r.randrange(n), r.getrandbits(r.choice([8, 63, 64, 65, 500]))])
        m2 = r.randrange(n)
        mon.count("rsa")
        mon.state("rsa", m.bit_length())
        c = pub.encrypt(m)
        check(0 <= c < n and c == pow(m, e, n), "rsa", "RSA encryption of %d", m)
        check(priv.decrypt(c) == m and full.decrypt(full.encrypt(m)) == m, "round-trip", "RSA: %d came back as %d", m, priv.decrypt(c))
        check(priv.decrypt(c * pub.encrypt(m2) % n) == m * m2 % n, "homomorphism", "RSA ciphertexts do not multiply")
        check(pub.encrypt(priv.decrypt(m2)) == m2, "signature", "RSA: a signature does not verify")
    vals = [r.randrange(2 ** 40) for _ in range(r.choice([1, 2, 4] * 4 + [24]))]
    containers(r, mon, full, vals, lambda a, b: int(a) == b, np, DTable)
    mon.sample = dict(kind="rsa", bits=n.bit_length())


def prime(p):
    if p < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if p % q == 0:
            return p == q
    d, s = p - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, p)
        if x in (1, p - 1):
            continue
        for _ in range(s - 1):
            x = x * x % p
            if x == p - 1:
                break
        else:
            return False
    return True


def maths(r, mon):
    from ml.secureprotol import gmpy_math as g
    check = mon.check
    for _ in range(60):
        a, b, c = r.getrandbits(size(r)), r.getrandbits(min(size(r), 300)), r.getrandbits(size(r)) + 2
        a = r.choice([a, 0, 1, 2, c - 1, c, c + 1, a % c])
        b = r.choice([b, b, 0, 1])
        mon.count("powmod")
        mon.state("powmod", a.bit_length(), b.bit_length(), c.bit_length())
        got = g.powmod(a, b, c)
        check(isinstance(got, int) and got == pow(a, b, c), "powmod", "powmod(%d, %d, %d) = %r", a, b, c, got)
    for _ in range(30):
        a, b = r.getrandbits(size(r)), r.getrandbits(size(r)) + 2
        if r.random() < .2:
            a, b = a * 6 + 6, b * 6 + 6
        mon.count("invert")
        mon.state("invert", a.bit_length(), b.bit_length(), math.gcd(a, b) == 1)
        if math.gcd(a, b) == 1:
            x = g.invert(a, b)
            check(isinstance(x, int) and 0 < x < b and a * x % b == 1, "invert", "invert(%d, %d) = %r", a, b, x)
        else:
            check(raises(lambda: g.invert(a, b), ZeroDivisionError), "invert", "%d has no inverse modulo %d, yet one is given", a, b)
    for _ in range(4):
        n = r.choice([2, 3, 8, 16, 33, 64, 65, 128, 256])
        mon.count("primes")
        p = g.getprimeover(n)
        mon.state("prime", p)
        check(isinstance(p, int) and prime(p) and p >= 2 ** (n - 1) and p.bit_length() <= n + 1, "prime", "getprimeover(%d) = %d", n, p)
    n = r.choice([64, 96, 128, 200])
    ps = [g.getprimeover(n) for _ in range(24)]      # 24 draws leave a free bit alike in all of them once in 2**23 times
    ones, zeros = 0, 0
    for p in ps:
        ones, zeros = ones | p, zeros | ~p
    stuck = [k for k in range(1, n - 2) if not ones >> k & 1 or not zeros >> k & 1]
    check(len(stuck) < 4, "prime-bits", "bits %r never differ in 24 primes of %d bits", stuck, n)
    mon.count("prime_sets")
    for _ in range(30):
        v = r.getrandbits(size(r))
        v = r.choice([v, v * v, v * v - 1 if v else 0, v * v + 1, 0, 1])
        mon.count("isqrt")
        q = g.isqrt(v)
        check(isinstance(q, int) and q * q <= v < (q + 1) * (q + 1), "isqrt", "isqrt(%d) = %r", v, q)
    mon.sample = dict(kind="helpers")
