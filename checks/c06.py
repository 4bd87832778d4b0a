"""C06: Paillier encryption is correct, homomorphic, randomised and key-bound."""
import math
import pickle
from fractions import Fraction

from vrt import boot, nums
from vrt.core import Violation

RULE = ("A case is a key pair and a random program over ciphertexts and plain numbers (encrypt, +, -, unary combinations, "
        "scalar *, /, sums of many terms, pickling, list, nested and table encryption); a model computing with exact "
        "fractions and error bounds judges every decryption, and monitors watch operands, randomness and error "
        "handling. Distinct by (operation, operand kinds, sign, magnitude).")
ASSUMPTIONS = ["values and results stay below a third of the modulus, as the scheme requires; a float is kept to 50 bits",
               "gmpy2 is replaced by a pure Python stand-in"]
NEED = {"decryptions": 400, "rejected": 20, "keys": 8, "randomised": 50, "residues": 90, "scaled_far": 20}


def case(rng, i, tier):
    bits = rng.choice([256, 384, 512, 512, 768]) if tier == "quick" else rng.choice([256, 320, 512, 768, 1024])
    prog = []
    for _ in range(rng.randint(6, 16)):
        op = rng.choice(["enc", "enc", "enc", "add", "add", "sub", "iadd", "isub", "imul", "adds", "radds", "subs", "rsubs", "mul", "rmul", "div",
                         "neg", "sum", "pickle", "mul0"])
        prog.append([op, rng.randrange(1000), rng.randrange(1000), nums.scalar(rng, big=rng.choice([40, 40, 66]))])
    if rng.random() < .25:        # the same ciphertext scaled again and again, and plain numbers added to what is left
        bits = rng.choice([768, 1024])
        prog = [["scale", 0, 0, ["float", rng.choice([rng.uniform(.1, .9), rng.gauss(0, 1), 1e-3 * rng.random()])]] for _ in range(rng.randint(4, 9))]
        for _ in range(5):
            prog.append([rng.choice(["adds", "radds", "subs", "rsubs", "add"]), -rng.randint(1, 3), -1, nums.scalar(rng, big=20)])
            prog[-1][3] = rng.choice([prog[-1][3], ["float", rng.random()], ["int", rng.randint(-9, 9)]])
    arr = [[rng.gauss(0, 2) for _ in range(3)] for _ in range(rng.randint(1, 3))]
    return dict(bits=bits, prog=[["enc", 0, 0, nums.scalar(rng, big=70)]] + prog, arr=arr,
                ints=[rng.randint(-99, 99) for _ in range(4)])


def fixed(tier):
    """Keys of the lengths that are used."""
    import random
    r = random.Random("c06/" + tier)
    out = []
    for bits in [1536, 2048] if tier == "quick" else [1025, 1536, 2048, 2049, 3072]:
        cfg = case(r, 0, tier)
        cfg.update(bits=256, prog=cfg["prog"][:3], long=bits)
        out.append(cfg)
    return out


def probable_prime(n, rnd):
    if n < 2 or n % 2 == 0:
        return n == 2
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for _ in range(12):
        x = pow(rnd.randrange(2, n - 1), d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def low_level(mon, pub, priv, rnd, cfg):
    """The scheme itself on residues, and keys as objects."""
    from ml.secureprotol.fate_paillier import PaillierEncryptedNumber, PaillierPrivateKey, PaillierPublicKey
    check, n = mon.check, pub.n
    for m in (0, 1, n - 1, n // 2, n // 3, n // 3 + 1, n - n // 3 - 1, n - n // 3 + 1, rnd.randrange(n), rnd.randrange(n), rnd.getrandbits(40), n - rnd.getrandbits(40)):
        c, m2 = pub.raw_encrypt(m), rnd.randrange(n)
        mon.count("residues")
        check(0 <= c < n * n and math.gcd(c, n) == 1, "raw", "the ciphertext of the residue %d is no unit modulo the square of n", m)
        check(priv.raw_decrypt(c) == m, "raw", "the residue %d came back as %d (n %d)", m, priv.raw_decrypt(c), n)
        check(priv.raw_decrypt(c * pub.raw_encrypt(m2) % (n * n)) == (m + m2) % n, "raw", "the product of two ciphertexts is not the sum of %d and %d", m, m2)
        r = rnd.randrange(2, n)
        check(pub.raw_encrypt(m, r) == (1 + n * m) * pow(r, n, n * n) % (n * n), "raw", "the residue %d with the random value %d is not (1+n)^m r^n", m, r)
        check(priv.raw_decrypt(pub.apply_obfuscator(c)) == m and pub.apply_obfuscator(c) != c, "raw", "obfuscation changed the residue %d, or nothing", m)
    a, b = PaillierPrivateKey(pub, priv.q, priv.p), PaillierPrivateKey(pub, priv.p, priv.q)
    p2, k2 = pickle.loads(pickle.dumps((pub, priv)))
    check(a == b == priv == k2 and hash(a) == hash(b) == hash(k2) and p2 == pub and hash(p2) == hash(pub), "key-equality", "copies of one key differ")
    check(a.raw_decrypt(pub.raw_encrypt(5)) == b.raw_decrypt(p2.raw_encrypt(5)) == 5, "key-equality", "the order of the primes matters")
    check(pub != PaillierPublicKey(n + 2) and not pub == PaillierPublicKey(n + 2), "key-equality", "different keys are equal")
    ct = pub.raw_encrypt(1)
    for what, exc, fn in (("a private key whose factors are not n's", ValueError, lambda: PaillierPrivateKey(pub, priv.p + 2, priv.q)),
                          ("a private key with equal factors", ValueError, lambda: PaillierPrivateKey(PaillierPublicKey(priv.p ** 2), priv.p, priv.p)),
                          ("encrypting a residue that is no integer", TypeError, lambda: pub.raw_encrypt(rnd.choice([1.0, "1", None]))),
                          ("decrypting a residue that is no integer", TypeError, lambda: priv.raw_decrypt(rnd.choice([1.0, "1", None, pub.encrypt(1)]))),
                          ("a ciphertext that is no integer", TypeError, lambda: PaillierEncryptedNumber(pub, rnd.choice([1.0, "1", None]))),
                          ("a ciphertext under something that is no key", TypeError, lambda: PaillierEncryptedNumber(rnd.choice([priv, n, None]), ct))):
        try:
            fn()
        except exc:
            mon.count("rejected")
            continue
        raise Violation("no-error", "%s is accepted" % what)


def run_case(cfg, mon):
    import random
    import numpy as np
    from computing.d_table import DTable
    from ml.secureprotol.encrypt import PaillierEncrypt
    from ml.secureprotol.fate_paillier import PaillierEncryptedNumber, PaillierKeypair
    rnd = random.Random(repr(cfg["_seed"]))
    check = mon.check
    pe = PaillierEncrypt()
    pe.generate_key(cfg["bits"])
    pub, priv = pe.get_key_pair()
    mon.count("keys")
    check(pub.n.bit_length() == cfg["bits"], "key-length", "asked for %d bits, n has %d", cfg["bits"], pub.n.bit_length())
    check(priv.p * priv.q == pub.n and priv.p != priv.q, "key", "n is not the product of two different primes")
    check(probable_prime(priv.p, rnd) and probable_prime(priv.q, rnd), "key", "a factor of n is not prime")
    check(pe.get_public_key() is pub and pe.get_privacy_key() is priv, "key", "the key pair is not what the getters return")
    if cfg.get("long"):      # keys of the lengths that are used
        from ml.secureprotol.encrypt import PaillierEncrypt as PE
        big = PE()
        big.generate_key(cfg["long"])
        n = big.get_public_key().n
        mon.count("long_keys")
        check(n.bit_length() == cfg["long"], "key-length", "asked for %d bits, n has %d", cfg["long"], n.bit_length())
        x = rnd.randint(-10 ** 9, 10 ** 9)
        check(big.decrypt(big.encrypt(x)) == x, "round-trip", "%d does not survive a key of %d bits", x, cfg["long"])
        # scaled until the modulus is full: the integers that hold the values are far beyond a float's range
        s = ["float", rnd.uniform(-3, 3)]
        c, m, room = big.encrypt(s[1]), nums.Val.of(s), big.get_public_key().max_int.bit_length() - 2
        for _ in range(99):
            s = ["float", rnd.choice([rnd.uniform(.3, 1.5), -rnd.random()])]
            p = ["float", rnd.gauss(0, 1)]
            m2 = m * nums.Val.of(s)
            if max(m2.bits(), m2.shifted_bits(nums.Val.of(p))) > room:
                break
            c, m = c * s[1], m2
            if m.exp % 2:
                for what, d, e in (("a product", c, m), ("a product plus a number", c + p[1], m + nums.Val.of(p)),
                                   ("a number minus a product", p[1] - c, m.neg() + nums.Val.of(p))):
                    got = big.decrypt(d)
                    mon.count("scaled_far")
                    mon.state("scaled", cfg["long"], what, m.exp // 20)
                    check(math.isfinite(got) and e.ok(got), "decryption", "%s at exponent %d decrypts to %r, it should be %r (bits %d)", what, m.exp, got, float(e.v), cfg["long"])
        check(m.exp * 4 > room - 120, "decryption", "the chain of products stopped at exponent %d", m.exp)
    # the randomness of keys and ciphertexts is the system's, not a reseedable generator's
    boot.reseed("entropy A")
    n1 = PaillierKeypair.generate_keypair(256)[0].n
    boot.SeededSystemRandom._src.seed("entropy B")
    random.seed("entropy A")
    st = random.getstate()
    boot.reseed("entropy A")
    boot.SeededSystemRandom._src.seed("entropy B")
    n2 = PaillierKeypair.generate_keypair(256)[0].n
    check(n1 != n2, "key-randomness", "key generation repeats itself when the ordinary generators are seeded alike")
    boot.reseed("entropy A")
    c1 = pub.encrypt(7).ciphertext(be_secure=False)
    boot.reseed("entropy A")
    boot.SeededSystemRandom._src.seed("entropy B")
    c2 = pub.encrypt(7).ciphertext(be_secure=False)
    check(c1 != c2, "randomised", "encryption repeats itself when the ordinary generators are seeded alike")
    boot.reseed(cfg["_seed"])

    limit = (pub.max_int).bit_length() - 2
    root = pow(pub.n, -1, (priv.p - 1) * (priv.q - 1))
    vals, model = [], []

    def judge(c, m, what):
        check(isinstance(c, PaillierEncryptedNumber), "not-encrypted", "%s gives a %s", what, type(c).__name__)
        got = pe.decrypt(c)
        mon.count("decryptions")
        check(math.isfinite(got) and m.ok(got), "decryption", "%s decrypts to %r, it should be %r (bits %d)", what, got,
              float(m.v) if abs(m.v) < 1e300 else m.v, cfg["bits"])
        mon.state(what, (m.v > 0) - (m.v < 0), len(str(int(abs(m.v)))), m.exp)

    for op, a, b, s in cfg["prog"]:
        x = nums.make(s)
        sm = nums.Val.of(s)
        before = None
        if op == "enc":
            c, m = pub.encrypt(x) if a % 2 else pe.encrypt(x), sm
            d = pub.encrypt(x)
            mon.count("randomised")
            check(c.ciphertext(False) != d.ciphertext(False) and (c.ciphertext(False) - d.ciphertext(False)) % pub.n,
                  "randomised", "two encryptions of %r share their randomness", s)
            check((c.ciphertext(False) - 1) % pub.n != 0, "randomised", "an encryption of %r carries no randomness", s)
            rr = pow(c.ciphertext(False) % pub.n, root, pub.n)      # the randomiser, as only the private key reveals it
            check(min(rr, pub.n - rr).bit_length() > cfg["bits"] - 64, "randomised", "the randomiser of an encryption has %d of %d bits",
                  min(rr, pub.n - rr).bit_length(), cfg["bits"])
        else:
            i, j = a % len(vals), b % len(vals)
            if op == "scale":
                i, op = len(vals) - 1, "mul"
            u, v, mu, mv = vals[i], vals[j], model[i], model[j]
            before = [(k, k.ciphertext(False), k.exponent) for k in (u, v)]
            if op in ("add", "sub", "iadd", "isub"):
                mv2 = mv if op in ("add", "iadd") else mv.neg()
                m = mu + mv2
                if max(m.bits(), mu.shifted_bits(mv2)) > limit or abs(mu.exp - mv.exp) * 4 > limit - 8:
                    continue
                if op[0] == "i":
                    c = u
                    if op == "iadd":
                        c += v
                    else:
                        c -= v
                else:
                    c = u + v if op == "add" else u - v
            elif op in ("adds", "radds", "subs", "rsubs"):
                m = {"adds": lambda: mu + sm, "radds": lambda: mu + sm, "subs": lambda: mu + sm.neg(),
                     "rsubs": lambda: mu.neg() + sm}[op]()
                if max(m.bits(), mu.shifted_bits(sm)) > limit or abs(mu.exp - sm.exp) * 4 > limit - 8:
                    continue
                if s[0] not in ("int", "float") and op in ("radds", "rsubs"):
                    x = x.item()
                c = {"adds": lambda: u + x, "radds": lambda: x + u, "subs": lambda: u - x, "rsubs": lambda: x - u}[op]()
            elif op in ("mul", "rmul", "imul"):
                m = mu * sm
                if m.bits() > limit:
                    continue
                if op == "imul":
                    c = u
                    c *= x
                else:
                    c = u * x if op == "mul" else (x.item() if hasattr(x, "item") else x) * u
            elif op == "mul0":
                c, m = u * 0, nums.Val(Fraction(0), 0, mu.exp)
                z = c.ciphertext()
                check((z - 1) % pub.n != 0, "randomised", "the ciphertext of a product with 0 is handed out unrandomised")
            elif op == "div":
                if not x or abs(x) < 1e-9 or abs(x) > 1e9:
                    continue
                inv = ["float", 1 / x if not hasattr(x, "item") else 1 / x.item()]
                im = nums.Val.of(inv)
                m = mu * im
                m.err += abs(m.v) * nums.EPS
                if m.bits() > limit:
                    continue
                c = u / x
            elif op == "neg":
                c, m = u * -1, mu.neg()
            elif op == "sum":
                terms = [(vals[k], model[k]) for k in range(len(vals)) if (a >> k) & 1 or k == i]
                m = nums.Val(Fraction(0), 0, 0)
                hi = max(t.exp for _, t in terms)
                lo = min(t.exp for _, t in terms)
                if (hi - lo) * 4 > limit - 8 or any(nums.Val(t.v, 0, hi).bits() > limit - 5 for _, t in terms) or lo < 0:
                    continue
                c = 0
                for cv, t in terms:
                    c, m = c + cv, m + t
            elif op == "pickle":
                c, m = pickle.loads(pickle.dumps(u)), mu
        if before:
            check(all(k.ciphertext(False) == ct and k.exponent == e for k, ct, e in before), "operand-changed",
                  "%s changed its operand", op)
        judge(c, m, op)
        vals.append(c)
        model.append(m)

    low_level(mon, pub, priv, rnd, cfg)
    for x, prec in ((rnd.gauss(0, 50), rnd.choice([1e-1, 1e-3, 1e-6, 1e-9, 16 ** -5])), (rnd.randint(-99, 99), rnd.choice([.1, 1, 1e-6]))):
        got = pe.decrypt(pub.encrypt(x, precision=prec))
        check(abs(got - x) <= prec, "decryption", "%r encrypted to a precision of %r decrypts to %r", x, prec, got)
        r = rnd.randrange(2, pub.n)
        c, d = pub.encrypt(x, random_value=r), pub.encrypt(x, random_value=r)
        check(c.ciphertext(False) == d.ciphertext(False), "random-value", "two encryptions of %r with the same random value differ", x)
        check(abs(pe.decrypt(c) - x) <= 1e-14 * abs(x), "decryption", "%r, encrypted with a given random value, decrypts to %r", x, pe.decrypt(c))
        e = c.exponent + rnd.randint(0, 9)
        d = c.increase_exponent_to(e)
        check(d.exponent == e and abs(pe.decrypt(d) - x) <= 1e-14 * abs(x), "exponent", "%r at exponent %d decrypts to %r", x, e, pe.decrypt(d))
        try:
            d.increase_exponent_to(e - 1)
        except ValueError:
            mon.count("rejected")
        else:
            raise Violation("no-error", "lowering a ciphertext's exponent is accepted")
        mon.count("decryptions", 3)

    # bulk interfaces
    lst = pe.encrypt_list(cfg["ints"])
    check(pe.decrypt_list(lst) == cfg["ints"], "bulk", "encrypt_list/decrypt_list: %r came back %r", cfg["ints"],
          pe.decrypt_list(lst))
    arr = np.array(cfg["arr"])
    back = pe.recursive_decrypt(pe.recursive_encrypt(arr))
    check(back.shape == arr.shape and np.allclose(back, arr, rtol=1e-14, atol=0), "bulk",
          "recursive encryption: %r came back %r", arr.tolist(), back.tolist())
    t = DTable(True, [("k%d" % i, v) for i, v in enumerate(cfg["ints"])])
    enc = pe.distribute_encrypt(t)
    check(all(isinstance(v, PaillierEncryptedNumber) for _, v in enc.collect()), "bulk", "distribute_encrypt leaves plain values")
    check(dict(pe.distribute_decrypt(enc).collect()) == dict(t.collect()), "bulk", "table encryption does not round trip")
    mon.count("decryptions", len(lst) + arr.size + t.count())

    # a party with the public key alone can encrypt and not decrypt
    other = PaillierEncrypt()
    other.set_public_key(pub)
    judge(other.encrypt(3.5), nums.Val.of(["float", 3.5]), "public key only")
    check(other.decrypt(lst[0]) is None, "key-bound", "decryption without the private key gives %r", other.decrypt(lst[0]))
    # errors instead of wrong numbers
    wrong = PaillierEncrypt()
    wrong.generate_key(256)

    def rejects(what, exc, fn):
        try:
            r = fn()
        except exc:
            mon.count("rejected")
            return
        raise Violation("no-error", "%s gives %r instead of an error" % (what, r))
    rejects("decrypting with another key", ValueError, lambda: wrong.decrypt(vals[0]))
    for v in (vals[0], vals[-1], pub.encrypt(5), pub.encrypt(2.5), pub.encrypt(0)):
        for x in (1, 2.5, 0):
            f = wrong.encrypt(x)
            rejects("adding ciphertexts of different keys", ValueError, lambda: v + f)
            rejects("subtracting ciphertexts of different keys", ValueError, lambda: v - f)
            rejects("subtracting ciphertexts of different keys", ValueError, lambda: f - v)
    rejects("summing ciphertexts of different keys", ValueError, lambda: sum([pub.encrypt(1), wrong.encrypt(1), pub.encrypt(2)]))
    for v in (vals[0], vals[-1]):
        rejects("multiplying two ciphertexts", Exception, lambda: v * pub.encrypt(2))
        rejects("dividing two ciphertexts", Exception, lambda: v / pub.encrypt(2))
    rejects("encrypting a number beyond the modulus", ValueError, lambda: pub.encrypt(pub.max_int + 1))
    rejects("encrypting a number below the negative range", ValueError, lambda: pub.encrypt(-pub.max_int - 1))
    rejects("decrypting a plain number", TypeError, lambda: priv.decrypt(5))
    rejects("encrypting text", TypeError, lambda: pub.encrypt("1"))
    for edge in (pub.max_int, -pub.max_int, pub.max_int - 1, -2 ** 63, 2 ** 63, -2 ** 31):
        check(pe.decrypt(pub.encrypt(edge)) == edge, "decryption", "%d, the edge of the range, is decrypted wrongly", edge)
        mon.count("decryptions")
    rejects("a sum that overflows", OverflowError, lambda: pe.decrypt(pub.encrypt(pub.max_int) + pub.encrypt(5)))
    mon.sample = dict(bits=cfg["bits"], program=cfg["prog"][:6], results=[float(m.v) if abs(m.v) < 1e300 else str(m.v)[:40] for m in model[:6]])
