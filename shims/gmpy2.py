"""Pure-Python stand-in for the part of gmpy2 that integer code may reasonably use.

The real gmpy2 pin cannot be built in this sandbox (see /opt/vp/BUILD.json).  Every function
below has gmpy2's documented integer semantics, with Python ints standing in for mpz.  powmod
goes through libgmp (ctypes) for large moduli when that library is present, only for speed.
"""
import ctypes as _ct
import math as _math
import random as _random


class _MpzMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, int)

    def __call__(cls, x=0, base=None):
        if base is not None:
            return int(x, base)
        if isinstance(x, str):
            return int(x, 0) if x[:2].lower() in ("0x", "0b", "0o") else int(x)
        return int(x)


class mpz(metaclass=_MpzMeta):
    pass


def version():
    return "2.0.8-standin"


try:
    _gmp = _ct.CDLL("libgmp.so.10")

    class _MPZ(_ct.Structure):
        _fields_ = [("a", _ct.c_int), ("s", _ct.c_int), ("d", _ct.c_void_p)]
    _P = _ct.POINTER(_MPZ)
    for _n, _a in (("init", [_P]), ("clear", [_P]), ("powm", [_P, _P, _P, _P]),
                   ("import", [_P, _ct.c_size_t, _ct.c_int, _ct.c_size_t, _ct.c_int, _ct.c_size_t, _ct.c_char_p])):
        _f = getattr(_gmp, "__gmpz_" + _n)
        _f.argtypes = _a
        _f.restype = None
    _exp = _gmp.__gmpz_export
    _exp.argtypes = [_ct.c_char_p, _ct.POINTER(_ct.c_size_t), _ct.c_int, _ct.c_size_t, _ct.c_int, _ct.c_size_t, _P]
    _exp.restype = _ct.c_void_p

    def _set(x):
        z = _MPZ()
        getattr(_gmp, "__gmpz_init")(_ct.byref(z))
        b = x.to_bytes((x.bit_length() + 7) // 8 or 1, "little")
        getattr(_gmp, "__gmpz_import")(_ct.byref(z), len(b), -1, 1, 0, 0, b)
        return z

    def _gmp_pow(a, b, c):
        za, zb, zc, zr = _set(a % c), _set(b), _set(c), _set(0)
        _gmp.__gmpz_powm(_ct.byref(zr), _ct.byref(za), _ct.byref(zb), _ct.byref(zc))
        buf = _ct.create_string_buffer((c.bit_length() + 7) // 8 + 8)
        cnt = _ct.c_size_t(0)
        _exp(buf, _ct.byref(cnt), -1, 1, 0, 0, _ct.byref(zr))
        r = int.from_bytes(buf.raw[:cnt.value], "little")
        for z in (za, zb, zc, zr):
            getattr(_gmp, "__gmpz_clear")(_ct.byref(z))
        return r
    if _gmp_pow(3, 1000003, 10 ** 40 + 7) != pow(3, 1000003, 10 ** 40 + 7):
        _gmp_pow = None
except Exception:  # pragma: no cover - library absent
    _gmp_pow = None


def powmod(a, b, c):
    a, b, c = int(a), int(b), int(c)
    if _gmp_pow is not None and b > 0xFFFFFFFF and c.bit_length() > 300 and c & 1:
        return _gmp_pow(a, b, c)
    return pow(a, b, c)


def invert(a, b):
    try:
        return pow(int(a), -1, int(b))
    except ValueError:
        raise ZeroDivisionError("invert() no inverse exists")


def divm(a, b, m):
    return int(a) * invert(b, m) % int(m)


_SMALL = [p for p in range(2, 2000) if all(p % q for q in range(2, int(p ** .5) + 1))]


def is_prime(n, k=25):
    n = int(n)
    if n < 2:
        return False
    for p in _SMALL:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    r = _random.Random(n)
    for _ in range(k):
        x = pow(r.randrange(2, n - 1), d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


is_strong_prp = is_prime


def next_prime(x):
    x = int(x)
    if x < 2:
        return 2
    x += 1 + (x & 1)
    while not is_prime(x):
        x += 2
    return x


def bit_set(x, n): return int(x) | (1 << n)
def bit_clear(x, n): return int(x) & ~(1 << n)
def bit_test(x, n): return bool((int(x) >> n) & 1)
def bit_length(x): return int(x).bit_length()
def isqrt(x): return _math.isqrt(int(x))
def gcd(*a): return _math.gcd(*map(int, a))
def lcm(*a): return _math.lcm(*map(int, a))
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def f_mod(a, b): return int(a) % int(b)
def f_div(a, b): return int(a) // int(b)
def t_div(a, b):
    q = abs(int(a)) // abs(int(b))
    return q if (a >= 0) == (b >= 0) else -q
def is_even(a): return int(a) % 2 == 0
def is_odd(a): return int(a) % 2 == 1
def divexact(a, b): return int(a) // int(b)


def gcdext(a, b):
    x0, x1, y0, y1, a, b = 1, 0, 0, 1, int(a), int(b)
    while b:
        q, a, b = a // b, b, a % b
        x0, x1 = x1, x0 - q * x1
        y0, y1 = y1, y0 - q * y1
    return a, x0, y0


def random_state(seed=0): return _random.Random(seed)
def mpz_urandomb(state, n): return state.getrandbits(n)
def mpz_random(state, n): return state.randrange(n)
