"""Stand-in for numba (cannot be installed here): compilation decorators become identity."""


def _deco(*args, **kw):
    if len(args) == 1 and callable(args[0]) and not kw:
        return args[0]
    return lambda f: f


jit = njit = vectorize = guvectorize = generated_jit = _deco
prange = range
