"""Make the repository's code importable (from /repo's working tree) and its run repeatable."""
import os
import random as _random
import sys
import warnings

REPO = os.environ.get("VRT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/python3.12/site-packages"
_done = False


class SeededSystemRandom(_random.Random):
    """random.SystemRandom with a reseedable source, so that a case replays bit for bit.

    All instances of one party draw from one stream, as they do from the kernel.
    """
    _src = _random.Random(0)

    def __init__(self, *a):
        super().__init__(0)

    def seed(self, *a, **k):
        return None

    def random(self):
        return SeededSystemRandom._src.random()

    def getrandbits(self, k):
        return SeededSystemRandom._src.getrandbits(k)

    def getstate(self):
        raise NotImplementedError

    setstate = getstate


def reseed(seed):
    """Seed every source of randomness the repository may read."""
    import numpy as np
    SeededSystemRandom._src = _random.Random(("sys", seed).__repr__())
    _random.seed(("py", seed).__repr__())
    np.random.seed(_random.Random(("np", seed).__repr__()).getrandbits(32))


def boot(fake_net=True):
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    for p in (REPO, os.path.join(VERIF, "shims")):
        sys.path.insert(0, p)
    sys.path.append(SITE)
    import numpy  # noqa
    import compat
    compat.install(REPO)
    _random.SystemRandom = SeededSystemRandom
    if fake_net:
        from . import simnet
        simnet.patch_socket_module()
    warnings.simplefilter("ignore")
    numpy.seterr(all="ignore")
    import logging
    logging.disable(logging.CRITICAL)
