"""A simulated network and a seeded cooperative scheduler for the parties.

Every party runs in its own thread, but only the thread that holds the baton runs.  The baton
moves at network operations only (where real parties are suspended too); a seeded generator
picks who runs next and how bytes are fragmented.  So one seed is one schedule, "nobody can ever
run again" is decided by logic rather than by a clock, and every byte that crosses is recorded.
"""
import random
import socket as _real
import sys
import threading
import traceback
import zlib

_tls = threading.local()


class NetAbort(BaseException):
    """Unwinds a party after the session has been decided."""


class Crash(BaseException):
    """The process of a party dies (injected)."""


class Sched:
    def __init__(self, seed, frag="whole", capacity=None, max_steps=400000, quantum=0.35,
                 policy="random"):
        self.rng = random.Random(("sched", seed).__repr__())
        self.frag, self.capacity, self.max_steps, self.quantum = frag, capacity, max_steps, quantum
        self.policy = policy
        self.steps = 0
        self.switches = 0
        self.trace_hash = 0
        self.parties = []
        self.listeners = {}
        self.streams = []
        self.log = []            # (step, stream name, nbytes)
        self.failure = None      # ("deadlock"|"livelock", detail)
        self.aborting = False
        self.main = threading.Semaphore(0)
        self.current = None
        self.crash = None        # (party, its n-th network operation): it dies there
        self.crashed = None
        self.accepted = self.expect = 0
        self.arrivals = []

    # -- parties
    def spawn(self, name, fn):
        p = Party(self, name, fn)
        self.parties.append(p)
        return p

    def run(self):
        for p in self.parties:
            p.thread.start()
        self._pick()
        self.main.acquire()
        for p in self.parties:
            p.thread.join(20)

    def _runnable(self):
        return [p for p in self.parties if not p.done and (self.aborting or p.cond is None or p.cond())]

    def _pick(self):
        """Hand the baton to someone.  Called by the thread giving it up."""
        live = [p for p in self.parties if not p.done]
        if not live:
            self.current = None
            self.main.release()
            return
        run = self._runnable()
        if not run:      # nothing happens any more: whoever waits with a time limit reaches it
            run = [p for p in live if p.timer]
            for p in run:
                p.timer = "reached"
        if not run:
            self.failure = self.failure or ("deadlock", [(p.name, p.where) for p in live])
            self.aborting = True
            run = live
        if self.policy == "random":
            p = self.rng.choice(run)
        else:                      # priority order: a starving schedule, changed now and then
            if self.rng.random() < 0.02:
                self.rng.shuffle(self.parties)
            p = next(q for q in self.parties if q in run)
        if p is not self.current:
            self.switches += 1
        self.trace_hash = zlib.crc32(b"%s %d" % (p.name.encode(), self.steps), self.trace_hash)
        prev, self.current = self.current, p
        if p is not prev:
            if prev is not None:
                prev.save()
            p.restore()
        p.sem.release()

    def yield_(self, me, cond=None, where="", force=False):
        """A scheduling point; returns once cond holds and the baton is back."""
        self.steps += 1
        me.ops += 1
        if self.aborting:
            raise NetAbort()
        if self.crash and self.crash[0] == me.name and me.ops >= self.crash[1] and self.accepted >= self.expect:
            self.crash, self.crashed = None, me.name
            raise Crash()
        if self.steps > self.max_steps:
            self.failure = self.failure or ("livelock", "more than %d network steps" % self.max_steps)
            self.aborting = True
            raise NetAbort()
        if cond is None and not force and self.rng.random() > self.quantum:
            return
        if cond is not None and cond() and not force and self.rng.random() > self.quantum:
            return
        me.cond, me.where = cond, where
        self._pick()
        me.sem.acquire()
        me.cond = None
        if self.aborting:
            raise NetAbort()

    def frag_len(self, n):
        if n <= 1 or self.frag == "whole":
            return n
        r = self.rng
        if self.frag == "bytes":
            return 1
        if self.frag == "small":     # short pieces around message boundaries, long ones inside
            return r.randint(1, min(n, 7)) if n <= 64 else r.choice([1, n - 1, n - 16, n // 2, n])
        if self.frag == "mixed":
            return min(n, r.choice([1, 2, 3, 15, 16, 17, 64, 512, 1024, 4096, n, n]))
        return n


class Party:
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.sem = threading.Semaphore(0)
        self.cond = None
        self.timer = None
        self.where = "start"
        self.ops = 0
        self.done = False
        self.exc = None
        self.tb = None
        self.result = None
        self.socks = []
        self._np = self._py = self._sys = None
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        _tls.party = self
        self.sem.acquire()
        try:
            if not self.sched.aborting:
                self.result = self.fn()
        except NetAbort:
            pass
        except BaseException as e:  # noqa - the verdict code looks at it
            self.exc, self.tb = e, traceback.format_exc()
            # a crashed party's sockets close with its process
            for s in self.socks:
                s.close()
        finally:
            self.done = True
            self.sched._pick()

    # every party has its own random streams, whatever the interleaving
    def seed(self, s):
        import numpy as np
        from .boot import SeededSystemRandom
        rs = np.random.RandomState(random.Random(("p", s).__repr__()).getrandbits(32))
        self._np = rs.get_state()
        self._py = random.Random(("py", s).__repr__()).getstate()
        self._sys = random.Random(("sys", s).__repr__())

    def save(self):
        if self._np is None:
            return
        import numpy as np
        from .boot import SeededSystemRandom
        self._np, self._py, self._sys = np.random.get_state(), random.getstate(), SeededSystemRandom._src

    def restore(self):
        if self._np is None:
            return
        import numpy as np
        from .boot import SeededSystemRandom
        np.random.set_state(self._np)
        random.setstate(self._py)
        SeededSystemRandom._src = self._sys


class Stream:
    """One direction of one connection."""

    def __init__(self, sched, src, dst):
        self.sched, self.src, self.dst = sched, src, dst
        self.buf = bytearray()
        self.all = bytearray()
        self.closed = False
        self.read = 0
        self.pieces = 0
        self.eof_reads = 0
        sched.streams.append(self)

    def room(self):
        return self.sched.capacity is None or len(self.buf) < self.limit()

    def limit(self):
        """Back-pressure eases the longer a stream gets, so that megabytes do not take millions of steps."""
        return self.sched.capacity << min(self.pieces % 20000 // 2000, 12)


class FakeSocket:
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        self.party = getattr(_tls, "party", None)
        if self.party is None:
            raise OSError("no simulated network is running")
        self.sched = self.party.sched
        self.party.socks.append(self)
        self.rx = self.tx = None
        self.addr = None
        self.backlog = self.peer = None
        self.closed = False
        self.timeout = _real.getdefaulttimeout()

    def wait(self, party, cond, where, force=False):
        """Blocks until cond, or until the time limit if there is one; how long others take is the adversary's choice."""
        net = self.sched
        if self.timeout is None or cond():
            return net.yield_(party, cond, where, force=force)
        if self.timeout == 0:
            raise BlockingIOError(11, "Resource temporarily unavailable")
        party.timer = "reached" if net.rng.random() < .03 else "runs"
        net.yield_(party, lambda: cond() or party.timer == "reached", where, force=True)
        party.timer = None
        if not cond():
            raise _real.timeout("timed out")

    # -- set up
    def setsockopt(self, *a): pass
    def getsockopt(self, *a): return 0
    def settimeout(self, t): self.timeout = t
    def gettimeout(self): return self.timeout
    def setblocking(self, b): self.timeout = None if b else 0
    def fileno(self): return 99
    def getsockname(self): return self.addr or ("127.0.0.1", 0)
    def getpeername(self): return self.peer

    def bind(self, addr):
        if addr[1] in self.sched.listeners:
            raise OSError(98, "Address already in use")
        self.addr = addr

    def listen(self, n=0):
        self.backlog = []
        self.sched.listeners[self.addr[1]] = self

    def accept(self):
        self.wait(self.party, lambda: bool(self.backlog), "accept", force=True)
        s = self.backlog.pop(0)
        self.sched.accepted += 1
        s.party = self.party
        self.party.socks.append(s)
        return s, s.peer

    def connect(self, addr):
        net = self.sched
        self.wait(self.party, lambda: addr[1] in net.listeners, "connect", force=True)
        lst = net.listeners[addr[1]]
        peer = FakeSocket.__new__(FakeSocket)
        peer.sched, peer.closed, peer.addr, peer.backlog, peer.timeout = net, False, None, None, _real.getdefaulttimeout()
        peer.party = lst.party
        a = Stream(net, self.party.name, lst.party.name)
        b = Stream(net, lst.party.name, self.party.name)
        self.tx, self.rx, peer.tx, peer.rx = a, b, b, a
        peer.peer, self.peer = ("127.0.0.1", net.rng.randint(1024, 65535)), addr
        net.arrivals.append(self.party.name)
        lst.backlog.append(peer)

    def connect_ex(self, addr):
        self.connect(addr)
        return 0

    # -- data
    def _party(self):
        return getattr(_tls, "party", self.party)

    def send(self, data, flags=0):
        data = bytes(data)
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        if not data:
            return 0
        st = self.tx
        self.wait(self._party(), lambda: st.room() or st.closed, "send to " + st.dst)
        if st.closed:
            raise BrokenPipeError(32, "Broken pipe")
        n = self.sched.frag_len(len(data))
        if self.sched.capacity is not None:
            n = max(1, min(n, st.limit() - len(st.buf)))
        st.pieces += 1
        st.buf += data[:n]
        st.all += data[:n]
        self.sched.log.append((self.sched.steps, st.src, st.dst, n))
        return n

    def sendall(self, data, flags=0):
        data = memoryview(bytes(data))
        while len(data):
            n = self.send(data)
            data = data[n:]

    def recv(self, n, flags=0):
        if flags & getattr(_real, "MSG_WAITALL", 0x100):
            out = b""
            while len(out) < n:
                more = self.recv(n - len(out))
                if not more:
                    break
                out += more
            return out
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        st = self.rx
        if n == 0:
            return b""
        self.wait(self._party(), lambda: st.buf or st.closed, "recv from " + st.src)
        if not st.buf:
            st.eof_reads += 1
            if st.eof_reads > 300:
                self.sched.failure = self.sched.failure or (
                    "livelock", "%s keeps reading a closed connection" % st.dst)
                self.sched.aborting = True
                raise NetAbort()
            return b""
        k = self.sched.frag_len(min(n, len(st.buf)))
        out = bytes(st.buf[:k])
        if not flags & getattr(_real, "MSG_PEEK", 2):
            del st.buf[:k]
            st.read += k
        return out

    def recv_into(self, buf, nbytes=0, flags=0):
        m = memoryview(buf).cast("B")
        out = self.recv(nbytes or len(m), flags)
        m[:len(out)] = out
        return len(out)

    def makefile(self, mode="rb", buffering=None, **k):
        import io
        sock = self

        class Raw(io.RawIOBase):
            def readable(self): return True
            def writable(self): return True
            def readinto(self, b): return sock.recv_into(b)
            def write(self, b): return sock.send(b)
        if "r" in mode:
            return io.BufferedReader(Raw()) if buffering != 0 else Raw()
        return io.BufferedWriter(Raw()) if buffering != 0 else Raw()

    def shutdown(self, how):
        if self.tx is not None:
            self.tx.closed = True

    def close(self):
        self.closed = True
        if self.tx is not None:
            self.tx.closed = True
            self.rx.closed = True

    def detach(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _create_connection(addr, *a, **k):
    s = FakeSocket()
    s.connect(addr)
    return s


def _create_server(addr, *a, **k):
    s = FakeSocket()
    s.bind(addr)
    s.listen(k.get("backlog") or 5)
    return s


# A party may use helper threads.  Only the holder of the baton runs, so a helper's work is done where it is started:
# one of the orders in which independent helpers may run.
class InlineThread(threading.Thread):
    def start(self):
        if getattr(_tls, "party", None) is None:
            return super().start()
        self.ran = True
        try:
            self.run()
        except Exception:
            sys.excepthook(*sys.exc_info())

    def join(self, timeout=None):
        if not getattr(self, "ran", False):
            super().join(timeout)

    def is_alive(self):
        return False if getattr(self, "ran", False) else super().is_alive()


def _inline_pool():
    import concurrent.futures as cf
    import concurrent.futures.thread as cft
    base = cft.ThreadPoolExecutor

    class Pool(base):
        def submit(self, fn, /, *a, **k):
            if getattr(_tls, "party", None) is None:
                return super().submit(fn, *a, **k)
            f = cf.Future()
            f.set_running_or_notify_cancel()
            try:
                f.set_result(fn(*a, **k))
            except Exception as e:
                f.set_exception(e)
            return f
    Pool.__name__ = Pool.__qualname__ = "ThreadPoolExecutor"
    cf.ThreadPoolExecutor = cft.ThreadPoolExecutor = Pool


def patch_socket_module():
    threading.Thread = InlineThread
    _inline_pool()
    _real.socket = FakeSocket
    _real.create_connection = _create_connection
    _real.create_server = _create_server


def messages(raw):
    """The pickled objects in a byte stream, whatever the framing: [(offset, length, object)]."""
    import io
    import pickle
    out, p, raw = [], 0, bytes(raw)
    while True:
        p = raw.find(b"\x80", p)
        if p < 0 or p + 2 > len(raw):
            return out
        if raw[p + 1] not in (2, 3, 4, 5):
            p += 1
            continue
        f = io.BytesIO(raw[p:])
        try:
            obj = pickle.Unpickler(f).load()
        except Exception:
            p += 1
            continue
        out.append((p, f.tell(), obj))
        p += f.tell()
