"""C13: the transport delivers every object, whole, once, in order, to the party it was sent to."""
import pickle
import random
import time

RULE = ("A case is a conversation between a guest and up to 14 hosts over the repository's transport (objects of every kind "
        "and of sizes around header, buffer and segment boundaries, single and broadcast sends, single and collecting "
        "receives, invalid indices, unpicklable objects, connections cut at any byte) on simulated sockets that split and "
        "delay bytes as a seeded adversary likes; two conversations per run use real loopback sockets. Every received "
        "object is compared with the one sent. Distinct by (operation, host, object kind, size class) and by schedule.")
ASSUMPTIONS = ["both sides follow the same conversation, as the training protocol does",
               "simulated sockets obey TCP: ordered bytes, arbitrary segmentation, blocking when full"]
NEED = {"delivered": 2000, "broadcasts": 100, "cut": 30, "rejected": 30, "collected": 100}


def value(kind, size, r):
    import numpy as np
    b = bytes(r.getrandbits(8) for _ in range(min(size, 64)))
    blob = (b * (size // max(1, len(b)) + 1))[:size] if size else b""
    return {"int": lambda: r.getrandbits(max(1, size)), "str": lambda: blob.decode("latin1"), "bytes": lambda: blob,
            "none": lambda: None, "bool": lambda: r.random() < .5, "float": lambda: r.gauss(0, 1),
            "list": lambda: [r.randint(-5, 5) for _ in range(min(size, 3000))], "dict": lambda: {i: [str(i), None, {i}] for i in range(min(size, 500))},
            "tuple": lambda: (blob, [blob[:3]], {"k": (1, 2.5)}), "digits": lambda: ("%-16d" % size) * 3,
            "array": lambda: np.arange(min(size, 4000), dtype=float).reshape(-1, 1),
            "pickled": lambda: pickle.dumps(r.choice([None, [1, 2], size, blob, {"k": blob}])), "header": lambda: b"%-16d" % size + blob,
            "empty": lambda: r.choice([[], {}, "", b"", (), 0, False])}[kind]()


KINDS = ["int", "str", "bytes", "none", "bool", "float", "list", "dict", "tuple", "digits", "array", "empty", "pickled", "header"]


def same(a, b):
    import numpy as np
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def ops(rng, nh, top):
    out = []
    for _ in range(rng.randint(3, 25)):
        k = rng.choice(["one", "one", "all", "up", "up", "gather", "bare", "badindex", "unpicklable", "twice"])
        size = rng.choice([0, 1, 2, rng.randint(1, 40), rng.randint(1, 3000), rng.randint(900, 1100), rng.randint(4000, 4200),
                           rng.randint(1, top)])
        out.append([k, rng.randrange(nh), rng.choice(KINDS), size, rng.getrandbits(30)])
    return out


def case(rng, i, tier):
    nh = rng.choice([1, 1, 2, 3, 5]) if rng.random() < .93 else rng.randint(9, 14)
    top = 150000 if tier == "quick" else 400000
    cut = None
    if rng.random() < .3:
        cut = [rng.randrange(nh), rng.choice(["to_guest", "to_host"]), rng.random(), rng.choice(KINDS), rng.randint(0, 3000)]
    return dict(hosts=nh, ops=ops(rng, nh, top if nh < 6 else 300), cut=cut, real=False, hold=rng.random() < .4,
                sched=dict(seed=rng.getrandbits(40), frag=rng.choice(["whole", "mixed", "small", "bytes"]) if top and rng.random() < .8 else "mixed",
                           capacity=rng.choice([None, None, 1, 7, 100, 4096, 65536]), quantum=rng.choice([.05, .4, .9]),
                           policy=rng.choice(["random", "starve"])))


def fixed(tier):
    rng = random.Random("real/" + tier)
    big = [dict(hosts=nh, ops=[[k, h % nh, rng.choice(["bytes", "str", "tuple"]), rng.randint(1 << 22, 9 << 20), rng.getrandbits(30)]
                               for h, k in enumerate(["one", "up", "all", "gather"])], cut=None, real=real, hold=False,
                sched=dict(seed=rng.getrandbits(40), frag="mixed", capacity=None, quantum=.4, policy="random"))
           for nh, real in ((1, True), (2, False))]
    # one host is slow to read while the guest goes on talking
    big.append(dict(hosts=2, ops=[["all", 0, "bytes", 8 << 20, 7], ["all", 0, "str", 40, 8], ["one", 1, "str", 90000, 9], ["all", 0, "tuple", 100, 10],
                                  ["gather", 0, "str", 20, 11]], cut=None, real=True, sched=None, hold=False, slow=[rng.randrange(2), 1.2]))
    return big + [dict(hosts=nh, ops=[o for _ in range(8) for o in ops(rng, nh, 900000)], cut=None, real=True, sched=None, hold=False) for nh in (1, 3)]


def sent(op):
    return value(op[2], op[3], random.Random(op[4]))


def answer(op, i):
    return [None, False, 0, [], sent(op)][(op[4] >> i) % 5] if op[4] % 2 else None


def start(op):
    return {"a": op[4], "b": [op[3]]} if op[4] % 3 else [op[4], "x" * min(op[3], 2000)]


def grow(v, s):
    if isinstance(v, dict):
        v["a"] = -s
        v["b"].append(s)
    else:
        v[0] = s
        v.append([s])


def series(op):
    out = []
    for k in range(3):
        v = start(op)
        for s in range(k):
            grow(v, s)
        out.append(v)
    return out


def play_guest(cfg, tr):
    """Runs the guest's side; returns [(op number, what was received or raised)]."""
    log = [("hello", tr.recv_data_from_hosts(-1))]
    names = log[0][1]
    where = {n: k for k, n in enumerate(names)}
    for j, op in enumerate(cfg["ops"]):
        k, h = op[0], op[1]
        idx = where["host%d" % h]
        if k == "one":
            v = sent(op)
            tr.send_data_to_hosts(v, idx)
            if isinstance(v, list):
                v.append("changed after it was sent")
        elif k == "all":
            v = sent(op)
            tr.send_data_to_hosts(v, -1)
            if isinstance(v, dict):
                v["late"] = 1
        elif k == "up":
            log.append((j, tr.recv_data_from_hosts(idx)))
        elif k == "twice":      # the same object again, changed in between, both ways
            v = start(op)
            for s in range(3):
                tr.send_data_to_hosts(v, -1 if op[4] % 2 else idx)
                grow(v, s)
            log.append((j, [tr.recv_data_from_hosts(idx) for _ in range(3)]))
        elif k == "gather":
            got = tr.recv_data_from_hosts(-1)
            log.append((j, list(zip(names, got)) if isinstance(got, list) and len(got) == len(names) else ("wrong length", got)))
        elif k == "bare":
            got = tr.recv_data_from_hosts(-1)
            log.append((j, [(n, v) for n, v in zip(names, got)] if isinstance(got, list) and len(got) == len(names) else ("wrong length", got)))
        elif k == "badindex":
            bad = [cfg["hosts"], cfg["hosts"] + 3, -2, -1 - cfg["hosts"] - 1][op[4] % 4]
            res = []
            for f in (lambda: tr.send_data_to_hosts("stray", bad), lambda: tr.recv_data_from_hosts(bad)):
                try:
                    f()
                    res.append("accepted")
                except (ValueError, IndexError):
                    res.append("refused")
            log.append((j, res))
        else:
            try:
                tr.send_data_to_hosts(["text", lambda: 0], idx)
                log.append((j, "accepted"))
            except Exception as e:
                log.append((j, "refused"))
    return log


def play_host(cfg, tr, i, log=None):
    log = [] if log is None else log
    tr.send_data_to_guest("host%d" % i)
    if cfg.get("slow") and cfg["slow"][0] == i:
        time.sleep(cfg["slow"][1])
    for j, op in enumerate(cfg["ops"]):
        k, h = op[0], op[1]
        if k == "one" and h == i or k == "all":
            log.append((j, tr.recv_data_from_guest()))
        elif k == "up" and h == i:
            tr.send_data_to_guest(sent(op))
        elif k == "twice":
            if h == i or op[4] % 2:
                log.append((j, [tr.recv_data_from_guest() for _ in range(3)]))
            if h == i:
                v = start(op)
                for s in range(3):
                    tr.send_data_to_guest(v)
                    grow(v, s)
        elif k == "gather":
            tr.send_data_to_guest([i, sent(op)])
        elif k == "bare":       # hosts may have nothing to say
            tr.send_data_to_guest(answer(op, i))
    return log


def compare(cfg, logs, mon=None, part=False):
    """What differs from the conversation (None when nothing does); with part, from as much of it as the hosts had."""
    nh = cfg["hosts"]
    count = mon.count if mon else (lambda *a: None)
    for i in range(nh):
        got = logs.get("host%d" % i)
        want = [(j, op) for j, op in enumerate(cfg["ops"]) if op[0] == "all" or op[0] == "one" and op[1] == i or
                op[0] == "twice" and (op[1] == i or op[4] % 2)]
        if got is None:
            return "host %d did not finish" % i
        for (j, v), (j2, op) in zip(got, want):
            count("delivered")
            if op[0] == "all":
                count("broadcasts")
            if op[0] == "twice":
                count("resent")
                if not same(v, series(op)):
                    return "host %d received %.120r for an object sent three times as %.120r" % (i, v, series(op))
                continue
            if not same(v, sent(op)):
                return "host %d received %.80r as message %d instead of %.80r" % (i, v, j, sent(op))
        if len(got) != len(want) and not part:
            return "host %d received %d of %d messages" % (i, len(got), len(want))
    g = logs.get("guest")
    if part:
        return None
    if g is None:
        return "the guest did not finish"
    names = g[0][1]
    if sorted(names) != sorted("host%d" % i for i in range(nh)):
        return "the guest heard from %r" % (names,)
    want = [(j, op) for j, op in enumerate(cfg["ops"]) if op[0] not in ("one", "all")]
    if len(want) != len(g) - 1:
        return "the guest received %d of %d messages" % (len(g) - 1, len(want))
    for (j, v), (j2, op) in zip(g[1:], want):
        if op[0] == "up":
            count("delivered")
            if not same(v, sent(op)):
                return "the guest received %.80r from host %d instead of %.80r" % (v, op[1], sent(op))
        elif op[0] == "twice":
            if not same(v, series(op)):
                return "the guest received %.120r for an object sent three times as %.120r" % (v, series(op))
        elif op[0] == "gather":
            count("collected")
            if v[0] == "wrong length":
                return "collecting from %d hosts gave %.80r" % (nh, v[1])
            for name, x in v:
                count("delivered")
                if not same(x, [int(name[4:]), sent(op)]):
                    return "the guest collected %.80r at the place of %s instead of %.80r" % (x, name, sent(op))
        elif op[0] == "bare":
            count("collected")
            if v[0] == "wrong length":
                return "collecting from %d hosts gave %.80r" % (nh, v[1])
            for name, x in v:
                count("delivered")
                if not same(x, answer(op, int(name[4:]))):
                    return "the guest collected %.80r at the place of %s instead of %.80r" % (x, name, answer(op, int(name[4:])))
        elif op[0] == "badindex":
            count("rejected")
            if v != ["refused", "refused"]:
                return "an index out of range was accepted for %s" % ["sending", "receiving"][v.index("accepted")]
        elif v != "refused":
            return "an object that cannot be pickled was sent"
        else:
            count("rejected")
    return None


def run_case(cfg, mon):
    if cfg["real"]:
        return real(cfg, mon)
    from federation.transfer_inst import TransferInstGuest, TransferInstHost
    from vrt import simnet
    sc = cfg["sched"]
    work = sum(o[3] for o in cfg["ops"]) * cfg["hosts"]
    frag, cap = sc["frag"], sc["capacity"]
    if work > 30000 and frag == "bytes":
        frag = "mixed"
    if cap and work / cap > 3000:
        cap = 65536
    net = simnet.Sched(sc["seed"], frag, cap, quantum=sc["quantum"], policy=sc["policy"], max_steps=3000000)
    logs, cutres = {}, {}

    def after(tr, sock, me, i):
        """The connection to one host is cut inside one more message."""
        if not cfg["cut"] or cfg["cut"][0] != i:
            return
        import pickle
        way, frac, kind, size = cfg["cut"][1:]
        payload = pickle.dumps(value(kind, size, random.Random(1)))
        raw = bytes("%-16d" % len(payload), "utf-8") + payload
        k = int(frac * len(raw))
        if (way == "to_guest") == (me != "guest"):
            sock.sendall(raw[:k])
            sock.close()
            return
        try:
            v = tr.recv_data_from_hosts(dict((n, j) for j, n in enumerate(logs["names"]))["host%d" % i]) if me == "guest" else tr.recv_data_from_guest()
            cutres["got"] = repr(v)[:80]
        except Exception as e:
            cutres["raised"] = type(e).__name__

    def guest():
        tr = TransferInstGuest(7000, cfg["hosts"])
        logs["guest"] = play_guest(cfg, tr)
        logs["names"] = logs["guest"][0][1]
        if cfg["cut"]:
            i = cfg["cut"][0]
            me = net.current
            socks = [s for s in me.socks if s.tx is not None and s.tx.dst == "host%d" % i]
            after(tr, socks[0], "guest", i)

    def host(i):
        def main():
            tr = TransferInstHost(port=7000)
            logs["host%d" % i] = play_host(cfg, tr, i)
            after(tr, net.current.socks[-1], "host", i)
        return main
    order = list(range(cfg["hosts"]))
    random.Random(sc["seed"]).shuffle(order)
    net.spawn("guest", guest)
    for i in order:
        net.spawn("host%d" % i, host(i))
    net.run()
    for p in net.parties:
        if p.exc is not None and not isinstance(p.exc, (EOFError, OSError)):
            mon.fail("raised", "%s raised %s: %s\n%s", p.name, type(p.exc).__name__, p.exc, p.tb[-800:])
    for p in net.parties:
        if p.exc is not None:
            mon.fail("raised", "%s raised %s: %s\n%s", p.name, type(p.exc).__name__, p.exc, p.tb[-800:])
    if net.failure:
        mon.fail("stuck", "%s: %s", *net.failure)
    bad = compare(cfg, logs, mon)
    mon.check(bad is None, "delivery", "%s", bad)
    mon.check(logs["names"] == net.arrivals, "host-order", "the hosts connected in the order %r, they are numbered %r", net.arrivals, logs["names"])
    for s in net.streams:
        if not cfg["cut"]:
            mon.check(not s.buf, "left-over", "%d bytes from %s to %s were never read", len(s.buf), s.src, s.dst)
    if cfg["cut"]:
        mon.count("cut")
        mon.check("raised" in cutres, "cut", "the connection was cut inside a message, but the receiver returned %r", cutres.get("got"))
    for o in cfg["ops"]:
        mon.state(o[0], cfg["hosts"], o[2], o[3].bit_length(), frag, cap)
    mon.state("schedule", net.trace_hash)
    mon.sample = dict(hosts=cfg["hosts"], ops=[o[:4] for o in cfg["ops"][:5]], frag=frag, capacity=cap, cut=cfg["cut"], steps=net.steps)


def real(cfg, mon):
    import json
    import os
    import subprocess
    import sys
    p = subprocess.run([sys.executable, "-B", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vrt", "realnet.py")],
                       input=json.dumps(cfg), capture_output=True, text=True, timeout=200)
    try:
        d = json.loads(p.stdout)
    except ValueError:
        mon.count("real_unusable")      # no loopback here: says nothing about the transport
        return
    mon.check(d["bad"] is None, "delivery", "over real sockets: %s", d["bad"])
    if d["done"] < cfg["hosts"] + 1:
        mon.count("real_unfinished")    # a slow machine looks the same; the simulated network decides hangs
        return
    mon.count("real_conversations")
