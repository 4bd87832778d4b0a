"""Run the repository's own command-line programs, guest.py and host.py, and record what they trained and predicted on.

As simulated parties (run_sim) or, as a script, as one real process of a real federation (see checks/c18.py).
"""
import json
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vrt import boot  # noqa

_tls = threading.local()


class Argv(list):
    """sys.argv, one per party."""

    def __getitem__(self, i):
        return _tls.argv[i] if getattr(_tls, "argv", None) else list.__getitem__(self, i)

    def __len__(self):
        return len(_tls.argv) if getattr(_tls, "argv", None) else list.__len__(self)

    def __iter__(self):
        return iter(_tls.argv) if getattr(_tls, "argv", None) else list.__iter__(self)


class Stdout:
    """Keeps the lines that report an accuracy, per thread."""

    def write(self, s):
        rec = getattr(_tls, "rec", None)
        if rec is not None:
            buf = getattr(_tls, "line", "") + s
            *done, _tls.line = buf.split("\n")
            rec["lines"] += [x for x in done if "accuracy" in x]
        return len(s)

    def flush(self):
        pass


def snapshot(table):
    out = []
    for k, v in table.collect():
        f = v.features
        feats = [float(x) for x in f] if not hasattr(f, "get_all_data") else [[int(a), float(b)] for a, b in f.get_all_data()]
        out.append([k, v.inst_id, feats, v.label])
    return dict(rows=out, header=list(table.schema.get("header") or []))


_hooked = []


def hook():
    if _hooked:
        return
    _hooked.append(1)
    from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as G
    from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost as H
    for c in (G, H):
        fit, predict = c.fit, c.predict

        def new_fit(self, *a, _o=fit, **k):
            rec = getattr(_tls, "rec", None)
            if rec is not None:
                rec["model"] = self
                rec["train"].append(snapshot(a[0] if a else list(k.values())[0]))
            return _o(self, *a, **k)

        def new_predict(self, *a, _o=predict, **k):
            rec = getattr(_tls, "rec", None)
            if rec is not None:
                rec["test"].append(snapshot(a[0] if a else list(k.values())[0]))
            r = _o(self, *a, **k)
            if rec is not None:
                rec["pred"].append([[k2, list(v)] for k2, v in r.collect()] if r is not None else None)
            return r
        c.fit, c.predict = new_fit, new_predict


def execute(script, argv):
    """The script as python would run it; returns the record."""
    import compat
    rec = dict(lines=[], train=[], test=[], pred=[], model=None)
    _tls.rec, _tls.argv, _tls.line = rec, [script] + [str(a) for a in argv], ""
    path = os.path.join(boot.REPO, script)
    try:
        exec(compile(open(path).read(), path, "exec"), {"__name__": "__main__", "__file__": path, "float": compat.LegacyFloat})
        if _tls.line and "accuracy" in _tls.line:
            rec["lines"].append(_tls.line)
    finally:
        _tls.rec = None
    return rec


def run_sim(guest_argv, host_argvs, sched, seed):
    """guest.py and the host.py's as parties of the simulated network, in the current directory."""
    from vrt import simnet
    hook()
    net = simnet.Sched(sched["seed"], sched["frag"], sched["capacity"], quantum=sched["quantum"], policy=sched["policy"], max_steps=3000000)
    net.expect = len(host_argvs)
    old = sys.argv, sys.stdout
    sys.argv, sys.stdout = Argv(sys.argv), Stdout()
    try:
        ps = [net.spawn("guest", lambda: execute("guest.py", guest_argv))]
        ps += [net.spawn("host%d" % i, lambda a=a: execute("host.py", a)) for i, a in enumerate(host_argvs)]
        for p in ps:
            p.seed((seed, p.name))
        net.run()
    finally:
        sys.argv, sys.stdout = old
    return net, ps


def main():
    role, outfile, argv = sys.argv[1], sys.argv[2], sys.argv[3:]
    boot.boot(fake_net=False)
    import socket
    import time
    real = sys.stdout
    hook()
    sys.stdout = Stdout()
    sys.argv = Argv(sys.argv)
    if role == "host":       # like an operator who starts the host once the guest is up
        for _ in range(3000):
            if listening(int(argv[2])):
                break
            time.sleep(.01)
    rec = execute(role + ".py", argv)
    rec.pop("model")
    sys.stdout = real
    with open(outfile, "w") as f:
        json.dump(rec, f, default=str)


def listening(port):
    try:
        for line in open("/proc/net/tcp"):
            p = line.split()
            if p[0] != "sl" and int(p[1].split(":")[1], 16) == port and p[3] == "0A":
                return True
    except OSError:
        pass
    return False


if __name__ == "__main__":
    main()
