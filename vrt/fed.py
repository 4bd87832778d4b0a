"""Shared by the checks that run whole federated sessions."""
import hashlib
import json

from . import gen, oracle, session
from .core import Skip, Violation

TREE_RULE = ("A case is a federated training and prediction session run with the repository's own guest and host "
             "classes as concurrent parties over a simulated TCP network (random tables, labels, parameters, keys, "
             "row orders; seeded hostile schedule, fragmentation and back-pressure). ")


def known_ok(cfg):
    return cfg


def start(cfg, mon, **kw):
    """Run the session; anything but a clean end on valid input is a violation."""
    out = session.run(cfg, **kw)
    bad = session.problems(out)
    if bad:
        mon.fail("session-failed", "a session on valid input did not complete: %s", "; ".join(bad))
        raise Skip("known failure")
    mon.count("sessions")
    mon.count("messages_bytes", sum(len(s.all) for s in out.net.streams))
    mon.count("context_switches", out.net.switches)
    return out


def guarded(mon, fn, *a, **k):
    try:
        return fn(*a, **k)
    except oracle.Broken as b:
        mon.fail(b.mech, "%s", b.msg)


def digest(x):
    return hashlib.blake2b(json.dumps(x, sort_keys=True, default=str).encode(), digest_size=8).hexdigest()


def summary(cfg, out):
    return {"rows": len(cfg["guest"]), "guest_features": len(cfg["guest"][0]),
            "host_features": [len(h[0]) for h in cfg["hosts"]], "task": cfg["task"], "objective": cfg["objective"],
            "classes": len(set(cfg["y"])) if cfg["task"] == "classification" else None,
            "tree": cfg["tree"], "bin_num": cfg["bin_num"], "encrypt_mode": cfg["enc_mode"],
            "trees": [[(n.id, n.sitename, n.fid, bool(n.is_leaf)) for n in t.tree_] for t in out.guest.trees_][:2],
            "schedule": cfg["sched"], "context_switches": out.net.switches, "trace": str(out.net.trace_hash)[:16]}
