"""Case runner: seeded cases in parallel workers, three-valued verdict, evidence, replay files."""
import collections
import hashlib
import importlib
import json
import os
import random
import re
import select
import signal
import subprocess
import sys
import time
import traceback

from . import boot

VERIF = boot.VERIF
PY = sys.executable


class Violation(Exception):
    def __init__(self, mechanism, message):
        super().__init__(message)
        self.mechanism, self.message = mechanism, message


class Skip(Exception):
    """The case turned out to be outside the property's domain (counted, never a verdict)."""


class Monitor:
    """What one case observed."""

    def __init__(self):
        self.counts = collections.Counter()
        self.keys = []
        self.sample = None
        self.known = []
        self.skipped = None

    def count(self, name, n=1):
        self.counts[name] += n

    def state(self, *key):
        """A distinct non-trivial thing that was seen (deduplicated over the whole run)."""
        self.keys.append(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def fail(self, mechanism, fmt, *a):
        if mechanism in _known:
            self.known.append((mechanism, (fmt % a if a else fmt)[:300]))
            return
        raise Violation(mechanism, fmt % a if a else fmt)

    def check(self, cond, mechanism, fmt, *a):
        self.counts["assertions"] += 1
        if not cond:
            self.fail(mechanism, fmt, *a)


_known = set()
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def load_known(pid):
    out = {}
    try:
        for line in open(FINDINGS):
            m = re.match(r"KNOWN-FINDING: property=(\S+) mechanism=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


def case_rng(seed, pid, i):
    return random.Random("%s/%s/%s" % (seed, pid, i))


def _repo_frame(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(boot.REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def execute(mod, cfg):
    """Run one case: (kind, monitor, mechanism, message); kind in ok/violation/error."""
    mon = Monitor()
    seed = cfg.get("_seed", 0)
    boot.reseed(seed)
    try:
        mod.run_case(cfg, mon)
        return "ok", mon, None, None
    except Skip as e:
        mon.skipped = str(e)
        return "ok", mon, None, None
    except Violation as v:
        return "violation", mon, v.mechanism, v.message
    except BaseException as e:  # noqa
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not _repo_frame(e.__traceback__):
            raise
        tb = traceback.format_exc()[-3000:]
        if _repo_frame(e.__traceback__):
            mech = "exception:" + type(e).__name__
            if mech in _known:
                mon.known.append((mech, str(e)[:300]))
                return "ok", mon, None, None
            return "violation", mon, mech, "the code raised on valid input\n" + tb
        if isinstance(e, (AttributeError, ImportError, NameError, MemoryError)):
            return "error", mon, type(e).__name__, tb
        return "violation", mon, "malformed:" + type(e).__name__, \
            "the code's output could not be interpreted\n" + tb


def worker(pid, tier, seed, k, nw, deadline, min_cases, max_cases, cpu_limit):
    boot.boot()
    _known.update(load_known(pid))
    real = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")

    def emit(d):
        real.write(json.dumps(d, default=str) + "\n")
        real.flush()
    try:
        mod = importlib.import_module("checks." + pid.lower())
        if hasattr(mod, "setup"):
            mod.setup()
    except BaseException:  # noqa
        emit({"error": "setup", "tb": traceback.format_exc()[-3000:]})
        return
    cur = {}

    def on_cpu(sig, frame):
        emit({"violation": "no-termination", "message": "the case used more than %ss of CPU time without ending"
              % cpu_limit, "case": cur.get("i"), "cfg": cur.get("cfg")})
        os._exit(0)
    signal.signal(signal.SIGPROF, on_cpu)
    fixed = list(mod.fixed(tier)) if hasattr(mod, "fixed") else []
    i, done = k, 0
    while True:
        if i >= max_cases + len(fixed):
            break
        if time.time() > deadline and done >= min_cases and i >= len(fixed):
            break
        if i < len(fixed):
            cfg = fixed[i]
        else:
            cfg = mod.case(case_rng(seed, pid, i - len(fixed)), i - len(fixed), tier)
        cfg.setdefault("_seed", "%s/%s/%s" % (seed, pid, i))
        cfg = json.loads(json.dumps(cfg))
        cur.update(i=i, cfg=cfg)
        emit({"start": i})
        signal.setitimer(signal.ITIMER_PROF, cpu_limit)
        t = time.time()
        kind, mon, mech, msg = execute(mod, cfg)
        signal.setitimer(signal.ITIMER_PROF, 0)
        done += 1
        emit({"case": i, "t": round(time.time() - t, 3), "kind": kind, "counts": mon.counts, "keys": mon.keys,
              "known": mon.known, "sample": mon.sample, "mech": mech, "msg": msg, "skip": mon.skipped,
              "cfg": cfg if kind != "ok" else None})
        i += nw
    emit({"end": k})


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VRT_WORKERS", "8")))
    ap.add_argument("--worker", nargs=6)
    a = ap.parse_args(argv)
    pid = a.pid.upper()
    if a.worker:
        k, nw, dl, mn, mx, cpu = a.worker
        return worker(pid, a.tier, a.seed, int(k), int(nw), float(dl), int(mn), int(mx), float(cpu))
    if os.environ.get("PYTHONHASHSEED") != "0":     # set and dict order is part of a replay
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(PY, [PY, "-B", os.path.join(VERIF, "run.py")] + argv)
    if a.replay:
        return replay(pid, a.replay)
    return drive(pid, a)


def replay(pid, path):
    d = json.load(open(path))
    boot.boot()
    mod = importlib.import_module("checks." + pid.lower())
    if hasattr(mod, "setup"):
        mod.setup()
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    kind, mon, mech, msg = execute(mod, d["case"])
    sys.stdout = out
    print("replay of %s: %s" % (path, kind))
    if kind == "violation":
        print("mechanism: %s\n%s" % (mech, msg))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if kind == "error":
        print(msg)
        return 2
    return 0


def drive(pid, a):
    t0 = time.time()
    sys.dont_write_bytecode = True
    spec = importlib.import_module("checks." + pid.lower())      # module level must not import /repo
    quick = a.tier != "thorough"
    secs = a.seconds or (getattr(spec, "QUICK_S", 18) if quick else getattr(spec, "THOROUGH_S", 720))
    hard = 560 if quick else max(3000, 3 * secs)
    nw = a.workers
    mn = getattr(spec, "MIN_CASES", 8)
    mx = getattr(spec, "MAX_CASES", 10 ** 9)
    cpu = getattr(spec, "CPU_LIMIT", 120)
    known = load_known(pid)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", VERIF_TIER=a.tier)
    procs, bufs = {}, {}
    deadline = time.time() + secs
    for k in range(nw):
        p = subprocess.Popen([PY, "-B", os.path.join(VERIF, "run.py"), pid, "--tier", a.tier, "--seed", str(a.seed),
                              "--worker", str(k), str(nw), str(deadline), str(-(-mn // nw)), str(mx), str(cpu)],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=VERIF,
                             start_new_session=True)
        procs[p.stdout.fileno()] = (k, p)
        bufs[p.stdout.fileno()] = b""
    counts, keys = collections.Counter(), set()
    samples, knowns = [], collections.OrderedDict()
    evals = skipped = ended = 0
    skips = collections.Counter()
    slowest = 0.0
    viol, errors = None, []
    try:
        while procs and viol is None:
            if time.time() - t0 > hard:
                errors.append("wall-clock watchdog: %d workers still busy" % len(procs))
                break
            r, _, _ = select.select(list(procs), [], [], 5)
            for fd in r:
                data = os.read(fd, 1 << 20)
                k, p = procs[fd]
                if not data:
                    p.wait()
                    err = p.stderr.read().decode(errors="replace")
                    del procs[fd]
                    if not bufs.get("end%d" % k) and viol is None:
                        errors.append("worker %d ended early (rc %s) in case %s: %s" % (
                            k, p.returncode, bufs.get("cur%d" % k), err[-1500:]))
                    continue
                bufs[fd] += data
                *lines, bufs[fd] = bufs[fd].split(b"\n")
                for ln in lines:
                    d = json.loads(ln)
                    if "start" in d:
                        bufs["cur%d" % k] = d["start"]
                    elif "end" in d:
                        bufs["end%d" % k] = True
                        ended += 1
                    elif "error" in d:
                        errors.append(d["tb"])
                        bufs["end%d" % k] = True
                    elif "violation" in d:
                        bufs["end%d" % k] = True
                        if d["violation"] in known:
                            knowns.setdefault(d["violation"], d["message"])
                        elif viol is None:
                            viol = dict(mech=d["violation"], msg=d["message"], cfg=d["cfg"], case=d["case"])
                    else:
                        evals += 1
                        slowest = max(slowest, d["t"])
                        counts.update(d["counts"])
                        keys.update(d["keys"])
                        if d["skip"]:
                            skipped += 1
                            skips[d["skip"].split(":")[0]] += 1
                        for m, text in d["known"]:
                            knowns.setdefault(m, text)
                        if d["sample"] is not None and len(samples) < 6 and d["case"] % 3 == 0:
                            samples.append(d["sample"])
                        elif d["sample"] is not None and len(samples) < 2:
                            samples.append(d["sample"])
                        if d["kind"] == "violation" and viol is None:
                            viol = dict(mech=d["mech"], msg=d["msg"], cfg=d["cfg"], case=d["case"])
                        elif d["kind"] == "error":
                            errors.append("case %s: %s" % (d["case"], d["msg"]))
    finally:
        for k, p in procs.values():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    need = getattr(spec, "NEED", {})
    missing = {} if viol else {n: (counts.get(n, 0), v) for n, v in need.items() if counts.get(n, 0) < v}
    cov = {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": spec.RULE,
           "samples": samples or ["none"], "observed": dict(sorted(counts.items())),
           "skipped_outside_domain": dict(skips), "workers": nw, "slowest_case_s": slowest,
           "known_findings_seen": list(knowns)}
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": int(a.seed) if str(a.seed).isdigit() else 0, "level": getattr(spec, "LEVEL", "exploration"),
          "coverage": cov, "assumptions": getattr(spec, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    outdir = os.environ.get("VRT_OUT", VERIF)        # elsewhere only while a copy is examined (tools/plant.py)
    os.makedirs(os.path.join(outdir, "evidence"), exist_ok=True)
    with open(os.path.join(outdir, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    if viol:
        os.makedirs(os.path.join(outdir, "replays"), exist_ok=True)
        rel = "replays/%s-%s.json" % (pid, hashlib.sha1(json.dumps(viol["cfg"], sort_keys=True).encode()).hexdigest()[:12])
        with open(os.path.join(outdir, rel), "w") as f:
            json.dump({"property": pid, "mechanism": viol["mech"], "message": viol["msg"], "case": viol["cfg"]}, f)
        print("mechanism: %s" % viol["mech"])
        print(str(viol["msg"])[:3000])
        print("replay with: python3-vt -B run.py %s --replay %s" % (pid, rel))
        print("VIOLATION property=%s replay=%s" % (pid, rel))
        return 1
    for m in knowns:
        print("KNOWN-FINDING: property=%s mechanism=%s %s" % (pid, m, known.get(m, "")))
    print("%s %s seed=%s: %d cases (%d outside the domain), %d distinct, %s" % (
        pid, a.tier, a.seed, evals, skipped, len(keys), dict(sorted(counts.items()))))
    if errors or missing:
        for e in errors[:5]:
            print("ERROR", e)
        if missing:
            print("INCONCLUSIVE: too little was observed (got, needed):", missing)
        return 2
    return 0
