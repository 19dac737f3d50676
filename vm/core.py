"""Running a check: cases over worker processes, verdict, replay file, evidence.

A check is a module with
    PROPERTY, RULE          its id, how cases are made and what makes one non-trivial
    CASES = {tier: n}       how many cases a tier runs
    case(env, idx)          drives the real code once; reports through env
    findings = {id: probe}  (optional) probes for open known findings of the property
Every random choice of a case comes from env.rng, seeded with (VERIF_SEED, property, idx).
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VM_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
WALL = {"quick": 420, "thorough": 780}          # seconds after which no new case starts
CASE_CPU = 90                                   # CPU seconds after which a case counts as not terminating
MAXVIOL = 3


class Timeout(BaseException):
    pass


class Violation(Exception):
    pass


class Env:
    """What one case sees: its random source, its scratch directory, its counters."""

    def __init__(self, prop, tier, seed, idx, scratch, quiet=False):
        self.prop, self.tier, self.seed, self.idx = prop, tier, seed, idx
        self.rng = random.Random(f"{seed}:{prop}:{idx}")
        self.scratch = scratch
        self.count = collections.Counter()
        self.problems = []
        self.detail = {}
        self.key = None            # what makes the case distinct, None if trivial
        self.sample = None
        self.quiet = quiet

    def problem(self, msg, **detail):
        if len(self.problems) < 5:
            self.problems.append(str(msg)[:2000])
            for k, v in detail.items():
                self.detail.setdefault(k, v if isinstance(v, (int, float, str, list, dict)) else str(v))

    def saw(self, what, n=1):
        self.count[what] += n

    def distinct(self, *parts):
        self.key = hashlib.sha1("\0".join(map(str, parts)).encode()).hexdigest()[:16]


def _alarm(signum, frame):
    raise Timeout()


def limits():
    """Keep a runaway change from taking the machine down."""
    import resource
    cap = 6 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (cap, resource.getrlimit(resource.RLIMIT_AS)[1]))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


def run_case(mod, env):
    os.makedirs(env.scratch, exist_ok=True)
    os.chdir(env.scratch)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CASE_CPU", CASE_CPU))
    try:
        mod.case(env, env.idx)
    except Timeout:
        env.problem(f"no end after {getattr(mod, "CASE_CPU", CASE_CPU)} CPU seconds")
    except MemoryError:
        env.problem("memory runs out on this case")
    except Exception as e:                               # the harness itself, or the code under test
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:])
        env.problem(f"{type(e).__name__}: {e} (in {where})", traceback=traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        os.chdir("/")


def clean(path):
    """Empty a scratch directory without following anything."""
    if path.startswith(tempfile.gettempdir() + "/vm-"):
        shutil.rmtree(path, ignore_errors=True)


def worker(mod, prop, tier, seed, ids, cur, q, base, deadline, stop):
    limits()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = sys.stderr = open(os.devnull, "w")
    scratch = os.path.join(base, f"w{os.getpid()}")
    count, keys, samples, n, bad = collections.Counter(), set(), [], 0, []
    for idx in ids:
        if time.monotonic() > deadline or stop.value:
            break
        cur.value = idx
        env = Env(prop, tier, seed, idx, scratch)
        run_case(mod, env)
        n += 1
        count.update(env.count)
        if env.key:
            keys.add(env.key)
        if env.sample is not None and len(samples) < 1:
            samples.append(env.sample)
        if env.problems:
            bad.append(dict(idx=idx, problems=env.problems, detail=env.detail))
            if len(bad) >= MAXVIOL:
                stop.value = 1
                break
    cur.value = -1
    q.send(dict(n=n, count=count, keys=keys, samples=samples, bad=bad))
    q.close()


def run_all(mod, prop, tier, seed, total, jobs):
    base = tempfile.mkdtemp(prefix=f"vm-{prop}-")
    os.chmod(base, 0o755)
    stop = mp.Value("i", 0)
    deadline = time.monotonic() + WALL[tier]
    procs = []
    for w in range(jobs):
        r, s = mp.Pipe(False)
        cur = mp.Value("i", -1)
        p = mp.Process(target=worker, args=(mod, prop, tier, seed, range(w, total, jobs), cur, s, base, deadline, stop))
        p.start()
        s.close()
        procs.append((p, r, cur))
    out = dict(n=0, count=collections.Counter(), keys=set(), samples=[], bad=[], lost=0)
    hard = time.monotonic() + WALL[tier] + 60
    for p, r, cur in procs:
        got = None
        try:
            if r.poll(max(.1, hard - time.monotonic())):
                got = r.recv()
        except (EOFError, OSError):
            got = None
        if got is None:
            if p.is_alive() and time.monotonic() >= hard:
                os.kill(p.pid, signal.SIGKILL)
                p.join()
                out["lost"] += 1
                continue
            p.join(10)
            out["n"] += 1
            out["bad"].append(dict(idx=cur.value, problems=[f"the process dies on this case (exit code {p.exitcode})"],
                                   detail={}))
            continue
        p.join(30)
        out["n"] += got["n"]
        out["count"].update(got["count"])
        out["keys"] |= got["keys"]
        out["samples"] += got["samples"]
        out["bad"] += got["bad"]
    clean(base)
    out["bad"].sort(key=lambda b: b["idx"])
    return out


def known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if prop in k["properties"] and k["status"] == "open"]


def main(mod, tier, seed, jobs, replay=None):
    prop = mod.PROPERTY
    t0 = time.monotonic()
    os.makedirs(EVID, exist_ok=True)
    if replay is not None:
        with open(replay) as f:
            r = json.load(f)
        base = tempfile.mkdtemp(prefix=f"vm-{prop}-")
        env = Env(prop, r["tier"], r["seed"], r["idx"], base)
        run_case(mod, env)
        clean(base)
        for p in env.problems:
            print(p)
        for k, v in env.detail.items():
            print(f"--- {k}\n{v}")
        print("reproduced" if env.problems else "not reproduced")
        return 1 if env.problems else 0
    if hasattr(mod, "setup"):
        mod.setup(tier, seed)
    total = mod.CASES[tier]
    out = run_all(mod, prop, tier, seed, total, jobs)
    if hasattr(mod, "teardown"):
        mod.teardown()
    bad = out["bad"]
    if not bad and hasattr(mod, "overall"):
        for msg in mod.overall(out):
            bad.append(dict(idx=-1, problems=[msg], detail={}))
    cov = dict(evaluations=out["n"], distinct_nontrivial=len(out["keys"]), rule=mod.RULE,
               samples=out["samples"][:2] or ["(none)"], observed=dict(sorted(out["count"].items())),
               planned_cases=total)
    for k in known(prop):
        probe = getattr(mod, "findings", {}).get(k["id"])
        if probe is not None and not bad:
            base = tempfile.mkdtemp(prefix=f"vm-{prop}-")
            os.chdir(base)
            try:
                seen = probe()
            except Exception as e:
                seen = f"{type(e).__name__}: {e}"
            os.chdir("/")
            clean(base)
            if seen:
                print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
              assumptions=getattr(mod, "ASSUMES", []), wall_s=round(time.monotonic() - t0, 2), violations=len(bad))
    if hasattr(mod, "evidence"):
        cov.update(mod.evidence(out))
    for i, b in enumerate(bad[:MAXVIOL]):
        path = os.path.join(EVID, f"{prop}-replay-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, idx=b["idx"], problems=b["problems"], detail=b["detail"],
                           rerun=f"/opt/venv/bin/python /verif/check.py {prop} --replay {path}"), f, indent=1,
                      ensure_ascii=False)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print(f"{prop} {tier} seed={seed}: {out['n']} cases, {len(out['keys'])} distinct, {len(bad)} violations, "
          f"{time.monotonic() - t0:.1f}s")
    if bad:
        for i, b in enumerate(bad[:MAXVIOL]):
            print(f"  case {b['idx']}: {b['problems'][0][:600]}")
        print(f"VIOLATION property={prop} replay={os.path.join(EVID, prop + '-replay-0.json')}")
        return 1
    need = getattr(mod, "NEED", {})
    short = [k for k, v in need.items() if out["count"][k] < v]
    if out["n"] == 0 or not out["keys"] or short or out["lost"]:
        print(f"INCONCLUSIVE {prop}: observed too little: {short or 'nothing'} lost={out['lost']}")
        return 2
    return 0
