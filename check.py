"""check.py ID [--tier T] [--jobs N] [--replay FILE]: decide one property on /repo's working tree."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("VM_ENV") != "1":
    os.environ.update(PYTHONHASHSEED="0", VM_ENV="1", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
                      PYTHONIOENCODING="utf-8", PYTHONUTF8="1", LC_ALL="C.UTF-8", TZ="UTC", COLUMNS="80")
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONOPTIMIZE"):
        os.environ.pop(k, None)
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VM_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
import argparse
import importlib
import warnings

warnings.simplefilter("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VM_JOBS") or 8))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    from vm import core
    try:
        mod = importlib.import_module("checks." + a.id.lower())
    except Exception as e:
        # rsm itself cannot be imported: nothing a user relies on holds
        import traceback
        tb = traceback.format_exc()
        if isinstance(e, ImportError) and "checks." in str(e):
            raise
        if REPO + "/" not in tb:
            raise
        print(tb[-1500:])
        path = os.path.join(core.EVID, a.id + "-replay-0.json")
        os.makedirs(core.EVID, exist_ok=True)
        with open(path, "w") as f:
            f.write('{"problem": "importing rsm fails"}')
        print(f"VIOLATION property={a.id} replay={path}")
        return 1
    if a.cases:
        mod.CASES = {a.tier: a.cases}
    return core.main(mod, a.tier, a.seed, a.jobs, a.replay)


if __name__ == "__main__":
    sys.exit(main())
