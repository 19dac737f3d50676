"""Pages in the small browser of fe/: a node process per worker, one job per line."""
import json
import os
import resource
import select
import subprocess

from .core import REPO, VERIF

STATIC = os.path.join(REPO, "rsm", "static")
ANSWER = 60                     # seconds after which a page counts as hanging
_node, _jobs = None, 0


def _unlimit():
    resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)


def _stop():
    global _node
    if _node is not None:
        _node.kill()
        _node.wait()
        _node.stdin.close()
        _node.stdout.close()
    _node = None


def ask(**job):
    """The answer of the monitors in fe/monitor.mjs, or None if the page hangs."""
    global _node, _jobs
    if _node is None or _jobs > 40:
        _stop()
        _jobs = 0
        _node = subprocess.Popen(["node", "--experimental-vm-modules", "--no-warnings", os.path.join(VERIF, "fe", "serve.mjs")],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, preexec_fn=_unlimit, cwd="/")
    _jobs += 1
    _node.stdin.write((json.dumps(dict(job, dir=STATIC)) + "\n").encode())
    _node.stdin.flush()
    buf = b""
    while not buf.endswith(b"\n"):
        if not select.select([_node.stdout], [], [], ANSWER)[0]:
            _stop()
            return None
        part = os.read(_node.stdout.fileno(), 1 << 16)
        if not part:
            _stop()
            raise RuntimeError("the browser died")
        buf += part
    return json.loads(buf)


def watch(env, html, **job):
    """Run one page, hand over what was seen."""
    res = ask(html=html, seed=env.rng.getrandbits(32), **job)
    if res is None:
        env.problem(f"the page hangs: no answer after {ANSWER} seconds", page=html)
        return None
    if res.get("broken"):
        raise RuntimeError("fe: " + res["broken"])
    for k, n in res["saw"].items():
        env.saw(k, n)
    env.saw("distinct states of pages", res["states"])
    for p in res["problems"]:
        env.problem(p["what"] + "".join(f"\n    {a}" for a in p.get("after", [])), page=html)
    return res
