import contextlib
import io
import os
import re
import shutil
import subprocess
import sys

import rsm
from rsm import cli

from vm.core import REPO
from vm.drive import profile, style
from vm.emit import emit
from vm.model import Gen
from vm.mutate import mutate

PROPERTY = "C18"
CASES = dict(quick=800, thorough=12000)
RULE = ("Random manuscripts, good and damaged, given to rsm-render, rsm-lint and rsm-make as a file or a string with random "
        "options in random order and spelling - in the process, and one in fourteen as a command of its own. Non-trivial: the "
        "command prints or writes something.")
NEED = {"commands": 350, "commands in a process of their own": 25, "pages printed": 80, "sites built": 60, "silent": 40,
        "bad command lines": 30, "calls that make no sense": 100,
        "rebuilt": 8}
LEVELS = {0: 30, 1: 20, 2: 10, 3: 0}
TIMES = re.compile(r"(?:\d{4}-\d\d-\d\d )?\d\d:\d\d:\d\d(?:,\d+)?")
LINES = re.compile(r"(?m)^.*pkg_resources.*\n")
OWN = "import sys; from rsm import cli; sys.argv[0] = 'rsm-%s'; sys.exit(cli.%s())"


def source(r):
    d = Gen(r, **profile(r, cap=r.choice([20, 60, 150]), p_unknown=r.choice([0, .1]), p_dup=r.choice([0, .3]), p_title=r.choice([.3, .9]))).doc()
    s = emit(d, r, **style(r))
    return mutate(s, r, hits=(1, 2)) if r.random() < .25 else s


def inside(cmd, argv, cwd):
    """The command in this process: (status, standard output, standard error)."""
    o, e, old = io.StringIO(), io.StringIO(), (sys.argv, os.getcwd())
    sys.argv = ["rsm-" + cmd] + argv
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            try:
                st = getattr(cli, cmd)()
            except SystemExit as x:
                st = x.code
            except Exception as x:
                st = 1
                print(f"{type(x).__name__}: {x}", file=sys.stderr)
    finally:
        sys.argv = old[0]
        os.chdir(old[1])
    return st or 0, o.getvalue(), e.getvalue()


def outside(cmd, argv, cwd):
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", OWN % (cmd, cmd)] + argv, cwd=cwd, capture_output=True, timeout=120,
                       env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1"))
    return p.returncode, p.stdout.decode("utf-8"), p.stderr.decode("utf-8")


def called(cmd, kw, cwd):
    """What the function of the same name does."""
    o, e, old = io.StringIO(), io.StringIO(), os.getcwd()
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            try:
                res, exc = getattr(rsm, cmd)(**kw), None
            except Exception as x:
                res, exc = None, f"{type(x).__name__}: {x}"
    finally:
        os.chdir(old)
    return res, exc, o.getvalue(), e.getvalue()


def files(top):
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, top)] = h.read()
    return out


def case(env, idx):
    top = os.path.join(env.scratch, "case")
    shutil.rmtree(top, ignore_errors=True)
    os.mkdir(top)
    try:
        (badline if idx % 10 == 9 else serveline if idx % 20 == 5 else goodline)(env, env.rng, idx, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def goodline(env, r, idx, top):
    src = source(r)
    cmd = r.choice(["render", "render", "lint", "make"])
    own = idx % 14 == 0
    a, b = os.path.join(top, "a"), os.path.join(top, "b")
    for x in (a, b):
        os.mkdir(x)
        with open(os.path.join(x, "paper.rsm"), "w", encoding="utf-8", newline="") as f:
            f.write(src)
    fromfile = r.random() < .6 or len(src) > 60000
    silent, hr, verbose = r.random() < .25, r.random() < .5, r.choice([0, 0, 1, 2, 3])
    t, n = r.random() < .5, r.random() < .5
    fmt = r.choice([None, "plain", "rsm", "json", "lint"])
    opts = []
    if not fromfile:
        opts.append([r.choice(["-c", "--string"])])
    if silent:
        opts.append([r.choice(["-s", "--silent"])])
    if hr:
        opts.append([r.choice(["-r", "--handrails"])])
    if verbose:
        opts.append(r.choice([["-" + "v" * verbose], ["-v"] * verbose, ["--verbose"] * verbose]))
    if not t:
        opts.append(["--log-no-timestamps"])
    if not n:
        opts.append(["--log-no-lineno"])
    if fmt:
        opts.append(r.choice([["--log-format", fmt], ["--log-format=" + fmt]]))
    opts.append(["paper.rsm" if fromfile else src])
    r.shuffle(opts)
    argv = [x for o in opts for x in o]
    env.detail.update(source=src, command=f"rsm-{cmd} " + " ".join(x if x != src else "SOURCE" for x in argv))
    st, out, err = (outside if own else inside)(cmd, argv, a)
    kw = dict(handrails=hr or cmd == "make", loglevel=LEVELS[verbose], log_format=fmt or ("lint" if cmd == "lint" else "rsm"),
              log_time=t, log_lineno=n, **(dict(path="paper.rsm") if fromfile else dict(source=src)))
    res, exc, out2, err2 = called(cmd, kw, b)
    env.saw("commands")
    env.saw("commands in a process of their own", own)
    env.saw(f"command {cmd}")
    if exc is not None:
        env.saw("failures")
        if st == 0:
            env.problem(f"exits 0 where {cmd}() raises {exc}")
        if exc.strip().split("\n")[-1] not in err:
            env.problem(f"does not say {exc!r}: {err[-300:]!r}")
        if out != out2:
            env.problem(f"prints {out[:100]!r} and fails")
    else:
        if st != 0:
            env.problem(f"exits {st} where {cmd}() returns: {err[-300:]}")
        quiet = silent or cmd == "lint"
        env.saw("silent", silent)
        want = out2 + ("" if quiet or not res else f"{res}\n")
        if out != want:
            env.problem(f"prints {len(out)} characters, should print {len(want)}: {out[:150]!r}, {want[:150]!r}")
        env.saw("pages printed", bool(out) and cmd == "render")
        if TIMES.sub("T", LINES.sub("", err)) != TIMES.sub("T", LINES.sub("", err2)):
            env.problem(f"logs {err[:400]!r}, {cmd}() logs {err2[:400]!r}")
    fa, fb = files(a), files(b)
    for p in sorted(set(fa) | set(fb)):
        if fa.get(p) != fb.get(p):
            env.problem(f"{p} is {('not ' if p not in fa else '')}written by the command, {'not ' if p not in fb else ''}by {cmd}()")
    env.saw("sites built", "index.html" in fa)
    if cmd != "make" and len(fa) != 1:
        env.problem(f"rsm-{cmd} writes {sorted(fa)}")
    if out or len(fa) > 1:
        env.distinct(env.detail["command"] + src)
    env.sample = dict(command=env.detail["command"], output=out[:200])


def serveline(env, r, idx, top):
    """rsm-make --serve: builds, shows what it built, and builds again when the manuscript changes."""
    name = r.choice(["paper.rsm", "my paper.rsm", "p'aper.rsm", "sub/paper.rsm", "naïve $x.rsm"])
    one, two = source(r), source(r)
    me = os.path.join(top, "bin", "rsm-make")
    for d in ("bin", "a/sub", "b/sub"):
        os.makedirs(os.path.join(top, d))
    with open(me, "w") as f:
        f.write(f"#!{sys.executable}\n" + OWN % ("make", "make"))
    os.chmod(me, 0o755)
    a, b = os.path.join(top, "a"), os.path.join(top, "b")

    def write(s):
        for x in (a, b):
            with open(os.path.join(x, name), "w", encoding="utf-8", newline="") as f:
                f.write(s)
    opts = [[name], ["--serve"]] + r.sample([["-s"], ["-v"], ["--log-no-timestamps"], ["--log-format", "json"]], r.randint(0, 2))
    r.shuffle(opts)
    argv = [x for o in opts for x in o]
    env.detail.update(source=one, later=two, command="rsm-make " + " ".join(argv))
    done = []

    class Server:
        def watch(self, path, func=None, *args, **kw):
            done.append(("watch", path, cli.livereload.shell(func) if isinstance(func, str) else func))

        def serve(self, *args, **kw):
            done.append(("serve", kw.get("root"), files(a)))
    write(one)
    real, cli.livereload.Server = cli.livereload.Server, Server
    path, os.environ["PYTHONPATH"] = os.environ.get("PYTHONPATH"), REPO
    old, me0 = os.environ["PATH"], sys.argv
    os.environ.update(PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", PATH=os.path.dirname(me) + os.pathsep + old)
    try:
        st, out, err = inside("make", argv, a)
        res, exc, _, _ = called("make", dict(handrails=True, path=name, loglevel=30), b)
        env.saw("commands")
        env.saw("serving")
        want = files(b)
        if exc is not None:
            env.saw("failures")
            if st == 0 and any(k == "serve" for k, *_ in done):
                env.problem(f"serves where make() raises {exc}")
            return
        if st != 0 or [k for k, *_ in done] != ["watch", "serve"]:
            env.problem(f"exits {st} having done {[k for k, *_ in done]}: {err[-300:]}")
            return
        (_, watched, again), (_, root, shown) = done
        if os.path.normpath(os.path.join(a, watched)) != os.path.normpath(os.path.join(a, name)):
            env.problem(f"watches {watched!r}")
        if os.path.normpath(os.path.join(a, root or ".")) != a:
            env.problem(f"serves {root!r}")
        if shown != want:
            env.problem(f"serves before it has built: {sorted(shown)}, should have {sorted(want)}")
        write(two)
        res, exc, _, _ = called("make", dict(handrails=True, path=name, loglevel=30), b)
        os.chdir(a)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            again()
        os.chdir("/")
        if exc is None:
            env.saw("rebuilt")
            have, want = files(a), files(b)
            for p in sorted(set(have) | set(want)):
                if have.get(p) != want.get(p):
                    env.problem(f"a change of {name!r} is not built: {p}")
                    break
            env.distinct(one, two)
    finally:
        os.chdir("/")
        cli.livereload.Server = real
        os.environ["PATH"] = old
        if path is None:
            del os.environ["PYTHONPATH"]
        else:
            os.environ["PYTHONPATH"] = path


def badline(env, r, idx, top):
    """A command line that makes no sense, or a manuscript that is not there: said so, and nothing else done."""
    cmd = r.choice(["render", "lint", "make"])
    argv = r.choice([[], ["--nonsense", "x.rsm"], ["missing.rsm"], ["nowhere/missing.rsm", "-r"], ["a.rsm", "b.rsm"],
                     ["--log-format", "xml", "paper.rsm"], ["paper.rsm", "--log-format"], ["-s"], [".", "-s"], ["-c", ""], [""], ["latin.rsm"]]
                    + ([["paper.rsm", "--serve"]] if cmd != "make" else []))
    latin = argv == ["latin.rsm"]                  # a file that is no text
    if latin:
        with open(os.path.join(top, "latin.rsm"), "wb") as f:
            f.write(b":rsm:\n\nna\xefve\n\n::\n")
    st, out, err = (outside if r.random() < .2 else inside)(cmd, argv, top)
    if latin:
        os.remove(os.path.join(top, "latin.rsm"))
    env.saw("bad command lines")
    env.detail["command"] = f"rsm-{cmd} {argv}"
    if st == 0 or out or not err or os.listdir(top):
        env.problem(f"exits {st}, prints {out[:100]!r}, says {err[-200:]!r}, leaves {os.listdir(top)}")
    good = ":rsm:\n\nWords.\n\n::\n"
    for kw in ({}, dict(source="", path=""), dict(source=good, path="paper.rsm"), dict(path="missing.rsm"), dict(path=".")):
        res, exc, out, err = called(cmd, kw, top)
        env.saw("calls that make no sense")
        if exc is None or not exc.split(": ", 1)[-1].strip() or out or os.listdir(top):
            env.problem(f"{cmd}({kw}) returns {str(res)[:100]!r}, raises {exc!r}, prints {out[:100]!r}, leaves {os.listdir(top)}")
