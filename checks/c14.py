import contextlib
import io
import json
import logging
import os
import random
import subprocess
import sys
import threading
from pathlib import Path

import rsm
from rsm import app, linter, nodes, transformer, translator, tsparser

from vm.core import REPO
from vm.drive import QUIET, profile, style
from vm.emit import emit
from vm.model import Gen
from vm.mutate import mutate

PROPERTY = "C14"
CASES = dict(quick=1200, thorough=24000)
RULE = ("Random manuscripts, some damaged, each rendered once for reference and then again under a random history: repeated, from "
        "a file, by apps that run twice or take turns, by parsers, transformers and translators used before, from one tree "
        "translated several times, with linter, log levels and formats, from threads that switch all the time, in another "
        "process with another hash seed, locale and directory. Non-trivial: the page has more than 2000 characters.")
NEED = {"renderings compared": 3000, "thread runs": 60, "other processes": 10, "reused objects": 200, "from files": 200,
        "translations of one tree": 300, "log settings": 200}
OWN = (nodes.RSMNodeError, transformer.RSMTransformerError, tsparser.RSMParserError)


def source(r):
    d = Gen(r, **profile(r, cap=r.choice([30, 80, 150, 300]), p_unknown=r.choice([0, .1]), p_dup=r.choice([0, .3]))).doc()
    s = emit(d, r, **style(r))
    return mutate(s, r, hits=(1, 2)) if r.random() < .2 else s


def out(f):
    try:
        return f() or ""
    except OWN as e:
        return f"{type(e).__name__}: {e}"


def ref(src, hr):
    return out(lambda: rsm.render(source=src, handrails=hr, loglevel=QUIET))


class Watch:
    """What a rendering has no business changing."""

    def state(self):
        root = logging.getLogger()
        return dict(directory=os.getcwd(), files=sorted(os.listdir(".")), limit=sys.getrecursionlimit(), env=dict(os.environ),
                    root=(root.level, list(root.handlers)), disabled=logging.root.manager.disable, path=list(sys.path),
                    excepthook=sys.excepthook, seed=random.getstate())

    def __enter__(self):
        self.before = self.state()
        self.io = io.StringIO()
        self.redirect = contextlib.redirect_stdout(self.io)
        self.redirect.__enter__()
        return self

    def __exit__(self, *exc):
        self.redirect.__exit__(*exc)
        now = self.state()
        self.changed = [k for k in now if now[k] != self.before[k]] + (["standard output"] if self.io.getvalue() else [])


def case(env, idx):
    r = env.rng
    a, b = source(r), source(r)
    env.detail.update(source=a, other=b)
    with Watch() as w:
        want = {(s, hr): ref(s, hr) for s in (a, b) for hr in (False, True)}
    if w.changed:
        env.problem(f"rendering changes {w.changed}")

    def same(how, src, hr, got):
        env.saw("renderings compared")
        if got != want[src, hr]:
            env.problem(f"{how}{' with handrails' if hr else ''}: {first(want[src, hr], got)}")

    env.saw("histories")
    for step in r.sample([again, fromfile, apps, reuse, onetree, linted, logged, make], 4):
        step(env, r, a, b, same)
    if r.random() < .3:
        threads(env, r, (a, b), want)
    if r.random() < .05:
        process(env, r, a, b, want)
    if len(want[a, True]) > 2000:
        env.distinct(a)
    env.sample = dict(source=a[:500])


def first(x, y):
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return f"at {i}: {x[max(0, i - 60):i + 60]!r} has become {y[max(0, i - 60):i + 60]!r}"
    return f"{len(x)} characters have become {len(y)}"


def again(env, r, a, b, same):
    for _ in range(r.randint(1, 3)):
        s, hr = r.choice([a, b]), r.random() < .5
        same("rendered again", s, hr, ref(s, hr))


def fromfile(env, r, a, b, same):
    if "\r" in a:
        return
    p = os.path.join(env.scratch, r.choice(["m.rsm", "naïve file.txt", "x"]))
    with open(p, "w", encoding="utf-8", newline="") as f:
        f.write(a.replace("\n", "\r\n") if r.random() < .3 else a)
    hr = r.random() < .5
    q = r.choice([p, Path(p), os.path.relpath(p)])
    same("from a file", a, hr, out(lambda: rsm.render(path=q, handrails=hr, loglevel=QUIET)))
    with open(p, encoding="utf-8") as f:
        if f.read() != a:
            env.problem("the source file was changed")
    os.unlink(p)
    env.saw("from files")


def processor(src, hr, **kw):
    if hr or len(src) % 3:                      # a page has none unless told otherwise
        kw["handrails"] = hr
    return app.ProcessorApp(plain=src, add_source=False, **{"loglevel": QUIET, **kw})


def apps(env, r, a, b, same):
    hr = r.random() < .5
    x, y = processor(a, hr), processor(b, not hr)
    for z in r.choices("xy", k=r.randint(2, 5)):
        env.saw("reused objects")
        if z == "x":
            same("apps taking turns", a, hr, out(x.run))
        else:
            same("apps taking turns", b, not hr, out(y.run))
        if not (x.transformer.tree and y.transformer.tree):
            continue
        if x.translator.deferred or y.translator.deferred:
            break                       # after an error a translator may be left with tags to close


def reuse(env, r, a, b, same):
    pa, tf, tr = tsparser.TSParser(), transformer.Transformer(), {}
    for _ in range(r.randint(2, 4)):
        src, hr = r.choice([a, b]), r.random() < .5
        cls = translator.HandrailsTranslator if hr else translator.Translator
        t = tr.setdefault(hr, cls(add_source=False) if hr else cls())

        def run():
            try:
                tree = pa.parse(src)
            except tsparser.RSMParserError:
                return ""
            return t.translate(tf.transform(tree))
        same("parser, transformer and translator used before", src, hr, out(run))
        env.saw("reused objects")
        if t.deferred:
            break


def onetree(env, r, a, b, same):
    def parse():
        x = app.ParserApp(plain=a, loglevel=QUIET).run()
        return x or None
    try:
        tree = parse()
    except OWN:
        return
    if tree is None:
        return
    before = tree.sexp()
    for _ in range(r.randint(2, 4)):
        hr = r.random() < .5
        t = translator.HandrailsTranslator(add_source=False) if hr else translator.Translator()
        if r.random() < .3:
            linter.Linter().lint(tree)
        same("one tree translated several times", a, hr, out(lambda: t.translate(tree)))
        env.saw("translations of one tree")
    if tree.sexp() != before:
        env.problem("translating or linting changes the tree")


def linted(env, r, a, b, same):
    hr = r.random() < .5
    same("with the linter", a, hr, out(processor(a, hr, run_linter=True, loglevel=r.choice([QUIET, 25, 10])).run))
    out(lambda: rsm.lint(source=b) and "")
    same("after linting another", a, hr, ref(a, hr))


def logged(env, r, a, b, same):
    for _ in range(2):
        hr = r.random() < .5
        kw = dict(loglevel=r.choice([0, 10, 20, 25, 30, 40, 50]), log_format=r.choice(["rsm", "json", "lint", "plain"]),
                  log_time=r.random() < .5, log_lineno=r.random() < .5)
        same(f"with {kw}", a, hr, out(lambda: rsm.render(source=a, handrails=hr, **kw)))
        env.saw("log settings")


def make(env, r, a, b, same):
    """A build in between leaves nothing behind for the next page."""
    if r.random() < .8:
        return again(env, r, a, b, same)
    d = os.path.join(env.scratch, f"mk{env.idx}")
    os.makedirs(d)
    os.chdir(d)
    try:
        out(lambda: rsm.make(source=b, loglevel=QUIET))
    finally:
        os.chdir(env.scratch)
    hr = r.random() < .5
    same("after a build of another", a, hr, ref(a, hr))


def threads(env, r, srcs, want):
    jobs = [(r.choice(srcs), r.random() < .5) for _ in range(r.randint(3, 6))]
    got = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def run(i):
        gate.wait()
        try:
            got[i] = ref(*jobs[i])
        except Exception as e:
            got[i] = f"{type(e).__name__}: {e}"
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(i,)) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for (s, hr), g in zip(jobs, got):
        env.saw("renderings compared")
        if g != want[s, hr]:
            env.problem(f"in threads{' with handrails' if hr else ''}: {first(want[s, hr], g)}")
    env.saw("thread runs")


CHILD = """
import sys, json, warnings
warnings.simplefilter("ignore")
import rsm
from rsm import nodes, transformer, tsparser
OWN = (nodes.RSMNodeError, transformer.RSMTransformerError, tsparser.RSMParserError)
def out(f):
    try:
        return f() or ""
    except OWN as e:
        return f"{type(e).__name__}: {e}"
jobs = json.loads(sys.stdin.buffer.read().decode())
res = [out(lambda: rsm.render(**{j["by"]: j["what"]}, handrails=j["hr"], loglevel=100)) for j in jobs]
sys.stdout.buffer.write(json.dumps(res).encode())
"""


def process(env, r, a, b, want):
    jobs, keys = [], []
    for _ in range(8):
        s, hr = r.choice([a, b, source(r)]), r.random() < .5
        if (s, hr) not in want:
            want[s, hr] = ref(s, hr)
        if "\r" not in s and r.random() < .5:
            p = os.path.join(env.scratch, f"p{len(jobs)}.rsm")
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(s)
            jobs.append(dict(by="path", what=p, hr=hr))
        else:
            jobs.append(dict(by="source", what=s, hr=hr))
        keys.append((s, hr))
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
    e.update(PYTHONHASHSEED=str(r.randrange(1, 10**6)), PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", TZ=r.choice(["UTC", "Asia/Tokyo"]))
    e.update(r.choice([dict(LC_ALL="C.UTF-8"), dict(LC_ALL="C"), dict(LC_ALL="POSIX", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0"),
                       dict(LANG="tr_TR.UTF-8")]))
    p = subprocess.run([sys.executable] + r.choice([[], ["-O"], ["-X", "dev"]]) + ["-c", CHILD], input=json.dumps(jobs).encode(),
                       env=e, capture_output=True, cwd=r.choice(["/", env.scratch]), timeout=300)
    env.saw("other processes")
    if p.returncode:
        env.problem(f"another process fails: {p.stderr.decode(errors='replace')[-600:]}")
        return
    for (s, hr), g in zip(keys, json.loads(p.stdout)):
        env.saw("renderings compared")
        if g != want[s, hr]:
            env.problem(f"in another process{' with handrails' if hr else ''}: {first(want[s, hr], g)}")
