import contextlib
import io
import json
import os
import re
import time

import rsm
from rsm import app

from vm.drive import logs, profile, style
from vm.emit import emit
from vm.model import Gen
from vm.mutate import mutate

PROPERTY = "C19"
CASES = dict(quick=2400, thorough=60000)
RULE = ("Random manuscripts, most with something to report - unknown and repeated labels, incomplete bibliography entries, "
        "syntax errors, missing titles - run by render, lint, make and the applications at every log level and in every format, "
        "with and without times and line numbers. Non-trivial: a record is shown.")
NEED = {"records shown": 6000, "records held back": 3000, "format json": 200, "format rsm": 200, "format lint": 200,
        "format plain": 200, "positions": 300, "settings left out": 500}
NAMES = {10: "DBG", 20: "INF", 25: "LINT", 30: "WRN", 40: "ERROR", 50: "CRITICAL"}
DEFAULTS = dict(loglevel=30, log_format="rsm", log_time=True, log_lineno=True)
SHOWN = io.StringIO()           # where every run of a worker writes, as every call of a process writes to one stream
ANSI = re.compile(r"\x1b\[[\d;]*m")


def case(env, idx):
    r = env.rng
    d = Gen(r, **profile(r, cap=r.choice([30, 80, 200]), p_unknown=r.choice([0, .3]), p_dup=r.choice([0, .4]),
                         p_title=r.choice([0, .9]), p_bib=.6)).doc()
    src = emit(d, r, **style(r))
    if r.random() < .4:
        src = mutate(src, r, hits=(1, 2))
    env.detail["source"] = src
    level = r.choice([0, 5, 10, 20, 20, 25, 30, 30, 40, 50])
    fmt = r.choice(["rsm", "json", "lint", "plain"])
    kw = dict(loglevel=level, log_format=fmt, log_time=r.random() < .5, log_lineno=r.random() < .5)
    f = r.choice(["render", "render", "handrails", "lint", "make", "linting app"])
    byapp = r.random() < .5
    if f == "make":
        os.chdir(env.scratch)
    def run(kw):
        if f == "lint":
            return app.LinterApp(plain=src, **kw).run() if byapp else rsm.lint(source=src, **kw)
        if f == "make":
            return app.FullBuildApp(plain=src, **kw).run() if byapp else rsm.make(source=src, **kw)
        if f == "linting app":
            return app.ProcessorApp(plain=src, run_linter=True, **kw).run()
        return rsm.render(source=src, handrails=f == "handrails", **kw)

    def watched(kw):
        SHOWN.seek(0)
        SHOWN.truncate()
        with contextlib.redirect_stderr(SHOWN), contextlib.redirect_stdout(io.StringIO()), logs() as t:
            try:
                run(kw)
            except Exception:
                pass                               # what is logged until then is still logged
        return [x for x in t.records if x.name == "RSM" or x.name.startswith("RSM.")], SHOWN.getvalue()

    # what is not said is as documented
    call = {k: v for k, v in kw.items() if v != DEFAULTS[k] or r.random() < .5}
    env.saw("settings left out", len(kw) - len(call))
    env.detail["call"] = f"{f} {call}"
    every, _ = watched(dict(loglevel=0))           # all there is to say
    t0 = time.time()
    recs, text = watched(call)
    t1 = time.time()
    if f == "lint":
        level = 25                                 # lint has its own
        every = [x for x in every if x.levelno >= level]
    want = [x for x in recs if x.levelno >= level]
    ought = [(x.name, x.levelno, x.getMessage()) for x in every if x.levelno >= level]
    if ought != [(x.name, x.levelno, x.getMessage()) for x in want]:
        env.problem(f"{f} at level {level} logs {len(want)} records, at level 0 {len(ought)} of that weight")
    env.saw("records shown", len(want))
    env.saw("records held back", len(every) - len(want))
    env.saw(f"format {fmt}")
    env.saw("positions", sum(hasattr(x, "start_row") for x in want))
    at = 0
    for n, x in enumerate(want):
        at, bad = dict(json=as_json, rsm=as_rsm, lint=as_lint, plain=as_plain)[fmt](text, at, x, kw, (t0, t1))
        if bad:
            env.problem(f"{f}, record {n} of {len(want)} ({x.levelname} {x.getMessage()!r}) in {fmt}: {bad}", shown=text[:3000])
            return
    if text[at:]:
        env.problem(f"{f} at level {level} in {fmt}: {text[at:at + 200]!r} is no record to show", shown=text[:3000])
    if want:
        env.distinct(f + fmt + src)
    env.sample = dict(call=env.detail["call"], shown=text[:600])


def line(text, at):
    end = text.find("\n", at)
    return (text[at:end], end + 1) if end >= 0 else (None, at)


def as_json(text, at, x, kw, span):
    s, at = line(text, at)
    try:
        o = json.loads(s)
    except (ValueError, TypeError):
        return at, f"no object: {s!r}"
    want = dict(name=x.name, level=NAMES[x.levelno], msg=x.getMessage(), filename=x.filename)
    if kw["log_lineno"]:
        want["lineno"] = x.lineno
    when = o.pop("time", None)
    if (when is not None) != kw["log_time"]:
        return at, f"time is {when}"
    if when is not None and not near(when, span):
        return at, f"time is {when}"
    return at, None if o == want else f"{o}, should be {want}"


def near(when, span):
    """A clock reading that mentions a second of the run."""
    s = int(span[0])
    return any(time.strftime("%H:%M:%S", time.localtime(k)) in when for k in range(s, int(span[1]) + 1))


def as_rsm(text, at, x, kw, span):
    body = text[at:]
    pos = ""
    if hasattr(x, "start_row"):
        pos = rf" \| \({x.start_row}, {x.start_col}\)" + (rf" - \({x.end_row}, {x.end_col}\)" if hasattr(x, "end_row") else "") + r" \| "
    esc = r"(?:\x1b\[[\d;]*m)*"
    want = (esc + (r"(?P<t>\d\d:\d\d:\d\d) " if kw["log_time"] else "") + esc + re.escape(x.name) + " " + esc
            + re.escape(NAMES[x.levelno]) + r" *\| " + re.escape(x.getMessage()) + esc
            + pos.replace(" ", esc + " ") + esc
            + (rf" ?\({re.escape(x.filename)}:{x.lineno}\)" if kw["log_lineno"] else "") + esc + "\n")
    m = re.match(want, body)
    if not m:
        return at, f"{body[:300]!r}, should look like {ANSI.sub('', want)!r}"
    if kw["log_time"] and not near(m["t"], span):
        return at, f"time is {m['t']}"
    colours = ANSI.findall(m[0])
    if colours and colours[-1] not in ("\x1b[0m", "\x1b[m"):
        return at, f"what follows is still in colour: {m[0]!r}"
    return at + m.end(), None


def as_lint(text, at, x, kw, span):
    want = f"src:{getattr(x, 'start_row', 1)}:{getattr(x, 'start_col', 1)}: {NAMES[x.levelno]}: {x.getMessage()}\n"
    if not text.startswith(want, at):
        return at, f"{text[at:at + 200]!r}, should be {want!r}"
    if hasattr(x, "start_row") and (x.start_row < 1 or x.start_col < 1):
        return at, "position is not counted from one"
    return at + len(want), None


def as_plain(text, at, x, kw, span):
    want = x.getMessage() + "\n"
    return at + len(want), None if text.startswith(want, at) else f"{text[at:at + 200]!r}"
