import contextlib
import io
import os

import rsm
from rsm import app

from vm import grammar
from vm.drive import Doc, QUIET, logs, profile

PROPERTY = "C16"
CASES = dict(quick=3000, thorough=50000)
RULE = ("Random manuscripts with and without titles, labels and display math in every place, linted by lint(), by an application "
        "that renders, and by make(), under various log levels. Non-trivial: two lint messages.")
NEED = {"lint runs": 2000, "messages": 2000, "titles missing": 100, "sections unlabelled": 300, "displays out of place": 200,
        "clean manuscripts": 10}
LINT = 25


def wanted(doc, src):
    """What there is to say: (kind, row, column in bytes), or None when source and manuscript cannot be matched."""
    cst = grammar.find(src, ("source_file", "section", "subsection", "subsubsection", "mathblock"))
    secs, maths, out = [], [], []

    def go(m, p):
        if m.kind == "section":
            secs.append(m)
        if m.kind == "mathblock":
            maths.append(p.kind == "para")
        for k in m.kids:
            go(k, m)
    go(doc, None)
    csecs = [c for c in cst if c[0].endswith("section")]
    cmaths = [c for c in cst if c[0] == "mathblock"]
    if len(csecs) != len(secs) or len(cmaths) != len(maths):
        return None
    if not doc.get("title"):
        out.append(("title", cst[0][1] + 1, cst[0][2] + 1))
    out += [("label", c[1] + 1, c[2] + 1) for m, c in zip(secs, csecs) if not m.get("label")]
    out += [("display", c[1] + 1, c[2] + 1) for ok, c in zip(maths, cmaths) if not ok]
    return out


def said(recs):
    out = []
    for x in recs:
        if x.levelno == LINT:
            msg = x.getMessage()
            kind = "title" if "title" in msg else "label" if "label" in msg else "display" if "MathBlock" in msg else msg
            out.append((kind, getattr(x, "start_row", None), getattr(x, "start_col", None)))
    return out


def case(env, idx):
    r = env.rng
    d = Doc(env, profile(r, p_title=r.choice([.2, .9]), p_label=r.choice([.1, .5, .9, 1]), p_dup=r.choice([0, .4]),
                         weights=dict(mathblock=r.choice([0, 1, 4]), claimblock=r.choice([0, 1]), proof=1.5)))
    want = wanted(d.doc, d.src)
    if want is None:
        env.saw("set aside: the source cannot be matched")
        return
    for kind, what in (("title", "titles missing"), ("label", "sections unlabelled"), ("display", "displays out of place")):
        env.saw(what, sum(k == kind for k, _, _ in want))
    if not want:
        env.saw("clean manuscripts")
    level = r.choice([10, 20, 25, 30, 40])
    runs = [("lint", lambda: rsm.lint(source=d.src, loglevel=level)),
            ("application", lambda: app.ProcessorApp(plain=d.src, loglevel=level, run_linter=True, handrails=r.random() < .5).run())]
    if idx % 5 == 0:
        os.chdir(env.scratch)
        runs.append(("make", lambda: rsm.make(source=d.src, loglevel=level)))
    plain = app.ParserApp(plain=d.src, loglevel=QUIET).run().sexp(meta=True) if idx % 4 == 0 else None
    for name, f in runs:
        env.saw("lint runs")
        o, e = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e), logs() as t:
            res = f()
        got = said(t.records)
        env.saw("messages", len(got))
        if sorted(got, key=str) != sorted(want, key=str):
            env.problem(f"{name} says {[x for x in got if x not in want] or got} and not {[x for x in want if x not in got] or want}")
        for kind in ("title", "label", "display"):
            if [x for x in got if x[0] == kind] != [x for x in want if x[0] == kind]:
                env.problem(f"{name}: messages about {kind} are not in the order of the source")
        if o.getvalue() and level > 10:          # at the lowest level the parser prints its tree
            env.problem(f"{name} writes {o.getvalue()[:80]!r} to the standard output")
        if name == "lint":
            if plain is not None and res.sexp(meta=True) != plain:
                env.problem("linting changes the tree")
            lines = e.getvalue().count("LINT")       # whatever the log level, lint shows what it has to say
            if lines < len(want):
                env.problem(f"lint at level {level} shows {lines} of {len(want)} messages")
    if len(want) > 1:
        env.distinct(d.src)
    env.sample = dict(source=d.src[:500], messages=want[:10])
