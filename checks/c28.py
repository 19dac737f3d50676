import contextlib
import io
import os
import shutil

import rsm
from rsm import app, nodes, transformer

from vm import grammar
from vm.drive import Doc, QUIET, profile
from vm.emit import emit
from vm.model import M

PROPERTY = "C28"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts, each put out of order at one random place: a reference back to before the first step or from "
        "outside of all steps, something behind the subproof of a step, a step, an item or a caption where none may stand. "
        "Rendered plain and with handrails, linted, made and run by an application; the manuscript without the fault before "
        "and after. Non-trivial: every faulty manuscript.")
KINDS = ("too far", "outside", "behind", "misplaced")
NEED = {"refusals": 6000, "orderly pages": 4000, "makes": 300, **{f"fault {k}": 150 for k in KINDS},
        **{f"misplaced {k}": 40 for k in ("Step", "Item", "Caption")}}
LINES = {"Step": ["", "stray :strong: step :: one"], "Item": ["stray item"], "Caption": ["stray caption"]}


def places(doc):
    """(paragraph, nearest step above or None), (step, its place among its siblings)."""
    paras, steps = [], []

    def go(m, step):
        i = 0
        for k in m.kids:
            if not isinstance(k, M):
                continue
            if k.kind == "step":
                i += 1
                steps.append((k, i))
                go(k, (k, i))
            else:
                if k.kind == "para" or k.kind == "item":
                    paras.append((k, step))
                go(k, step)
    go(doc, None)
    return paras, steps


def back(r, n, text):
    if n <= 3 and r.random() < .6:
        return M("prev", n=n, sep=" ")
    return M("previous", n=n, sep=" ", **({"text": text} if r.random() < .5 else {}))


def fault(env, doc, kind):
    """Puts the fault in; says with what and how the manuscript has to be refused."""
    r = env.rng
    paras, steps = places(doc)
    if kind == "too far":
        inside = [(p, s) for p, s in paras if s and p.kind == "para"]
        if not inside:
            return None
        p, (step, i) = r.choice(inside)
        n = i + (r.choice([0, 0, 0, 1, 5, 30]))
        p.kids.insert(r.choice([0, len(p.kids)]), back(r, n, "that step"))
        return transformer.RSMTransformerError, (str(n),)
    if kind == "outside":
        out = [p for p, s in paras if s is None]
        if not out:
            return None
        p = r.choice(out)
        p.kids.insert(r.choice([0, len(p.kids)]), back(r, r.choice([1, 1, 2, 3]), "that step"))
        return transformer.RSMTransformerError, ("prev",)
    if kind == "behind":
        have = [s for s, _ in steps if s.get("sub")]
        if not have:
            return None
        s = r.choice(have)
        s.a["sub"].a["explicit"] = True
        para = M("para", [M("words", text="stray")])
        extra = [para, M("step", [para]), M("subproof", [M("step", [para])], explicit=True), M("mathblock", tex="x")]
        s.kids += r.sample(extra, r.choice([1, 1, 1, 2]))
        return transformer.RSMTransformerError, ("subproof",)
    what = r.choice(list(LINES))
    homes = [m for m in doc.walk() if m.kind in ("doc", "section", "abstract", "sketch", "thm")]
    homes = [m for m in homes if m.kids] or [doc]
    h = r.choice(homes)
    at = [i for i in range(len(h.kids) + 1) if not any(k.kind in ("title", "author", "abstract", "toc") for k in h.kids[i:])
          and not any(k.kind in ("section", "appendix", "bib") for k in h.kids[:i])]
    if not at:
        return None
    h.kids.insert(r.choice(at), M("stray", what=what, lines=LINES[what]))
    env.saw(f"misplaced {what}")
    return nodes.RSMNodeError, (what, "parent")


def outcome(f):
    """(value, error)"""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            return f(), None
        except Exception as e:
            return None, e


def case(env, idx):
    r = env.rng
    kind = KINDS[idx % len(KINDS)]
    prof = profile(r, cap=r.choice([60, 150, 300]), p_prev=r.choice([0, .3]),
                   weights=dict(proof=6 if kind in ("too far", "behind") else 1.5, thm=2, list=2, para=5))
    for _ in range(8):
        d = Doc(env, prof, None)
        good = d.src
        err = fault(env, d.doc, kind)
        if err is None:
            continue
        bad = emit(d.doc, r)
        if grammar.clean(bad) and grammar.clean(good):
            break
    else:
        env.saw("set aside: no place for the fault")
        return
    cls, words = err
    env.saw(f"fault {kind}")
    env.detail["source"] = bad
    before, e = outcome(lambda: rsm.render(source=good, loglevel=QUIET))
    if e is not None:
        env.problem(f"the manuscript without the fault is refused: {e!r}")
    env.saw("orderly pages")
    ways = [("render", lambda: rsm.render(source=bad, loglevel=QUIET)),
            ("render with handrails", lambda: rsm.render(source=bad, handrails=True, loglevel=QUIET)),
            ("lint", lambda: rsm.lint(source=bad, loglevel=QUIET)),
            ("application", lambda: app.ProcessorApp(plain=bad, loglevel=QUIET, run_linter=r.random() < .5).run())]
    work = os.path.join(env.scratch, "make")
    if idx % 5 == 0:
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        os.chdir(work)
        ways.append(("make", lambda: rsm.make(source=bad, loglevel=QUIET, handrails=r.random() < .5)))
        env.saw("makes")
    r.shuffle(ways)
    for name, f in ways[:r.choice([2, 3, 5])] if idx % 5 else ways:
        page, e = outcome(f)
        if e is None:
            env.problem(f"{name}: {kind}: not refused")
            continue
        env.saw("refusals")
        if type(e) is not cls:
            env.problem(f"{name}: {kind}: refused with {e!r}, should be a {cls.__name__}")
        elif not all(w in str(e) for w in words):
            env.problem(f"{name}: {kind}: {str(e)!r} does not name {words}")
    if idx % 5 == 0:
        os.chdir("/")
        left = os.listdir(work)
        if left:
            env.problem(f"make leaves {left} of a manuscript it refuses")
    after, e = outcome(lambda: rsm.render(source=good, loglevel=QUIET))
    env.saw("orderly pages")
    if e is not None or after != before:
        env.problem(f"the manuscript without the fault comes out differently after the refusals: {e!r}")
    env.distinct(bad)
    env.sample = dict(fault=kind, source=bad[:400])
