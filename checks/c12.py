import re

import rsm
from rsm import nodes, transformer, tsparser

from vm import grammar
from vm.dom import parse
from vm.drive import logs, profile, render, style
from vm.emit import emit
from vm.model import Gen
from vm.mutate import mutate, soup

PROPERTY = "C12"
CASES = dict(quick=3200, thorough=80000)
RULE = ("Damaged manuscripts: valid ones with characters, lines and tags deleted, doubled, swapped or thrown in, and token "
        "soup; each rendered plain, with handrails and linted. Non-trivial: the grammar finds an error in it.")
NEED = {"pages": 500, "pages with errors marked": 50, "RSM errors raised": 20, "errors reported, no page": 50}
CASE_CPU = 60
GOOD = ":rsm:\n\n# Title\n\n## One {:label: s}\n\nHello *there* $x$, see :ref:s::.\n\n::\n"
OWN = (nodes.RSMNodeError, transformer.RSMTransformerError, tsparser.RSMParserError)
_good = {}


def outcome(f):
    with logs() as t:
        try:
            res = f()
            return ("page" if res else "none"), res, t.records
        except OWN as e:
            return "raised " + type(e).__name__, str(e), t.records


def case(env, idx):
    r = env.rng
    if r.random() < .1:
        src = soup(r)
    else:
        d = Gen(r, **profile(r, cap=r.choice([20, 60, 150]), weights=dict(figure=2, table=2, proof=3))).doc()
        src = mutate(emit(d, r, **style(r)), r)
    if not src:
        return
    env.detail["source"] = src
    outs = []
    for hr in (False, True):
        kind, res, recs = outcome(lambda: render(src, handrails=hr, loglevel=30))
        outs.append(kind)
        if kind == "page":
            env.saw("pages")
            look(env, src, res, recs)
        elif kind == "none":
            env.saw("errors reported, no page")
            if not any(x.levelno >= 40 for x in recs):
                env.problem("no page, and no error is reported")
        else:
            env.saw("RSM errors raised")
            if not res.strip():
                env.problem(f"{kind} without a message")
    if outs[0] != outs[1]:
        env.problem(f"plain: {outs[0]}, with handrails: {outs[1]}")
    kind, res, _ = outcome(lambda: rsm.lint(source=src, loglevel=100))
    if kind != outs[0] and (kind, outs[0]) != ("none", "page"):
        env.problem(f"rendering: {outs[0]}, linting: {kind}")
    for hr in (False, True):            # and what comes after is none the worse for it
        p = render(GOOD, handrails=hr)
        if _good.setdefault(hr, p) != p:
            env.problem("a good manuscript renders differently after this one")
    if grammar.errors(src):
        env.distinct(src)
    env.sample = dict(source=src[:500], outcome=outs[0])


MARK = re.compile(r"\[CST error at \((\d+), (\d+)\) - \((\d+), (\d+)\)\]")


def look(env, src, html, recs):
    root, problems = parse(html)
    for p in problems[:2]:
        env.problem(f"page is not well-formed: {p}")
    said = [(x.start_row - 1, x.start_col - 1, x.end_row - 1, x.end_col - 1) for x in recs if hasattr(x, "start_row") and x.levelno == 30]
    shown = [tuple(map(int, MARK.match(e.text().strip()).groups())) for e in root.walk()
             if "error" in e.classes and MARK.match(e.text().strip())]
    left = list(said)
    for s in shown:
        if s in left:
            left.remove(s)
        else:
            env.problem(f"the page marks an error at {s} that no warning reports")
    where = grammar.places(src)
    for s in said:
        if s not in where:
            env.problem(f"a warning reports an error at {s}, where the parser found none")
    env.saw("errors marked", len(shown))
    if shown:
        env.saw("pages with errors marked")
