import sys
import time

import rsm
from rsm import app

from vm.dom import parse
from vm.drive import QUIET, profile, render, style
from vm.emit import emit
from vm.grammar import clean
from vm.hr import strip, without_halmos
from vm.model import Gen, M
from vm.ref import canon, diff, expected

PROPERTY = "C13"
CASES = dict(quick=480, thorough=6000)
CASE_CPU = 60
RULE = ("Random manuscripts with proofs, lists and spans nested 10 to 120 deep (thorough: to 400) among their other content, "
        "rendered with a recursion limit 150 frames above the call. Non-trivial: nested at least 30 deep.")
NEED = {"pages": 300, "steps nested": 1000, "lists nested": 1000, "spans nested": 1000, "nested 100 deep": 20}
ROOM = 150


class Deep(Gen):
    """A generator that puts one or two towers among the blocks."""

    def __init__(self, r, height, **p):
        super().__init__(r, **p)
        self.height, self.towers = height, r.choice([1, 1, 2])

    def blocks(self, lo, hi, depth=2, kinds=None):
        out = super().blocks(lo, hi, depth, kinds) if kinds is not None else super().blocks(lo, hi, depth)
        if kinds is None and self.towers:
            self.towers -= 1
            self.p["cap"] += 100
            out.insert(self.r.randint(0, len(out)), self.r.choice([self.steps, self.lists, self.spans])(self.height))
        return out

    def steps(self, n):
        m, r = None, self.r
        for i in range(n):
            st = M("step", [self.b_para(0, mathblocks=False)])
            st.kids[0].a.pop("title", None)
            if m is not None:
                subs = [m] + [self.step(1) for _ in range(r.choice([0, 0, 0, 1]))]
                if r.random() < .1:
                    subs.insert(0, self.step(1))
                st.a["sub"] = M("subproof", subs, explicit=r.random() < .5)
            self.meta(st)
            if st.get("sub"):
                st.kids.append(st.a["sub"])
            m = st
        p = M("proof", [m])
        return M("thm", [p], name="theorem") if r.random() < .3 else p

    def lists(self, n):
        m = None
        for i in range(n):
            lst = M("list", [M("item", self.inlines(1))], ordered=self.chance(.5))
            if m is not None:
                lst.kids.append(m)
            if self.chance(.2):
                lst.kids.append(M("item", self.inlines(1)))
            m = self.meta(lst) if self.chance(.3) else lst
        return m

    def spans(self, n):
        m = M("words", text=self.word(), sep="")
        for i in range(n):
            kids = [m]
            if self.chance(.3):
                kids.append(M("words", text=self.word(), sep=" "))
            m = M("span", kids, sep="")
            for k in self.r.sample(["strong", "emphas", "little", "insert", "delete"], self.r.choice([0, 1, 1, 2])):
                m.a[k] = True
            if self.chance(.2):
                self.meta(m)
        m.a["sep"] = " "
        return M("para", [M("words", text=self.word(True), sep=""), m])


def frames():
    f, n = sys._getframe(), 0
    while f:
        f, n = f.f_back, n + 1
    return n


class low:
    """Little stack for what runs inside."""

    def __enter__(self):
        self.old = sys.getrecursionlimit()
        sys.setrecursionlimit(frames() + ROOM)

    def __exit__(self, *exc):
        sys.setrecursionlimit(self.old)


def case(env, idx):
    r = env.rng
    sys.setrecursionlimit(100000)                 # for the monitor's own work
    depth = r.choice([10, 30, 60, 120] if env.tier == "quick" or r.random() < .9 else [200, 400])
    for _ in range(8):
        doc = Deep(r, depth, **profile(r, cap=r.choice([10, 40]), p_unknown=r.choice([0, .1]))).doc()
        src = emit(doc, r, **style(r))
        if clean(src):
            break
        env.saw("manuscripts set aside: outside the grammar")
    else:
        return
    env.detail["source"] = src
    n = heights(doc)
    for k, v in n.items():
        env.saw(f"{k}s nested", v)
    env.saw("nested 100 deep", max(n.values()) >= 100)
    for hr in (False, True):
        t = time.process_time()
        try:
            with low():
                html = render(src, handrails=hr)
        except RecursionError as e:
            env.problem(f"nested {n}: {e}")
            return
        t = time.process_time() - t
        env.saw("pages")
        root, problems = parse(html)
        if problems:
            env.problem(f"page is not well-formed: {problems[:2]}")
        exp = canon(expected(doc))
        df = diff(without_halmos(exp), canon(strip(root))) if hr else diff(exp, canon(root))
        if df:
            env.problem(f"nested {n}, {'handrails' if hr else 'plain'}: {str(df)[:600]}")
    if idx % 3 == 0:
        try:
            with low():
                rsm.lint(source=src, loglevel=QUIET)
                tree = app.ParserApp(plain=src, loglevel=QUIET).run()
                if tree.sexp().count("(") != sum(1 for _ in tree.traverse()):
                    env.problem("sexp does not show every node")
        except RecursionError as e:
            env.problem(f"nested {n}: {e} (lint, sexp)")
    if max(n.values()) >= 30:
        env.distinct(src)
    env.sample = dict(nested=n, source=src[:300])


def heights(doc):
    out = dict(step=0, list=0, span=0)

    def go(m, n):
        if m.kind in n:
            n = dict(n, **{m.kind: n[m.kind] + 1})
            out[m.kind] = max(out[m.kind], n[m.kind])
        for k in m.kids:
            go(k, n)
    go(doc, dict(step=0, list=0, span=0))
    return out
