"""The work of rendering grows with the manuscript, not with its square: lines of Python that run, and CPU time, at several sizes."""
import gc
import sys
import time

import rsm

from vm.drive import QUIET
from vm.grammar import clean

PROPERTY = "C29"
CASES = dict(quick=160, thorough=2400)
CASE_CPU = 600
RULE = ("Manuscripts made of 2 to 7 kinds of blocks and written out n, 2n, 4n (the lines of Python that run are counted) and 8n times "
        "(about 800 blocks; CPU seconds). Non-trivial: with references among the blocks.")
NEED = {"sizes counted": 300, "sizes timed": 200, "lines run": 10_000_000, "blocks rendered": 40000}
TOOL = 4

# i: number of the copy, j: of another one, p: of the one before (or itself), w: a word
BLOCKS = dict(
    para="A {w}{i} and more text.",
    inline="Some *{w}{i}* and /slanted/ with $x_{i}$ and `c{i}` here :span: {{:strong:}} bold {i} :: there.",
    theorem=":theorem:\n  :label: th{i}\n\nLet {w} be {i}.\n\n::",
    titled=":lemma:\n  :label: le{i}\n  :title: Of {w} {i}\n  :types: {{main, t{i}}}\n\nText {i}.\n\n::",
    bare=":remark:\n\nRemark {i}.\n\n::",
    ref="See :ref:th{j}:: and :ref:le{j},that {i}::.",
    refs="See :ref:s{j}:: and :ref:th{i}:: and :ref:th{p}::.",
    proof=":proof:\n\n:step:\n  :label: st{i}\n\nOne {i}.\n\n::\n\n:step: By :prev: and :ref:st{j}::.\n\n:p:\n\n:step: Inner {i}.\n\n::\n\n:step: And :prev:.\n\n::\n\n::\n\n::\n\n::",
    list=":itemize:\n\n:item: a{i}\n\n:item: b{i}\n\n::",
    nested=":enumerate:\n\n:item: a{i}\n  :itemize:\n\n  :item: c{i}\n\n  ::\n\n:item: b{i}\n\n::",
    mathblock="$$\n  :label: mb{i}\nx = {i}\n$$",
    code="```\n  :lang: python\nf({i})\n```",
    table=":table:\n  :label: ta{i}\n\n:tbody:\n\n:tr: a{i} : b\n  ::\n\n:tr: c : d{i}\n  ::\n\n::\n\n:caption: Table {i}.\n\n::",
    figure=":figure:\n  :label: fi{i}\n  :path: some{i}.png\n\n:caption: Figure {w} {i}.\n\n::",
    algorithm=":algorithm:\n\n\\begin{{algorithmic}} {i} \\end{{algorithmic}}\n\n::",
    cite="As in :cite:k{i}:: and :cite:k{j},k{i}::.",
    note="With a note :note: of {w} {i}::.",
    construct="Now :let: x be {i} ::, :then: y is {w} ::.",
    url="A :url:https://x.org/{i},link {i}:: there.",
)
LABELS = dict(th="theorem", le="titled", st="proof", s="section")
NEEDS = dict(ref=["theorem", "titled"], refs=["theorem", "section"], section=[], )
HEADS = dict(section="## Part {i}\n  :label: s{i}\n", subsection="## Part {i}\n  :label: s{i}\n\n### Below {i}\n\nText.\n\n#### Low {i}\n",
             pair="## Part {i}\n  :label: s{i}\n\n### One {i}\n\nText.\n\n### Two {i}\n")
ENTRY = "@book{{k{i},\n  title={{T{i}}},\n  author={{A B{i}}},\n  year={{20{i}}},\n  publisher={{P}}\n}}\n"
WIDE = dict(
    items=":itemize:\n\n{rows}\n\n::|:item: One {i}.",
    rows=":table:\n\n:tbody:\n\n{rows}\n\n::\n\n::|:tr: a{i} : b{i}\n  ::",
    steps=":proof:\n\n{rows}\n\n::|:step:\n  :label: wide{i}\n\nStep {i}, :ref:wide{j}::.\n\n::",
    words="{rows}|*w{i}* and $x_{i}$",
)


class Shape:
    """A kind of manuscript of any size."""

    def __init__(self, r):
        self.kinds = set(r.sample(sorted(BLOCKS), r.randint(2, 6)))
        head = r.choice([None, "section", "section", "subsection", "pair", "pair"])
        for k in list(self.kinds):
            self.kinds |= {x for x in NEEDS.get(k, []) if x != "section"}
            if "section" in NEEDS.get(k, []) and head is None:
                head = "section"
        self.kinds = sorted(self.kinds)
        r.shuffle(self.kinds)
        self.head, self.toc, self.title, self.word = head, r.random() < .5, r.random() < .7, r.choice(["word", "naïve", "x"])
        self.bib = "cite" in self.kinds
        self.wide = r.choice([None, None, *sorted(WIDE)])
        self.per = len(self.kinds) + (1 if head else 0) + (2 if head in ("subsection", "pair") else 0)
        self.step = r.choice([3, 7, 11])

    def write(self, n):
        def fill(t, i, top=n):
            return t.format(i=i, j=(i * self.step + 1) % top, p=max(0, i - 1), w=self.word)
        out = [":rsm:\n" + ("  :date: 2022-03-29\n" if self.title else "")]
        if self.title:
            out = [":rsm:\n# A long story\n"]
        if self.toc:
            out.append("A first word.")
            out.append(":toc:")
        for i in range(n):
            if self.head:
                out.append(fill(HEADS[self.head], i))
            out += [fill(BLOCKS[k], i) for k in self.kinds]
        if self.wide:
            frame, row = WIDE[self.wide].split("|")
            m = min(n * self.per, 1600) // 8 + 1
            out.append(frame.format(rows=("\n\n" if self.wide != "words" else " ").join(fill(row, i, m) for i in range(m))))
        if self.bib:
            out.append(":bibliography: ::")
        out.append("::")
        if self.bib:
            out += [":bibtex:\n" + "\n".join(fill(ENTRY, i) for i in range(n)) + "::"]
        return "\n\n".join(out) + "\n"


def counted(f):
    m, n = sys.monitoring, [0]

    def line(code, no):
        n[0] += 1
    m.use_tool_id(TOOL, "c29")
    try:
        m.register_callback(TOOL, m.events.LINE, line)
        m.set_events(TOOL, m.events.LINE)
        try:
            f()
        finally:
            m.set_events(TOOL, 0)
            m.register_callback(TOOL, m.events.LINE, None)
    finally:
        m.free_tool_id(TOOL)
    return n[0]


def timed(f):
    gc.collect()
    t = time.process_time()
    f()
    return time.process_time() - t


def case(env, idx):
    r = env.rng
    shape = Shape(r)
    rails = r.random() < .5
    how = r.choice(["render", "render", "render", "lint"])
    env.detail["shape"] = f"{shape.kinds} head={shape.head} toc={shape.toc} wide={shape.wide} {how} handrails={rails}"
    env.distinct(env.detail["shape"])

    def run(n):
        src = shape.write(n)
        if how == "lint":
            return lambda: rsm.lint(source=src, handrails=rails, loglevel=QUIET)
        return lambda: rsm.render(source=src, handrails=rails, loglevel=QUIET)
    n = max(2, round(80 / shape.per))
    env.detail["source"] = shape.write(n)
    if not clean(shape.write(2)):
        return env.problem(f"{shape.kinds}: not in the language")
    run(2)()                                                      # what is done once in a process
    a, b, c = (counted(run(k * n)) for k in (1, 2, 4))
    env.saw("sizes counted", 3)
    env.saw("lines run", a + b + c)
    if c - b > 2.75 * (b - a) + 2000:
        env.problem(f"{n} copies run {a} lines, {2 * n}: {b}, {4 * n}: {c}: that is {(c - b) / max(1, b - a):.1f} times as many for twice the text")
    # what is not done in Python shows in time only
    n = max(4, round(100 / shape.per))
    few, many = run(n), run(8 * n)
    small, large = min(timed(few), timed(few)), timed(many)
    env.saw("sizes timed", 2)
    env.saw("blocks rendered", 8 * n * shape.per)
    tries = 0
    while large > 22 * small and large > .5 and tries < 4:         # machines are busy with other things, too
        small, large, tries = max(small, timed(few)), min(large, timed(many)), tries + 1
        env.saw("measured again")
    if large > 22 * small and large > .5:
        env.problem(f"{n} copies take {small:.3f} s of CPU, eight times as many {large:.3f} s: {large / small:.0f} times")
    env.sample = f"{env.detail['shape']}: {a}, {b}, {c} lines; {small:.3f} s, {large:.3f} s"
