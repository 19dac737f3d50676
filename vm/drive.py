"""Driving the real code: one manuscript through one of its public entrances."""
import logging
import os

import rsm
from rsm import app

from .dom import El, parse
from .emit import emit
from .grammar import clean
from .hr import strip, without_halmos
from .model import Gen
from .ref import canon, expected


class Trap(logging.Handler):
    """Collects every record of the RSM loggers during one run."""

    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append(record)


class logs:
    """with logs() as t: ...   t.records has what RSM logged meanwhile."""

    def __enter__(self):
        self.trap = Trap()
        logging.getLogger().addHandler(self.trap)       # records propagate to the root, whatever RSM does to its own
        return self.trap

    def __exit__(self, *exc):
        logging.getLogger().removeHandler(self.trap)


QUIET = 100


def render(src, handrails=False, path=None, **kw):
    kw.setdefault("loglevel", QUIET)
    if handrails or len(src) % 3:               # a page has none unless told otherwise
        kw["handrails"] = handrails
    if path is not None:
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(src)
        return rsm.render(path=path, **kw)
    return rsm.render(source=src, **kw)


def tree_of(src, **kw):
    """The manuscript tree after all stages short of translation."""
    a = app.ParserApp(plain=src, loglevel=QUIET, **kw)
    return a.run()


# Styles: how the same manuscript may be spelled
def style(rng):
    return rng.choice([
        dict(), dict(), dict(wrap=.5), dict(comments=.4, wrap=.3, blank=3), dict(shorthand=0), dict(shorthand=1),
        dict(indent=False), dict(wrap=0, blank=2, shorthand=.5), dict(wrap=.9),
    ])


SMALL = dict(sections=(0, 2), subs=(0, 2), subsubs=(0, 1), blocks=(1, 3), depth=2)


def profile(rng, *, focus=None, weights=None, inl=None, **over):
    """Generator parameters: mostly modest manuscripts, some large, some minimal."""
    p = dict(cap=rng.choice([60, 150, 150, 300, 300, 600]))
    size = rng.random()
    if size < .45:
        p.update(SMALL)
    elif size < .55:
        p.update(sections=(0, 1), subs=(0, 0), blocks=(1, 2), depth=1, pre_blocks=(1, 2), inlines=(1, 3))
    elif size > .93:
        p.update(sections=(3, 7), subs=(0, 4), subsubs=(0, 3), blocks=(0, 4))
    p.update(over)
    from .model import DEFAULT
    if weights:
        bw = dict(DEFAULT["block_w"])
        bw.update(weights)
        p["block_w"] = bw
    if inl:
        iw = dict(DEFAULT["inline_w"])
        iw.update(inl)
        p["inline_w"] = iw
    return p


class Doc:
    """A manuscript, its source, and both of its pages, expected and emitted."""

    def __init__(self, env, prof, sty=None):
        rng = env.rng
        self.env = env
        for _ in range(8):
            self.doc = Gen(rng, **prof).doc()
            self.src = emit(self.doc, rng, **(style(rng) if sty is None else sty))
            if clean(self.src):
                break
            env.saw("manuscripts set aside: outside the grammar")
        env.detail["source"] = self.src
        self.exp = canon(expected(self.doc))
        self.exp_hr = without_halmos(self.exp)
        self._pages = {}

    def page(self, hr=False):
        """(root, problems) of the page as emitted."""
        if hr not in self._pages:
            path = os.path.join(self.env.scratch, "doc.rsm") if self.env.rng.random() < .2 else None
            html = render(self.src, handrails=hr, path=path)
            self.env.saw("pages")
            self._pages[hr] = (html, *parse(html))
        return self._pages[hr]

    def both(self):
        """Pairs (name, expected tree, emitted tree), plain page then handrails page without its furniture."""
        html, root, _ = self.page(False)
        yield "plain", self.exp, canon(root)
        html, root, _ = self.page(True)
        yield "handrails", self.exp_hr, canon(strip(root))


# -- looking at canonical trees (tag, id, classes, attrs, kids) -------------
def walk(c):
    stack = [c]
    while stack:
        n = stack.pop()
        if isinstance(n, str):
            continue
        yield n
        stack.extend(reversed(n[4]))


def text(c):
    if isinstance(c, str):
        return c
    out, stack = [], [c]
    while stack:
        n = stack.pop()
        if isinstance(n, str):
            out.append(n)
        else:
            stack.extend(reversed(n[4]))
    return "".join(out)


def attr(c, name):
    return dict(c[3]).get(name)


def project(c, f):
    """Rebuild a canonical tree bottom up; f(node with projected kids) -> node, list of nodes, or None to drop."""
    if isinstance(c, str):
        return c
    kids = []
    for k in c[4]:
        r = project(k, f)
        if r is None:
            continue
        if isinstance(r, list):
            kids += r
        else:
            kids.append(r)
    return f((c[0], c[1], c[2], c[3], tuple(kids)))


def seqdiff(want, got):
    """First disagreement of two lists, in words, or None."""
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            return f"#{i}: expected {a!r}, page has {b!r}"
    if len(want) != len(got):
        more = (want if len(want) > len(got) else got)[min(len(want), len(got))]
        return f"{len(want)} expected, page has {len(got)}; first extra: {more!r}"
    return None
