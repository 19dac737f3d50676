"""The reference reading of a manuscript: what page its plain rendering must amount to.

`expected(doc)` builds the element tree for an abstract manuscript directly from the
manuscript itself (never from rsm).  `canon` puts an element tree - expected or read from
the emitted page - into a form in which insignificant white space, attribute order, class
order and node ids do not count.
"""
import re
from .dom import El, collapse
from .model import KEYWORD, NOT_ASSUMPTION, THM_CLASS, node_class, number, reftext

BLOCK = {"div", "p", "ul", "ol", "li", "section", "table", "thead", "tbody", "tr", "td", "figure", "figcaption",
         "caption", "h1", "h2", "h3", "h4", "h5", "h6", "pre", "body", "img", "br", "#root", "#frag", "svg"}
TRIM = {"pg-label", "draft", "note", "note__content", "note__number", "code"}
LOOSE = {"code", "note", "draft"}     # inline elements whose outer white space is not fixed


def E(tag, *kids, id=None, cls=(), **attrs):
    a = {}
    if id:
        a["id"] = id
    if cls:
        a["class"] = " ".join(cls)
    a.update({k: v for k, v in attrs.items() if v})
    out = []
    for k in kids:
        if isinstance(k, list):
            out += k
        elif k is not None:
            out.append(k)
    return El(tag, a, out)


class Ref:
    def __init__(self):
        self.ncite = 0
        self.back = {}

    # -- inline -------------------------------------------------------------
    def inlines(self, kids):
        out = []
        for x in kids:
            if x.get("sep"):
                out.append(" ")
            out += self.inline(x)
        return out

    def ids(self, m, base):
        return dict(id=m.get("label"), cls=[base] + list(m.get("types") or []))

    def inline(self, m):
        k = m.kind
        if k == "words":
            return [m.a["text"]]
        if k == "strong":
            return [E("span", E("strong", self.inlines(m.kids)), cls=["span"])]
        if k == "emph":
            return [E("span", E("em", self.inlines(m.kids)), cls=["span"])]
        if k == "span":
            c = self.inlines(m.kids)
            if m.get("emphas"):
                c = [E("em", c)]
            if m.get("strong"):
                c = [E("strong", c)]
            return [E("span", c, **self.ids(m, "span"))]
        if k == "math":
            return [E("span", "\\(" + m.a["tex"] + "\\)", **self.ids(m, "math"))]
        if k == "code":
            return [E("span", E("code", m.a["src"]), **self.ids(m, "code"))]
        if k == "construct":
            kw = m.a["kw"]
            ids = self.ids(m, "construct")
            ids["cls"] += [kw] + ([] if kw in NOT_ASSUMPTION else ["assumption"])
            c = self.inlines(m.kids)
            return [E("span", E("span", KEYWORD[kw], cls=["keyword"]), " " if c else None, c, **ids)]
        if k == "ref":
            if m.get("unknown"):
                return [E("span", '[unknown label "%s"]' % m.a["label"], cls=["error"])]
            return [E("a", m.get("text") or reftext(m.a["to"]), cls=["reference"], href="#" + m.a["label"])]
        if k in ("prev", "previous"):
            to = m.a["to"]
            return [E("a", m.get("text") or reftext(to), cls=["reference"], href="#" + (to.get("label") or ""))]
        if k == "url":
            return [E("a", m.get("text") or m.a["target"], href=m.a["target"])]
        if k == "cite":
            n = self.ncite
            self.ncite += 1
            name = f"cite-{n}"
            tg = m.a["targets"]

            def a(t, label, id_):
                cls = ["reference", "cite"]
                if t is None:
                    return E("a", '[unknown label "%s"]' % label, id=id_, href="#",
                             cls=cls + (["unknown"] if len(tg) == 1 else []))
                return E("a", t.full, id=id_, cls=cls, href="#" + t.a["label"])
            for t in tg:
                if t is not None:
                    self.back.setdefault(id(t), []).append(name)
            if len(tg) == 1:
                return ["[", a(tg[0], m.a["labels"][0], name), "]"]
            c = []
            for i, t in enumerate(tg):
                c += [", "] if i else []
                c.append(a(t, m.a["labels"][i], f"{name}-{i}"))
            return ["[", E("span", c, id=name), "]"]
        if k == "note":
            return [E("span", E("sup", E("a", cls=["note__link"]), cls=["note__number"]),
                      E("span", self.inlines(m.kids), id=m.get("label"), cls=["note__content"]), cls=["note"])]
        if k == "draft":
            return [E("span", "[ ", self.inlines(m.kids), " ]", **self.ids(m, "draft"))]
        raise AssertionError(k)

    # -- blocks -------------------------------------------------------------
    def blocks(self, kids):
        return [self.block(k) for k in kids if k.kind not in ("appendix", "toc2")]

    def block(self, m):
        return getattr(self, "b_" + m.kind)(m)

    def b_para(self, m):
        runs = [[]]
        if m.get("title"):
            runs[0].append(E("span", m.a["title"] + ".", cls=["pg-label"]))
            runs[0].append(" ")
        kids = []
        for x in m.kids:
            if x.kind in ("mathblock", "claimblock"):
                kids.append(E("p", runs[-1]))
                kids.append(self.block(x))
                runs.append([])
            else:
                if x.get("sep"):
                    runs[-1].append(" ")
                runs[-1] += self.inline(x)
        if runs[-1]:
            kids.append(E("p", runs[-1]))
        return E("div", kids, **self.ids(m, "paragraph"))

    def b_mathblock(self, m):
        return E("div", "$$ " + m.a["tex"] + " $$", **self.ids(m, "mathblock"))

    def b_claimblock(self, m):
        return E("div", E("span", KEYWORD["claim"], cls=["keyword"]), self.b_mathblock(m.kids[0]),
                 cls=["claimblock"])

    def b_list(self, m):
        return E("ol" if m.a["ordered"] else "ul", self.blocks(m.kids),
                 **self.ids(m, "enumerate" if m.a["ordered"] else "itemize"))

    def b_item(self, m):
        return E("li", self.inlines(m.kids), **self.ids(m, "item"))

    def title(self, label, desc=None):
        return E("div", E("p", E("span", label, cls=["span", "label"]),
                          E("span", desc, cls=["span", "desc"]) if desc else None), cls=["paragraph", "hr-label"])

    def b_thm(self, m):
        ids = self.ids(m, THM_CLASS[m.a["name"]])
        ids["cls"].append("theorem")
        lab = THM_CLASS[m.a["name"]].capitalize()
        if not m.get("nonum"):
            lab += " " + m.full
        lab += ": " if m.get("title") else "."
        return E("div", self.title(lab, m.get("title")), self.blocks(m.kids), **ids)

    def b_proof(self, m):
        last = None
        for k in m.kids:
            if k.kind == "step":
                last = k
        kids = [self.block(k) for k in m.kids]
        for k, e in zip(m.kids, kids):
            if k is last:
                e.attrs["class"] += " last"
        return E("div", self.title("Proof."), kids, E("div", cls=["halmos"]), **self.ids(m, "proof"))

    def b_sketch(self, m):
        return E("div", self.title("Proof sketch."), self.blocks(m.kids), **self.ids(m, "sketch"))

    def b_step(self, m):
        st = [k for k in m.kids if k.kind != "subproof"]
        sub = [k for k in m.kids if k.kind == "subproof"]
        return E("div", E("div", self.blocks(st), cls=["statement"]), self.blocks(sub), **self.ids(m, "step"))

    def b_subproof(self, m):
        return E("div", self.blocks(m.kids), cls=["subproof"])

    def b_figure(self, m):
        sc = m.get("scale")
        img = E("img", src=m.a["path"], alt=f"Figure {m.full}.", onload=f"this.width*={sc};" if sc else None)
        return E("figure", img, [E("figcaption", E("span", f"Figure {m.full}. ", cls=["label"]), self.inlines(c.kids))
                                 for c in m.kids], **self.ids(m, "figure"))

    def b_table(self, m):
        kids = []
        for c in m.kids:
            if c.kind == "caption":
                kids.append(E("caption", E("span", f"Table {m.full}. ", cls=["label"]), self.inlines(c.kids)))
            else:
                kids.append(E(c.kind, [E("tr", [E("td", self.inlines(t.kids), cls=["tabledatum"]) for t in r.kids],
                                         cls=["tablerow"]) for r in c.kids],
                              cls=["tablehead" if c.kind == "thead" else "tablebody"]))
        return E("table", kids, **self.ids(m, "table"))

    def b_codeblock(self, m):
        lang = m.get("lang")
        return E("div", E("pre", E("code", m.a["src"], cls=["highlight", lang] if lang else [])),
                 **self.ids(m, "codeblock"))

    def b_algorithm(self, m):
        return E("div", E("pre", m.a["src"], cls=["pseudocode"]), id=m.get("label"), cls=["algorithm"])

    def b_section(self, m):
        h = m.a["title"] if m.get("nonum") else f"{m.full}. {m.a['title']}"
        ids = self.ids(m, {2: "section", 3: "subsection", 4: "subsubsection"}[m.a["level"]])
        ids["cls"].append(f"level-{m.a['level']}")
        return E("section", E(f"h{m.a['level']}", h), self.blocks(m.kids), **ids)

    def b_author(self, m):
        ps = [E("p", m.a[k]) for k in ("name", "affiliation") if m.get(k)]
        if m.get("email"):
            ps.append(E("p", E("a", m.a["email"], href="mailto:" + m.a["email"])))
        return E("div", E("div", ps, cls=["paragraph"]) if ps else None, **self.ids(m, "author"))

    def b_abstract(self, m):
        return E("div", E("h3", "Abstract"), self.blocks(m.kids),
                 E("p", "Keywords: " + ", ".join(m.a["keywords"]), cls=["keywords"]) if m.get("keywords") else None,
                 E("p", "MSC: " + ", ".join(m.a["msc"]), cls=["msc"]) if m.get("msc") else None,
                 **self.ids(m, "abstract"))

    def b_toc(self, m):
        return E("div", E("h3", "Table of Contents"),
                 E("div", E("ul", self.toc_items(self.doc), cls=["contents"]), cls=["toc-wrapper"]), cls=["toc"])

    def toc_items(self, m):
        out = []
        for s in m.kids:
            if s.kind != "section":
                continue
            text = s.a["title"] if s.get("nonum") else f"{s.full}. {s.a['title']}"
            sub = self.toc_items(s)
            out.append(E("li", E("a", text, cls=["reference"], href="#" + (s.get("label") or "")),
                         E("ul", sub, cls=["itemize"]) if sub else None, cls=["item"]))
        return out

    def b_bib(self, m):
        self.bib = E("ol", cls=["bibliography"])
        self.bibm = m
        return E("section", E("h2", "References"), self.bib, cls=["level-2"])

    def bibitems(self, m):
        out = []
        for it in m.kids:
            parts = [f"{it.full}", it.a["author"], '"' + it.a["title"] + '"']
            pub = it.get("journal") if it.a["bkind"] == "article" else it.get("publisher")
            parts += [x for x in (pub, it.get("year")) if x]
            kids = [". ".join(x.strip(".") for x in parts) + "."]     # no two dots in a row
            if it.get("doi"):
                kids += [" ", E("a", "[link]", id=it.a["label"] + "-doi", cls=["bibitem-doi"],
                                href="https://doi.org/" + it.a["doi"], target="_blank")]
            back = self.back.get(id(it))
            if back:
                kids += [E("br"), "["]
                for i, b in enumerate(back, 1):
                    kids += [","] if i > 1 else []
                    kids.append(E("a", f"↖{i}", cls=["reference", "backlink"], href="#" + b))
                kids.append("]")
            out.append(E("li", kids, id=it.a["label"], cls=["bibitem"]))
        return out

    def page(self, d):
        self.doc = d
        kids = self.blocks(d.kids)
        if getattr(self, "bib", None):
            self.bib.children = self.bibitems(self.bibm)
        man = E("div", E("section", E("h1", d.a["title"]) if d.get("title") else None, kids, cls=["level-1"]),
                **self.ids(d, "manuscript"))
        return E("#root", E("body", E("div", man, cls=["manuscriptwrapper"])))


def expected(doc):
    return Ref().page(doc)


# ---------------------------------------------------------------------------
VERBATIM = {"math", "mathblock", "pseudocode"}


def codetext(el):
    """Text of a code element: exact but for line breaks at its ends."""
    return el.raw_text().strip("\n")


def canon(el, pre=False):
    """(tag, id, classes, attributes, children) with what does not matter taken out."""
    tag, cls = el.tag, frozenset(el.classes)
    attrs = tuple(sorted((k, v) for k, v in el.attrs.items()
                         if k not in ("id", "class", "data-nodeid") and not (k == "tabindex")))
    eid = el.attrs.get("id")
    if tag == "img":
        eid = None                                 # known finding: repeats the id of its figure
    if tag == "code":
        return (tag, eid, cls, attrs, (codetext(el),))
    if "math" in cls or "mathblock" in cls or "pseudocode" in cls:
        if all(isinstance(c, str) for c in el.children):
            return (tag, eid, cls, attrs, (texnorm(el.raw_text()),))
    items = []
    for c in el.children:
        if isinstance(c, str):
            if items and isinstance(items[-1], str):
                items[-1] += c
            else:
                items.append(c)
        else:
            items.append(canon(c))
    out = []
    block = tag in BLOCK or tag == "a" or bool(cls & TRIM)
    for i, c in enumerate(items):
        if not isinstance(c, str):
            out.append(c)
            continue
        t = re.sub(r"[ \t\r\n\f]+", " ", c)
        prev = items[i - 1] if i else None
        nxt = items[i + 1] if i + 1 < len(items) else None
        if (prev is None and block) or _loose(prev):
            t = t.lstrip(" ")
        if (nxt is None and block) or _loose(nxt):
            t = t.rstrip(" ")
        if t:
            out.append(t)
    return (tag, eid, cls, attrs, tuple(out))


def _loose(c):
    return isinstance(c, tuple) and (c[0] in BLOCK or (c[0] == "span" and (c[2] & LOOSE)) or c[0] == "sup"
                                     or "pg-label" in c[2] or "note__content" in c[2])


def texnorm(s):
    """TeX text: exact except for white space at line ends and around the whole."""
    lines = [ln.strip() for ln in s.strip().split("\n")]
    t = "\n".join(lines)
    if t.startswith("$$"):
        t = "$$ " + t[2:].strip()
    if t.endswith("$$"):
        t = t[:-2].strip() + " $$"
    if t.startswith("\\("):
        t = "\\(" + t[2:].strip()
    if t.endswith("\\)"):
        t = t[:-2].strip() + "\\)"
    return t


def show(c, n=400):
    """One line for a canonical tree, for reports."""
    if isinstance(c, str):
        return c
    tag, eid, cls, attrs, kids = c
    s = f"<{tag}" + (f" #{eid}" if eid else "") + ("." + ".".join(sorted(cls)) if cls else "")
    s += "".join(f" {k}={v}" for k, v in attrs) + ">"
    return (s + "".join(show(k, n) for k in kids) + f"</{tag}>")[:n]


def diff(a, b, path=""):
    """First place where canonical trees a (expected) and b (seen) differ: (path, want, got) or None."""
    stack = [(a, b, path)]
    while stack:
        a, b, p = stack.pop()
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return (p, show(a), show(b))
            continue
        if a[:4] != b[:4]:
            return (p, show(a), show(b))
        q = f"{p}/{a[0]}" + (f"#{a[1]}" if a[1] else "") + (f".{sorted(a[2])[0]}" if a[2] else "")
        for i in range(min(len(a[4]), len(b[4]))):
            x, y = a[4][i], b[4][i]
            if (isinstance(x, str) != isinstance(y, str)) or (isinstance(x, str) and x != y) or \
                    (not isinstance(x, str) and x[:4] != y[:4]):
                return (q, show(x), show(y))
        if len(a[4]) != len(b[4]):
            return (q, f"{len(a[4])} children: {show(a, 300)}", f"{len(b[4])} children: {show(b, 300)}")
        for i in range(len(a[4]) - 1, -1, -1):
            stack.append((a[4][i], b[4][i], q))
    return None
