"""A strict little HTML reader: the monitor that watches the HTML the code emits.

`parse(html)` returns (root, problems).  Unlike a browser it repairs nothing: every
unbalanced, misnested or repeated thing is recorded in `problems`.
"""
import re
from html.parser import HTMLParser

VOID = {"img", "br", "meta", "link", "hr", "input", "area", "base", "col", "wbr"}
# Elements whose presence inside an open <p> makes a browser close that <p>.
CLOSES_P = {"div", "p", "ul", "ol", "section", "table", "figure", "h1", "h2", "h3",
            "h4", "h5", "h6", "pre", "blockquote"}


class El:
    __slots__ = ("tag", "attrs", "children", "line")

    def __init__(self, tag, attrs=None, children=None, line=0):
        self.tag = tag
        self.attrs = dict(attrs or {})
        self.children = list(children or [])
        self.line = line

    @property
    def id(self):
        return self.attrs.get("id")

    @property
    def classes(self):
        return (self.attrs.get("class") or "").split()

    def has(self, cls):
        return cls in self.classes

    def walk(self):
        stack = [self]
        while stack:
            n = stack.pop()
            yield n
            stack.extend(c for c in reversed(n.children) if isinstance(c, El))

    def find_all(self, pred):
        return [e for e in self.walk() if pred(e)]

    def find(self, pred):
        for e in self.walk():
            if pred(e):
                return e
        return None

    def els(self):
        return [c for c in self.children if isinstance(c, El)]

    def raw_text(self):
        out, stack = [], [self]
        while stack:
            n = stack.pop()
            if isinstance(n, str):
                out.append(n)
            else:
                stack.extend(reversed(n.children))
        return "".join(out)

    def text(self):
        return collapse(self.raw_text())

    def __repr__(self):
        return f"<{self.tag} {self.attrs}>"


def collapse(s):
    return re.sub(r"[ \t\r\n\f]+", " ", s).strip(" ")


class _Reader(HTMLParser):
    CDATA_CONTENT_ELEMENTS = ("script", "style")

    def __init__(self):
        super().__init__(convert_charrefs=False)
        self.root = El("#root")
        self.stack = [self.root]
        self.problems = []

    def _pos(self):
        return self.getpos()[0]

    def handle_starttag(self, tag, attrs):
        names = [a for a, _ in attrs]
        for a in set(names):
            if names.count(a) > 1:
                self.problems.append(f"attribute {a!r} repeated in <{tag}>")
        for a, _ in attrs:
            if not re.fullmatch(r"[A-Za-z_:][-A-Za-z0-9_:.]*", a):
                self.problems.append(f"malformed attribute {a!r} in <{tag}>")
        el = El(tag, attrs, line=self._pos())
        self.stack[-1].children.append(el)
        if tag not in VOID:
            self.stack.append(el)

    def handle_startendtag(self, tag, attrs):
        el = El(tag, attrs, line=self._pos())
        self.stack[-1].children.append(el)

    def handle_endtag(self, tag):
        if tag in VOID:
            self.problems.append(f"end tag for void element </{tag}>")
            return
        if len(self.stack) == 1:
            self.problems.append(f"</{tag}> with nothing open (line {self._pos()})")
            return
        top = self.stack[-1]
        if top.tag == tag:
            self.stack.pop()
            return
        self.problems.append(
            f"</{tag}> at line {self._pos()} closes nothing: innermost open element is "
            f"<{top.tag} class={top.attrs.get('class')!r}>")
        for i in range(len(self.stack) - 1, 0, -1):
            if self.stack[i].tag == tag:
                del self.stack[i:]
                return

    def _text(self, s):
        ch = self.stack[-1].children
        if ch and isinstance(ch[-1], str):
            ch[-1] += s
        else:
            ch.append(s)

    def handle_data(self, data):
        self._text(data)

    def handle_entityref(self, name):
        self._text(html_unescape(f"&{name};"))

    def handle_charref(self, name):
        self._text(html_unescape(f"&#{name};"))

    def handle_comment(self, data):
        self.problems.append("comment")

    def handle_decl(self, decl):
        self.problems.append("declaration")

    def handle_pi(self, data):
        self.problems.append("processing instruction")

    def unknown_decl(self, data):
        self.problems.append("declaration")


def html_unescape(s):
    import html
    return html.unescape(s)


def parse(text):
    r = _Reader()
    r.feed(text)
    r.close()
    for el in r.stack[1:]:
        r.problems.append(f"<{el.tag} class={el.attrs.get('class')!r} id={el.id!r}> is never closed")
    return r.root, r.problems


def canon(node, sort_classes=False):
    """Nested tuples with whitespace-collapsed text, for comparisons."""
    out = []
    for c in node.children:
        if isinstance(c, str):
            if out and isinstance(out[-1], str):
                out[-1] += c
            else:
                out.append(c)
        else:
            out.append(canon(c))
    res = []
    for c in out:
        if isinstance(c, str):
            t = re.sub(r"\s+", " ", c)
            if t.strip():
                res.append(t)
            elif t and res:
                res.append(" ")
        else:
            res.append(c)
    return (node.tag, tuple(sorted((k, v) for k, v in node.attrs.items())), tuple(res))
