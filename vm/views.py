"""Projections of a canonical page (see ref.canon): each keeps what one property talks about."""
import re

from .drive import attr, project, text, walk
from .emit import SPECIAL
from .ref import diff, show

NUM = re.compile(r"^(?:[A-Z]+|\d+|None)(?:\.(?:\d+|None))*\. ")
NUMW = re.compile(r"(?:\b[A-Z]{1,2}|\d+|None)(?:\.(?:\d+|None))*")
BLOCKS = {"div", "p", "li", "td", "caption", "figcaption", "section"}
HEAD = {"h1", "h2", "h3", "h4"}
BASE = {"paragraph", "theorem", "lemma", "corollary", "example", "proposition", "remark", "definition", "proof", "sketch",
        "step", "statement", "subproof", "itemize", "enumerate", "item", "span", "math", "code", "mathblock", "codeblock",
        "construct", "keyword", "abstract", "author", "section", "subsection", "subsubsection", "level-1", "level-2",
        "level-3", "level-4", "figure", "table", "note", "draft", "claimblock", "manuscript", "pg-label", "algorithm",
        "label", "desc", "halmos"}


def subtrees(c, pred):
    """Outermost subtrees that satisfy pred, in document order."""
    if isinstance(c, str):
        return []
    if pred(c):
        return [c]
    out = []
    for k in c[4]:
        out += subtrees(k, pred)
    return out


def has(c, *cls):
    return not isinstance(c, str) and bool(c[2] & set(cls))


def prose(c):
    """The words and their structure: no ids, no numbers, no link texts, no contents list, no bibliography."""
    def f(n):
        tag, _, cls, _, kids = n
        if "toc" in cls or "bibliography" in cls or tag == "img":
            return None
        if tag == "a":
            kids = ()
        if tag in HEAD and kids and isinstance(kids[0], str):
            kids = (NUM.sub("", kids[0]),) + kids[1:]
        if "label" in cls and kids and isinstance(kids[0], str):
            kids = (NUMW.sub("#", kids[0]),) + kids[1:]
        return (tag, None, frozenset(cls & BASE), (), kids)
    return project(c, f)


def verbatim(c):
    """Math, code and algorithms in order, exactly; and every word with a special character."""
    out = []
    stack = [c]
    while stack:
        n = stack.pop()
        if isinstance(n, str):
            out += [("word", w) for w in n.split() if any(ch in SPECIAL + "<>&\\\"" for ch in w)]
            continue
        tag, _, cls, _, kids = n
        if tag == "code" or cls & {"math", "mathblock", "pseudocode"} and all(isinstance(k, str) for k in kids):
            out.append((tag, "".join(sorted(cls & {"math", "mathblock", "pseudocode", "highlight"})), text(n)))
            if tag == "code":
                out.append(("lang", " ".join(sorted(cls))))
            continue
        stack.extend(reversed(kids))
    return out


def links(c):
    """References and external links with their texts, and the anchors they may point at."""
    out = []
    stack = [(c, False)]
    while stack:
        n, intoc = stack.pop()
        if isinstance(n, str):
            continue
        tag, eid, cls, attrs, kids = n
        intoc = intoc or "toc" in cls
        if eid and not eid.startswith("cite-") and not eid.endswith("-doi"):
            out.append(("anchor", eid, tag, " ".join(sorted(cls & BASE)), text(n)[:0]))
        if tag == "a" and not cls & {"cite", "backlink", "bibitem-doi", "note__link"} and not intoc:
            out.append(("link", attr(n, "href"), text(n), "reference" in cls))
        if "error" in cls:
            out.append(("error", text(n)))
        stack.extend((k, intoc) for k in reversed(kids))
    return out


def cites(c):
    """Citations where they stand, and the bibliography."""
    out = []
    stack = [(c, "")]
    while stack:
        n, before = stack.pop()
        if isinstance(n, str):
            continue
        tag, eid, cls, attrs, kids = n
        if "bibliography" in cls:
            out.append(("bibliography", n))
            continue
        if tag == "a" and "cite" in cls:
            out.append(("cite", eid, attr(n, "href"), text(n), "unknown" in cls))
            continue
        if tag == "span" and (eid or "").startswith("cite-"):
            out.append(("cites", eid, text(n)))
        if "backlink" in cls:
            out.append(("stray backlink", text(n)))
        stack.extend((k, "") for k in reversed(kids))
    return out


def numbers(c):
    """Everything that carries a number, in order."""
    out = []
    for n in walk(c):
        tag, eid, cls, attrs, kids = n
        if tag in HEAD and tag != "h1":
            out.append((tag, text(n)))
        elif "label" in cls:
            out.append(("label", text(n).strip()))
        elif tag == "img":
            out.append(("alt", attr(n, "alt")))
        elif tag == "a" and cls & {"reference"} and not cls & {"backlink"}:
            out.append(("ref", attr(n, "href"), text(n)))
        elif "bibitem" in cls:
            out.append(("bib", text(n)[:5]))
    return out


def toc(c):
    """Contents lists, and the headings they list."""
    out = [t for t in subtrees(c, lambda n: has(n, "toc"))]
    for n in walk(c):
        if n[0] == "section" and "level-1" not in n[2]:
            head = next((k for k in n[4] if not isinstance(k, str) and k[0] in HEAD), None)
            out.append(("section", n[1], frozenset(x for x in n[2] if x.startswith("level-")),
                        (), (text(head) if head else "",)))
    return ("#", None, frozenset(), (), tuple(out))


def proofs(c):
    return ("#", None, frozenset(), (), tuple(subtrees(c, lambda n: has(n, "proof", "sketch", "claimblock"))))


def floats(c):
    return ("#", None, frozenset(), (), tuple(subtrees(
        c, lambda n: n[0] in ("figure", "table", "ul", "ol") and not has(n, "bibliography", "contents"))))


INLINE = {"span", "strong", "em", "code", "sup"}


def markup(c):
    """Every piece of inline markup in document order: what it is, where it stands, and the text it is put around."""
    out = []
    stack = [(c, "")]
    while stack:
        n, inside = stack.pop()
        if isinstance(n, str):
            continue
        tag, eid, cls, attrs, kids = n
        here = inside
        if tag in INLINE or tag == "a" and not cls & {"reference", "backlink", "bibitem-doi", "note__link"} or "claimblock" in cls:
            out.append((tag, eid, " ".join(sorted(cls)), inside, text(n)))
            here = tag + "".join("." + x for x in sorted(cls))
        elif tag in BLOCKS:
            here = tag + "".join("." + x for x in sorted(cls & BASE))
        stack.extend((k, here) for k in reversed(kids))
    return out


def environments(c):
    """Theorem-like blocks: class, heading line, title, body skeleton."""
    def f(n):
        tag, eid, cls, attrs, kids = n
        if tag == "a":
            return None
        return (tag, eid, cls, (), kids)
    return ("#", None, frozenset(), (), tuple(project(t, f) for t in subtrees(c, lambda n: has(
        n, "theorem", "lemma", "corollary", "example", "proposition", "remark", "definition") and n[0] == "div")))


def metadata(c):
    """Title, authors, abstract; and id and classes of everything that has one."""
    out = []
    for n in walk(c):
        tag, eid, cls, attrs, kids = n
        if tag == "h1":
            out.append(("title", text(n)))
        elif "author" in cls or ("abstract" in cls):
            out.append(("block", n))
        elif "pg-label" in cls:
            out.append(("pg-label", text(n)))
        elif "desc" in cls:
            out.append(("desc", text(n)))
        if tag != "a" and cls & BASE and not cls & {"toc"}:
            out.append(("node", tag, eid, " ".join(sorted(cls))))
    return out


def compare(env, pages, view, what):
    """Report the first place where a view of the expected and of the emitted page disagree."""
    for name, want, got in pages:
        a, b = view(want), view(got)
        env.saw(f"{name} pages compared")
        if isinstance(a, list):
            env.saw("observed items", len(a))
            for i in range(max(len(a), len(b))):
                x, y = a[i] if i < len(a) else None, b[i] if i < len(b) else None
                if x != y:
                    def sh(v):
                        return "nothing" if v is None else str(tuple(
                            show(p, 600) if isinstance(p, tuple) and len(p) == 5 else p for p in v))
                    if x and y and isinstance(x[-1], tuple) and isinstance(y[-1], tuple) and x[:-1] == y[:-1]:
                        d = diff(x[-1], y[-1])
                        env.problem(f"{what} ({name} page), {x[0]}: at {d[0]}: expected {d[1]}, page has {d[2]}"
                                    if d else f"{what}: {x[0]} differs")
                    else:
                        env.problem(f"{what} ({name} page), item {i}: expected {sh(x)}, page has {sh(y)}")
                    break
        else:
            env.saw("observed items", sum(1 for _ in walk(a)))
            d = diff(a, b)
            if d:
                env.problem(f"{what} ({name} page) at {d[0]}: expected {d[1]}, page has {d[2]}")
