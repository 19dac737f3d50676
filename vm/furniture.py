"""What handrails must surround which element of a manuscript, and reading them off a page."""
from .hr import ZONES, is_hr, zone, zones
from .model import reftext

ANY = object()          # known finding: the name of an unnumbered element


def name(m):
    if m.get("nonum") and not m.get("reftext"):
        return ANY
    return reftext(m)


def entry(what, m, label, collapsible, items, link=None):
    """(what, menu name, collapsible?, menu items before 'Copy link', link state)"""
    if link is None:
        link = "on" if m is not None and m.get("label") else "off"
    return dict(what=what, label=label, collapsible=collapsible, items=items, link=link, id=m and m.get("label"),
                number=None, icon=m and m.get("icon"))


def expected(doc):
    """The handrails of a page in document order."""
    out = []
    if doc.get("title"):
        out.append(entry("heading", None, "Title", True, [], link="on"))

    def inl(kids):
        for x in kids:
            if x.kind in ("mathblock", "claimblock"):
                block(x)

    def block(m):
        k = m.kind
        if k == "section":
            out.append(entry("heading", m, name(m), True, []))
        elif k == "abstract":
            out.append(entry("heading", m, reftext(m), True, []))
        elif k == "toc":
            out.append(entry("heading", None, "Contents", True, [], link="off"))
            return
        elif k == "bib":
            out.append(entry("heading", None, "Bibliography", True, [], link="off"))
            out.extend(entry("heading", None, None, False, [], link=None)
                       | dict(link="none", icon="ext" if b.get("doi") else ANY) for b in m.kids)
            return
        elif k == "author":
            out.append(entry("author", m, reftext(m), False, []))
            return
        elif k == "para":
            out.append(entry("paragraph", m, reftext(m) if m.get("reftext") else "Paragraph", False, []))
            inl(m.kids)
            return
        elif k == "mathblock":
            e = entry("mathblock", m, "Equation" if m.get("nonum") else "Equation " + reftext(m), False, [])
            if not m.get("nonum"):
                e["number"] = f"({m.full})"
            out.append(e)
            return
        elif k == "thm":
            out.append(entry("theorem", m, name(m), True, []))
        elif k == "proof":
            out.append(entry("proof", m, reftext(m), True, [("Collapse all", "on")]))
        elif k == "sketch":
            out.append(entry("sketch", m, reftext(m), True, []))
        elif k == "step":
            sub = any(c.kind == "subproof" for c in m.kids)
            nested = any(c.kind == "subproof" and any(s.kind == "step" for s in c.kids) for c in m.kids)
            e = entry("step", m, reftext(m), False,
                      [("Collapse", "on" if sub else "off"), ("Collapse all", "on" if nested else "off")])
            e["number"] = f"⟨{m.full}⟩"
            out.append(e)
        elif k == "subproof":
            out.append(entry("subproof", None, None, False, []) | dict(link="none"))
        elif k in ("figure", "table", "codeblock", "algorithm", "toc2", "appendix"):
            return
        for c in m.kids:
            if c.kind in BLOCKS:
                block(c)
    for c in doc.kids:
        block(c)
    return out


BLOCKS = {"section", "abstract", "toc", "bib", "author", "para", "mathblock", "thm", "proof", "sketch", "step", "subproof",
          "list", "item", "claimblock", "figure", "table", "codeblock", "algorithm"}
THEOREMS = {"theorem", "lemma", "corollary", "example", "proposition", "remark", "definition"}
ICON = {"Copy link": "link", "Tree": "tree", "Source": "code", "Collapse": "collapse", "Collapse all": "collapse-all"}
OWN = ("author", "paragraph", "mathblock", "proof", "sketch", "step", "subproof")


def read(root, problem):
    """The handrails found on a page, in document order; problem(msg) for malformed ones."""
    out = []
    inner = {id(c) for e in root.walk() if is_hr(e) for c in e.walk() if c is not e and is_hr(c)}
    for e in root.walk():
        if "hr" not in e.classes or e.tag != "div":
            continue
        cls = set(e.classes)
        what = next((o for o in OWN if o in cls), "theorem" if cls & THEOREMS else "heading")
        zs = [next(k for k in z.classes if k.endswith("-zone")) for z in zones(e)]
        if zs != ZONES or len(e.els()) != len(zs):
            problem(f"handrail of a {what} has zones {zs}, extra {[x.tag for x in e.els() if x not in zones(e)]}")
            continue
        if ("hr-offset" in cls) != (id(e) in inner or what == "mathblock"):
            problem(f"handrail of a {what} {'inside another' if id(e) in inner else 'inside no other'} is "
                    f"{'' if 'hr-offset' in cls else 'not '}moved out to the margin")
        if what != "subproof" and e.attrs.get("tabindex") != "0":
            problem(f"handrail of a {what} cannot be reached with the keyboard (tabindex {e.attrs.get('tabindex')!r})")
        menu = zone(e, "hr-menu-zone")
        labels = [x.text() for x in menu.walk() if "hr-menu-label" in x.classes]
        items = [(x.text(), "off" if "disabled" in x.classes else "on") for x in menu.walk() if "hr-menu-item" in x.classes]
        link = [s for t, s in items if t == "Copy link"]
        if what != "subproof":
            if [t for t, _ in items][-2:] != ["Tree", "Source"]:
                problem(f"menu of a {what} lacks Tree and Source: {items}")
        for x in menu.walk():
            if "hr-menu-item" in x.classes:
                icons = [[c for c in i.classes if c != "icon"] for i in x.walk() if "icon" in i.classes]
                if x.text() in ICON and icons != [[ICON[x.text()]]]:
                    problem(f"menu of a {what}: item {x.text()!r} has icons {icons}")
        if any(t == "Copy link" and "link" not in x.classes for x in menu.walk() if "hr-menu-item" in x.classes
               for t in [x.text()]):
            problem(f"menu of a {what}: Copy link item is not marked as such")
        col = zone(e, "hr-collapse-zone").find(lambda x: "hr-collapse" in x.classes) is not None
        info = zone(e, "hr-info-zone")
        num = [x.text() for x in info.walk() if x.has("eqn-number") or x.has("step-number")]
        icon = [c for x in info.walk() if x.has("icon") for c in x.classes if c != "icon"]
        out.append(dict(what=what, label=labels[0] if len(labels) == 1 else (None if not labels else labels),
                        collapsible=col, items=[i for i in items if i[0] not in ("Copy link", "Tree", "Source")],
                        link=link[0] if len(link) == 1 else ("none" if not link else link), id=e.id,
                        number=num[0] if len(num) == 1 else (None if not num else num),
                        icon=icon[0] if len(icon) == 1 else (None if not icon else icon)))
    return out


def compare(env, doc, root, keys):
    want, got = expected(doc), read(root, env.problem)
    env.saw("handrails", len(got))
    if [w["what"] for w in want] != [g["what"] for g in got]:
        n = next((i for i, (w, g) in enumerate(zip(want, got)) if w["what"] != g["what"]), min(len(want), len(got)))
        env.problem(f"handrails: {len(want)} expected, page has {len(got)}; first difference at {n}: "
                    f"expected {[w['what'] for w in want[n:n + 4]]}, page has {[g['what'] for g in got[n:n + 4]]}")
        return
    for w, g in zip(want, got):
        for k in keys:
            if w[k] is ANY or w[k] == g[k] or (k == "id" and w["what"] == "heading"):
                continue
            env.problem(f"handrail of {w['what']} {w['id'] or ''} ({w['label'] if w['label'] is not ANY else ''}): "
                        f"{k} should be {w[k]!r}, is {g[k]!r}")
            return
