"""Reading handrails output: take the interactive furniture off, and check the furniture."""
from .dom import El

HRCLS = {"hr", "hr-hidden", "hr-offset", "hr-shift-1", "hr-labeled", "heading"}
THMKIN = {"lemma", "corollary", "example", "proposition", "remark", "definition"}
ZONES = ["hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone", "hr-content-zone", "hr-info-zone"]


def is_hr(el):
    return "hr" in el.classes


def zones(el):
    return [c for c in el.els() if any(k.startswith("hr-") and k.endswith("-zone") for k in c.classes)]


def zone(el, name):
    for c in el.els():
        if name in c.classes:
            return c
    return None


def clean_attrs(el, keep_heading=False):
    a = dict(el.attrs)
    cls = [c for c in el.classes if c not in HRCLS]
    if cls:
        a["class"] = " ".join(cls)
    else:
        a.pop("class", None)
    a.pop("tabindex", None)
    return a


def strip(root):
    """A copy of `root` without handrails, comparable to the plain page."""
    return El(root.tag, root.attrs, _kids(root))


def _kids(el):
    out = []
    for c in el.children:
        if isinstance(c, str):
            out.append(c)
            continue
        cls = c.classes
        if "float-minimap-wrapper" in cls or "minimap" in cls or "rsm-source" in cls:
            continue
        if "hr-info-zone" in cls and el.tag in ("figcaption", "caption"):
            continue
        if "inline-math-wrapper" in cls:
            for i, k in enumerate(c.children):
                if isinstance(k, El) and k.tag == "span" and not k.attrs:
                    out += _kids(k)
                elif isinstance(k, El):
                    out.append(El(k.tag, k.attrs, _kids(k)))
                elif k.strip() or any(isinstance(x, El) for x in c.children[:i]):
                    out.append(k)
            continue
        if is_hr(c):
            content = zone(c, "hr-content-zone")
            kids = _kids(content) if content is not None else []
            own = [k for k in c.classes if k not in HRCLS]
            if not own and not c.id:
                if "bibitem" in cls or "bibitem" in el.classes:
                    kids = [x for k in kids for x in (k.children if isinstance(k, El) and k.tag == "p" else [k])]
                    info = zone(c, "hr-info-zone")
                    doi = info.find(lambda e: "bibitem-doi" in e.classes) if info is not None else None
                    if doi is not None:
                        a = El("a", doi.attrs, ["[link]"])
                        br = next((i for i, k in enumerate(kids) if isinstance(k, El) and k.tag == "br"), len(kids))
                        kids = kids[:br] + [" ", a] + kids[br:]
                out += kids
            else:
                out.append(El(c.tag, clean_attrs(c), kids))
            continue
        tag = c.tag
        if "bibliography" in cls and tag == "div":
            tag = "ol"
        if "bibitem" in cls and tag == "div":
            tag = "li"
        out.append(El(tag, clean_attrs(c), _kids(c)))
    return out


def without_halmos(c):
    """Canonical expected tree -> what handrails pages keep of it (no tombstone; bare author lines)."""
    if isinstance(c, str):
        return c
    tag, eid, cls, attrs, kids = c
    if len(cls) > 1 and "theorem" in cls and cls & THMKIN:
        cls = cls - {"theorem"}          # handrails pages name the kind only
    kids = [without_halmos(k) for k in kids if isinstance(k, str) or "halmos" not in k[2]]
    if "author" in cls and kids and not isinstance(kids[0], str) and "paragraph" in kids[0][2]:
        kids = list(kids[0][4])
    return (tag, eid, cls, attrs, tuple(kids))
