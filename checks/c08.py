from vm import views
from vm.docchecks import run
from vm.drive import profile
from vm.hr import zone

PROPERTY = "C08"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts with a table of contents over random section trees (unnumbered, unlabelled, appendix, "
        "empty, single and last children, a second table of contents). Non-trivial: three sections.")
NEED = {"plain pages compared": 50, "manuscript section": 300, "minimaps": 50}


def case(env, idx):
    r = env.rng
    prof = profile(r, p_toc=.97, sections=r.choice([(0, 3), (1, 5), (3, 8)]), subs=r.choice([(0, 3), (1, 4)]), p_many=r.choice([.02, .02, .02, .2]),
                   subsubs=r.choice([(0, 2), (1, 3)]), blocks=(0, 1), p_appendix=.35, depth=1, p_nonum=.2,
                   p_bib=.2, inlines=(1, 3), escapes=r.choice([0, .5]))
    d = run(env, prof, views.toc, "table of contents", lambda k: k.get("section", 0) < 3, stats=("section", "toc", "toc2"))
    minimap(env, d)


def minimap(env, d):
    """The handrails page shows the same list twice more, as a map: one dot per entry."""
    if not any(m.kind == "toc" for m in d.doc.kids):
        return
    secs = [m for m in d.doc.walk() if m.kind == "section"]
    _, root, _ = d.page(True)
    maps = root.find_all(lambda e: "minimap" in e.classes)
    if len(maps) != 2:
        env.problem(f"handrails page with a table of contents has {len(maps)} minimaps, expected 2")
        return
    for k, mm in enumerate(maps):
        env.saw("minimaps")
        dots = [e for e in mm.walk() if e.tag == "circle" and e.attrs.get("fill") is None]
        if [e.attrs.get("r") for e in dots] != [{2: "8", 3: "6", 4: "4"}[s.a["level"]] for s in secs]:
            env.problem(f"minimap {k}: dots {[e.attrs.get('r') for e in dots]} do not match section levels "
                        f"{[s.a['level'] for s in secs]}")
        ys = [float(e.attrs["cy"]) for e in dots]
        top, height = (float(x) for i, x in enumerate(mm.find(lambda e: e.tag == "svg").attrs["viewbox"].split()) if i % 2)
        if any(a + 8 > b for a, b in zip(ys, ys[1:])) or any(not top < y < top + height for y in ys):
            env.problem(f"minimap {k}: dots at {ys} are not one below the other on a map from {top} of height {height}")
    hrefs = [e.attrs.get("href") for e in maps[0].walk() if e.tag == "a"]
    if hrefs != ["#" + (s.get("label") or "") for s in secs]:
        env.problem(f"floating minimap links {hrefs}, sections are {[s.get('label') for s in secs]}")
