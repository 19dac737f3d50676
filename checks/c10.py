from vm import probes
from vm import furniture
from vm.dom import parse
from vm.drive import Doc, profile, render
from vm.hr import strip, without_halmos
from vm.ref import canon, diff

PROPERTY = "C10"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts over every construct rendered with and without handrails; the handrails page with its "
        "furniture taken off is compared with the plain page as emitted, and each handrail with the element it "
        "surrounds. Non-trivial: ten handrails.")
NEED = {"handrails": 3000, "sources": 40, "page pairs": 200}
findings = {"nonum-reftext": probes.nonum_reftext}


def case(env, idx):
    r = env.rng
    prof = profile(r, p_label=r.choice([.3, .9]), p_unknown=r.choice([0, .1]), escapes=r.choice([0, .4]),
                   p_reftext=r.choice([0, 0, .4]), p_icon=r.choice([0, .3]))
    d = Doc(env, prof)
    _, plain, _ = d.page(False)
    _, page, _ = d.page(True)
    a, b = without_halmos(canon(plain)), canon(strip(page))
    x = diff(a, b)
    env.saw("page pairs")
    if x:
        env.problem(f"handrails page without its furniture is not the plain page, at {x[0]}: plain has {x[1]}, "
                    f"handrails has {x[2]}")
    n = env.count["handrails"]
    furniture.compare(env, d.doc, page, ("label", "collapsible", "items", "link", "id", "number", "icon"))
    check_titles(env, page)
    if r.random() < .15:
        source(env, d)
    if env.count["handrails"] - n >= 10:
        env.distinct(d.src)
    env.sample = dict(source=d.src[:700])


def source(env, d):
    """The page carries the source of the manuscript exactly if asked to."""
    page, _ = parse(render(d.src, handrails=True, add_source=True))
    got = ["".join(c for c in e.children if isinstance(c, str)) for e in page.find_all(lambda e: "rsm-source" in e.classes)]
    env.saw("sources")
    if got != [d.src]:
        env.problem(f"the page carries the source {got} and not the source of the manuscript")
    if any("rsm-source" in e.classes for e in d.page(True)[1].walk()):
        env.problem("the page carries its source without being asked to")


def check_titles(env, root):
    """Every heading and label line sits in the handrail of its element."""
    for e in root.walk():
        for c in e.els():
            if c.tag in ("h1", "h2", "h3", "h4") and "hr-content-zone" not in e.classes:
                env.problem(f"heading {c.text()!r} stands outside any handrail")
