from vm import probes
from vm.dom import CLOSES_P
from vm.drive import Doc, profile

PROPERTY = "C01"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts over every construct, nested and adjacent in every combination the language allows, with "
        "labels, HTML-looking text and unknown references; both pages read by a strict reader that repairs nothing. "
        "Non-trivial: at least 30 elements.")
NEED = {"pages": 100, "elements": 5000, "ids": 500}
findings = {"figure-img-id": probes.figure_img_id, "minimap-ids": probes.minimap_ids}


def check_page(env, html, root, problems, what):
    for p in problems[:3]:
        env.problem(f"{what} page is not well formed: {p}")
    ids, nids = {}, {}

    def go(el, inmap, inp):
        for c in el.els():
            env.saw("elements")
            m = inmap or "minimap" in c.classes
            i = c.attrs.get("id")
            if i is not None and not m and c.tag != "img":        # known finding: the img of a figure repeats its id
                env.saw("ids")
                if i in ids:
                    env.problem(f"{what} page: id {i!r} is on <{ids[i]}> and on <{c.tag}>")
                if not i.strip():
                    env.problem(f"{what} page: empty id on <{c.tag}>")
                ids[i] = c.tag
            n = c.attrs.get("data-nodeid")
            if n is not None and not m:
                if n in nids:
                    env.problem(f"{what} page: node id {n} is on <{nids[n]}> and on <{c.tag}>")
                nids[n] = c.tag
            if inp is not None and c.tag in CLOSES_P:
                env.problem(f"{what} page: <{c.tag} class={c.attrs.get('class')!r}> inside a <p>")
            if c.tag == "a" and el.tag == "a":
                env.problem(f"{what} page: <a> inside <a>")
            go(c, m, c if c.tag == "p" else (None if c.tag in CLOSES_P else inp))
    go(root, False, None)
    bodies = [e for e in root.walk() if e.tag == "body"]
    if len(bodies) != 1:
        env.problem(f"{what} page has {len(bodies)} bodies")


def case(env, idx):
    r = env.rng
    prof = profile(r, escapes=r.choice([0, .4]), p_unknown=r.choice([0, .15]), p_adjacent=.5,
                   p_label=r.choice([.3, .9]), p_dup=.2, depth=r.choice([1, 2, 3, 4]))
    d = Doc(env, prof)
    n = env.count["elements"]
    for hr in (False, True):
        check_page(env, *d.page(hr), "handrails" if hr else "plain")
    if env.count["elements"] - n > 60:
        env.distinct(d.src)
    env.sample = dict(source=d.src[:700])
