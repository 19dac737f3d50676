from vm.browser import watch
from vm.drive import profile, render, style
from vm.emit import emit
from vm.grammar import clean
from vm.model import Gen

PROPERTY = "C21"
CASES = dict(quick=640, thorough=12000)
WHAT = "mouse"
RULE = ("Pages of random manuscripts, many of them proofs, brought to life in a small browser with the page's own scripts and used "
        "by a random reader: collapse buttons, dots, menu items, links, messages, clicks elsewhere, sixty moves each. "
        "Non-trivial: five states of the page.")
NEED = {"states checked": 16000, "links copied": 600, "links that cannot be copied": 80, "pages restored": 200,
        "nested steps with subproofs": 120, "distinct states of pages": 4000, "resize": 100}


def page(env, make=False):
    """A page with handrails, as render or make gives it."""
    r = env.rng
    for _ in range(8):
        w = r.choice([None, dict(proof=6, thm=3), dict(proof=12, para=2)])
        doc = Gen(r, **profile(r, weights=w, cap=r.choice([40, 80, 150] + [300] * (env.tier == "thorough")),
                               step_depth=r.choice([2, 3, 4]), p_label=r.choice([.2, .5, .9]))).doc()
        src = emit(doc, r, **style(r))
        if clean(src):
            break
        env.saw("manuscripts set aside: outside the grammar")
    else:
        return None
    env.detail["source"] = src
    return render(src, handrails=True)


def case(env, idx):
    html = page(env)
    if html is None:
        return
    res = watch(env, html, what=WHAT, steps=60)
    env.saw("pages")
    if res and res["states"] >= 5:
        env.distinct(html)
    env.sample = dict(source=env.detail["source"][:400], saw=res and dict(list(res["saw"].items())[:12]))
