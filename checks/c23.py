from vm.browser import watch
from vm.drive import profile, render, style
from vm.emit import emit
from vm.grammar import clean
from vm.model import Gen

PROPERTY = "C23"
CASES = dict(quick=900, thorough=16000)
RULE = ("Pages of random manuscripts with references to labels of every kind, citations, algorithms and tables of contents, "
        "brought to life in a small browser with the page's own scripts, jQuery and Tooltipster, with MathJax, pseudocode, jQuery "
        "or one of rsm's scripts missing in some. Non-trivial: two references.")
NEED = {"pages": 500, "references": 4000, "tooltips read": 4000, "tooltips opened": 700, "items of contents": 300,
        "scrolls": 1200, "floating maps on a section": 60, "algorithms": 40, "handrails used": 2000, "keys used": 200}


def case(env, idx):
    r = env.rng
    for _ in range(8):
        doc = Gen(r, **profile(r, weights=dict(algorithm=2, thm=4, figure=2), inl=dict(ref=6, cite=2), p_toc=.5,
                               p_label=r.choice([.4, .8]), cap=r.choice([60, 150]))).doc()
        src = emit(doc, r, **style(r))
        if clean(src):
            break
        env.saw("manuscripts set aside: outside the grammar")
    else:
        return
    env.detail["source"] = src
    html = render(src, handrails=r.random() < .85)
    res = watch(env, html, what="refer")
    if res and res["saw"].get("references", 0) > 1:
        env.distinct(html)
    env.sample = dict(source=src[:400], faults=res and res.get("faults"), saw=res and dict(list(res["saw"].items())[:12]))
