from vm import furniture, views
from vm.docchecks import run
from vm.drive import profile

PROPERTY = "C07"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts with numbered and unnumbered sections at three levels, appendices, theorem-like blocks, "
        "equations, figures, tables, algorithms, steps and a bibliography; numbers in headings, labels, captions, "
        "references and handrails. Non-trivial: six numbered elements.")
NEED = {"plain pages compared": 50, "manuscript thm": 100, "manuscript mathblock": 100, "manuscript figure": 50,
        "manuscript section": 200, "manuscript step": 100, "handrails": 1000}


def case(env, idx):
    r = env.rng
    prof = profile(r, weights=dict(thm=5, figure=3, table=2, mathblock=2, algorithm=1, proof=2), p_nonum=r.choice([.1, .35]),
                   p_appendix=.35, inl=dict(ref=4), sections=r.choice([(0, 3), (2, 5), (3, 7)]), p_mathblock=.4)
    if r.random() < .03:                 # many appendices
        prof.update(sections=(0, 1), p_appendix=1, cap=2000, blocks=(0, 1), subs=(0, 1), inlines=(1, 1))
    d = run(env, prof, views.numbers, "numbers",
            lambda k: sum(k.get(x, 0) for x in ("thm", "section", "mathblock", "figure", "table", "step")) < 6,
            stats=("thm", "section", "mathblock", "figure", "table", "algorithm", "step", "bibitem", "appendix"))
    furniture.compare(env, d.doc, d.page(True)[1], ("number", "label"))
