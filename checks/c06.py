from vm import views
from vm.docchecks import run
from vm.drive import profile

PROPERTY = "C06"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts with a bibliography and many citations - one or several labels, repeated, unknown - in "
        "every place text can stand. Non-trivial: two citations and two entries.")
NEED = {"plain pages compared": 50, "manuscript cite": 100, "manuscript bibitem": 100}


def case(env, idx):
    r = env.rng
    prof = profile(r, inl=dict(cite=9, ref=.5), p_bib=.95, bib=r.choice([(1, 4), (2, 8), (8, 14)]),
                   p_unknown=r.choice([0, .1]))
    run(env, prof, views.cites, "citations and bibliography",
        lambda k: k.get("cite", 0) < 2 or k.get("bibitem", 0) < 2, stats=("cite", "bibitem"))
