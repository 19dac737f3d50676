from vm import views
from vm.docchecks import run
from vm.drive import profile

PROPERTY = "C25"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts full of theorem-like blocks of every kind - titled, unnumbered, labelled, typed, holding "
        "paragraphs, lists, code and proofs. Non-trivial: two of them.")
NEED = {"plain pages compared": 50, "manuscript thm": 300}


def case(env, idx):
    r = env.rng
    prof = profile(r, weights=dict(thm=9), p_thmtitle=.6, escapes=r.choice([0, .5]), p_nonum=.3, p_types=.4)
    run(env, prof, views.environments, "theorem-like blocks", lambda k: k.get("thm", 0) < 2,
        stats=("thm", "section", "appendix"))
