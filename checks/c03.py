from vm import views
from vm.docchecks import run
from vm.drive import profile

PROPERTY = "C03"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts heavy in math, code, algorithms and escaped characters, both pages. "
        "Non-trivial: at least three verbatim elements.")
NEED = {"plain pages compared": 50, "manuscript math": 100, "manuscript code": 50, "manuscript codeblock": 30}


def case(env, idx):
    r = env.rng
    prof = profile(r, weights=dict(codeblock=4, algorithm=1.5, mathblock=1.5, para=6, claimblock=.5),
                   inl=dict(math=8, code=5, words=8), escapes=r.choice([0, .4, .8]),
                   p_mathblock=.4)
    run(env, prof, views.verbatim, "verbatim content",
        lambda k: sum(k.get(x, 0) for x in ("math", "code", "codeblock", "mathblock", "algorithm")) < 3,
        stats=("math", "code", "codeblock", "mathblock", "algorithm"))
