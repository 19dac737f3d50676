from vm import views
from vm.docchecks import run
from vm.drive import profile

PROPERTY = "C24"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts heavy in figures, tables (long and short rows, heads, captions) and nested lists. "
        "Non-trivial: two of these.")
NEED = {"plain pages compared": 50, "manuscript figure": 50, "manuscript table": 50, "manuscript list": 50}


def case(env, idx):
    r = env.rng
    prof = profile(r, weights=dict(figure=5, table=5, list=7, para=3, thm=2, proof=1), depth=3,
                   escapes=r.choice([0, 0, .4]))
    run(env, prof, views.floats, "figures, tables and lists",
        lambda k: sum(k.get(x, 0) for x in ("figure", "table", "list")) < 2, stats=("figure", "table", "list", "item", "td"))
