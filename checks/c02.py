from vm import probes
from vm import views
from vm.docchecks import run
from vm.drive import profile

PROPERTY = "C02"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts over every block and inline construct, spelled in a random style, rendered plain and with "
        "handrails; words are unique tokens. Non-trivial: at least two paragraphs or nested inline markup.")
NEED = {"plain pages compared": 50, "handrails pages compared": 50, "manuscript para": 100}
findings = {"keyword-glued": probes.keyword_glued, "inline-code-space": probes.inline_code_space}


def case(env, idx):
    r = env.rng
    prof = profile(r, escapes=r.choice([0, 0, .4]), p_unknown=r.choice([0, 0, .1]),
                   p_big=r.choice([.04, .04, .3]), p_adjacent=r.choice([.15, .5]))
    run(env, prof, views.prose, "the words and their structure",
        lambda k: k.get("para", 0) < 2 and not (k.keys() & {"strong", "emph", "span", "construct"}),
        stats=("para", "section", "strong", "emph", "span", "construct", "thm", "list", "table", "note", "draft"))
