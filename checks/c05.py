from vm import probes
from vm import views
from vm.docchecks import run
from vm.drive import profile

PROPERTY = "C05"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts full of labels (some taken twice), references to elements of every kind before and after "
        "them, custom reference texts, references to labels nobody has, and external links. Non-trivial: three links.")
NEED = {"plain pages compared": 50, "manuscript ref": 100, "manuscript url": 30, "unknown labels": 20, "taken labels": 20}
findings = {"nonum-reftext": probes.nonum_reftext}


def case(env, idx):
    r = env.rng
    prof = profile(r, inl=dict(ref=9, url=2, cite=.3), p_label=r.choice([.5, .9]), p_dup=.35,
                   p_unknown=r.choice([0, .15]), p_reftext=r.choice([0, .4]), p_bib=.3, p_prev=.6,
                   weights=dict(proof=3, figure=1.5, table=1.5, list=3, codeblock=1.5, mathblock=1))
    d = run(env, prof, views.links, "links and anchors", lambda k: k.get("ref", 0) + k.get("url", 0) < 3,
            stats=("ref", "url", "prev", "previous"))
    for m in d.doc.walk():
        if m.get("unknown"):
            env.saw("unknown labels")
        if m.get("srclabel"):
            env.saw("taken labels")
