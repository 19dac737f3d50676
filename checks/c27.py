from vm import views
from vm.docchecks import run
from vm.drive import profile

PROPERTY = "C27"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts full of inline markup - strong and emphasised text, spans with labels, types and flags, math, "
        "code, every construct, notes, drafts and links, within each other, next to each other, at the start and the end of "
        "paragraphs, items, captions, cells and steps. Non-trivial: at least ten pieces of markup.")
NEED = {"plain pages compared": 500, "manuscript construct": 1500, "manuscript span": 1500, "manuscript strong": 1000,
        "manuscript note": 300, "manuscript claimblock": 50}
KINDS = ("construct", "span", "strong", "emph", "note", "draft", "math", "code", "claimblock")


def case(env, idx):
    r = env.rng
    prof = profile(r, weights=dict(para=9, list=3, thm=2, proof=2, figure=1, table=1, claimblock=.6),
                   inl=dict(words=6, span=4, strong=3, emph=3, construct=4, note=1, draft=1, math=3, code=2, url=1),
                   escapes=r.choice([0, 0, .4]), p_adjacent=r.choice([.15, .6]), p_label=r.choice([.3, .8]),
                   p_types=r.choice([.2, .6]))
    run(env, prof, views.markup, "inline markup", lambda k: sum(k.get(x, 0) for x in KINDS) < 10, stats=KINDS)
