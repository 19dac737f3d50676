from vm import views
from vm.docchecks import run
from vm.drive import profile

PROPERTY = "C11"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts with metadata everywhere - title, date, authors, abstract keywords and codes, labels, types, "
        "titles of paragraphs and theorems - in block and inline spelling, any order and indentation. "
        "Non-trivial: four elements with metadata.")
NEED = {"plain pages compared": 50, "elements with metadata": 500, "manuscript author": 30, "manuscript abstract": 30}


def case(env, idx):
    r = env.rng
    prof = profile(r, p_title=.9, p_author=.8, p_abstract=.8, p_label=r.choice([.5, .9]), p_types=r.choice([.2, .7]),
                   p_thmtitle=.7, escapes=r.choice([0, .5]), inl=dict(span=3, math=3, code=2), p_nonum=.3)
    d = run(env, prof, views.metadata, "metadata",
            lambda k: sum(1 for _ in ()) > 0, stats=("author", "abstract", "span", "thm", "section"))
    n = sum(1 for m in d.doc.walk() if m.get("label") or m.get("types") or m.get("title"))
    env.saw("elements with metadata", n)
    if n < 4:
        env.key = None
