"""The checks whose cases are whole manuscripts: one line each says what is generated and what is looked at."""
from . import views
from .drive import Doc, profile, text, walk
from .ref import show


def run(env, prof, view, what, trivial=lambda d: False, sty=None, stats=()):
    d = Doc(env, prof, sty)
    kinds = {}
    for m in d.doc.walk():
        kinds[m.kind] = kinds.get(m.kind, 0) + 1
    for k in stats:
        env.saw(f"manuscript {k}", kinds.get(k, 0))
    views.compare(env, d.both(), view, what)
    if not trivial(kinds):
        env.distinct(d.src)
    env.sample = dict(source=d.src[:700])
    return d
