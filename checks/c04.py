from vm.drive import render
from vm.docchecks import Doc
from vm.dom import parse
from vm.drive import profile
from vm.emit import emit
from vm.grammar import clean
from vm.ref import canon, diff
import os
import random

PROPERTY = "C04"
CASES = dict(quick=2000, thorough=40000)
RULE = ("One random manuscript written down in several equivalent spellings - shorthand or tags, inline or block "
        "metadata, indentation, line wrapping, blank lines, comments - and rendered; all pages must be equal. "
        "Non-trivial: the spellings differ in more than white space.")
NEED = {"pairs of spellings": 200, "spellings that differ beyond white space": 100, "with comments": 50, "line ends of Windows": 50,
        "byte order mark": 50, "no line end at the end": 50, "blank lines before": 50, "blank lines behind": 50}

STYLES = [dict(shorthand=0), dict(shorthand=1), dict(shorthand=.5, wrap=.5), dict(comments=.5, wrap=.4, blank=3),
          dict(indent=False, shorthand=0), dict(indent=False, shorthand=1, blank=2), dict(wrap=0, blank=1),
          dict(wrap=.9, shorthand=.3), dict(tabs=1, wrap=.3), dict(trail=.1, wrap=.3)]
# what editors do to files: kinds of line ends, marks and blank lines at the ends
EDITORS = {"line ends of Windows": lambda s: s.replace("\n", "\r\n"), "byte order mark": lambda s: "\ufeff" + s,
           "no line end at the end": lambda s: s.rstrip("\n"), "blank lines before": lambda s: "\n\n" + s,
           "blank lines behind": lambda s: s + "\n \n\n"}


def case(env, idx):
    r = env.rng
    prof = profile(r, escapes=r.choice([0, .4]), p_label=r.choice([.3, .8]), p_types=.3)
    d = Doc(env, prof, dict())
    hr = r.random() < .3
    base = canon(parse(render(d.src, handrails=hr))[0])
    for sty in r.sample(STYLES, 3):
        src = emit(d.doc, random.Random(r.random()), **sty)
        if not clean(src):
            env.saw("spellings set aside: outside the grammar")
            continue
        got = canon(parse(render(src, handrails=hr))[0])
        env.saw("pairs of spellings")
        if sty.get("comments"):
            env.saw("with comments")
        if src.split() != d.src.split():
            env.saw("spellings that differ beyond white space")
            env.distinct(d.src, src)
        x = diff(base, got)
        if x:
            env.problem(f"another spelling of the same manuscript gives another page, at {x[0]}: {x[1]} against {x[2]}",
                        source2=src)
            return
    plain = render(d.src)
    name = r.choice(list(EDITORS))
    src = EDITORS[name](d.src)
    if clean(src):
        path = os.path.join(env.scratch, "edited.rsm") if r.random() < .5 else None
        got = render(src, path=path).replace("\r", "")
        env.saw(name)
        if got != plain:
            x = diff(canon(parse(plain)[0]), canon(parse(got)[0])) or ("", "the one text", "another")
            env.problem(f"{name} {'in a file' if path else 'in a string'}: another page, at {x[0]}: {x[1]} against {x[2]}",
                        source2=src)
    env.sample = dict(source=d.src[:300], other=src[:300])
