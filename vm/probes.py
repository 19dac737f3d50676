"""Does a recorded finding still fail?  Each probe shows it against the real code with one fixed manuscript."""
from .dom import parse
from .drive import render


def figure_img_id():
    root, _ = parse(render(":rsm:\n\n:figure:\n  :path: a.png\n  :label: fig\n:caption: x\n::\n\n::\n"))
    return len([e for e in root.walk() if e.id == "fig"]) > 1


def minimap_ids():
    root, _ = parse(render(":rsm:\n\npara\n\n:toc:\n\n## A\n\ntext\n\n## B\n\ntext\n\n::\n", handrails=True))
    ids = [e.id for e in root.walk() if e.id]
    return len(ids) != len(set(ids))


def keyword_glued():
    return "LETx" in parse(render(":rsm:\n\nWe :let: *x* be ::\n\n::\n"))[0].text().replace("LET x", "")


def inline_code_space():
    t = parse(render(":rsm:\n\nWe use `code`, here.\n\n::\n"))[0].text()
    return "code ," in t


def nonum_reftext():
    return "Section None" in render(":rsm:\n\n## A\n:label: s\n:nonum:\n\nsee :ref:s::\n\n::\n")
