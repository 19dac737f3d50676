import os
import re
import shutil
from html import unescape

import rsm
from rsm import app

from vm import grammar
from vm.core import REPO
from vm.dom import parse
from vm.drive import logs, profile, render, style
from vm.emit import emit
from vm.model import Gen, M

PROPERTY = "C17"
CASES = dict(quick=800, thorough=14000)
RULE = ("Random manuscripts with images that exist, that are missing, and with text that looks like tags, built with make() in "
        "a directory of its own, from a string or a file, with and without handrails and linter, over nothing, a previous "
        "build or litter. Non-trivial: at least one image.")
NEED = {"builds": 300, "images copied": 150, "missing images reported": 60, "builds over a previous one": 60}
STATIC = os.path.join(REPO, "rsm", "static")
NAMES = ["plot.png", "fig1.png", "R&D.png", "naïve.png", "sub/dir/x.svg", "x.y.z.jpeg", "plot_(1).png", "A-1.PNG", "[x].png",
         "x=y.png", "o'neil.gif", "漢字.png", "a b.png", "img/&amp.png", "sub/plot2.png", "a&lt;b.png", "x+y.webp", "noext",
         "img.d/deep/er/q.png", "-dash.png", "under_score.png", "rsm.png", "index.png", "src.png", "~t.png", "i,j.png"]
DECOYS = ['<img src="decoy.png">', 'src="decoy2.png"', '<h1>decoy</h1>', 'src="static/rsm.css"', '</head></html>',
          '<title>x</title>', 'img src="../../etc/decoy"', '__TITLE_PLACEHOLDER__']


def case(env, idx):
    r = env.rng
    for _ in range(8):
        g = Gen(r, **profile(r, cap=r.choice([40, 120, 300]), weights=dict(figure=14), p_title=r.choice([.9, 0])))
        d = g.doc()
        figs, names = [m for m in d.walk() if m.kind == "figure"], NAMES[:]
        r.shuffle(names)
        for m in figs:
            if names:
                m.a["path"] = names.pop()
        for m in d.walk():
            if m.kind == "code" and r.random() < .5:
                m.a["text"] = r.choice(DECOYS)
        if d.get("title") and r.random() < .1:
            d.a["title"] += " __TITLE_PLACEHOLDER__"
        src = emit(d, r, **style(r))
        if grammar.clean(src):
            break
    env.detail["source"] = src
    work = os.path.join(env.scratch, f"make{idx}")
    os.makedirs(work)
    os.chdir(work)
    try:
        build(env, r, d, src, figs, work)
    finally:
        os.chdir("/")
        shutil.rmtree(work, ignore_errors=True)
    env.sample = dict(source=src[:500])


def files(top):
    out = {}
    for base, _, names in os.walk(top):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, top)] = f.read()
    return out


def put(path, data):
    os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def build(env, r, d, src, figs, work):
    have, miss = {}, set()
    for i, m in enumerate(figs):
        p = m.a["path"]
        if r.random() < .7:
            have[p] = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 50, 3000])))
            put(p, have[p])
        elif p not in have:
            miss.add(p)
    miss -= set(have)
    for n in r.sample(["notes.txt", "other.html", "sub/keep.me", "static.bak/x", "decoy2.png.txt"], r.randint(0, 3)):
        put(n, b"bystander " + n.encode())
    hr, lint = r.random() < .5, r.random() < .5
    kw = dict(handrails=hr, lint=lint, loglevel=30)
    if hr and r.random() < .5:
        del kw["handrails"]                        # a site has handrails unless told otherwise
    if lint and r.random() < .5:
        del kw["lint"]                             # and is linted
    if r.random() < .5:
        put("doc.rsm", src.encode())
        kw["path"] = "doc.rsm"
    else:
        kw["source"] = src
    body = render(src, handrails=hr, add_source=True)
    before = files(work)
    if r.random() < .3:
        if r.random() < .5:
            rsm.make(source=":rsm:\n\n# Old :strong: one::\n\n" + "text " * r.randint(0, 3000) + "\n\n::\n", loglevel=100)
        else:
            put("index.html", b"litter \xff" * r.randint(1, 20000))
            put("static/rsm.css", b"litter")
            put("static/handrails.js", b"")
        for n in list(files(work)):
            if n not in before and n != "index.html" and not n.startswith("static/"):
                env.problem(f"make wrote {n}")
        env.saw("builds over a previous one")
    build = rsm.make
    if "handrails" not in kw and "lint" in kw and r.random() < .5:
        name = dict(source="plain", path="srcpath", lint="run_linter")

        def build(**kw):
            app.FullBuildApp(**{name.get(k, k): v for k, v in kw.items()}).run()
        env.saw("builds by application")
    with logs() as t:
        build(**kw)
    env.saw("builds")
    after = files(work)
    for n, data in before.items():
        if after.get(n) != data:
            env.problem(f"make changed or removed {n}")
    assets = {f for f in os.listdir(STATIC) if f.endswith((".js", ".css"))}
    want = {"index.html"} | {f"static/{f}" for f in assets} | {f"static/{os.path.basename(p)}" for p in have}
    new = set(after) - set(before)
    if new != want:
        env.problem(f"make left out {sorted(want - new)} and wrote also {sorted(new - want)}")
        return
    for f in sorted(assets):
        with open(os.path.join(STATIC, f), "rb") as fh:
            if fh.read() != after[f"static/{f}"]:
                env.problem(f"static/{f} is not the file shipped with rsm")
    for p, data in have.items():
        if after[f"static/{os.path.basename(p)}"] != data:
            env.problem(f"static/{os.path.basename(p)} is not the image {p}")
        env.saw("images copied")
    said = [x.getMessage() for x in t.records if x.levelno >= 30]
    for p in miss:
        if not any(f'"{p}"' in s or p in s for s in said):
            env.problem(f"the image {p} is missing and no warning says so")
        env.saw("missing images reported")
    for p in have:
        if any("asset" in s and p in s for s in said):
            env.problem(f"the image {p} is there and a warning names it: {said}")
    page(env, d, after, body)
    if r.random() < .1:                            # nothing comes of a manuscript that cannot be read, and nothing is lost
        with logs() as t:
            rsm.make(source="no manuscript " + src.replace(":rsm:", "", 1)[:200], loglevel=30)
        if not any(x.levelno >= 40 for x in t.records):
            env.saw("unreadable manuscripts that were read")
        elif files(work) != after:
            env.problem("make changed files although it failed")
        else:
            env.saw("unreadable manuscripts")
    if figs:
        env.distinct(src, hr, lint)


def page(env, d, after, body):
    try:
        html = after["index.html"].decode("utf-8")
    except UnicodeDecodeError as e:
        env.problem(f"index.html is not UTF-8: {e}")
        return
    if html.count("<head>") < 1 or html.count(body.strip()) != 1:
        env.problem("index.html does not hold the page that render gives, once")
        return
    shell = html.replace(body.strip(), "<body></body>")
    root, problems = parse(shell)
    for p in problems:
        env.problem(f"index.html is not well-formed around the page: {p}")
    top = [e.tag for e in root.els()]
    if top != ["html"] or [e.tag for e in root.els()[0].els()] != ["head", "body"]:
        env.problem(f"index.html is not one html element with a head and a body: {top}")
        return
    head = root.els()[0].els()[0]
    titles = [e.text() for e in head.els() if e.tag == "title"]
    want = " ".join((d.get("title") or "").split())
    if titles != [want]:
        env.problem(f"title of the page: expected {want!r}, got {titles}")
    if not any(e.attrs.get("charset", "").lower() == "utf-8" for e in head.els()):
        env.problem("no charset utf-8")
    refs = [e.attrs.get("src") or e.attrs.get("href") for e in head.walk() if e.tag in ("script", "link")]
    refs += re.findall(r"""from\s+['"](.*?)['"]""", head.raw_text())
    todo = [x for x in refs if x and not re.match(r"(https?:)?//", x)]
    done = set()
    while todo:                                    # everything the page loads, and what that loads
        x = todo.pop().lstrip("/")
        if x in done:
            continue
        done.add(x)
        if x not in after:
            env.problem(f"the page loads {x}, which is not there")
            continue
        if x.endswith(".js") and "jquery" not in x and "tooltipster" not in x:
            text = after[x].decode("utf-8")
            todo += re.findall(r"""from\s+['"](/?static/.*?)['"]""", text)
            todo += ["static/" + y for y in re.findall(r"import\(`\$\{path\}(.*?)`\)", text)]
    env.saw("files a page loads", len(done))
    if not any(x.endswith(".css") for x in done) or not any(x.endswith("onload.js") for x in done):
        env.problem(f"the page loads no style or no script: {sorted(done)}")
