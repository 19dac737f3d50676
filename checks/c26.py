import collections
import contextlib
import io
import logging
import re

import rsm

from vm import grammar
from vm.drive import Doc, logs, profile
from vm.emit import emit
from vm.model import Gen

PROPERTY = "C26"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts with unknown references and citations, labels taken twice, second tables of contents, back "
        "references to unlabelled steps, bibliography entries with fields missing and code in unknown languages - or nothing "
        "wrong at all - rendered on both pages and linted. Non-trivial: two problems.")
NEED = {"problems": 4000, "problem contents": 15, "manuscripts without a problem": 30, "runs": 3000, **{f"problem {k}": 40 for k in (
    "reference", "citation", "duplicate", "prev", "journal", "publisher", "year", "doi", "language", "bibtex")}}
WORDS = dict(reference="label", citation="label", duplicate="uplicate", contents="Contents?", prev="prev", journal="journal",
             publisher="publisher", bibtex="bibliography", year="year", doi="(?i:doi)", language="anguage")


def wanted(doc):
    """Every problem of a manuscript: (what, the name it must be reported under), and where it can be seen."""
    tree, page = collections.Counter(), collections.Counter()
    for m in doc.walk():
        if m.kind == "ref" and m.get("unknown"):
            tree["reference", m.a["label"]] += 1
        if m.kind == "cite" and m.get("labels"):
            for lb, t in zip(m.a["labels"], m.a["targets"]):
                if t is None:
                    tree["citation", lb] += 1
        if m.get("srclabel"):
            tree["duplicate", m.a["srclabel"]] += 1
        if m.kind == "toc2":
            tree["contents", ""] += 1
        if m.kind in ("prev", "previous") and not m.a["to"].get("label"):
            tree["prev", ""] += 1
        if m.kind == "bibitem":
            lb = m.a["label"]
            page["year", lb] += not m.get("year")
            page["doi", lb] += not m.get("doi")
            page["journal", lb] += m.a["bkind"] == "article" and not m.get("journal")
            page["publisher", lb] += m.a["bkind"] == "book" and not m.get("publisher")
        if m.kind in ("code", "codeblock") and str(m.get("lang") or "").startswith("nolang"):
            page["language", m.a["lang"]] += 1
    return +tree, +page


def homeless(doc):
    """Whether something that is numbered within a section stands outside all of them."""
    def go(m):
        if m.kind == "section":
            return False
        return m.kind in ("thm", "mathblock", "figure") and not m.get("nonum") or any(go(k) for k in m.kids)
    return go(doc)


def case(env, idx):
    r = env.rng
    calm = r.random() < .15
    prof = profile(r, cap=r.choice([60, 150, 300]), p_unknown=0 if calm else r.choice([0, .15, .4]),
                   p_dup=0 if calm else r.choice([0, .5]), p_prev=0 if calm else r.choice([.2, .6]), p_toc=.5, p_bib=0 if calm else .6,
                   inl=dict(ref=3, cite=2), weights=dict(proof=2, codeblock=2, figure=1))
    for _ in range(8):
        d = Doc(env, prof, None)
        if calm and any(m.kind == "toc2" for m in d.doc.walk()):
            continue
        break
    doc, src = d.doc, d.src
    if not calm:
        # languages nobody knows: the tags of the source are rewritten, as the generator knows none
        n = 0
        for m in doc.walk():
            if m.kind == "codeblock" and m.get("lang") and r.random() < .6:
                n += 1
                m.a["lang"] = f"nolang{n}"
        if n:
            src = emit(doc, r)
            env.detail["source"] = src
    tree, page = wanted(doc)
    if not calm and not any(m.kind == "bib" for m in doc.walk()) and r.random() < .3:
        # entries without a place to list them
        more = src + "\n:bibtex:\n\n" + "".join(
            "@book{key%d,\n  title = {Some title},\n  author = {Some One}\n}\n\n" % n for n in range(r.randint(1, 3))) + "::\n"
        if grammar.clean(more):
            src = env.detail["source"] = more
            tree["bibtex", ""] += 1
    total = tree + page
    for (k, _), n in total.items():
        env.saw(f"problem {k}", n)
        env.saw("problems", n)
    env.saw("manuscripts without a problem", not total)
    for name, f, want in (("plain", lambda: rsm.render(source=src, loglevel=30), total),
                          ("handrails", lambda: rsm.render(source=src, handrails=True, loglevel=30), total),
                          ("lint", lambda: rsm.lint(source=src), tree)):
        if name == "lint" and idx % 3:
            continue
        err = io.StringIO()
        with contextlib.redirect_stderr(err), logs() as t:
            f()
        env.saw("runs")
        left = collections.Counter(want)
        for x in t.records:
            if x.levelno < logging.WARNING:
                continue
            msg = x.getMessage()
            if "numbered within" in msg:
                env.saw("about numbering outside sections")
                if not homeless(doc):
                    env.problem(f"{name}: {msg!r}: there is nothing outside the sections")
                continue
            hit = [k for k in left if left[k] > 0 and re.search(WORDS[k[0]], msg)
                   and (not k[1] or re.search(r"(?<![\w-])" + re.escape(k[1]) + r"(?![\w-])", msg))]
            if not hit:
                env.problem(f"{name}: {msg!r} is said without reason, or once too often")
                continue
            left[hit[0]] -= 1
        for (k, lb), n in (+left).items():
            env.problem(f"{name}: nothing is said about {n} of {want[k, lb]} problems: {k} {lb}")
        shown = [ln for ln in err.getvalue().split("\n") if "| " in ln]
        if sum("numbered within" not in ln for ln in shown if "LINT" not in ln) != sum(want.values()) and not env.problems:
            env.problem(f"{name}: {len(shown)} lines are shown for {sum(want.values())} problems")
    if sum(total.values()) > 1:
        env.distinct(src)
    env.sample = dict(source=src[:400], problems=[list(k) for k in total][:10])
