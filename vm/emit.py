"""Write an abstract manuscript down as RSM source.

`Style` makes every choice the language leaves open: shorthand or tag, order and place of
metadata, line breaks, indentation, blank lines, comments.  None of these choices may
change what a reader sees.
"""
import random

HASH = {2: "##", 3: "###", 4: "####"}
SECTAG = {2: "section", 3: "subsection", 4: "subsubsection"}
COMMENTS = ["% a comment, with $x$ :ref:y:: and *stuff*", "% a full-line comment :label: nothing ::", "%", "%%% 100%", "% one $ `of { each",
            "% :theorem:", "%## no section", "% \\% \\", "% naïve 漢字 :span: {:strong:} x"]
SPECIAL = ":%$`*/{}#"
LEEWAY = "%$`*/#"          # what need not be escaped within braces
TEXTS = {"title", "reftext", "name", "affiliation", "email"}


def esc(text):
    return "".join("\\" + c if c in SPECIAL else c for c in text)


class Style:
    def __init__(self, rng, wrap=.15, comments=0.0, shorthand=.7, blank=1, indent=True, trail=0, tabs=0):
        self.r = rng
        self.wrap, self.comments, self.shorthand, self.blank, self.indent = wrap, comments, shorthand, blank, indent
        self.trail, self.tabs = trail, tabs          # white space at the ends of lines, tabs for indentation

    def chance(self, p):
        return self.r.random() < p


class Emit:
    def __init__(self, style):
        self.s = style
        self.ind = ""

    # -- metadata -----------------------------------------------------------
    def pairs(self, m, extra=()):
        ps = []
        for key in ("label", "types", "nonum", "reftext", "icon"):
            v = m.get(key) or (m.get("srclabel") if key == "label" else None)
            if v:
                ps.append((key, v))
        for key in extra:
            if m.get(key):
                ps.append((key, m.a[key]))
        self.s.r.shuffle(ps)
        return ps

    def val(self, key, v, inline=False):
        if v is True:
            return ""
        if isinstance(v, list):
            if len(v) == 1:          # the grammar wants braces only round several values
                return " " + (esc(v[0]) if key in ("keywords", "msc") else v[0])
            if key == "keywords":
                v = [self.braced(x) for x in v]
            return " {" + self.s.r.choice([", ", ","]).join(v) + "}"
        if key in TEXTS:
            v = self.braced(v) if inline else esc(v)
        return " " + v

    def braced(self, v):
        return "".join("\\" + c if c in LEEWAY and self.s.chance(.5) else c for c in v)

    def inline_meta(self, ps):
        if not ps:
            return ""
        return "{" + ", ".join(f":{k}:{self.val(k, v, True)}" for k, v in ps) + "}"

    def block_meta(self, ps, indent, comments=True):
        out = []
        for k, v in ps:
            if comments and self.s.comments and self.s.chance(self.s.comments / 3):
                out.append(indent + self.s.r.choice(COMMENTS))
            out.append(f"{indent}:{k}:{self.val(k, v)}")
        return out

    # -- inline -------------------------------------------------------------
    def inlines(self, kids, allow_wrap=True):
        out = ""
        for x in kids:
            sep = x.get("sep", "")
            s = self.inline(x, allow_wrap)
            if sep == " ":
                sep = self.space(allow_wrap)
            out += sep + s
        return out

    def space(self, allow_wrap):
        if allow_wrap and self.s.chance(self.s.wrap):
            c = ""
            if self.s.comments and self.s.chance(self.s.comments):
                c = " " + self.s.r.choice(COMMENTS)
            if self.s.trail and not c and self.s.chance(self.s.trail):
                c = self.s.r.choice([" ", "  ", "\t"])
            return c + "\n" + self.ind + (" " * self.s.r.randint(0, 3) if self.s.indent else "")
        if self.s.chance(.05):
            return "  "
        return " "

    def words(self, text, allow_wrap):
        toks = text.split(" ")
        out = esc(toks[0])
        for t in toks[1:]:
            out += self.space(allow_wrap) + esc(t)
        return out

    def inline(self, m, aw):
        k, s = m.kind, self.s
        if k == "words":
            return self.words(m.a["text"], aw)
        if k in ("strong", "emph"):
            c = self.inlines(m.kids, aw)
            if s.chance(s.shorthand):
                q = "*" if k == "strong" else "/"
                return q + c + q
            return ":span: {:%s:} %s ::" % ("strong" if k == "strong" else "emphas", c)
        if k == "span":
            ps = self.pairs(m, ("strong", "emphas"))
            return ":span:" + s.r.choice(["", " "]) + (self.inline_meta(ps) + " " if ps else " ") + self.inlines(m.kids, aw) + " ::"
        if k == "math":
            ps = self.inline_meta(self.pairs(m))
            if s.chance(s.shorthand):
                return "$" + (ps + " " if ps else "") + m.a["tex"] + "$"
            return ":math:" + (ps + " " if ps else " ") + m.a["tex"] + (" ::" if m.a["tex"].endswith(":") else s.r.choice([" ::", "::"]))
        if k == "code":
            ps = self.inline_meta(self.pairs(m))
            if s.chance(s.shorthand):
                return "`" + (ps + " " if ps else "") + m.a["src"] + "`"
            return ":code: " + (ps + " " if ps else "") + m.a["src"] + (" ::" if m.a["src"].endswith(":") else s.r.choice([" ::", "::"]))
        if k == "construct":
            kw = m.a["kw"]
            if kw == "qed":
                return ":qed:"
            ps = self.inline_meta(self.pairs(m))
            tag = ":" + kw + ":"
            if kw == "claim" and s.chance(.5):
                tag = s.r.choice([":|-:", ":⊢:"]) if not ps else ":claim:"
            return tag + " " + (ps + " " if ps else "") + self.inlines(m.kids, aw) + " ::"
        if k == "ref":
            return ":ref:" + m.a["label"] + ("," + s.r.choice(["", " "]) + esc(m.a["text"]) if m.get("text") else "") + "::"
        if k == "url":
            return ":url:" + m.a["target"] + ("," + esc(m.a["text"]) if m.get("text") else "") + "::"
        if k == "cite":
            return ":cite:" + s.r.choice(["", "", "", " "]) + s.r.choice([",", ", ", ", ", " , ", ",\t", ",\n"]).join(m.a["labels"]) + s.r.choice(["", "", "", " "]) + "::"
        if k in ("note", "draft"):
            ps = self.inline_meta(self.pairs(m))
            return f":{k}: " + (ps + " " if ps else "") + self.inlines(m.kids, aw) + " ::"
        if k == "prev":
            return {1: ":prev:", 2: ":prev2:", 3: ":prev3:"}[m.a["n"]]
        if k == "previous":
            return f":previous:{m.a['n']}" + ("," + esc(m.a["text"]) if m.get("text") else "") + "::"
        raise AssertionError(k)

    # -- blocks: each returns a list of lines ------------------------------
    def gap(self):
        n = self.s.r.randint(1, self.s.blank) if self.s.blank > 1 else 1
        lines = [""] * n
        if self.s.comments and self.s.chance(self.s.comments):
            lines += [self.ind[:self.s.r.randint(0, 4)] + self.s.r.choice(COMMENTS)] + [""] * self.s.r.randint(0, 2)
        return lines

    def seq(self, kids, ind):
        out = []
        for k in kids:
            out += self.gap()
            out += self.block(k, ind)
        return out

    def block(self, m, ind):
        self.ind = ind
        return getattr(self, "b_" + m.kind)(m, ind)

    def deeper(self, ind):
        return ind + (self.s.r.choice(["", "  ", "  ", "    "]) if not self.s.tabs else self.s.r.choice(["", "\t", "  "])) if self.s.indent else ind

    def b_para(self, m, ind):
        ps = self.pairs(m, ("title",))
        out = []
        cur = ""
        for i, x in enumerate(m.kids):
            if x.kind in ("mathblock", "claimblock"):
                if cur:
                    out += (ind + cur).split("\n")
                    cur = ""
                out += self.block(x, ind)
            else:
                sep = x.get("sep", "")
                if sep == " ":
                    sep = self.space(True)
                if not cur:
                    sep = ""
                cur += sep + self.inline(x, True)
        if cur:
            out += (ind + cur).split("\n")
        if ps or (self.s.chance(.05) and m.kids[0].kind not in ("mathblock", "claimblock")):
            pre = ":paragraph: " + (self.inline_meta(ps) + " " if ps else "") if ps else ""
            out[0] = ind + pre + out[0][len(ind):]
        return out

    def b_claimblock(self, m, ind):
        m.kids[0].a["isclaim"] = True
        return self.b_mathblock(m.kids[0], ind)

    def b_mathblock(self, m, ind):
        ps = self.block_meta(self.pairs(m, ("isclaim",)), ind + "  ", False)
        tex = [ind + t for t in m.a["tex"].split("\n")]
        if self.s.chance(self.s.shorthand):
            return [ind + "$$"] + ps + tex + [ind + "$$"]
        return [ind + ":mathblock:"] + ps + ([""] if self.s.chance(.3) and ps else []) + tex + [ind + "::"]

    def b_list(self, m, ind):
        d = self.deeper(ind)
        out = [ind + (":enumerate:" if m.a["ordered"] else ":itemize:")] + self.block_meta(self.pairs(m), d)
        for k in m.kids:
            out += self.gap()
            if k.kind == "item":
                ps = self.inline_meta(self.pairs(k))
                self.ind = d + "  "
                out += (d + ":item: " + (ps + " " if ps else "") + self.inlines(k.kids)).split("\n")
            else:
                out += self.block(k, d)
        return out + self.gap() + [ind + "::"]

    def container(self, tag, m, ind, extra=()):
        d = self.deeper(ind)
        return ([ind + f":{tag}:"] + self.block_meta(self.pairs(m, extra), d) + self.seq(m.kids, d) + self.gap()
                + [ind + "::"])

    def b_thm(self, m, ind):
        return self.container(m.a["name"], m, ind, ("title",))

    def b_stray(self, m, ind):
        tag, lines = m.a["what"].lower(), m.a["lines"]
        if lines[0]:
            return [f"{ind}:{tag}: {lines[0]}"]
        return [f"{ind}:{tag}:", ""] + [ind + "  " + ln for ln in lines[1:]] + ["", ind + "::"]

    def b_sketch(self, m, ind):
        return self.container("sketch", m, ind)

    def b_abstract(self, m, ind):
        return self.container("abstract", m, ind, ("keywords", "msc"))

    def b_author(self, m, ind):
        d = self.deeper(ind)
        return [ind + ":author:"] + self.block_meta(self.pairs(m, ("name", "affiliation", "email")), d) + [ind + "::"]

    def b_proof(self, m, ind):
        return self.container("proof", m, ind)

    def b_step(self, m, ind):
        return self.container("step", m, ind)

    def b_subproof(self, m, ind):
        if not m.a["explicit"]:
            out = []
            for i, k in enumerate(m.kids):
                out += (self.gap() if i else []) + self.block(k, ind)
            return out
        d = self.deeper(ind)
        return [ind + ":p:"] + self.seq(m.kids, d) + self.gap() + [ind + "::"]

    def b_figure(self, m, ind):
        d = self.deeper(ind)
        out = [ind + ":figure:"] + self.block_meta(self.pairs(m, ("path", "scale")), d)
        for c in m.kids:
            out += [""] + self.b_caption(c, d)
        return out + [""] + [ind + "::"]

    def b_caption(self, m, ind):
        self.ind = ind + "  "
        return (ind + ":caption: " + self.inlines(m.kids)).split("\n")

    def b_table(self, m, ind):
        d = self.deeper(ind)
        out = [ind + ":table:"] + self.block_meta(self.pairs(m), d)
        for c in m.kids:
            if c.kind == "caption":
                out += [""] + self.b_caption(c, d)
                continue
            out += ["", d + f":{c.kind}:", ""]
            for row in c.kids:
                if row.a["short"]:
                    out += [d + ":tr: " + " : ".join(self.inlines(t.kids, False) for t in row.kids), d + "::", ""]
                else:
                    out += [d + ":tr:", *[d + "  :td: " + self.inlines(t.kids, False) + " ::" for t in row.kids], d + "::", ""]
            out += [d + "::"]
        return out + ["", ind + "::"]

    def b_codeblock(self, m, ind):
        ps = self.block_meta(self.pairs(m, ("lang",)), "", False)
        if self.s.chance(self.s.shorthand) or "::" in m.a["src"]:
            return [ind + "```"] + ps + m.a["src"].split("\n") + ["```"]
        return [ind + ":codeblock:"] + ps + m.a["src"].split("\n") + ["::"]

    def b_algorithm(self, m, ind):
        return [ind + ":algorithm:"] + self.block_meta(self.pairs(m), "", False) + m.a["src"].split("\n") + [ind + "::"]

    def b_toc(self, m, ind):
        return self.s.r.choice([[ind + ":toc:"], [ind + ":toc: ::"], [ind + ":toc:", ind + "::"]])

    b_toc2 = b_toc

    def b_appendix(self, m, ind):
        return [ind + ":appendix:"]

    def b_bib(self, m, ind):
        return [ind + ":bibliography: ::"]

    def b_section(self, m, ind):
        lvl = m.a["level"]
        d = self.deeper(ind)
        if m.a["title"] and self.s.chance(self.s.shorthand):
            out = [f"{HASH[lvl]} {esc(m.a['title'])}"] + self.block_meta(self.pairs(m), d)
        else:
            ps = self.pairs(m, ("title",))
            out = [ind + f":{SECTAG[lvl]}:"] + self.block_meta(ps, d)
        return out + self.seq(m.kids, ind)

    def doc(self, d):
        out = [":rsm:"]
        out += self.block_meta(self.pairs(d, ("title", "date")), self.deeper(""))
        out += self.seq(d.kids, self.s.r.choice(["", "", "  "]) if self.s.indent else "")
        out += self.gap() + ["::", ""]
        bibs = [m for m in d.walk() if m.kind == "bib"]
        if bibs:
            out += ["", ":bibtex:", ""]
            for it in bibs[0].kids:
                fs = [(k, it.a[k]) for k in ("title", "author", "year", "journal", "publisher", "doi") if it.get(k)] + it.get("unshown", [])
                self.s.r.shuffle(fs)
                eq = self.s.r.choice(["=", " = "])
                out += ["@%s{%s," % (it.a["bkind"], it.a["label"])]
                out += [f"  {k}{eq}{{{v}}}" + ("," if i + 1 < len(fs) else "") for i, (k, v) in enumerate(fs)]
                out += ["}", ""]
            out += ["::", ""]
        return "\n".join(out)


def emit(doc, rng, **style):
    return Emit(Style(rng, **style)).doc(doc)
