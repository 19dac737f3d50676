"""Abstract manuscripts: random generation, RSM source emission, reference rendering.

Nothing in here imports rsm.  A manuscript is a tree of `M` nodes.  `Gen` makes one from
a seeded random source, `emit` writes it down as RSM source in one of many equivalent
spellings, `Ref` says what a reader must find in the rendered page.
"""
import random
import re
from .dom import El

LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

WORDS = ("lemma alpha graph vertex spectral Perron finite compact bound kernel sheaf orbit node "
         "eigenvalue matrix proofless trivial naïve Erdős Gödel über façade 漢字 данные λόγος "
         "set cover metric norm dual basis path cycle tree walk tensor Hilbert Banach "
         "don't co-prime e.g i.e (see p-adic quasi- half-open no. (sic) [sic] \"quoted\" — … 😀 a<b R&D &amp; <b> <br x&y; &#65; AT&T < & >").split()
SAFE_WORDS = [w for w in WORDS if w.isalpha()]
PUNCT = [",", ".", "...", "..", ";", "!", "?", ")", "'s", "-th"]
TEX = [r"x", r"x_{1}", r"\alpha", r"\frac{a}{b}", r"x^{2} + y^{2}", r"n = |V(G)|", r"\lambda_{i}(A)",
       r"f \colon X \to Y", r"\{a, b\}", r"G := (V, E)", r"O(n \log n)", r"\sum_{i=1}^{n} i", r"a * b / c",
       r"50\%", r"\#S", r"x \in \mathbb{R}^{n}", r"2 + 2 = 4", r"é", r"\text{if } a", r"x  y", r"`q`", r"p{:}q", r"a<b", r"x \\", r"x<y>z", r"A & B \\ C&D", r"a \& b", r"p<q/r"]
CODE = ["x = 1", "for i in range(10):", "print('hi')", "a_b * c ** 2", "k=v", "#include", "a: int = 3", "f{k: v}",
        "x  =  y", "f(x)$", "%d items", "A[i]/B[j]", "naïve()", "a + b # c", "if a<b && c&d: e", "vector<int> v", '<div class="x">', "&lt; is <", "</code>", "C:\\dir\\", "a \\\\"]
CODEBLOCKS = [
    "def f(x):\n    return x + 1",
    "for i in range(3):\n    print(i)\n\n    # done",
    "a = {\n  'k': [1, 2],\n}",
    "$ ls -l *.py | wc\n% echo :foo: #bar",
    "x\ty\n  indented\n    more",
    "plain text: no {code} at *all*\n/slashes/ and ::",
    "line one\nline two\nline three",
    "λ = 'é漢'\nprint(λ)",
    '<html>\n  <body class="a">&nbsp;&amp;</body>\n</html> <!-- no -->',
    "if a<b && c&d:\n    vector<int> v(x<y, p>q);\n</code></pre>",
]
ASIS = (list("abcxyzAKn0129") + list("=+-<>&|!?.,;'\"()[]{}^_~@\\/*#%:") + [" ", " ", "  ", "é", "漢", "😀", "\\%", "\\:",
        "\\{", "--", "<b>", "&lt;", "</span>", "{:a:}", ":ref:", ":label:", "x_{1}", "\\frac", "\\alpha", "<!--", "&amp;",
        "</script>", "%", "**", "//", "]]>", "\t"])
SHORT = ["a", "I", "0", "5", "-", "v", "None", "a.", "1.", "x,", "=", "&", "é", "(a)", "…", "to", "of", "A", "12", "+", "nan"]
VALUES = ["Jr.", "O'Neil", "Smith-Jones", "(ed.)", "R&D", "A.", "van", "3rd", '"Bob"', "—", "Inc.", "U.S.A.", "Ph.D.",
          "Q.", "No.", "Why?", "Oh!", "AT&T", "M.I.T.", "x;", "né", "[sic]", "+1", "<x>", "5.0"]
LANGS = ["python", "js", "lisp", "c", "bash", "html", "java"]
THM = ["theorem", "lemma", "corollary", "example", "proposition", "remark", "definition", "exercise", "problem",
       "porism"]
THM_CLASS = {k: k for k in THM}
THM_CLASS.update(exercise="theorem", problem="theorem", porism="theorem")   # aliases in the grammar
KEYWORD = {"assume": "ASSUME", "case": "CASE", "define": "DEFINE", "let": "LET", "new": "NEW", "pick": "PICK",
           "prove": "PROVE", "st": "SUCH THAT", "suffices": "SUFFICES", "then": "THEN", "write": "WRITE",
           "claim": "⊢", "qed": "QED", "suppose": "SUPPOSE", "wlog": "WLOG"}
NOT_ASSUMPTION = {"then", "suffices", "claim", "qed", "prove"}


class M:
    """One node of an abstract manuscript."""
    __slots__ = ("kind", "kids", "a", "number", "full", "up")

    def __init__(self, kind, kids=None, **a):
        self.kind, self.kids, self.a = kind, list(kids or []), a
        self.number = self.full = self.up = None

    def get(self, k, d=None):
        return self.a.get(k, d)

    def walk(self):
        stack = [self]
        while stack:
            n = stack.pop()
            yield n
            stack.extend(reversed([k for k in n.kids if isinstance(k, M)]))

    def __repr__(self):
        return f"M({self.kind},{self.a},{len(self.kids)})"


DEFAULT = dict(
    sections=(0, 4), subs=(0, 3), subsubs=(0, 2), blocks=(1, 4), inlines=(1, 6),
    p_title=.8, p_doclabel=.3, p_author=.5, p_abstract=.5, p_toc=.4, p_appendix=.25, p_bib=.5, bib=(1, 5),
    p_between=.12, p_label=.5, p_types=.25, p_nonum=.15, p_thmtitle=.5, p_reftext=.0, p_icon=.0,
    block_w=dict(para=8, list=2, thm=3, proof=2, sketch=.5, figure=1, table=1, codeblock=1, algorithm=.5,
                 mathblock=.6, claimblock=.2),
    inline_w=dict(words=10, strong=1.5, emph=1.5, span=1, math=3, code=1, construct=1.5, ref=2, url=.7, cite=1,
                  note=.3, draft=.3),
    p_mathblock=.25, two_mathblocks=True, mathblock_first=True, depth=3, steps=(1, 4), step_depth=3, p_prev=.3,
    cap=700,                    # words after which the manuscript grows no further
    p_unknown=0, p_dup=.06, escapes=0, p_adjacent=.15, p_big=.04, pre_blocks=(0, 2),
    p_twin=.06, p_untitled=.02, p_short=.06, p_asis=.25, p_long=.04, p_case=.08, p_many=.02,
)


INLINE_META = {"span", "math", "code", "construct", "note", "draft", "para", "item"}
ICONED = {"section", "author", "para", "thm", "proof", "sketch"}
ICONS = ["heart", "success", "alert", "question", "star"]


class Gen:
    def __init__(self, rng, **over):
        self.r = rng
        self.p = dict(DEFAULT)
        self.p.update(over)
        self.n = 0
        self.nlabel = 0
        self.labels = {}        # label -> M
        self.said = {}          # what has been written before, by kind
        self.refs = []          # ref nodes to resolve at the end
        self.cites = []

    # -- small things -------------------------------------------------------
    def chance(self, p):
        return self.r.random() < p

    def between(self, lohi):
        lo, hi = lohi
        return self.r.randint(lo, hi)

    def many(self, lo, hi):
        """A small number, and now and then one of more than a digit."""
        if self.chance(self.p["p_many"]) and not self.full_up():
            return self.r.randint(9, self.r.choice([12, 12, 12, 30]))
        return self.r.randint(lo, hi)

    def weighted(self, d):
        ks = [k for k, w in d.items() if w > 0]
        return self.r.choices(ks, [d[k] for k in ks])[0]

    def word(self, safe=False):
        """A token no other place of this manuscript has."""
        self.n += 1
        w = self.r.choice(SAFE_WORDS if safe else WORDS)
        return f"{w}{self.n}"

    def words(self, lo=1, hi=5, safe=False):
        k = self.r.randint(lo, hi)
        if self.chance(.02):
            k = self.r.randint(20, 60)
        ws = [self.word(safe) for _ in range(k)]
        if not safe:
            for i in range(1, k):
                if self.chance(self.p["p_short"]):
                    ws[i] = self.r.choice(SHORT)
        return " ".join(ws)

    def twin(self, kind, make):
        """Something new, or now and then what was written already: titles, names and words come twice."""
        old = self.said.setdefault(kind, [])
        if old and self.chance(self.p["p_twin"]):
            return self.r.choice(old[-4:])
        old.append(make())
        return old[-1]

    def value(self, lo=1, hi=3):
        """What people write behind a key: names, abbreviations, punctuation."""
        return self.twin(("value", hi), lambda: self._value(lo, hi))

    def _value(self, lo, hi):
        ws = self.words(lo, hi, safe=True).split(" ")
        while self.chance(.4):
            ws.insert(self.r.randint(1, len(ws)), self.r.choice(VALUES))
        return " ".join(ws)

    def asis(self, common, bad=(), lines=1):
        """Verbatim text: something common, or any characters the delimiters leave room for."""
        if not self.chance(self.p["p_asis"]):
            return self.r.choice(common)
        out = []
        for i in range(lines):
            while True:
                s = "".join(self.r.choice(ASIS) for _ in range(self.r.randint(1, 12)))
                if i == 0 or i == lines - 1 or self.chance(.7):
                    s = s.lstrip() if i == 0 else s
                else:
                    s = ""
                if (s.strip() or 0 < i < lines - 1) and s[:1] not in "{:%" and not any(b in s for b in ("::", "$", "`", *bad)):
                    break
            out.append(s.rstrip())
        return "\n".join(out)

    def text(self, lo=1, hi=5):
        """Words, possibly with escaped special characters: returned unescaped."""
        return self.twin("text", lambda: self._text(lo, hi))

    def _text(self, lo, hi):
        ws = self.words(lo, hi).split(" ")
        if self.p["escapes"]:
            for _ in range(self.r.randint(0, 4)):
                if self.chance(self.p["escapes"]):
                    c = self.r.choice(":%$`*/{}#")
                    i = self.r.randrange(len(ws))
                    ws[i] = self.r.choice([c + ws[i], ws[i] + c, ws[i] + c + self.word(True)])
        return " ".join(ws)

    def title(self):
        return self.twin("title", self._title)

    def _title(self):
        t = self.words(1, 4, safe=not self.chance(.5)) if self.chance(.6) else self.value(1, 4)
        if self.p["escapes"] and self.chance(self.p["escapes"]):
            t += " " + self.r.choice(":%$`*/{}#") + self.word(True)
        return t

    def shown(self, lo=1, hi=3, chars=":%$`*/{}#"):
        """A text that stands by itself: of a link, a name, a keyword."""
        return self.twin(("shown", hi, chars), lambda: self._shown(lo, hi, chars))

    def _shown(self, lo, hi, chars):
        ws = (self.words(lo, hi, safe=True) if self.chance(.5) else self.value(lo, hi)).split(" ")
        while self.p["escapes"] and self.chance(self.p["escapes"] * .7):
            i, c = self.r.randrange(len(ws)), self.r.choice(chars)
            ws[i] = self.r.choice([c + ws[i], ws[i] + c, ws[i] + c + self.word(True)])
        return " ".join(ws)

    def address(self):
        t = f"{self.word(True)}@example.com".encode("ascii", "ignore").decode()
        if self.p["escapes"] and self.chance(self.p["escapes"]):
            t = self.r.choice("%$`*/{}#") + t if self.chance(.5) else t.replace("@", self.r.choice("%$`*/{}#") + "@")
        return t

    def new_label(self):
        self.nlabel += 1
        style = self.r.randrange(6) if not self.chance(.06) else 6
        n = self.nlabel
        if self.labels and self.chance(self.p["p_case"]):      # all but one that is there already
            lb = self.r.choice(list(self.labels))
            near = self.r.choice([lb.upper(), lb.swapcase(), lb.capitalize(), lb + "x", "x" + lb, lb + "-1", lb[:-1] or "q"])
            if near not in self.labels and near[-1:].isalnum() and near[:1].isalpha():
                return near
        return [f"lbl-{n}", f"sec_{n}", f"x{n}", f"eqn-main-{n}", f"é{n}", f"thm.{n}", self.r.choice(["a<b>{}", 'q"{}"', 'it\'s"{}"',  "it's{}", "R&D{}", "&amp;{}"]).format(n)][style] + ("-long" * self.r.randint(5, 40) if self.chance(.01) else "")

    def meta(self, node, label=None, types=True, nonum=False):
        p = self.p
        if self.chance(p["p_label"] if label is None else label):
            lb = self.new_label()
            node.a["label"] = lb
            self.labels[lb] = node
        if types and self.chance(p["p_types"]):
            node.a["types"] = self.r.sample(["important", "main", "t1", "t2", "small-eq", "q_r", "T1", "naïve", "x-1-2"], self.r.choice([1, 1, 2, 2, 3, 3, 5]))
        if nonum and self.chance(p["p_nonum"]):
            node.a["nonum"] = True
        if p["p_reftext"] and node.get("label") and self.chance(p["p_reftext"]):
            inline = node.kind in INLINE_META
            t = self.r.choice(["Thing", "the main result", self.word(True), self.shown(1, 3, "%$`*/#" if inline else ":%$`*/#")])
            if not inline and self.chance(.3):
                t += self.r.choice([" {nodeclass}", " {", " }", " {x}", " {number", " {number[x]}", " {nodeclass[y]}", " {0}", " {number.real.x}"]
                                   + [" {number}", " {nodeclass} {number}"] * (not node.get("nonum")))   # known finding
            node.a["reftext"] = t
        if p["p_icon"] and node.kind in ICONED and self.chance(p["p_icon"]):
            node.a["icon"] = self.r.choice(ICONS)
        return node

    # -- inline -------------------------------------------------------------
    GLUES = {"strong", "emph", "span", "math", "construct", "ref", "cite", "url", "prev", "previous"}

    def inlines(self, depth=2, ctx=(), lo=None, hi=None):
        """List of inline nodes; always has words; text strings separate the others."""
        r = self.r
        k = r.randint(lo, hi) if lo is not None else self.between(self.p["inlines"])
        if self.chance(self.p["p_big"]):
            k += r.randint(5, 25)
        if self.full_up():
            k = 1
        out = []
        for _ in range(k):
            kind = self.weighted(self.p["inline_w"])
            if depth <= 0 and kind in ("strong", "emph", "span", "construct", "note", "draft"):
                kind = "words"
            if kind in ctx and kind in ("strong", "emph", "note", "draft", "construct"):
                kind = "words"
            if "bare" in ctx and kind in ("code", "note", "draft"):
                kind = "words"
            out.append(self.inline(kind, depth, ctx))
        # put text between neighbours; sometimes leave two adjacent
        res = []
        for i, x in enumerate(out):
            if x.kind == "words":
                if res and res[-1].kind == "words":
                    res[-1].a["text"] += " " + x.a["text"]
                else:
                    res.append(x)
                continue
            if res and res[-1].kind != "words":
                if not (res[-1].kind in self.GLUES and x.kind in self.GLUES and self.chance(self.p["p_adjacent"])):
                    res.append(M("words", text=self.words(1, 2)))
            res.append(x)
        if not res:
            res = [M("words", text=self.text())]
        # separators: what stands between a node and the one before it
        for i, x in enumerate(res):
            if i == 0:
                x.a["sep"] = ""
                continue
            y = res[i - 1]
            if x.kind == "words" and y.kind != "words":
                # word glued to, punctuated after, or spaced from the inline before it
                c = r.random()
                if c < .3 and y.kind != "qed":
                    pch = r.choice(PUNCT)
                    x.a["text"] = pch + " " + x.a["text"]
                    x.a["sep"] = ""
                else:
                    x.a["sep"] = " "
            elif y.kind == "words":
                x.a["sep"] = " "
                if r.random() < .06 and not y.a["text"].endswith((".", "…")):
                    y.a["text"] += r.choice([" (", " ["])
                    x.a["sep"] = ""
            else:
                x.a["sep"] = " "       # two inline elements: any spacing gives one space
        return res

    def inline(self, kind, depth, ctx):
        r = self.r
        if kind == "words":
            return M("words", text=self.text())
        if kind in ("strong", "emph"):
            return M(kind, self.inlines(depth - 1, ctx + (kind,), 1, 3))
        if kind == "span":
            m = M("span", self.inlines(depth - 1, ctx, 1, 3))
            if self.chance(.5):
                m.a["strong"] = True
            if self.chance(.3):
                m.a["emphas"] = True
            return self.meta(m)
        if kind == "math":
            m = M("math", tex=self.asis(TEX))
            if self.chance(.2):
                self.meta(m)
            return m
        if kind == "code":
            m = M("code", src=self.asis(CODE))
            if self.chance(.2):
                self.meta(m)
            return m
        if kind == "construct":
            kw = r.choice(list(KEYWORD))
            if kw == "qed":
                return M("construct", kw="qed")
            m = M("construct", self.inlines(depth - 1, ctx + (kind,), 1, 3), kw=kw)
            if m.kids[0].kind in ("strong", "emph", "span"):     # known finding: no space after the keyword
                m.kids[0].a["sep"] = " "
                m.kids.insert(0, M("words", text=self.word(), sep=""))
            if kw == "claim" and self.chance(.4):
                self.meta(m)
            return m
        if kind == "ref":
            m = M("ref")
            if self.chance(.35):
                m.a["text"] = self.shown()
            self.refs.append(m)
            return m
        if kind == "url":
            m = M("url", target=r.choice(["https://example.com", "http://a.b/c?d=e", "https://x.org/p#frag",
                                          "https://example.com/~u/x_y"]))
            if self.chance(.6):
                m.a["text"] = self.shown()
            return m
        if kind == "cite":
            m = M("cite")
            self.cites.append(m)
            return m
        if kind in ("note", "draft"):
            m = M(kind, self.inlines(depth - 1, ctx + (kind,), 1, 2))
            return self.meta(m, types=False) if self.chance(.5) else m
        raise AssertionError(kind)

    # -- blocks -------------------------------------------------------------
    def full_up(self):
        return self.n > self.p["cap"]

    def blocks(self, lo, hi, depth, kinds=None):
        out = []
        for i in range(self.r.randint(lo, hi)):
            if self.full_up():
                if i < lo:
                    out.append(self.b_para(0))
                continue
            w = dict(self.p["block_w"])
            if kinds is not None:
                w = {k: v for k, v in w.items() if k in kinds}
            if depth <= 0:
                w = {k: v for k, v in w.items() if k in ("para", "codeblock")}
            if not any(w.values()):
                w = {"para": 1}
            out.append(self.block(self.weighted(w), depth))
        return out

    def block(self, kind, depth):
        return getattr(self, "b_" + kind)(depth)

    def b_para(self, depth=1, mathblocks=True, bare=False):
        m = M("para", self.inlines(2, ("bare",) if bare else ()))
        if mathblocks and self.chance(self.p["p_mathblock"]):
            n = self.r.choice([1, 1, 1, 2, 3]) if self.p["two_mathblocks"] else 1
            parts = [m.kids]
            for i in range(n):
                mb = M("mathblock", tex=self.asis(TEX + ["a \\\\\nb", "\\begin{align}\na\n\\end{align}"], lines=self.r.choice([1, 1, 3])))
                self.meta(mb, nonum=True)
                parts.append([M("claimblock", [mb]) if self.chance(.1) else mb])
                if (i + 1 < n and not self.chance(.15)) or self.chance(.6):
                    parts.append(self.inlines(1))
            m.kids = [x for p in parts for x in p]
        if not bare and self.chance(.15):
            if self.chance(.8):
                self.meta(m)
            if self.chance(.4):
                m.a["title"] = self.shown(1, 4, "%$`*/#")
        return m

    def b_list(self, depth):
        m = M("list", ordered=self.chance(.5))
        for _ in range(self.many(1, 4)):
            it = M("item", self.inlines(2))
            if self.chance(.3):
                self.meta(it)
            m.kids.append(it)
            if depth > 1 and self.chance(.2):
                m.kids.append(self.b_list(depth - 1))
            elif self.chance(.1):
                m.kids.append(self.b_para(0))
        return self.meta(m) if self.chance(.5) else m

    def b_thm(self, depth):
        m = M("thm", self.blocks(1, 3, depth - 1, ("para", "list", "codeblock", "proof")), name=self.r.choice(THM))
        if self.chance(self.p["p_thmtitle"]):
            m.a["title"] = self.title()
        return self.meta(m, nonum=True)

    def b_sketch(self, depth):
        return self.meta(M("sketch", self.blocks(1, 2, 0)))

    def b_proof(self, depth):
        n = self.between(self.p["steps"])
        if self.chance(self.p["p_long"]):
            n += self.r.randint(8, 16)
        m = M("proof", self.between_steps(self.prevs([self.step(self.p["step_depth"] if i < 5 else 1) for i in range(n)])))
        return self.meta(m)

    def between_steps(self, steps, first=0):
        """Some text among the steps of a proof or a subproof (in one without tag: behind the first step)."""
        steps = list(steps)
        while self.chance(self.p["p_between"]):
            b = self.b_para(0) if self.chance(.7) else self.r.choice([self.b_mathblock, self.b_list, self.b_codeblock])(1)
            steps.insert(self.r.randint(first, len(steps)), b)
        return steps

    def prevs(self, steps):
        """Let some steps point back at earlier siblings."""
        for i, st in enumerate(steps):
            while i and self.chance(self.p["p_prev"]):
                n = self.r.randint(1, i)
                form = "prev" if n <= 3 and self.chance(.6) else "previous"
                m = M(form, n=n, to=steps[i - n], sep=" ")
                if form == "previous" and self.chance(.5):
                    m.a["text"] = self.shown()
                where = [k for k in st.kids if k.kind == "para"]
                sub = st.get("sub")
                if sub:
                    where += [k for k in sub.kids if k.kind == "para"]
                for k in st.kids:
                    if k.kind == "list":
                        where += [x for x in k.kids if x.kind == "item"]
                para = self.r.choice(where)
                if para.kids[-1].kind in ("mathblock", "claimblock") or self.chance(.3):
                    para.kids.append(M("words", text=self.words(1, 2), sep=" "))
                para.kids.append(m)
                if self.chance(.4):
                    w = self.words(1, 2)
                    para.kids.append(M("words", text=w, sep=" ") if self.chance(.5) else M("words", text=". " + w, sep=""))
        return steps

    def b_mathblock(self, depth=0):
        return self.meta(M("mathblock", tex=self.asis(TEX, lines=self.r.choice([1, 1, 3]))), nonum=True)

    def b_claimblock(self, depth=0):
        return M("claimblock", [self.b_mathblock()])

    def step(self, depth):
        m = M("step")
        m.kids = [self.b_para(0, mathblocks=self.chance(.5)) for _ in range(self.r.choice([1, 1, 1, 2]))]
        if self.chance(.1):
            m.kids.append(self.b_list(1))
        for k in m.kids:
            k.a.pop("title", None)
        sub = []
        if depth > 1 and self.chance(.45):
            for _ in range(self.many(1, 3)):
                sub.append(self.step(depth - 1))
            tag = self.chance(.5)
            m.a["sub"] = M("subproof", self.between_steps(self.prevs(sub), 0 if tag else 1), explicit=tag)
        elif self.chance(.3):
            m.a["sub"] = M("subproof", self.blocks(1, 2, 0, ("para",)), explicit=True)
        self.meta(m)
        if m.get("sub"):
            m.kids.append(m.a["sub"])
        return m

    def b_figure(self, depth):
        m = M("figure", path=f"assets/fig-{self.r.randint(1, 3)}.{self.r.choice(['png', 'svg', 'jpg'])}")
        if self.chance(.4):
            m.a["scale"] = self.r.choice(["0.5", "2.0", "1.5", ".25"])
        if self.chance(.8):
            m.kids = [M("caption", self.inlines(1, ("bare",)))]
        return self.meta(m)

    def b_table(self, depth):
        m = M("table")
        cols = self.many(1, 4)
        if self.chance(.6):
            m.kids.append(M("thead", [self.row(cols)]))
        m.kids.append(M("tbody", [self.row(cols) for _ in range(self.many(1, 4))]))
        if self.chance(.7):
            m.kids.append(M("caption", self.inlines(1, ("bare",))))
        return self.meta(m)

    def row(self, cols):
        short = cols > 1 and self.chance(.4)
        cells = []
        for _ in range(cols):
            if short:
                cells.append(M("td", [self._sep0(self.r.choice([M("words", text=self.words(1, 3, safe=True)),
                                                                M("math", tex="x_{1}"),
                                                                M("strong", [self._sep0(M("words", text=self.words(1, 2, safe=True)))])]))]))
            else:
                cells.append(M("td", self.inlines(1, ("bare",), 1, 2)))
        return M("tr", cells, short=short)

    @staticmethod
    def _sep0(m):
        m.a["sep"] = ""
        return m

    def b_codeblock(self, depth):
        m = M("codeblock", src=self.asis(CODEBLOCKS, lines=self.r.choice([1, 2, 4])))
        if self.chance(.4):
            m.a["lang"] = self.r.choice(LANGS)
        return self.meta(m)

    def b_algorithm(self, depth):
        w = self.word(True)
        m = M("algorithm", src="\\begin{algorithm}\n\\caption{%s}\n\\begin{algorithmic}\n  \\IF{$p > r$}\n"
              "    \\STATE $q = 1$ \\CALL{Part}{$A, p$}\n  \\ENDIF\n\\end{algorithmic}\n\\end{algorithm}" % w)
        return self.meta(m, types=False)

    # -- the manuscript -----------------------------------------------------
    def section(self, level):
        p = self.p
        m = M("section", self.blocks(*p["blocks"], depth=p["depth"]), level=level, title=self.title())
        if self.chance(.15):
            m.kids = []
        if self.chance(p["p_many"]) and not self.full_up():
            kinds = [k for k in ("thm", "mathblock", "figure", "proof", "para", "table", "algorithm", "list", "codeblock", "sketch") if p["block_w"].get(k)]
            kind = self.r.choice(kinds) if kinds else "para"
            m.kids += [self.block(kind, 1) for _ in range(self.r.randint(9, 13))]
        self.meta(m, nonum=True)
        if (m.get("label") or m.get("types")) and not m.get("nonum") and self.chance(p["p_untitled"]):    # the grammar wants some line of metadata
            m.a["title"] = ""
        n = self.many(*(p["subs"] if level == 2 else p["subsubs"])) if level < 4 else 0
        if self.chance(.35):
            n = 0
        m.kids += self.row_of_sections(n, level + 1)
        return m

    def row_of_sections(self, n, level):
        if n < 9:
            out = []
            for _ in range(n):
                if not self.full_up():
                    out.append(self.section(level))
            return out
        old, self.p = self.p, dict(self.p, subs=(0, 0), subsubs=(0, 0), blocks=(0, 1), inlines=(1, 2), depth=0, p_many=0)
        out = [self.section(level) for _ in range(n)]
        self.p = old
        return out

    def doc(self):
        p, r = self.p, self.r
        d = M("doc")
        if self.chance(p["p_title"]):
            d.a["title"] = self.title()
        if self.chance(p["p_doclabel"]):
            d.a["label"] = self.new_label()
            self.labels[d.a["label"]] = d
        if self.chance(.2):
            d.a["date"] = "2022-03-29"
        if self.chance(p["p_author"]):
            for _ in range(self.many(1, r.choice([1, 2, 3]))):
                a = M("author")
                fields = dict(name=self.shown(), affiliation=self.shown(2, 4),
                              email=self.address())
                for k in r.sample(list(fields), r.randint(1, 3)):
                    a.a[k] = fields[k]
                d.kids.append(self.meta(a, types=False) if self.chance(.3) else a)
        if self.chance(p["p_abstract"]):
            a = M("abstract", [self.b_para(0, mathblocks=False) for _ in range(r.randint(1, 3))])
            for k in a.kids:
                k.a.pop("title", None)
            if self.chance(.5):
                a.a["keywords"] = [self.shown(1, 2, "%$`*/#") for _ in range(self.many(1, 4))]
            if self.chance(.4):
                a.a["msc"] = [r.choice(["05C50", "05C82", "15A18"]) for _ in range(self.many(1, 3))]
            if self.chance(.3):
                self.meta(a, types=False)
            d.kids.append(a)
        if self.chance(p["p_toc"]):
            if not d.kids:                      # the grammar wants something before the mark
                d.kids.append(self.b_para(0))
            d.kids.append(M("toc"))
        pre = self.blocks(*p["pre_blocks"], depth=p["depth"])
        d.kids += pre
        if pre and any(k.kind == "toc" for k in d.kids) and self.chance(.12):
            d.kids.append(M("toc2"))            # a second table of contents is left out
        d.kids += self.row_of_sections(self.many(*p["sections"]), 2)
        if self.chance(p["p_appendix"]):
            d.kids.append(M("appendix"))
            d.kids += self.row_of_sections(r.randint(26, 30) if self.chance(.015) and not self.full_up() else max(1, self.many(1, 3)), 2)
        if self.chance(p["p_bib"]) and not (d.kids and d.kids[-1].kind == "appendix"):
            d.kids.append(self.bib())
        if not d.kids:
            d.kids.append(self.b_para())
        kids = []
        for k in d.kids:    # the grammar: no *strong*, /emphasis/, $, $$ or ``` right after the mark
            if kids and kids[-1].kind in ("toc", "toc2"):
                if k.kind == "para" and k.kids[0].kind in ("strong", "emph", "math", "code"):
                    k.kids[0].a["sep"] = " "
                    k.kids.insert(0, M("words", text=self.word(True), sep=""))
                elif k.kind in ("codeblock", "mathblock"):
                    kids.append(M("para", [M("words", text=self.word(True), sep="")]))
            kids.append(k)
        d.kids = kids
        self.finish(d)
        return d

    def bib(self):
        b = M("bib")
        for _ in range(self.many(*self.p["bib"])):
            kind = self.r.choice(["book", "article"])
            it = M("bibitem", bkind=kind, author=self.value(), title=self.value(1, 4))
            lb = f"{self.word(True)}".encode("ascii", "ignore").decode() or "k"
            lb = f"{lb}x{len(b.kids)}"
            it.a["label"] = lb
            if self.chance(.9):
                it.a["year"] = str(self.r.randint(1900, 2024))
            if kind == "article" and self.chance(.85):
                it.a["journal"] = self.value()
            if kind == "book" and self.chance(.85):
                it.a["publisher"] = self.value()
            if self.chance(.4):
                it.a["doi"] = f"10.{self.r.randint(1000, 9999)}/" + self.r.choice(
                    ["abc.{n}", "abc.{n}", "(SICI)1097-0118(199708)25:4<295::AID-JGT{n}>3.0.CO;2-C", "S0002-9939-02-0{n}-1",
                     "j_a&b.{n}", "x{n}>y", "978-3-{n}_4"]).format(n=self.n)
            it.a["unshown"] = [(k, str(self.r.randint(1, 99))) for k in ("volume", "number", "edition") if self.chance(.15)]
            b.kids.append(it)
        return b

    DUPKINDS = {"thm", "section", "list", "item", "proof", "figure", "table", "step", "mathblock", "span", "codeblock"}

    def duplicates(self, d):
        """Give some later elements a label that is already taken: the first one keeps it."""
        if not self.chance(self.p["p_dup"]):
            return
        nodes = list(d.walk())
        taken = [(i, m) for i, m in enumerate(nodes) if m.get("label") and m.kind not in ("ref", "bibitem")]
        for _ in range(self.r.randint(1, 3)):
            if not taken:
                return
            i, m = self.r.choice(taken)
            later = [x for x in nodes[i + 1:] if x.kind in self.DUPKINDS and not x.get("label")]
            if later:
                self.r.choice(later).a["srclabel"] = m.a["label"]

    def finish(self, d):
        r = self.r
        self.missing = []
        self.labels = {m.a["label"]: m for m in d.walk() if m.get("label") and m.kind not in ("ref", "bibitem")}
        self.duplicates(d)
        number(d)
        bibs = [m for m in d.walk() if m.kind == "bibitem"]
        drop = set()
        for c in self.cites:
            if self.chance(self.p["p_unknown"]):
                c.a["labels"] = ["nolabel-" + self.word(True)]
                if self.missing and self.chance(.3):
                    c.a["labels"] = [r.choice(self.missing)]
                self.missing.append(c.a["labels"][0])
                while self.chance(.35):
                    c.a["labels"].append("nolabel-" + self.word(True))
                if bibs and self.chance(.5):
                    c.a["labels"].insert(r.randint(0, len(c.a["labels"])), r.choice(bibs).a["label"])
            elif bibs:
                k = min(len(bibs), r.choice([1, 1, 1, 2, 3, 3 if len(bibs) < 9 else 30]))
                c.a["labels"] = [b.a["label"] for b in r.sample(bibs, k)]
                if self.chance(.015):           # a long one; entries may come more than once
                    c.a["labels"] += [r.choice(bibs).a["label"] for _ in range(r.randint(8, 12))]
                if self.chance(.06):
                    c.a["labels"].insert(r.randint(0, k), r.choice(c.a["labels"]))
            else:
                drop.add(id(c))
                continue
            by = {b.a["label"]: b for b in bibs}
            c.a["targets"] = [by.get(lb) for lb in c.a["labels"]]
        named = [(lb, m) for lb, m in self.labels.items()]
        deflt = [(lb, m) for lb, m in named if not m.get("nonum") and m.kind != "doc"]
        crowd = self.chance(.05)
        for f in self.refs:
            if self.chance(self.p["p_unknown"]):
                f.a["label"] = "nolabel-" + self.word(True)
                if self.missing and self.chance(.3):
                    f.a["label"] = r.choice(self.missing)
                self.missing.append(f.a["label"])
                f.a["unknown"] = True
                continue
            pool = named if f.get("text") else deflt
            if not pool:
                drop.add(id(f))
                continue
            f.a["label"], f.a["to"] = pool[-1] if crowd else r.choice(pool)
        for m in d.walk():
            for i, k in enumerate(m.kids):
                if id(k) in drop:
                    m.kids[i] = M("words", text=self.word(True), sep=k.a["sep"])
            # merging of words nodes that the replacement made adjacent is harmless


# ---------------------------------------------------------------------------
# Numbering: the reference.
# ---------------------------------------------------------------------------
def number(doc):
    """Number every numbered element from the documented rules.

    Sections count through the manuscript, subsections through their section, and so on.
    Theorem-like environments share one count, equations and figures have their own; all
    of these restart with every numbered section and carry its number.  Tables and
    algorithms and bibliography entries count through the manuscript.  Sections behind the
    appendix mark carry letters.  Steps count among their sibling steps.
    """
    st = dict(sec=0, app=None, thm=0, eq=0, fig=0, tab=0, alg=0, bib=0, secnum=None, insec=False, sub=0, subsub=0)

    def visit(m, sec, sub):
        k = m.kind
        if k == "appendix":
            st["app"] = 0
        elif k == "section":
            if m.a["level"] == 2:
                if not m.get("nonum"):
                    if st["app"] is not None:
                        n = st["app"]
                        st["app"] += 1
                        s = ""
                        n += 1
                        while n > 0:
                            n, rem = divmod(n - 1, 26)
                            s = LETTERS[rem] + s
                        m.number = s
                        m.a["appendix"] = True
                    else:
                        st["sec"] += 1
                        m.number = st["sec"]
                    m.full = str(m.number)
                    st.update(thm=0, eq=0, fig=0, sub=0)
                sec, sub = m, None
            elif m.a["level"] == 3:
                if not m.get("nonum"):
                    st["sub"] += 1
                    m.number = st["sub"]
                    m.full = f"{sec.full}.{m.number}" if sec.full else str(m.number)
                    st["subsub"] = 0
                    if st["app"] is not None:
                        m.a["appendix"] = True
                sub = m
            else:
                if not m.get("nonum"):
                    st["subsub"] += 1
                    m.number = st["subsub"]
                    m.full = f"{sub.full}.{m.number}" if sub.full else str(m.number)
                    if st["app"] is not None:
                        m.a["appendix"] = True
        elif k in ("thm", "mathblock", "figure"):
            if not m.get("nonum"):
                c = {"thm": "thm", "mathblock": "eq", "figure": "fig"}[k]
                st[c] += 1
                m.number = st[c]
                m.full = f"{sec.full}.{m.number}" if sec is not None and sec.full else str(m.number)
        elif k == "table":
            st["tab"] += 1
            m.number = st["tab"]
            m.full = str(m.number)
        elif k == "algorithm":
            st["alg"] += 1
            m.number = st["alg"]
            m.full = str(m.number)
        elif k == "bibitem":
            st["bib"] += 1
            m.number = st["bib"]
            m.full = str(m.number)
        for c in m.kids:
            c.up = m
            visit(c, sec, sub)
        if k in ("proof", "subproof"):
            n = 0
            for c in m.kids:
                if c.kind == "step":
                    n += 1
                    c.number = n

    def steps(m, prefix):
        for c in m.kids:
            if c.kind == "step":
                c.full = f"{prefix}.{c.number}" if prefix else str(c.number)
                steps(c, c.full)
            elif c.kind == "proof":
                steps(c, "")
            else:
                steps(c, prefix)
    visit(doc, None, None)
    steps(doc, "")


NODECLASS = {"para": "Paragraph", "item": "Item", "span": "Span", "math": "Math", "code": "Code", "note": "Note",
             "draft": "Draft", "construct": "Construct", "figure": "Figure", "table": "Table",
             "algorithm": "Algorithm", "codeblock": "CodeBlock", "proof": "Proof", "sketch": "Sketch",
             "abstract": "Abstract", "author": "Author", "doc": "Manuscript", "mathblock": "MathBlock",
             "step": "Step", "bibitem": "Bibitem"}


def node_class(m):
    if m.kind == "thm":
        return THM_CLASS[m.a["name"]].capitalize()
    if m.kind == "list":
        return "Enumerate" if m.a["ordered"] else "Itemize"
    if m.kind == "section":
        return {2: "Section", 3: "Subsection", 4: "Subsubsection"}[m.a["level"]]
    return NODECLASS[m.kind]


def reftext(m):
    """What a reference to m shows when the author gives it no text."""
    n = m.full or ""
    if m.get("reftext"):
        cls = "Appendix" if m.kind == "section" and m.get("appendix") else node_class(m)
        t = m.a["reftext"]
        if not re.search(r"[{}]", re.sub(r"\{(nodeclass|number)\}", "", t)):     # any other brace is part of the text
            t = t.replace("{nodeclass}", cls).replace("{number}", n)
        return t.strip()
    k = m.kind
    if k == "section":
        word = "Appendix" if m.get("appendix") and m.a["level"] == 2 else "Section"
        return f"{word} {n}".strip()
    if k == "mathblock":
        return f"({n})"
    if k == "step":
        return f"Step ⟨{n}⟩"
    if k == "codeblock":
        return "Code Listing"
    if k == "bibitem":
        return n
    return f"{node_class(m)} {n}".strip()
