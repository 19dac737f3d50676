
from rsm import app, nodes

from vm.dom import parse
from vm.drive import Doc, QUIET, profile

PROPERTY = "C15"
CASES = dict(quick=2400, thorough=40000)
RULE = ("Odd cases: random histories of 60 operations on a forest of nodes of all classes - append, prepend, replace, remove, "
        "clear, some of them forbidden - with random queries after each. Even cases: the trees of random manuscripts. "
        "Non-trivial: a history with a refused operation, or a manuscript with a reference.")
NEED = {"operations": 10000, "operations refused": 500, "queries": 30000, "trees": 300, "nodes of trees": 20000,
        "nodes on pages": 5000, "reference targets": 300}
CLASSES = [c for c in nodes.all_node_subtypes() if c is not nodes.Node]
INNER = [c for c in CLASSES if issubclass(c, nodes.NodeWithChildren)]
SPECIAL = [nodes.Step, nodes.Proof, nodes.Subproof, nodes.Item, nodes.Itemize, nodes.Enumerate, nodes.Contents, nodes.Caption,
           nodes.Figure, nodes.Table, nodes.Text, nodes.Section, nodes.Subsection, nodes.Theorem, nodes.Lemma]
PARENTS = {nodes.Step: {nodes.Proof, nodes.Subproof, nodes.Step}, nodes.Caption: {nodes.Figure, nodes.Table},
           nodes.Item: {nodes.Itemize, nodes.Enumerate, nodes.Contents}}


def allowed(child, parent):
    for base in type(child).__mro__:
        if base in PARENTS:
            return type(parent) in PARENTS[base]
    return True


def case(env, idx):
    return history(env) if idx % 2 else manuscript(env)


# -- the tree as an abstract data type ---------------------------------------------------------------------------------
class Forest:
    """What the nodes should look like: a dictionary of children and one of parents."""

    def __init__(self, r):
        self.nodes = [r.choice(SPECIAL if r.random() < .6 else CLASSES)() for _ in range(r.randint(4, 22))]
        for i, n in enumerate(self.nodes):
            for key, v in (("label", f"l{i}"), ("types", ["a", f"t{i}"]), ("nonum", True), ("title", f"T {i}"), ("strong", True)):
                if r.random() < .2 and any(key in vars(c).get("newmetakeys", ()) for c in type(n).__mro__):
                    setattr(n, key, v)
        self.kids = {id(n): [] for n in self.nodes}
        self.par = {id(n): None for n in self.nodes}

    def inner(self, n):
        return isinstance(n, nodes.NodeWithChildren)

    def up(self, n):
        out = []
        while (n := self.par[id(n)]) is not None:
            out.append(n)
        return out

    def pre(self, n):
        out, stack = [], [n]
        while stack:
            x = stack.pop()
            out.append(x)
            stack.extend(reversed(self.kids[id(x)]))
        return out

    def put(self, p, i, n):
        self.kids[id(p)].insert(i, n)
        self.par[id(n)] = p

    def take(self, n):
        p = self.par[id(n)]
        if p is not None:
            self.kids[id(p)] = [c for c in self.kids[id(p)] if c is not n]
            self.par[id(n)] = None

    def differs(self):
        for n in self.nodes:
            if n.parent is not self.par[id(n)]:
                return f"parent of a {name(n)} is {name(n.parent)}, should be {name(self.par[id(n)])}"
            a, b = list(n.children), self.kids[id(n)]
            if len(a) != len(b) or any(x is not y for x, y in zip(a, b)):
                return f"children of a {name(n)} are {names(a)}, should be {names(b)}"

    def broken(self):
        """Links that do not match, whoever is whose parent."""
        for n in self.nodes:
            for c in n.children:
                if c.parent is not n:
                    return f"{name(c)} is a child of {name(n)} but its parent is {name(c.parent)}"
            if n.parent is not None and sum(c is n for c in n.parent.children) != 1:
                return f"{name(n)} is not once among the children of its parent {name(n.parent)}"

    def read(self):
        self.kids = {id(n): list(n.children) for n in self.nodes}
        self.par = {id(n): n.parent for n in self.nodes}


def name(n):
    return "None" if n is None else type(n).__name__


def names(ns):
    return [name(n) for n in ns]


def history(env):
    r = env.rng
    f = Forest(r)
    log, refused = [], 0
    env.detail["history"] = log
    for _ in range(60):
        op, args, ok, effect = operation(f, r)
        log.append(f"{op} {args}" + ("" if ok is True else " (refused)" if ok is False else " (unspecified)"))
        try:
            got, exc = op_run(op, args, r), None
        except nodes.RSMNodeError as e:
            got, exc = None, e
        except TypeError as e:
            got, exc = None, e
            if not isinstance(args.b, NoNode):
                env.problem(f"{log[-1]}: {e!r}")
                break
            env.saw("what is no node refused")
        except ValueError as e:
            got, exc = None, e
            if ok is True or op != "remove":
                env.problem(f"{log[-1]}: {e!r}")
                break
        env.saw("operations")
        env.saw(f"operation {op}")
        if ok is True and exc is not None:
            env.problem(f"{log[-1]}: refused: {exc}")
        elif ok is False and exc is None:
            env.problem(f"{log[-1]}: was not refused")
        elif op in ("append", "prepend") and exc is None and got is not args.a:
            env.problem(f"{log[-1]}: returned {got!r}, not the parent")
        if exc is None:
            effect()
        else:
            refused += 1
            env.saw("operations refused")
        if exc is not None and args.many:       # some of the list may have been taken before the refusal
            bad = f.broken()
            f.read()
        else:
            bad = f.differs()
        if bad:
            env.problem(f"after {log[-1]}: {bad}")
        if env.problems:
            break
        for _ in range(3):
            bad = query(env, f, r)
            if bad:
                env.problem(f"after {len(log)} operations: {bad}")
                return
    if refused:
        env.distinct("\n".join(log) + str(names(f.nodes)))


class Args:
    def __init__(self, a, b=None, many=False, as_=list):
        self.a, self.b, self.many, self.as_ = a, b, many, as_

    def __str__(self):
        return f"{name(self.a)}, {names(self.b) if isinstance(self.b, list) else name(self.b)}"


class NoNode:
    def __init__(self, what):
        self.what = what


def operation(f, r):
    """An operation, its arguments, whether it must succeed, and what it should do."""
    n = r.choice(f.nodes)
    op = r.choice(["append"] * 6 + ["prepend"] * 3 + ["replace"] * 4 + ["remove", "remove_self", "clear"])
    if r.random() < .03 and f.inner(n):          # what is no node cannot be put anywhere
        return r.choice(["append", "prepend"]), Args(n, NoNode(r.choice([None, 7, "text", b"text", ["text"], [3], ("a",)]))), False, lambda: None
    if op == "clear" and r.random() < .6:
        op = "append"
    if op in ("append", "prepend"):
        ps = [x for x in f.nodes if f.inner(x)]
        if not ps:
            return "remove_self", Args(n), True, lambda: f.take(n)
        p = r.choice(ps)
        many = r.random() < .4
        cand = [c for c in f.nodes if c is not p and not any(u is c for u in f.up(p))]
        if r.random() < .7:                      # mostly what will succeed
            cand = [c for c in cand if allowed(c, p) and (f.par[id(c)] is None or op == "prepend" and f.par[id(c)] is p)] or cand
        if not cand:
            return "remove_self", Args(n), True, lambda: f.take(n)
        cs = r.sample(cand, min(len(cand), r.randint(0, 4))) if many else [r.choice(cand)]
        ok = all(allowed(c, p) and (f.par[id(c)] is None or op == "prepend" and f.par[id(c)] is p) for c in cs)

        def effect():
            for c in (cs if op == "append" else reversed(cs)):
                f.take(c)
                f.put(p, len(f.kids[id(p)]) if op == "append" else 0, c)
        return op, Args(p, cs if many else cs[0], many, r.choice([list, tuple, iter])), ok, effect
    if op == "replace":
        if r.random() < .8:
            n = r.choice([x for x in f.nodes if f.par[id(x)] is not None] or [n])
        p = f.par[id(n)]
        many = r.random() < .5
        root = f.up(n)[-1] if p is not None else None
        cand = [c for c in f.nodes if c is not n and c is not root]
        if r.random() < .7:
            cand = [c for c in cand if f.par[id(c)] is None and (p is None or allowed(c, p))] or cand
        cs = r.sample(cand, min(len(cand), r.randint(0, 3))) if many else [r.choice(cand or [n])]
        if many and r.random() < .4:
            cs.insert(r.randint(0, len(cs)), n)
        ok = p is not None and all(c is n or f.par[id(c)] is None and allowed(c, p) for c in cs)

        def effect():
            i = [c is n for c in f.kids[id(p)]].index(True)
            f.take(n)
            for k, c in enumerate(cs):
                f.put(p, i + k, c)
        return op, Args(n, cs if many else cs[0], False, r.choice([list, tuple, iter])), ok, effect
    if op == "remove":
        p = r.choice([x for x in f.nodes if f.inner(x)] or [None])
        if p is None:
            return "remove_self", Args(n), True, lambda: f.take(n)
        if f.kids[id(p)] and r.random() < .8:
            n = r.choice(f.kids[id(p)])
        return op, Args(p, n), f.par[id(n)] is p, lambda: f.take(n)
    if op == "clear":
        p = r.choice([x for x in f.nodes if f.inner(x)] or [None])
        if p is not None:
            return op, Args(p), True, lambda: [f.take(c) for c in list(f.kids[id(p)])]
    return "remove_self", Args(n), True, lambda: f.take(n)


def op_run(op, args, r):
    b = args.as_(args.b) if isinstance(args.b, list) else args.b
    if isinstance(b, NoNode):
        b = b.what
    if op == "append":
        return args.a.append(b)
    if op == "prepend":
        return args.a.prepend(b)
    if op == "replace":
        return args.a.replace_self(b)
    if op == "remove":
        return args.a.remove(b)
    if op == "clear":
        return args.a.clear()
    return args.a.remove_self()


def query(env, f, r):
    n = r.choice(f.nodes)
    cls = r.choice([type(r.choice(f.nodes)), r.choice(type(r.choice(f.nodes)).__mro__[:-1]), r.choice(CLASSES)])
    many = r.random() < .2
    c = (cls, r.choice(CLASSES)) if many else cls
    exact = c if many else (c,)
    kids, par = f.kids[id(n)], f.par[id(n)]
    env.saw("queries")
    what = r.choice(["traverse", "class", "condition", "first", "last", "prev", "next", "ancestor", "sexp", "id", "repr"])
    env.saw(f"query {what}")

    def same(got, want):
        got = list(got)
        if len(got) != len(want) or any(x is not y for x, y in zip(got, want)):
            return f"{what} of {name(n)} ({c}) gives {names(got)}, should be {names(want)}"

    if what == "traverse":
        return same(n.traverse(), f.pre(n))
    if what == "class":
        return same(n.traverse(nodeclass=cls), [x for x in f.pre(n) if isinstance(x, cls)])
    if what == "condition":
        pick = {id(x) for x in f.nodes if r.random() < .5}
        return same(n.traverse(condition=lambda x: id(x) in pick), [x for x in f.pre(n) if id(x) in pick])
    if what in ("first", "last"):
        hits = [(x, i) for i, x in enumerate(kids) if isinstance(x, c)]
        want = (hits[0 if what == "first" else -1]) if hits else (None, None)
        got = (n.first_of_type if what == "first" else n.last_of_type)(c, return_idx=True)
        plain = (n.first_of_type if what == "first" else n.last_of_type)(c)
        if got[0] is not want[0] or got[1] != want[1] or plain is not want[0]:
            return f"{what} child of {name(n)} of type {c}: {got}, {plain}; should be {want}"
    if what in ("prev", "next"):
        sibs = f.kids[id(par)] if par is not None else [n]
        i = [x is n for x in sibs].index(True)
        line = sibs[:i][::-1] if what == "prev" else sibs[i + 1:]
        which = r.choice([None, "self", cls])
        want = [x for x in line if which is None or isinstance(x, type(n) if which == "self" else which)]
        got = (n.prev_sibling if what == "prev" else n.next_sibling)(which)
        if got is not (want[0] if want else None):
            return f"{what} sibling of {name(n)} of type {which}: {got}"
    if what == "ancestor":
        want = [x for x in f.up(n) if type(x) in exact]
        got = n.first_ancestor_of_type(c)
        if got is not (want[0] if want else None):
            return f"first ancestor of {name(n)} of type {c}: {got}; should be {want[:1]}"
    if what == "id":
        for k, x in enumerate(r.sample(f.nodes, len(f.nodes))):
            x.nodeid = k
        t = r.choice(f.nodes)
        want = t if any(x is t for x in f.pre(n)) else None
        if n.get_child_by_id(t.nodeid) is not want:
            return f"get_child_by_id finds {n.get_child_by_id(t.nodeid)}, should be {want}"
    if what == "repr":
        got = repr(n)
        short = got[:got.find("[")] if "[" in got and kids else got
        if not got.startswith(name(n) + "(") or not got.endswith(")") or str(n) != got:
            return f"{name(n)} says it is {got}"
        if kids and not got.endswith("[" + ", ".join(names(kids)) + "])") and not isinstance(n, nodes.Text):
            return f"{name(n)} says it is {got}, its children are {names(kids)}"
        if not kids and not any(k in got for k in ('("',)) and f"parent={name(par)}" not in short:
            return f"{name(n)} says it is {got}, its parent is {name(par)}"
        if n != n or n == name(n):
            return f"{name(n)} is not equal to itself, or is to a string"
    if what == "sexp":
        tab = r.randint(0, 4)
        meta, skip = r.random() < .4, r.choice([None, {"label"}, ["types"], {"reftext", "nonum"}])
        got = n.sexp(tab_width=tab, meta=meta, ignore_meta_keys=skip)

        def show(x, d):
            return "\n".join([" " * d * tab + "(" + name(x) + (" " + metas(x, skip) if meta else "")]
                             + [show(y, d + 1) for y in f.kids[id(x)]]) + ")"
        if got != show(n, 0):
            return f"sexp of {name(n)}:\n{got}\nshould be\n{show(n, 0)}"


def metas(n, skip):
    """What was said about a node: every key its class and the classes it is built on know, that has a value."""
    keys = {k for c in type(n).__mro__ for k in vars(c).get("newmetakeys", ())}
    return "{ " + ", ".join(f":{k}: {getattr(n, k)}" for k in sorted(keys) if k not in (skip or ()) and getattr(n, k)) + " }"


# -- the trees of manuscripts -------------------------------------------------------------------------------------------
def manuscript(env):
    r = env.rng
    d = Doc(env, profile(r, p_label=r.choice([.3, .9]), p_unknown=r.choice([0, .1]), p_dup=r.choice([0, .3])))
    a = app.ProcessorApp(plain=d.src, loglevel=QUIET, handrails=True)
    html = a.run()
    tree = a.transformer.tree
    lines = [x.encode() for x in d.src.split("\n")]
    env.saw("trees")
    seen, order, stack = set(), [], [(tree, None)]
    while stack:                                                 # children before the code's own traverse
        n, p = stack.pop()
        order.append(n)
        if id(n) in seen:
            return env.problem(f"{name(n)} is twice in the tree")
        seen.add(id(n))
        if n.parent is not p:
            env.problem(f"parent of a {name(n)} is {name(n.parent)}, should be {name(p)}")
        if p is not None and not allowed(n, p):
            env.problem(f"{name(n)} in {name(p)}")
        stack.extend((c, n) for c in reversed(n.children))
    env.saw("nodes of trees", len(order))
    labels = {}
    refs = 0
    for i, n in enumerate(order):
        if n.nodeid != i:
            env.problem(f"{name(n)} number {i} in the tree has the node id {n.nodeid}")
        if n.label:
            if n.label in labels:
                env.problem(f"label {n.label} is on a {name(labels[n.label])} and a {name(n)}")
            labels[n.label] = n
        if name(n).startswith("Pending"):
            env.problem(f"a {name(n)} is left in the tree")
        targets = [n.target] if isinstance(n, nodes.Reference) else list(n.targets) if isinstance(n, nodes.Cite) else []
        for t in targets:
            refs += 1
            env.saw("reference targets")
            if id(t) not in seen and not isinstance(t, nodes.UnknownBibitem):
                env.problem(f"the target of a {name(n)} is a {name(t)} outside the tree")
        up, rails = n.parent, 0
        while up is not None:
            rails += has_rail(up)
            up = up.parent
        if n.handrail_depth != rails and not isinstance(n, nodes.Statement):
            env.problem(f"a {name(n)} has handrail depth {n.handrail_depth} and {rails} ancestors with a handrail")
        s, e = tuple(n.start_point), tuple(n.end_point)
        if s != (-1, -1):
            env.saw("positions")
            bad = misplaced(n, s, e, lines)
            if bad:
                env.problem(f"{name(n)} from {s} to {e}: {bad}")
    root, _ = parse(html)
    prev = -1
    for e in root.walk():
        k = e.attrs.get("data-nodeid")
        if k is None:
            continue
        env.saw("nodes on pages")
        if not k.isdigit() or int(k) >= len(order):
            env.problem(f"the page has an element for node {k}, the tree has {len(order)}")
            break
        n = order[int(k)]
        if n.label and e.id != n.label:
            env.problem(f"the element of node {k} has the id {e.id}, the {name(n)} has the label {n.label}")
        if tree.get_child_by_id(int(k)) is not n:
            env.problem(f"get_child_by_id({k}) is not node {k}")
    def line(n, depth):
        return "\n" + "  " * depth + "(" + name(n) + " " + metas(n, None)
    text, stack = "", [(tree, 0)]
    while stack:
        n, depth = stack.pop()
        if n is None:
            text += ")"
            continue
        text += line(n, depth)
        stack.append((None, 0))
        stack.extend((c, depth + 1) for c in reversed(n.children))
    got = tree.sexp(meta=True)
    if got != text[1:]:
        i = next((i for i, (x, y) in enumerate(zip(got, text[1:])) if x != y), min(len(got), len(text) - 1))
        env.problem(f"the tree is written down as ...{got[max(0, i - 60):i + 60]!r}, should be ...{text[1:][max(0, i - 60):i + 60]!r}")
    if refs:
        env.distinct(d.src)


def has_rail(n):
    return bool(type(n).has_handrail)


def misplaced(n, s, e, lines):
    """A node knows where it stands in the source: inside its parent, after the nodes before it, around its label."""
    if not (0 <= s[0] < len(lines) and 0 <= s[1] <= len(lines[s[0]]) and s <= e <= (len(lines), 0)):
        return "outside the source"
    p, b = n.parent, n.prev_sibling()
    if p is not None and p.start_point != (-1, -1) and not (tuple(p.start_point) <= s and e <= tuple(p.end_point)):
        return f"outside its parent, a {name(p)} from {p.start_point} to {p.end_point}"
    if b is not None and b.start_point != (-1, -1) and not tuple(b.end_point) <= s:
        return f"before the end of its previous sibling, a {name(b)} until {b.end_point}"
    if n.label and not isinstance(n, nodes.Text):
        part = lines[s[0]:e[0] + 1]
        part[-1] = part[-1][:e[1]]
        part[0] = part[0][s[1]:]
        if n.label.encode() not in b"\n".join(part):
            return f"its label {n.label} is not there"
