from vm import furniture, views
from vm.docchecks import run
from vm.drive import profile

PROPERTY = "C09"
CASES = dict(quick=3200, thorough=60000)
RULE = ("Random manuscripts full of structured proofs: nested steps, subproofs with and without an explicit :p:, "
        "back references :prev:/:prev2:/:prev3:/:previous:n, sketches, proofs inside theorems, claims and constructs. "
        "Non-trivial: three steps.")
NEED = {"plain pages compared": 50, "manuscript step": 500, "manuscript prev": 30, "manuscript previous": 30,
        "manuscript subproof": 100, "handrails": 1000}


def case(env, idx):
    r = env.rng
    prof = profile(r, weights=dict(proof=9, sketch=1, thm=4, claimblock=1), steps=r.choice([(1, 3), (2, 6)]),
                   step_depth=r.choice([2, 3, 5]), p_prev=r.choice([.3, .6]), inl=dict(construct=5, ref=3),
                   p_label=r.choice([.3, .8]))
    d = run(env, prof, views.proofs, "proofs", lambda k: k.get("step", 0) < 3,
            stats=("proof", "sketch", "step", "subproof", "prev", "previous", "construct"))
    root = d.page(True)[1]
    furniture.compare(env, d.doc, root, ("what", "items", "number", "id"))
    check_last(env, d)


def check_last(env, d):
    """The last step of a proof, and no other step, carries the mark the tombstone hangs on."""
    want = []
    for m in d.doc.walk():
        if m.kind in ("proof", "subproof"):
            st = [k for k in m.kids if k.kind == "step"]
            for s in st:
                want.append((s.get("label"), m.kind == "proof" and s is st[-1]))
    for hr in (False, True):
        _, root, _ = d.page(hr)
        got = {}
        for e in root.walk():
            if "step" in e.classes and e.id:
                got[e.id] = "last" in e.classes
        for lb, last in want:
            if lb and lb in got and got[lb] != last:
                env.problem(f"step {lb}: last is {got[lb]}, should be {last}")
            env.saw("steps looked at for the last mark")
