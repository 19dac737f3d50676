from vm.browser import watch

from . import c21

PROPERTY = "C22"
CASES = dict(quick=720, thorough=12000)
RULE = ("Pages of random manuscripts, many of them proofs, brought to life in a small browser with the page's own scripts and used "
        "by a random reader with the keyboard, every other time with the mouse between: sixty keys each. "
        "Non-trivial: five states of the page.")
NEED = {"states checked": 18000, "moves": 4000, "moves that scroll": 1000, "moves among siblings": 1500, "menus by key": 700, "menu moves": 3000,
        "collapsed by key": 300, "collapsed all by key": 40, "tooltips by key": 20, "Enter on Copy link": 60,
        "Enter on Collapse": 3, "Enter on Collapse all": 8, "distinct states of pages": 4000}


def case(env, idx):
    html = c21.page(env)
    if html is None:
        return
    res = watch(env, html, what=env.rng.choice(["keys", "both"]), steps=60)
    env.saw("pages")
    if res and res["states"] >= 5:
        env.distinct(html)
    env.sample = dict(source=env.detail["source"][:400], saw=res and dict(list(res["saw"].items())[:12]))
