import random
from . import base, biglex, genre as G, rex


def main():
    chk = base.Check("C01")
    rnd = random.Random("C01-%d" % base.SEED)
    cases = []
    for n, f in enumerate(rex.HAND):
        t = f()
        cases.append({"id": "hand%d" % n, "tree": t, "alph": G.ALPH["abc"] if n < 20 else "ab01.*/é☃"})
    n = base.scale(170, 1500)
    for i, (t, a) in enumerate(rex.random_trees(rnd, n, ["tiny", "tiny", "abc", "word", "mix", "ws", "uni", "punct"])):
        cases.append({"id": "rnd%d" % i, "tree": t, "alph": a})
    for i, (t, a) in enumerate(rex.random_trees(rnd, base.scale(10, 60), ["abc", "tiny"], maxleaves=60, depth=6)):
        cases.append({"id": "big%d" % i, "tree": t, "alph": a})
    for cid, t, a in biglex.patterns(rnd, base.scale(1, 8)):
        cases.append({"id": cid, "tree": t, "alph": a})
    cases += rex.small(rnd, base.scale(90, 8000))
    for c in cases:
        c["text"] = G.pr(c["tree"], rnd)
    rex.run_regex_cases(chk, cases, "language", base.scale(30, 80), base.scale(14, 30), rnd)
    chk.assumptions = ["regex-syntax parses a pattern text to the expression it was printed from"]
    chk.model("RegexModel", base.scale("23", "33"))
    return chk.finish()
