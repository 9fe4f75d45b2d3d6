import random
from . import base, gram as R, lalrc

RECURSIVE = {
    "left1": "S -> S a | b", "left2": "S -> A a | b\nA -> S c | d", "left3": "S -> A\nA -> B\nB -> S a | x",
    "cycle2": "S -> A\nA -> S", "cycle2x": "S -> A | x\nA -> S", "selfonly": "S -> S | S S",
    "hidden": "S -> A S | x\nA -> A A | y", "diamond": "S -> A | B\nA -> C x\nB -> C y\nC -> S z | w",
    "chain": "S -> A\nA -> B\nB -> C\nC -> D\nD -> E\nE -> F\nF -> x | S y",
    "back": "S -> A b\nA -> B c | a\nB -> A d | C\nC -> S e | B f",
    "two-scc": "S -> A B\nA -> A x | C\nC -> A y | p\nB -> B z | D\nD -> B w | q",
    "ring5": "A -> B 1 | E 6\nB -> C 2\nC -> D 3\nD -> E 4\nE -> A 5 | z",
    "unprod": "S -> A\nA -> A A", "unprod2": "S -> x | B y\nB -> C\nC -> B z",
}


def ring(rnd, n):
    """A long ring of nonterminals, each starting with the next, with entries at random places."""
    ps = []
    for i in range(n):
        bs = [[R.nt("N%d" % ((i + 1) % n))] + ([R.lit("t%d" % i)] if rnd.random() < .7 else [])]
        if rnd.random() < .3:
            bs.append([R.nt("N%d" % rnd.randrange(n)), R.lit("u%d" % i)])
        if rnd.random() < .3:
            bs.insert(rnd.randrange(2), [R.lit("e%d" % i)])
        ps.append(R.prod("N%d" % i, bs, start=(i == 0)))
    rnd.shuffle(ps)
    return {"prods": ps}


def main():
    chk = base.Check("C08")
    rnd = random.Random("C08-%d" % base.SEED)
    cases = [("rec-" + k, R.parse_simple(t, t.split()[0])) for k, t in RECURSIVE.items()]
    cases += [("ring%d" % i, ring(rnd, rnd.choice([2, 3, 5, 8, 13, 20]))) for i in range(base.scale(30, 200))]
    cases += lalrc.case_set(rnd, base.scale(500, 5000), base.scale(40, 300), base.scale(1, 5))
    cases += lalrc.small(rnd, base.scale(250, None))
    lalrc.run(chk, cases, "first")
    # termination: whatever the grammar, building it answers
    core = base.build_bin("core")
    texts = [R.text_of(g) for _, g in cases]
    bad = 0
    for (cid, g), t, a in zip(cases, texts, base.record(core, [{"op": "grammar", "text": t, "want": ["lalr"]} for t in texts], chk.scratch)):
        o = lalrc.outcome_of(a)
        chk.traces += 1
        if o not in ("tables", "conflict"):
            bad += 1
            chk.problem(cid, o, {"grammar": t})
    chk.cov["constructions_observed_to_end"] = len(cases) - bad
    return chk.finish()
