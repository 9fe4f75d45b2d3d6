import random
from . import base, genre as G, rex, lexc

LETTERS = "abcdefghijkl"
POINTS = [0, 1, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000,
          0xffff, 0x10000, 0x10fffe, 0x10ffff]


def rand_class(rnd, pts):
    n = rnd.choice([1, 1, 2, 3])
    rs = []
    for _ in range(n):
        a, b = sorted([rnd.choice(pts), rnd.choice(pts)])
        if a < 0xd800 <= b and rnd.random() < .3:
            b = 0xd7ff
        rs.append((a, b))
    neg = rnd.random() < .15 and not any(a == 0 and b == 0x10ffff for a, b in rs)
    return G.cls(rs, neg)


def ok(t):
    """Every class holds at least one character."""
    if t["k"] in ("cls", "ncls"):
        return any(G.in_cls(t, o) for o in POINTS + list(range(0x5e, 0x70)) + [0x1234, 0x20000])
    return all(ok(x) for x in t["xs"])


def overlapping(rnd, n, pts, shape):
    cl = [rand_class(rnd, pts) for _ in range(n)]
    tails = [G.ch(chr(0x41 + i)) for i in range(n)]
    if shape == 0:      # each class shows by the character that follows
        return G.alt(*[G.cat(c, t) for c, t in zip(cl, tails)])
    if shape == 1:      # the same after a loop
        return G.cat(G.rep(G.alt(*[G.copy(c) for c in cl]), "*"), G.ch("!"), G.alt(*[G.cat(c, t) for c, t in zip(cl, tails)]))
    if shape == 2:      # classes in sequence with optional ones in between
        return G.cat(*[c if i % 2 == 0 else G.rep(c, rnd.choice("?*")) for i, c in enumerate(cl)])
    return G.rep(G.alt(*[G.cat(c, G.rep(t, "?")) for c, t in zip(cl, tails)]), "+")


def main():
    chk = base.Check("C02")
    rnd = random.Random("C02-%d" % base.SEED)
    cases = []
    pts_small = [ord(c) for c in "abcdefgh"]
    n = base.scale(150, 1200)
    i = 0
    while len(cases) < n:
        pts = rnd.choice([pts_small, pts_small, pts_small[:5], POINTS])
        t = overlapping(rnd, rnd.choice([2, 3, 3, 4, 4, 5, 6, 8]), pts, rnd.choice([0, 0, 0, 1, 2, 3]))
        if ok(t):
            cases.append({"id": "cls%d" % len(cases), "tree": t, "alph": "abcdefghAB!"})
    # all ways two or three ranges can lie to each other
    four = [0x62, 0x63, 0x64, 0x65, 0x66]
    allr = [(a, b) for a in four for b in four if a <= b]
    pairs = [(x, y) for x in allr for y in allr]
    trip = [(x, y, z) for x in allr for y in allr for z in allr]
    if base.quick():
        pairs = rnd.sample(pairs, 60)
        trip = rnd.sample(trip, 120)
    for j, rs in enumerate(pairs + trip):
        t = G.alt(*[G.cat(G.cls([r]), G.ch(chr(0x41 + k))) for k, r in enumerate(rs)])
        cases.append({"id": "rng%d" % j, "tree": t, "alph": "abcdefgAB"})
    for c in cases:
        c["text"] = G.pr(c["tree"], rnd)
    rex.run_regex_cases(chk, cases, "classes", base.scale(40, 120), base.scale(10, 20), rnd)
    # the same through a token list: each class marked by its own last character
    lc = []
    for j in range(base.scale(50, 400)):
        pts = rnd.choice([pts_small, pts_small, POINTS])
        n = rnd.choice([2, 3, 4, 5, 6])
        toks = []
        while len(toks) < n:
            t = rand_class(rnd, pts)
            if ok(t):
                pre = G.rep(t, rnd.choice("?+*")) if rnd.random() < .3 else t
                toks.append(("T%d" % len(toks), G.cat(pre, G.ch(chr(0x4e00 + len(toks)))), True))
        lc.append(lexc.case("lex%d" % j, toks, "abcdefgh"))
    lexc.prepare(chk, lc, rnd, base.scale(60, 150), base.scale(8, 20))
    lexc.record_lexers(chk, lc)
    lexc.judge(chk, lc, "all")
    chk.assumptions = ["regex-syntax parses a pattern text to the expression it was printed from"]
    return chk.finish()
