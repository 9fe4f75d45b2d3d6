"""Patterns outside the supported notation are refused."""
import random
from . import base, genre as G, gram as R, lalrc

COUNTS = ["{0}", "{1}", "{2}", "{3}", "{0,}", "{1,}", "{2,}", "{0,1}", "{1,1}", "{0,0}", "{1,2}", "{2,5}", "{0,3}", "{2}?", "{1,}?", "{0,1}?", "{12,13}"]
ANCHORS = ["^", "$", "(?m:^)", "(?m:$)", "(?m)^", "(^)", "(?:$)", "\\A", "\\z"]
WORDS = ["\\b", "\\B", "(?-u:\\b)", "(\\b)"]
BAD = ["(", ")", "a)", "(a", "[", "[a", "*", "+a", "?", "a|*", "[b-a]", "(?P<n>", "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "(?P=n)", "(?<n", "a**b(", "{2}", "a{", "a{2", "a{3,2}",
       "a{,2}", "(?z)", "(?", "[a-[:digit:]]", "(?i", "[]", "[^]", "(?P<n>a)(?P<n>b)", "[\\\\", "(\\\\", "[[:alpha:]", "[a-z&&[b]", "(?i:a", "(?P<0>a)", "(?P<>a)", "a{1", "{", "a{99999999999}"]


def nodes(t):
    out = [t]
    for x in t["xs"]:
        out += nodes(x)
    return out


def spoil(t, rnd, plain):
    """A copy of t with one construct put in that is not supported."""
    t = G.copy(t)
    n = rnd.choice(nodes(t))
    old = dict(n)
    q = rnd.random()
    ok = lambda ts: [x for x in ts if not plain or "\\" not in x]
    if q < .45:
        new = G.odd("count", rnd.choice(COUNTS), old)
    else:
        b = G.odd("anchor", rnd.choice(ok(ANCHORS))) if q < .8 or plain else G.odd("word", rnd.choice(WORDS))
        r = rnd.random()
        new = b if r < .15 else G.cat(b, old) if r < .5 else G.cat(old, b) if r < .8 else G.alt(old, b) if r < .9 else G.rep(G.cat(b, old), rnd.choice("?*+"))
    n.clear()
    n.update(new)
    return t


def main():
    chk = base.Check("C25")
    rnd = random.Random("C25-%d" % base.SEED)
    core = base.build_bin("core")
    A = lambda plain: G.ALPH[rnd.choice(["tiny", "abc", "word", "mix", "uni"] + ([] if plain else ["punct", "ws"]))]

    def tree(plain, d=3):
        while True:
            t = G.rand_tree(rnd, rnd.choice([0, 1, 1, 2, 2, d]), A(plain), plain)
            try:
                s = G.pr(t, rnd, plain)
            except AssertionError:
                continue
            if s and '"' not in s and (not plain or "\\" not in s) and G.leaves(t) < 40:
                return t

    def text(t, plain):
        for _ in range(50):
            try:
                s = G.pr(t, rnd, plain)
            except AssertionError:
                continue
            if not plain or not set(s) & set('"\\'):
                return s
        return None
    cases, reqs = [], []

    def add(kind, trees, req, show):
        cases.append({"id": "%s%d" % (kind, len(cases)), "res": trees, "show": show})
        reqs.append(req)

    def control():
        return rnd.random() < .2
    # one pattern
    small = [G.odd("count", c, G.ch("a")) for c in COUNTS] + [G.odd("anchor", c) for c in ANCHORS] + [G.odd("word", c) for c in WORDS]
    for i in range(base.scale(300, 5000) + len(small)):
        if i < len(small):
            t = small[i]
        else:
            t = tree(False)
            t = t if control() else spoil(t, rnd, False)
        s = text(t, False)
        add("one", [t], {"op": "regex", "re": s, "inputs": ["", "a", "ab"]}, s)
    # a token list with one of them
    for _ in range(base.scale(120, 1500)):
        ts = [tree(False, 2) for _ in range(rnd.choice([1, 2, 3, 5, 8]))]
        if not control():
            k = rnd.randrange(len(ts))
            ts[k] = spoil(ts[k], rnd, False)
        ss = [text(t, False) for t in ts]
        add("list", ts, {"op": "lexer", "gen": rnd.random() < .5, "inputs": ["a"], "tokens": [{"name": "T%d" % i, "re": s, "val": True} for i, s in enumerate(ss)]}, ss)
    # a grammar with one of them, also where no sentence needs it
    for i in range(base.scale(150, 1500) + len(BAD)):
        ts = {}
        n = rnd.choice([1, 2, 3])
        while len(ts) < n:
            t = tree(True, 2)
            ts[text(t, True)] = t
        if i < len(BAD):
            del ts[rnd.choice(list(ts))]
            ts[BAD[i]] = G.odd("bad", BAD[i])
        elif not control():
            k = rnd.choice(list(ts))
            t = spoil(ts.pop(k), rnd, True)
            ts[text(t, True)] = t
        ps = list(ts)
        rnd.shuffle(ps)
        if None in ts:
            continue
        bodies = ['    "k%d" %s => (0)' % (j, 'r"%s"' % p if rnd.random() < .6 else '<x: r"%s">' % p) for j, p in enumerate(ps)]
        other = ""
        if rnd.random() < .3:
            other = "export U: (any) = [\n" + bodies.pop() + "\n]\n"
        g = "export start S: (any) = [\n" + ",\n".join(['    "w" => (0)'] + bodies) + "\n]\n" + other
        add("gram", list(ts.values()), {"op": "grammar", "text": g, "want": ["gen"] if rnd.random() < .7 else ["lex"], "inputs": ["w"], "lexinputs": ["w"]}, g)
    tl, byid = [], {}
    for c, q, a in zip(cases, reqs, base.record(core, reqs, chk.scratch)):
        byid[c["id"]] = (c, a)
        tl.append({"id": c["id"], "res": c["res"], "got": got(a, q)})
        chk.traces += 1
    r = chk.tlc("RefuseTrace", cases=tl)
    for b in r.bad:
        c, a = byid[b["case"]]
        chk.problem(b["case"], b["why"], {"given": c["show"], "answer": str(a)[:600]})
    chk.cov["refused"] = sum(1 for c in tl if c["got"] == "refused")
    chk.cov["built"] = sum(1 for c in tl if c["got"] == "built")
    for c in cases[:: max(1, len(cases) // 6)]:
        chk.sample({"given": c["show"]})
    chk.assumptions = ["regex-syntax parses a pattern text to the expression it was printed from, and knows which texts are no expressions"]
    return chk.finish()


def got(a, q):
    """refused: no lexer, no tables, no module; built: all of them."""
    if "crash" in a or "hang" in a:
        return "neither: " + str(a)[:80]
    if "badre" in a:
        raise base.ToolError("pattern of the generator not accepted: %s" % a["badre"])
    if q["op"] == "grammar":
        if a.get("stage") == "text":
            return "neither: the grammar text is not read"
        if a.get("stage") == "grammar":
            return "refused"
        if a.get("stage") == "lalr":
            return "neither: a conflict" if "conflict" in a["panic"].lower() else "refused"
        if "lex" in q["want"]:
            return "built" if "ok" in a["lex"] else "refused"
        if "ok" not in a["gen"]:
            return "neither: tables but no module"
        return "built"
    return "refused" if "panic" in a else "built"
