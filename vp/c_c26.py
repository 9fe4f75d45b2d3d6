"""Grammars without a start production or with nonterminals that have no alternative are refused."""
import copy, random
from . import base, biggram, gram as R, lalrc


def uses(g):
    return [(b, n) for p in g["prods"] for b in p["bodies"] for n, s in enumerate(b["syms"]) if s["k"] == "nt"]


def reached(g):
    """Names reached from the start, for choosing places only."""
    st = [p["name"] for p in g["prods"] if p["start"]][:1]
    seen = set()
    while st:
        a = st.pop()
        if a not in seen:
            seen.add(a)
            st += [s["v"] for p in g["prods"] if p["name"] == a for b in p["bodies"] for s in b["syms"] if s["k"] == "nt"]
    return seen


def near(rnd, name, g):
    """A name that is not declared, close to one that is."""
    decl = {p["name"] for p in g["prods"]}
    lits = [s["v"] for p in g["prods"] for b in p["bodies"] for s in b["syms"] if s["k"] != "nt"]
    lits = [x for x in lits if x.replace("_", "a").isalnum() and x.isascii() and not x[0].isdigit()]
    cand = [name.upper(), name.lower(), name.swapcase(), name + "s", name + "_", "_" + name, name[:-1], name + name, name + "1", name[0], name.capitalize(), "_",
            "EOF", "Eof", "Epsilon", "epsilon", "S", "start_", "x", "R", "exports", "undefined", "Program"] + lits * 2
    cand = [x for x in cand if x and x not in decl and x not in R.KEYWORDS and not x[0].isdigit()]
    return rnd.choice(cand)


def damage(rnd, g):
    """(kind, a copy of g with one thing missing)"""
    g = copy.deepcopy(g)
    live = reached(g)
    q = rnd.random()
    if q < .12:
        for p in g["prods"]:
            p["start"] = False
        return "nostart", g
    if q < .55:
        u = uses(g)
        if u:
            b, n = rnd.choice(u)
            new = near(rnd, b["syms"][n]["v"], g)
            b["syms"][n] = dict(b["syms"][n], v=new)
            return "rename", g
    if q < .7:
        b = rnd.choice([b for p in g["prods"] for b in p["bodies"]])
        b["syms"].insert(rnd.randrange(len(b["syms"]) + 1), R.nt(near(rnd, rnd.choice(sorted(live)), g)))
        return "insert", g
    names = sorted({p["name"] for p in g["prods"] if not p["start"]})
    if not names:
        p = rnd.choice(g["prods"])
        p["bodies"] = []
        return "emptied", g
    a = rnd.choice(names)
    if q < .85:
        for p in g["prods"]:
            if p["name"] == a:
                p["bodies"] = []
        return "emptied", g
    if q < .95:
        g["prods"] = [p for p in g["prods"] if p["name"] != a] or [dict(g["prods"][0], start=False)]
        return "removed", g
    # what is missing only matters to productions that nothing reaches
    b = copy.deepcopy(rnd.choice(rnd.choice(g["prods"])["bodies"] or [R.prod("x", [[R.lit("a")]])["bodies"][0]]))
    b["syms"].insert(rnd.randrange(len(b["syms"]) + 1), R.nt(near(rnd, a, g)))
    g["prods"].insert(rnd.randrange(len(g["prods"]) + 1), dict(R.prod("unused%d" % rnd.randrange(9), []), bodies=[b]))
    return "unreached", g


def main():
    chk = base.Check("C26")
    rnd = random.Random("C26-%d" % base.SEED)
    core = base.build_bin("core")
    gs = []
    src = [g for _, g in R.classics()]
    for i in range(base.scale(1200, 12000)):
        q = rnd.random()
        g = rnd.choice(src) if q < .15 else R.rand_grammar(rnd, style=rnd.choice(["ll", "ll", "mixed", "left", "unit"])) if q < .6 else R.gen_language(rnd)
        kind = "whole"
        if rnd.random() < .85:
            kind, g = damage(rnd, g)
        gs.append((kind, g))
    for i in range(base.scale(12, 60)):
        g = rnd.choice([lambda: biggram.chain(rnd, rnd.randint(30, 60)), lambda: biggram.records(rnd, 12), lambda: biggram.minipascal(rnd), lambda: biggram.tower(rnd, 8),
                        lambda: biggram.wide(rnd, 100)])()
        gs.append(damage(rnd, g) if i % 6 else ("whole", g))
    reqs = []
    for kind, g in gs:
        reqs.append({"op": "grammar", "text": R.text_of(g, rnd), "want": rnd.choice([["lalr"], ["gen"]]), "inputs": rnd.choice([[], ["a"], [""]])})
    tl, byid = [], {}
    for i, ((kind, g), q, a) in enumerate(zip(gs, reqs, base.record(core, reqs, chk.scratch))):
        cid = "%s%d" % (kind, i)
        byid[cid] = (q["text"], a)
        tl.append({"id": cid, "got": got(a, q),
                   "ast": [{"n": base.codes(p["name"]), "s": p["start"], "bs": [[{"k": s["k"], "v": base.codes(s["v"])} for s in b["syms"]] for b in p["bodies"]]}
                           for p in g["prods"]]})
        chk.traces += 1
        chk.count(kind)
    r = chk.tlc("UsableTrace", cases=tl)
    for b in r.bad:
        text, a = byid[b["case"]]
        chk.problem(b["case"], b["why"], {"grammar": text[:3000], "answer": str(a)[:600]})
    for k in ("refused", "built", "conflict"):
        chk.cov[k] = sum(1 for c in tl if c["got"] == k)
    for c in tl[:: max(1, len(tl) // 6)]:
        chk.sample({"case": c["id"], "grammar": byid[c["id"]][0][:1200], "got": c["got"]})
    return chk.finish()


def got(a, q):
    """refused: no tables and no module; built: tables."""
    if a.get("stage") == "text":
        return "the grammar text is not read"
    if a.get("stage") == "grammar":
        return "refused"
    o = lalrc.outcome_of(a)
    if o == "tables":
        return "built"
    if o == "conflict":
        return "conflict"
    return "refused" if a.get("stage") == "lalr" and "panic" in a else o
