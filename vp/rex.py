"""Cases over single patterns, shared by C01 and C02."""
import random
from . import base, genre as G

HAND = [
    # (tree builder, alphabet)
    lambda: G.eps(),
    lambda: G.rep(G.eps(), "*"),
    lambda: G.rep(G.eps(), "+"),
    lambda: G.alt(G.eps(), G.ch("a")),
    lambda: G.alt(G.ch("a"), G.eps()),
    lambda: G.alt(G.eps(), G.eps()),
    lambda: G.cat(G.eps(), G.ch("a"), G.eps()),
    lambda: G.rep(G.alt(G.eps(), G.ch("a")), "*"),
    lambda: G.rep(G.rep(G.ch("a"), "?"), "+"),
    lambda: G.rep(G.rep(G.ch("a"), "*"), "*"),
    lambda: G.rep(G.rep(G.ch("a"), "+"), "?"),
    lambda: G.rep(G.cat(G.rep(G.ch("a"), "*"), G.rep(G.ch("b"), "*")), "*"),
    lambda: G.cat(G.rep(G.alt(G.ch("a"), G.ch("b")), "*"), G.lit("abb")),
    lambda: G.rep(G.alt(G.lit("ab"), G.lit("aab"), G.ch("b")), "+"),
    lambda: G.cat(G.rep(G.lit("ab"), "?"), G.rep(G.lit("ba"), "*"), G.rep(G.ch("a"), "+")),
    lambda: G.alt(G.cls([(0x61, 0x66)]), G.cls([(0x63, 0x68)]), G.cls([(0x66, 0x66)])),
    lambda: G.alt(G.cat(G.cls([(0x61, 0x63)]), G.ch("x")), G.cat(G.cls([(0x61, 0x7a)]), G.ch("y"))),
    lambda: G.cat(G.cls([(10, 10)], True), G.cls([(0x61, 0x61)], True)),
    lambda: G.cat(G.ch('"'), G.rep(G.cls([(10, 10)], True), "*"), G.ch('"')),
    lambda: G.cat(G.lit("/*"), G.rep(G.alt(G.cls([(42, 42)], True), G.cat(G.rep(G.ch("*"), "+"), G.cls([(42, 42), (47, 47)], True))), "*"), G.rep(G.ch("*"), "+"), G.ch("/")),
    lambda: G.cls([(0, 0x10ffff)]),
    lambda: G.cls([(0x10ffff, 0x10ffff)]),
    lambda: G.cls([(0, 0)]),
    lambda: G.rep(G.cls([(0xd7ff, 0xd7ff), (0xe000, 0xe000)]), "+"),
    lambda: G.cat(G.lit("é"), G.rep(G.lit("☃😀"), "*"), G.lit("ß")),
    lambda: G.cat(G.rep(G.cls([(0x30, 0x39)]), "+"), G.rep(G.cat(G.ch("."), G.rep(G.cls([(0x30, 0x39)]), "+")), "?")),
    lambda: G.cat(G.cls([(0x61, 0x7a), (0x41, 0x5a), (0x5f, 0x5f)]), G.rep(G.cls([(0x61, 0x7a), (0x41, 0x5a), (0x5f, 0x5f), (0x30, 0x39)]), "*")),
    lambda: G.alt(*[G.lit(x) for x in ("if", "else", "elif", "end", "e", "i", "in", "int")]),
    lambda: G.rep(G.alt(G.lit("aa"), G.lit("aaa")), "+"),
    lambda: G.cat(G.rep(G.ch("a"), "*"), G.rep(G.ch("a"), "*"), G.ch("a"), G.rep(G.ch("a"), "?"), G.rep(G.ch("a"), "?")),
    lambda: G.cat(G.rep(G.alt(G.ch("a"), G.ch("b")), "*"), G.ch("a"), *[G.alt(G.ch("a"), G.ch("b")) for _ in range(4)]),
    lambda: G.alt(G.cls([(0x62, 0x64), (0x66, 0x68)]), G.cls([(0x61, 0x69)]), G.cls([(0x64, 0x66)])),
    lambda: G.cat(G.rep(G.alt(G.eps(), G.lit("a")), "+"), G.alt(G.lit("b"), G.eps())),
]


def tree_ok(t, maxleaves):
    return G.leaves(t) <= maxleaves


def random_trees(rnd, n, alphs, maxleaves=24, depth=4, wide=.12):
    out = []
    while len(out) < n:
        a = G.ALPH[rnd.choice(alphs)]
        t = G.rand_tree(rnd, rnd.choice([1, 2, 2, 3, 3, depth]), a, wide=wide)
        if tree_ok(t, maxleaves):
            out.append((t, a))
    return out


def small_trees(ops):
    """Every expression of exactly 0, .., ops operators over three overlapping classes."""
    lv = [[G.ch("a"), G.cls([(0x61, 0x62)]), G.cls([(0x61, 0x61)], True)]]
    for n in range(1, ops + 1):
        lv.append([G.rep(x, o) for x in lv[n - 1] for o in "?*+"]
                  + [f(x, y) for m in range(n) for x in lv[m] for y in lv[n - 1 - m] for f in (G.cat, G.alt)])
    return lv


def small(rnd, n):
    """The small expressions of up to two operators and n of those with three (quick: n in all)."""
    lv = small_trees(3)
    few = [t for l in lv[:3] for t in l]
    ts = rnd.sample(few, n // 3) + rnd.sample(lv[3], n - n // 3) if n < len(few) else few + rnd.sample(lv[3], min(n, len(lv[3])))
    return [{"id": "small%d" % i, "tree": G.copy(t), "alph": "abc"} for i, t in enumerate(ts)]


def inputs_for(t, a, rnd, n):
    ws = [[]]
    for _ in range(n):
        w = G.sample(t, rnd, a)
        q = rnd.random()
        if q < .4:
            w = G.mutate(w, rnd, a)
        elif q < .5:
            w = w + G.sample(t, rnd, a)
        if len(w) <= 40:
            ws.append(w)
    uniq = []
    for w in ws:
        if w not in uniq:
            uniq.append(w)
    return uniq


def wordgen(chk, cases, per_case, rnd, env=None):
    """Words from the specification: one per transition of each case's position automaton."""
    r = chk.tlc("WordGen", cases=[{"id": c["id"], "res": c["res"]} for c in cases], workers=1)
    words = {}
    for o in r.out:
        words.setdefault(o["case"], []).append(o["w"])
    res = {}
    for cid, ws in words.items():
        if len(ws) > per_case:
            ws = rnd.sample(ws, per_case)
        res[cid] = ws
    return res


def adj(d):
    out = [[] for _ in range(d["n"])]
    for e in d["edges"]:
        out[e[0]].append([e[1], e[2], e[3] + 1])
    return {"adj": out, "acc": [a + 1 for a in d["acc"]]}


def run_regex_cases(chk, cases, aspect, nwords, nrandom, rnd):
    """cases: [{id, tree, alph, text}]. Product exploration and recorded runs."""
    core = base.build_bin("core")
    for c in cases:
        G.number([c["tree"]])
        c["res"] = [c["tree"]]
    gen = wordgen(chk, cases, nwords, rnd)
    reqs = []
    for c in cases:
        ws = list(gen.get(c["id"], []))
        for w in inputs_for(c["tree"], c["alph"], rnd, nrandom):
            if w not in ws:
                ws.append(w)
        c["words"] = ws
        reqs.append({"op": "regex", "re": c["text"], "inputs": [base.text(w) for w in ws]})
    ans = base.record(core, reqs, chk.scratch)
    tl = []
    byid = {}
    for c, a in zip(cases, ans):
        byid[c["id"]] = c
        runs = []
        if "badre" in a:
            raise base.ToolError("pattern %r of the generator is not accepted by regex-syntax: %s" % (c["text"], a["badre"]))
        if "runs" not in a:
            note = "compiling the pattern failed: " + str(a.get("panic", a))
            runs.append({"w": [], "nfa": 0, "test": 0, "sim": -2, "note": note})
        else:
            for w, x in zip(c["words"], a["runs"]):
                v = {"w": w, "note": ""}
                for k in ("nfa", "test", "sim"):
                    y = x[k]
                    if "panic" in y:
                        v[k] = -3
                        v["note"] = v["note"] or "%s panicked: %s" % (k, y["panic"])
                    else:
                        v[k] = int(y["ok"])
                if aspect != "language" and v["note"] and v["test"] != -3:
                    v["note"] = ""
                runs.append(v)
        chk.traces += len(runs)
        tl.append({"id": c["id"], "re": c["tree"], "runs": runs})
    r = chk.tlc("RegexTrace", cases=tl, env={"VP_ASPECT": aspect})
    for b in r.bad:
        c = byid.get(b["case"], {})
        chk.problem(b["case"], b["why"], {"pattern": c.get("text"), "input": base.text(b.get("w", []))})
    # all strings: products with the recorded automata
    try:
        autb = base.build_bin("automata")
    except base.ToolError as e:
        chk.cov["automata_recorder"] = "not available: " + str(e)[-300:]
        autb = None
    if autb:
        dumps = base.record(autb, [{"re": c["text"]} for c in cases], chk.scratch)
        pl = []
        for c, d in zip(cases, dumps):
            if "ok" not in d:
                continue       # already reported by the runs
            pl.append({"id": c["id"], "re": c["tree"], "nfa": adj(d["ok"]["nfa"]), "dfa": adj(d["ok"]["dfa"])})
        r = chk.tlc("AutProduct", cases=pl, env={"VP_ASPECT": aspect})
        chk.cov["products_explored"] = len(pl)
        seen = set()
        for b in r.bad:
            if b["case"] in seen:
                continue
            seen.add(b["case"])
            c = byid.get(b["case"], {})
            chk.problem(b["case"], b["why"], {"pattern": c.get("text"), "input": base.text([x for x in b.get("w", [])])})
    for c in cases[:: max(1, len(cases) // 5)]:
        chk.sample({"pattern": c["text"], "words": [base.text(w) for w in c["words"][:4]]})
    chk.cov["patterns"] = len(cases)
