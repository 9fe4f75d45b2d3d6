import random
from . import base, biglex, genre as G, rex, lexc

L, C, A, R = G.lit, G.cat, G.alt, G.rep


def hand():
    az = lambda: G.cls([(97, 122)])
    T = lambda *ts: [("T%d" % i, t, True) for i, t in enumerate(ts)]
    out = []
    base_pats = [lambda: R(az(), "+"), lambda: L("if"), lambda: C(L("i"), R(az(), "*")), lambda: A(L("if"), L("in")),
                 lambda: C(R(L("i"), "?"), R(az(), "*"), L("f"))]
    import itertools
    for k, perm in enumerate(itertools.permutations(range(5), 3)):
        out.append((T(*[base_pats[i]() for i in perm]), "ifn", ["if", "in", "i", "iff", "f", "if in"]))
    return out


def dup_lists(rnd, n):
    """Lists in which many definitions match the same texts: copies, supersets, permutations."""
    a = G.ALPH[rnd.choice(["tiny", "abc", "word", "uni"])]
    pool = []
    for _ in range(rnd.choice([1, 2, 3])):
        t = G.rand_tree(rnd, rnd.choice([1, 2, 2]), a)
        pool += [t, G.copy(t), G.alt(G.copy(t), G.rand_leaf(rnd, a)), G.rep(G.copy(t), rnd.choice("?+*"))]
    pool += [G.rep(G.cls([(ord(min(a)), ord(max(a)))]), "+"), G.rep(G.cls([(10, 10)], True), "+")]
    w = G.sample(pool[0], rnd, a)
    if w:
        pool.append(G.cat(*[G.ch(o) for o in w]))
    rnd.shuffle(pool)
    toks = [["T%d" % i, t, True] for i, t in enumerate(pool[:n])]
    return a, toks


# ---------------------------------------------------------------- grammars

def grammar_case(cid, rnd, alphs=("tiny", "abc", "word", "uni"), kf=None):
    """Literals and patterns of one grammar; the literals are words of the patterns."""
    a = G.ALPH[rnd.choice(alphs)]
    pats, lits = {}, {}
    for _ in range(rnd.choice([1, 2, 3])):
        t = G.rand_tree(rnd, rnd.choice([1, 2, 2]), a, plain=True)
        try:
            s = G.pr(t, rnd, plain=True)
        except AssertionError:
            continue
        if s:
            pats[s] = t
    if rnd.random() < .6 or not pats:
        t = G.rep(G.cls([(ord(min(a)), ord(max(a)))]), "+")
        pats[G.pr(t, rnd, plain=True)] = t
    for _ in range(rnd.choice([1, 2, 3, 5, 8])):
        w = base.text(G.sample(rnd.choice(list(pats.values())), rnd, a))
        if rnd.random() < .3:
            w = base.text(G.mutate(base.codes(w), rnd, a))
        if w and not set(w) & set('"\\') and w not in pats and len(w) < 12:
            lits[w] = G.lit(w)
    return {"id": cid, "alph": a, "lits": lits, "pats": pats, "extra": []}


def grammar_text(g, rnd):
    alts = ['    "%s" => (0)' % w for w in g["lits"]] + ['    r"%s" => (0)' % p for p in g["pats"]]
    rnd.shuffle(alts)
    return "export start S: (any) = [\n" + ",\n".join(alts) + "\n]\n"


def grammar_lexers(chk, rnd, gs, aspect):
    """Lexers made from grammars: which symbols they know, and under which numbers."""
    core = base.build_bin("core")
    wg = []
    for g in gs:
        g["res"] = G.number(list(g["lits"].values()) + list(g["pats"].values()))
        wg.append({"id": g["id"], "res": g["res"]})
    words = rex.wordgen(chk, wg, base.scale(30, 80), rnd)
    reqs = []
    for g in gs:
        toks = [(w, t, True) for w, t in list(g["lits"].items()) + list(g["pats"].items())]
        g["inputs"] = g["extra"] + ([base.codes(w) for w in g["lits"]] if g["id"] != "kf-same-text" else [])
        if g["id"] != "kf-same-text":
            g["inputs"] += lexc.inputs(toks, g["alph"], rnd, words.get(g["id"], []), base.scale(15, 40))
        g["text"] = grammar_text(g, rnd)
        reqs.append({"op": "grammar", "text": g["text"], "want": ["lex"],
                     "lexinputs": [base.text(w) for w in g["inputs"]]})
    tl, byid = [], {}
    for g, a in zip(gs, base.record(core, reqs, chk.scratch)):
        byid[g["id"]] = g
        g["ans"] = a
        lx = a.get("lex", {}).get("ok")
        if lx is None:
            chk.problem(g["id"], "no lexer for the grammar", {"grammar": g["text"], "answer": a})
            continue
        num = {tuple(s): i for i, s in enumerate(lx["toks"])}
        if any(("lit", w) not in num for w in g["lits"]) or any(("re", p) not in num for p in g["pats"]):
            chk.problem(g["id"], "a terminal of the grammar has no number", {"grammar": g["text"], "toks": lx["toks"]})
            continue
        defs = [{"name": base.codes(w), "val": True, "re": t, "num": num[("lit", w)]} for w, t in g["lits"].items()]
        # which of two patterns wins is the grammar's own numbering; literals come first
        defs += [{"name": base.codes(p), "val": True, "re": t, "num": num[("re", p)]}
                 for p, t in sorted(g["pats"].items(), key=lambda x: num[("re", x[0])])]
        runs = []
        for w, x in zip(g["inputs"], lx["runs"]):
            if "ok" in x:
                # the end marker: last, number 0
                if not x["ok"] or x["ok"][-1]["name"] != "EOF" or x["ok"][-1]["idx"] != 0:
                    chk.problem(g["id"], "token list does not end with the end marker", {"input": base.text(w), "recorded": x})
                x = {"ok": x["ok"][:-1]}
            runs.append(lexc.run_rec(w, x))
        chk.traces += len(runs)
        tl.append({"id": g["id"], "defs": defs, "runs": runs})
    r = chk.tlc("LexTrace", cases=tl, env={"VP_ASPECT": aspect})
    for b in r.bad:
        g = byid[b["case"]]
        chk.problem(b["case"], b["why"], {"grammar": g["text"], "input": base.text(g["inputs"][b["run"] - 1]), "position": b["pos"],
                                          "recorded": g["ans"]["lex"]["ok"]["runs"][b["run"] - 1]})
    chk.cov["grammar_lexers"] = len(gs)


def main():
    chk = base.Check("C04")
    rnd = random.Random("C04-%d" % base.SEED)
    cases = [lexc.case("hand%d" % i, t, a, e) for i, (t, a, e) in enumerate(hand())]
    for i in range(base.scale(70, 600)):
        a, toks = dup_lists(rnd, rnd.choice([2, 3, 4, 5, 7, 10]))
        cases.append(lexc.case("dup%d" % i, toks, a))
    for i in range(base.scale(25, 200)):
        a, toks = lexc.rand_token_list(rnd, rnd.choice([3, 5, 8, 12, 20]), ["tiny", "tiny", "abc", "uni", "mix"])
        cases.append(lexc.case("rnd%d" % i, toks, a))
    # a long list with equal patterns far apart (state numbers of two and three digits)
    for i in range(base.scale(3, 12)):
        n = rnd.choice([30, 60, 110])
        ws = ["".join(rnd.choice("abc") for _ in range(rnd.choice([1, 2, 3]))) for _ in range(n)]
        toks = [("T%d" % k, G.lit(w), True) for k, w in enumerate(ws)]
        cases.append(lexc.case("long%d" % i, toks, "abc", ws))
    cid, a, toks, extra = biglex.many(rnd)
    cases.append(lexc.case(cid, toks, a, extra))
    lexc.prepare(chk, cases, rnd, base.scale(30, 80), base.scale(20, 50))
    lexc.record_lexers(chk, cases)
    lexc.judge(chk, cases, "ties")

    # lexers made from grammars
    gs = [grammar_case("gram%d" % i, rnd) for i in range(base.scale(80, 600))]
    kf = {"id": "kf-same-text", "alph": "ab019", "extra": [base.codes("5"), base.codes("[0-9]")],
          "lits": {"[0-9]": G.lit("[0-9]")}, "pats": {"[0-9]": G.cls([(48, 57)])}}
    # literals that differ in blanks, case or repetition only
    for i, ws in enumerate((["a", "a ", " a", "a  ", "b"], ["a\n", "a", "\na", "A"], ["é ", "é", "ab", "ab ", " ab", "a b"])):
        gs.append({"id": "near%d" % i, "alph": "aAbé \n", "lits": {w: G.lit(w) for w in ws}, "pats": {"[0-9]+": G.rep(G.cls([(48, 57)]), "+")},
                   "extra": [base.codes(x + y) for x in ws for y in ws + ["", "7"]]})
    gs += [kf, biglex.many_literals(rnd)]
    grammar_lexers(chk, rnd, gs, "ties")
    chk.sample({"grammar": gs[0]["text"]})
    return chk.finish()
