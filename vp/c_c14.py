import random
from . import base, biglex, genre as G, lexc, lexgen, tsrun, c_c02, c_c03, c_c04


def main():
    chk = base.Check("C14")
    rnd = random.Random("C14-%d" % base.SEED)
    core = base.build_bin("core")
    lists = []
    for i, (toks, a, _) in enumerate(c_c03.hand() + c_c04.hand()[:: base.scale(6, 1)]):
        lists.append(("hand%d" % i, a, [list(t) for t in toks]))
    for i in range(base.scale(130, 1200)):
        n = rnd.choice([1, 2, 3, 3, 4, 5, 7])
        a, toks = lexc.rand_token_list(rnd, n, ["tiny", "abc", "word", "mix", "ws", "uni", "punct"], wide=.25)
        lists.append(("rnd%d" % i, a, toks))
    for i in range(base.scale(40, 300)):
        a, toks = c_c04.dup_lists(rnd, rnd.choice([2, 3, 5, 8]))
        for t in toks:
            t[2] = rnd.random() < .5
        lists.append(("dup%d" % i, a, toks))
    for i in range(base.scale(40, 300)):
        pts = rnd.choice([[ord(c) for c in "abcdef"], c_c02.POINTS])
        toks = []
        while len(toks) < rnd.choice([2, 3, 5]):
            t = c_c02.rand_class(rnd, pts)
            if c_c02.ok(t):
                toks.append(["T%d" % len(toks), G.cat(G.rep(t, rnd.choice("?+*")), G.ch(chr(0x4e00 + len(toks)))), rnd.random() < .5])
        lists.append(("cls%d" % i, "abcdef", toks))
    # tables of more than a hundred states
    for i in range(base.scale(3, 12)):
        n = rnd.choice([40, 60, 90])
        toks = [["T%d" % k, G.lit("".join(rnd.choice("abc") for _ in range(rnd.choice([2, 3, 4, 5])))), rnd.random() < .5] for k in range(n)]
        lists.append(("long%d" % i, "abc", toks))
    for cid, a, toks, _ in biglex.token_lists(rnd, base.scale(1, 6)):
        lists.append((cid, a, toks))
    cid, a, toks, _ = biglex.many(rnd)
    lists.append((cid, a, toks))
    for i, (cid, a, toks) in enumerate(lists):
        if rnd.random() < .5:
            odd = rnd.sample(lexgen.NAMES, min(len(toks), len(lexgen.NAMES)))
            for t, n in zip(toks, odd):
                t[0] = n
        if rnd.random() < .1 and len(toks) > 1:
            # two definitions of one kind
            toks[-1][0] = toks[0][0]
    items, ctx, reqs = [], {}, []
    for cid, a, toks in lists:
        G.number([t for _, t, _ in toks])
        texts = [G.pr(t, rnd) for _, t, _ in toks]
        reqs.append({"op": "lexer", "gen": True, "inputs": [], "tokens": [{"name": n, "re": x, "val": v} for (n, _, v), x in zip(toks, texts)]})
        ctx[cid] = {"tokens": [[n, x, v] for (n, _, v), x in zip(toks, texts)]}
    for (cid, a, toks), ans in zip(lists, base.record(core, reqs, chk.scratch)):
        g = ans.get("gen", {})
        text = g.get("ok")
        fail = "" if text is not None else "no module: " + str(g.get("panic", ans))[:150]
        items.append((cid, lexc.defs_of({"toks": toks}), text, fail))
    # lexers made from grammars
    gs = [c_c04.grammar_case("gram%d" % i, rnd, alphs=("tiny", "abc", "word", "uni", "mix")) for i in range(base.scale(60, 500))]
    gs.append(biglex.many_literals(rnd))
    reqs = []
    for g in gs:
        for w in rnd.sample(["${", "`", "'", "*/", "//", "{", "}", "=>", "☃", "a b", "<!--", "#", ";", "\u2028", "0", "constructor", "</"], 3):
            if w not in g["pats"]:
                g["lits"].setdefault(w, G.lit(w))
        g["text"] = c_c04.grammar_text(g, rnd)
        reqs.append({"op": "grammar", "text": g["text"], "want": ["gen"]})
    for g, a in zip(gs, base.record(core, reqs, chk.scratch)):
        ctx[g["id"]] = {"grammar": g["text"]}
        text = (a.get("gen", {}).get("ok") or {}).get("lex")
        fail = "" if text is not None else "no module: " + str(a.get("gen", a))[:150]
        order = [t[1] for t in a.get("toks", []) if t[0] == "re"]
        ts = list(g["lits"].items()) + sorted(g["pats"].items(), key=lambda x: order.index(x[0]) if x[0] in order else 999)
        G.number([t for _, t in ts])
        items.append((g["id"], [{"name": base.codes(n), "val": True, "re": t, "num": k + 1} for k, (n, t) in enumerate(ts)], text, fail))
    ans = tsrun.run(lexgen.ts_jobs(chk, [x[2] or "" for x in items]), chk.scratch)
    cases = lexgen.to_cases(items, ans)
    chk.traces += len(cases)
    lexgen.judge(chk, cases, ctx)
    chk.cov["modules"] = len(cases)
    chk.cov["largest_table"] = max(len(c["states"]) for c in cases)
    for cid, _, toks in lists[:: max(1, len(lists) // 4)]:
        chk.sample(ctx[cid])
    chk.assumptions = ["TypeScript 5.9 decides whether a module is valid and what its types are",
                       "regex-syntax parses a pattern text to the expression it was printed from"]
    return chk.finish()
