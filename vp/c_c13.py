import hashlib, random
from . import base, genre as G, gram as R, lalrc, lexc, parsec


def h(s):
    return hashlib.sha256(s.encode()).hexdigest()[:24]


def main():
    chk = base.Check("C13")
    rnd = random.Random("C13-%d" % base.SEED)
    core = base.build_bin("core")
    gs = lalrc.case_set(rnd, base.scale(150, 1500), base.scale(60, 400), base.scale(1, 4))
    reqs = []
    for cid, g in gs:
        reqs.append((cid, {"op": "grammar", "text": R.text_of(g, rnd), "want": ["gen"], "inputs": parsec.inputs(g, rnd, 2, 6)}))
    for i in range(base.scale(60, 500)):
        a, toks = lexc.rand_token_list(rnd, rnd.choice([2, 3, 5, 8]), ["abc", "word", "uni", "mix"])
        G.number([t for _, t, _ in toks])
        ins = lexc.inputs(toks, a, rnd, [], 4)
        reqs.append(("lex%d" % i, {"op": "lexer", "gen": True, "inputs": [base.text(w) for w in ins],
                                   "tokens": [{"name": n, "re": G.pr(t, rnd), "val": v} for n, t, v in toks]}))
    # rounds: each request several times, in differing order and company
    rounds = base.scale(4, 8)
    order = []
    for k in range(rounds):
        o = list(range(len(reqs))) * (2 if k == 0 else 1)
        rnd.shuffle(o)
        order.append(o)
    hist = {}
    ansof = {}
    for k, o in enumerate(order):
        ans = base.record(core, [reqs[i][1] for i in o], chk.scratch)
        for pos, (i, a) in enumerate(zip(o, ans)):
            if "gen" in a:
                gen = a["gen"].get("ok")
                parts = ([h(gen["lex"]), h(gen["parse"])] if isinstance(gen, dict) else [h(str(gen)), ""]) if gen is not None else ["panic", ""]
            else:
                parts = [lalrc.outcome_of(a).split(":")[0], ""]
            runs = a.get("runs", [])
            parts.append(h(str([x.get("acc", x.get("ok")) for x in runs])))
            hist.setdefault(i, []).append({"proc": "%d.%d" % (k, pos % base.CORES), "parts": parts})
            ansof.setdefault(i, []).append(a)
            chk.traces += 1
    cases = [{"id": i, "names": ["lexer module", "parser module", "outcome of runs"], "h": hist[i]} for i in sorted(hist)]
    r = chk.tlc("MemoTrace", cases=cases)
    for b in r.bad:
        i = b["case"]
        chk.problem(reqs[i][0], b["why"], {"request": reqs[i][1], "first": str(ansof[i][0])[:1500], "other": str(ansof[i][b["at"] - 1])[:1500]})
    chk.cov["requests"] = len(reqs)
    chk.cov["answers"] = sum(len(x) for x in hist.values())
    chk.cov["processes"] = rounds * base.CORES
    chk.sample(reqs[0][1])
    chk.sample(reqs[-1][1])
    return chk.finish()
