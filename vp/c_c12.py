import random
from . import base, biggram, gram as R, lalrc, parsec


def judge(chk, module, gs, texts, ins, ans, aspect=None):
    """Recorded runs of (grammar, inputs) judged by a specification module."""
    cases, byid = [], {}
    for (cid, g), t, i, a in zip(gs, texts, ins, ans):
        if "conflict" in str(a.get("panic", "")).lower() and a.get("stage") == "lalr":
            continue
        sg, ids = R.spec_grammar(g)
        runs = []
        if "runs" not in a:
            runs.append({"w": [], "res": "failed", "note": lalrc.outcome_of(a)})
        else:
            for s, x in zip(i, a["runs"]):
                runs.append({"w": base.codes(s), "res": "accepted" if x["acc"] else "rejected", "note": ""})
        cases.append({"id": cid, "g": sg, "defs": parsec.defs_for(g, ids, parsec.pattern_order(a)), "runs": runs, "bound": 0})
        byid[cid] = (t, i, a)
        chk.traces += len(runs)
    r = chk.tlc(module, cases=cases, env={"VP_ASPECT": aspect} if aspect else None)
    for b in r.bad:
        t, i, a = byid[b["case"]]
        n = b["run"] - 1
        chk.problem(b["case"], b["why"], {"grammar": t, "input": i[n] if n < len(i) else "", "recorded": str(a.get("runs", [a])[min(n, len(a.get("runs", [a])) - 1)])[:3000]})
    r.out = list({(o["case"], o["run"]): o for o in r.out}.values())
    for k, v in (("grammars", len(cases)), ("sentences", sum(1 for o in r.out if o["s"])),
                 ("non_sentences", sum(1 for o in r.out if not o["s"]))):
        chk.count(k, v)
    chk.cov["longest_token_sequence"] = max([o["n"] for o in r.out] + [chk.cov.get("longest_token_sequence", 0)])
    for c in cases[:: max(1, len(cases) // 2)]:
        chk.sample({"grammar": byid[c["id"]][0][:2000], "inputs": [x[:300] for x in byid[c["id"]][1][-4:]]})
    return r


def main():
    chk = base.Check("C12")
    rnd = random.Random("C12-%d" % base.SEED)
    core = base.build_bin("core")

    def go(gs, inputs, module, aspect=None):
        texts = [R.text_of(g, rnd) for _, g in gs]
        ins = [inputs(g) for _, g in gs]
        ans = base.record(core, [{"op": "grammar", "text": t, "want": [], "inputs": i} for t, i in zip(texts, ins)],
                          chk.scratch, timeout=60)
        return judge(chk, module, gs, texts, ins, ans, aspect)

    # short inputs against the derivations of the grammar
    gs = lalrc.case_set(rnd, base.scale(350, 2500), base.scale(45, 350))
    go(gs, lambda g: parsec.inputs(g, rnd, base.scale(8, 25), base.scale(40, 400)), "ParseTrace")
    # small grammars against every token string up to length 4 (6)
    go(lalrc.small(rnd, base.scale(300, None)), lambda g: parsec.inputs(g, rnd, 0, base.scale(30, 126)), "ParseTrace")

    # whitespace that separates tokens, or begins one
    go(parsec.space_grammars(rnd, base.scale(40, 300)), lambda g: parsec.space_inputs(g, rnd, base.scale(8, 25)), "ParseTrace")

    # long inputs and large grammars against the shift/reduce machine on the LALR(1) automaton
    sizes = base.scale([60, 150, 300, 700], [60, 150, 300, 700, 1500, 3000])
    gs = ([("long-" + k, g) for k, g in R.classics()]
          + [("long-lang%d" % i, R.gen_language(rnd)) for i in range(base.scale(12, 80))]
          + biggram.cases(rnd, base.scale(1, 4)))
    r = go(gs, lambda g: parsec.long_inputs(g, rnd, base.scale(3, 8), sizes) or parsec.inputs(g, rnd, 6, 0), "LrParse", "runs")
    # a few very long ones
    far = [("far-" + k, R.parse_simple(t, "S")) for k, t in
           (("left", "S -> S x | x"), ("right", "S -> x S | y"), ("nested", "S -> ( S ) | x"), ("pairs", "S -> S P | P\nP -> ( S ) | x"))]
    def ends(g):
        s = None
        while not s:
            s = R.derive_long(g, rnd, base.scale(6000, 12000))
        ts = R.terms_of(g)
        return [R.write(t, rnd, 0) for t in (s, s[:-1], s[:-1] + [ts[0]], s + [ts[-1]], s[:-3] + s[-2:])]
    r2 = go(far, ends, "LrParse", "runs")
    r.out += r2.out
    chk.cov["deepest_stack_at_the_end_of_a_run"] = max([o.get("depth", 0) for o in r.out] + [0])
    chk.cov["most_parser_moves"] = max([o.get("steps", 0) for o in r.out] + [0])
    chk.cov["largest_automaton_run"] = max([o.get("states", 0) for o in r.out] + [0])

    # the specification against itself: the machine accepts what the start symbol derives,
    # for every token string up to a bound
    ms = []
    for k, g in R.classics() + [("rand%d" % i, R.rand_grammar(rnd, lits=rnd.sample(R.LITS, rnd.choice([1, 2, 2, 3])))) for i in range(base.scale(60, 600))]:
        sg, ids = R.spec_grammar(g)
        t = len(sg["ts"])
        b = 1
        while t and t ** (b + 1) <= base.scale(150, 3000) and b < 9:
            b += 1
        ms.append({"id": "model-" + k, "g": sg, "defs": [], "runs": [], "bound": b})
    r = chk.tlc("LrParse", cases=ms, env={"VP_ASPECT": "model"})
    for b in r.bad:
        chk.problem(b["case"], b["why"], {"tokens": b.get("toks"), "grammar": next(m["g"] for m in ms if m["id"] == b["case"])})
    chk.cov["machine_vs_derivation_strings"] = len({(o["case"], o["n"], i) for i, o in enumerate(r.out)})
    return chk.finish()
