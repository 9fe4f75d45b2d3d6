"""Cases for the type-level parser: C17 (values) and C22 (rejection)."""
import random
from . import base, biggram, genre as G, gram as R, lalrc, parsec, tsrun, tspar, valgen


def usable(g, known):
    """Every literal can be written with the table's characters and is not the end marker's kind."""
    return all(k[0] != "lit" or (set(base.codes(k[1])) <= known and k[1] != "EOF" and k[1].strip()) for k in R.terms_of(g))


def grammars(rnd, known, nrand, nlang, classics=True):
    out = []
    if classics:
        out = [("classic-" + k, g) for k, g in R.classics()]
    lits = [x for x in R.LITS if set(base.codes(x)) <= known]
    for i in range(nrand):
        out.append(("rand%d" % i, R.rand_grammar(rnd, lits=rnd.sample(lits, rnd.choice([1, 2, 3, 4])), pats=rnd.sample(sorted(R.PATS), rnd.choice([0, 0, 1, 2])),
                                                 style=rnd.choice(["mixed", "ll", "ll", "left"]))))
    for i in range(nlang):
        out.append(("lang%d" % i, R.gen_language(rnd)))
    out += [(c, g) for c, g in biggram.cases(rnd, base.scale(1, 2)) if c.split("-")[1].rstrip("0123456789") not in ("conflict", "long")]
    return [(c, g) for c, g in out if usable(g, known)]


def ladder():
    """One alternative of every length up to 48: the budget is spent on shifts alone."""
    return R.parse_simple("S -> " + " | ".join(" ".join(["a"] * n + ["b"]) for n in range(1, 48)), "S")


def sentences(g, rnd, n):
    seen, out = set(), []
    for k in range(n):
        s = R.derive(g, rnd, rnd.choice([3, 6, 10, 14, 22, 30]), rnd.choice([2, 3, 4, 5, 6, 8, 12]))
        if s is None:
            continue
        t = R.write(s, rnd)
        if t not in seen and len(t) <= 130:
            seen.add(t)
            out.append(t)
    return out


def run(chk, gs, aspect, make_inputs, rnd):
    """gs: [(id, decorated grammar)]; make_inputs(cid, g) -> texts."""
    texts = [R.text_of(g, rnd) for _, g in gs]
    ins = [make_inputs(cid, g) for cid, g in gs]
    ans = tspar.generate(chk, texts, ins)
    keep = [i for i, a in enumerate(ans) if not tspar.conflict(a) and ins[i]]
    jobs = []
    for i in keep:
        m = (ans[i].get("gen", {}).get("ok") or {"lex": "", "parse": ""})
        jobs.append(tspar.job(chk, i, m["lex"], m["parse"], exprs=["VpParse<Lex<%s>>" % tspar.ts_lit(s) for s in ins[i]]))
    tl, ctx = [], {}
    for i, t in zip(keep, tsrun.run(jobs, chk.scratch, timeout=200)):
        cid, g = gs[i]
        sg, ids = R.spec_grammar(g)
        key = {v: k for k, v in ids.items()}
        runs = [run_of(s, t, n, ans[i].get("runs"), ans[i]) for n, s in enumerate(ins[i])]
        chk.traces += len(runs)
        tl.append({"id": cid, "g": sg, "defs": parsec.defs_for(g, ids, parsec.pattern_order(ans[i])),
                   "codes": valgen.codes_of(g), "names": [base.codes(key[p["l"]][1]) for p in sg["prods"]], "runs": runs})
        ctx[cid] = (texts[i], ins[i], t)
    r = chk.tlc("ValueTrace", cases=tl, env={"VP_ASPECT": aspect})
    r.out = list({(o["case"], o["run"]): o for o in r.out}.values())
    for b in r.bad:
        text, inp, t = ctx[b["case"]]
        n = b["run"] - 1
        q = t.get("q", [t])
        chk.problem(b["case"], b["why"], {"grammar": text, "input": inp[n], "evaluated": str(q[min(n, len(q) - 1)])[:1500], "steps": b["steps"], "want": b["want"]})
    chk.cov["grammars"] = chk.cov.get("grammars", 0) + len(tl)
    chk.cov["sentences"] = chk.cov.get("sentences", 0) + sum(1 for o in r.out if o["s"])
    chk.cov["non_sentences"] = chk.cov.get("non_sentences", 0) + sum(1 for o in r.out if not o["s"])
    chk.cov["sentences_beyond_budget"] = sum(1 for o in r.out if o["s"] and o["z"] > 49)
    chk.cov["sentences_at_the_budget"] = sum(1 for o in r.out if o["s"] and o["z"] in (48, 49))
    chk.cov["longest_token_sequence"] = max([o["n"] for o in r.out] + [0])
    for c in tl[:: max(1, len(tl) // 4)]:
        chk.sample({"grammar": ctx[c["id"]][0], "inputs": ctx[c["id"]][1][:3]})
    return r


def run_of(s, t, n, rust, a):
    r = {"w": base.codes(s), "res": "fail", "val": valgen.node("none"), "note": "", "rust": ""}
    if rust is not None:
        r["rust"] = "accepted" if rust[n]["acc"] else "rejected"
    else:
        r["note"] = lalrc.outcome_of(a)
        return r
    if "fail" in t:
        r["note"] = t["fail"][:200]
        return r
    v = t["q"][n]
    if tspar.is_error(v):
        r["res"] = "error"
        return r
    x = valgen.tree(v)
    if x is None or x["k"] != "tup" or not x["xs"]:
        r["note"] = "neither a list of symbols nor an error: " + str(v)[:150]
        return r
    r["res"] = "value"
    r["val"] = x
    return r
