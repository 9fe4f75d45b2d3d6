import random
from . import base, biggram, gram as R, lalrc, tsrun, tspar, valgen

ODDLITS = ["\\\\", '\\"', "a\\\\b", '\\"\\"', "${", "`", "'", "*/", "//", "/*", "☃", "😀", "constructor", "__proto__", "toString", "0", "1", "00", "a b",
           "\\\\n", "\\\\\\\"", "</", "<", ">", "=>", "]", "=", ":", "eof", "Eof", "kind", "\u2028", "\u00a0", "\t", "#", "true", "-1", "1e3", "S", "any", "\\\\u0041"]
ODDPATS = ["[0-9]+", "[a-z]+", ".", "a*b", "[/*]+", "\\\\\\\\", "`x", "'", "[$][{]", "x|yy", "(a|b)+c", "\\\\d+", "[^a-z]", "é+", "//", "[\\\\]]", "0", "\\\\n"]


def odd_grammar(rnd):
    lits = rnd.sample(ODDLITS, rnd.choice([2, 3, 4, 5]))
    pats = rnd.sample(ODDPATS, rnd.choice([0, 1, 2, 3]))
    if rnd.random() < .12:
        lits[0] = R.longer(rnd.choice("abc_"), rnd)
        lits.append(lits[0][:-1] + "'")
        pats += [p for p in [R.longer("d", rnd)[:90] + "+"] if rnd.random() < .5]
    pats = [p for p in pats if p not in lits]
    g = R.rand_grammar(rnd, lits=lits, pats=pats, style=rnd.choice(["ll", "ll", "mixed", "left"]))
    return g


def case_of(cid, g, a, t):
    """LalrTrace case for a generated parser module."""
    sg, ids = R.spec_grammar(g)
    c = {"id": cid, "g": sg, "note": "", "act": [], "goto": [],
         "keys": [{"s": i, "k": k[0], "v": base.codes(k[1])} for k, i in ids.items()],
         "mod": {"syms": [], "prods": [], "kinds": [], "stack": [], "eofkind": base.codes("EOF"), "tokkind": base.codes("token")}}
    text = (a.get("gen", {}).get("ok") or {}).get("parse")
    if text is None:
        c["note"] = "no module: " + str(a.get("gen", a))[:150]
        return c
    if "fail" in t:
        c["note"] = "the type checker gave no answer: " + t["fail"][:120]
        return c
    for f in ("parse_state2.gen.ts", "lex_state.gen.ts"):
        dg = t["diag"].get(f, [])
        if dg:
            c["note"] = "%s is not valid TypeScript: %s" % (f, dg[0]["text"][:150])
            return c
    al = t["aliases"]["parse_state2.gen.ts"]
    try:
        o = lambda v: {k: x for k, x in v["o"]}
        symid = {}
        for n, v in al["type_defs.Tokens"]["o"]:
            v = o(v)
            k = {"strlit": "lit", "nonterminal": "nt", "regex": "re", "eof": "eof"}[v["kind"]]
            val = v.get("value", "")
            c["mod"]["syms"].append({"n": int(n), "k": k, "v": base.codes(val)})
            symid[int(n)] = ids.get((k, val), -1)
        for n, v in al["type_defs.Productions"]["o"]:
            v = o(v)
            c["mod"]["prods"].append({"n": int(n), "name": base.codes(v["name"]), "t": [int(x) for x in v["tokens"]]})
        c["mod"]["kinds"] = [{"k": base.codes(k), "n": int(n)} for k, n in al["type_defs.TokenKindToIdx"]["o"]]
        st = t["q"][0]
        st = st["u"] if isinstance(st, dict) and "u" in st else [st]
        c["mod"]["stack"] = [base.codes(x) for x in st]
        act = {int(s): [(int(k), o(v)) for k, v in row["o"]] for s, row in al["type_defs.Action"]["o"]}
        goto = {int(s): [(k, int(v)) for k, v in row["o"]] for s, row in al["type_defs.Goto"]["o"]}
        n = 1 + max([0] + list(act) + list(goto) + [v["shift"] for r in act.values() for _, v in r if "shift" in v] + [v for r in goto.values() for _, v in r])
        for s in range(n):
            row = []
            for k, v in act.get(s, []):
                if "shift" in v:
                    row.append({"t": symid.get(k, -1), "k": "s", "n": v["shift"] + 1})
                elif "reduce" in v:
                    row.append({"t": symid.get(k, -1), "k": "r", "n": v["reduce"] + 1})
                elif v.get("accept") is True:
                    row.append({"t": symid.get(k, -1), "k": "a", "n": 0})
                else:
                    raise ValueError("action %s" % v)
            c["act"].append(row)
            c["goto"].append([{"s": ids.get(("nt", k), -1), "n": v + 1} for k, v in goto.get(s, [])])
    except (KeyError, TypeError, ValueError, IndexError, AttributeError) as e:
        c["note"] = "the module does not define the tables: %s %s" % (type(e).__name__, str(e)[:120])
        c["act"], c["goto"] = [], []
    return c


def judge(chk, tl, ctx):
    r = chk.tlc("LalrTrace", cases=tl, env={"VP_ASPECT": "module"})
    seen = set()
    for b in r.bad:
        if b["case"] in seen:
            continue
        seen.add(b["case"])
        chk.problem(b["case"], b["why"], dict(ctx[b["case"]], at=b.get("at")))
    if r.out:
        chk.cov["largest_automaton"] = max([o["lalr"] for o in r.out] + [chk.cov.get("largest_automaton", 0)])
        chk.cov["merging_grammars"] = chk.cov.get("merging_grammars", 0) + sum(1 for o in r.out if o["lalr"] < o["lr1"])
    return r


def aliases():
    return {"parse_state2.gen.ts": tspar.PARSER}


def main():
    chk = base.Check("C15")
    rnd = random.Random("C15-%d" % base.SEED)
    gs = lalrc.case_set(rnd, base.scale(60, 900), base.scale(40, 400), base.scale(1, 3))
    gs += [("odd%d" % i, odd_grammar(rnd)) for i in range(base.scale(110, 1200))]
    gs += [("big-records", biggram.records(rnd, rnd.randint(70, 80))), ("big-pascal", biggram.minipascal(rnd))]
    kf1 = R.parse_simple("S -> a X\nX -> EOF | b", "S")
    kf2 = R.parse_simple("S -> a X\nX -> [0-9] | r:[0-9]", "S")
    gs += [("kf-eof-literal", kf1), ("kf-same-text", kf2)]
    for cid, g in gs:
        if not cid.startswith("kf"):
            valgen.decorate(g, rnd)
    texts = [R.text_of(g, rnd) for _, g in gs]
    ans = tspar.generate(chk, texts)
    keep = [i for i, a in enumerate(ans) if not tspar.conflict(a)]
    jobs = []
    for i in keep:
        m = (ans[i].get("gen", {}).get("ok") or {"lex": "", "parse": ""})
        jobs.append(tspar.job(chk, i, m["lex"], m["parse"], exprs=['type_defs.Symbol["kind"]'],
                              diag=["parse_state2.gen.ts", "lex_state.gen.ts"], aliases=aliases()))
    tl, ctx = [], {}
    for i, t in zip(keep, tsrun.run(jobs, chk.scratch)):
        cid, g = gs[i]
        tl.append(case_of(cid, g, ans[i], t))
        ctx[cid] = {"grammar": texts[i]}
    chk.traces += len(tl)
    judge(chk, tl, ctx)
    chk.cov["modules"] = len(tl)
    chk.cov["grammars_reported_as_conflicts_skipped"] = len(gs) - len(keep)
    for i in keep[:: max(1, len(keep) // 4)]:
        chk.sample(ctx[gs[i][0]])
    chk.assumptions = ["TypeScript 5.9 decides whether a module is valid and what its types are",
                       "mapping code and declared types are themselves valid TypeScript, names are ones TypeScript accepts for types"]
    return chk.finish()
