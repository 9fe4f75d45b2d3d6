"""What the type-level lexer and parser say about an input they reject."""
import random, re
from . import base, gram as R, lalrc, parsec, tsrun, tspar, valc, valgen

NO = {"k": "", "at": 0, "ch": 0, "name": [], "hasval": False, "val": [], "valid": [], "num": 0, "stack": []}


def said(lex, par, toks, ids):
    """What an evaluated Lex<...> and Parse<Lex<...>> say, read leniently."""
    if isinstance(lex, str):
        for k, p in (("tchar", r"invalid char: (.+)()"), ("tsym", r"invalid symbol: `(.)` at index (\d+)"),
                     ("tend", r"unexpected end of input after `(.)` at index (\d+)")):
            m = re.fullmatch(p, lex, re.S)
            if m:
                return {**NO, "k": k, "ch": ord(m.group(1)[0]), "at": int(m.group(2) or 0)}
        return NO
    if not (isinstance(par, list) and len(par) == 2 and isinstance(par[0], str) and isinstance(par[1], list)):
        return NO
    m = re.fullmatch(r"error: invalid token (\d+)", par[0])
    if not m:
        return NO
    n = int(m.group(1))
    stack = []
    for x in reversed(par[1]):          # top first
        o = dict(x["o"]) if isinstance(x, dict) and "o" in x else {}
        t = o.get("token")
        if isinstance(t, dict) and "o" in t:
            kinds, name = ("lit", "re"), dict(t["o"]).get("kind")
        else:
            kinds, name = ("nt",), o.get("kind")
        hit = [ids[(k, name)] for k in kinds if (k, name) in ids]
        if len(hit) != 1:
            return NO                   # a literal and a pattern with the same text
        stack.append(hit[0])
    return {**NO, "k": "tnum", "num": ids.get(lalrc.key_of(toks[n]), -1) if n < len(toks) else -1, "stack": stack}


def main():
    chk = base.Check("C24")
    rnd = random.Random("C24-%d" % base.SEED)
    table = tspar.known_chars(chk)
    known = set(table)
    gs = valc.grammars(rnd, known, base.scale(110, 900), base.scale(50, 450))
    for _, g in gs:
        valgen.decorate(g, rnd)

    def ins(g):
        out = parsec.inputs(g, rnd, base.scale(8, 20), base.scale(20, 80), 10)
        for s in rnd.sample(out, min(3, len(out))):
            i = rnd.randrange(len(s) + 1)
            out.append(s[:i] + rnd.choice(["#", "~", "\x01", "\u2603", "\u0100", "\ufffd", "@\u2603"]) + s[i:])
            out.append(s[:-1])
        return out if len(out) <= base.scale(34, 110) else rnd.sample(out, base.scale(34, 110))
    inputs = [ins(g) for _, g in gs]
    texts = [R.text_of(g, rnd) for _, g in gs]
    ans = tspar.generate(chk, texts)
    keep = [i for i, a in enumerate(ans) if (a.get("gen") or {}).get("ok")]
    jobs = [tspar.job(chk, i, ans[i]["gen"]["ok"]["lex"], ans[i]["gen"]["ok"]["parse"],
                      exprs=[f % tspar.ts_lit(s) for s in inputs[i] for f in ("Lex<%s>", "VpParse<Lex<%s>>")]) for i in keep]
    cases, ctx, count = [], {}, {}
    for i, t in zip(keep, tsrun.run(jobs, chk.scratch, timeout=200)):
        if "fail" in t:
            continue                    # the business of C16, C17 and C22
        cid, g = gs[i]
        sg, ids = R.spec_grammar(g)
        runs = []
        for n, s in enumerate(inputs[i]):
            sd = said(t["q"][2 * n], t["q"][2 * n + 1], ans[i]["toks"], ids)
            count[sd["k"]] = count.get(sd["k"], 0) + 1
            runs.append({"w": base.codes(s), "res": "rejected", "note": "", "said": sd})
        cases.append({"id": cid, "g": sg, "defs": parsec.defs_for(g, ids, parsec.pattern_order(ans[i])), "runs": runs, "bound": 0, "known": table})
        ctx[cid] = (texts[i], inputs[i], t)
    chk.traces = sum(n for k, n in count.items() if k)
    r = chk.tlc("LrParse", cases=cases, env={"VP_ASPECT": "where"})
    for b in r.bad:
        text, inp, t = ctx[b["case"]]
        n = b["run"] - 1
        chk.problem(b["case"], b["why"], {"grammar": text, "input": inp[n], "evaluated": str(t["q"][2 * n:2 * n + 2])[:1500]})
    for k, n in (("tchar", "reports_of_an_unknown_character"), ("tsym", "reports_of_a_character"), ("tend", "reports_of_an_unfinished_token"),
                 ("tnum", "reports_of_a_token"), ("", "values_and_other_answers")):
        chk.cov[n] = count.get(k, 0)
    for c in cases[:: max(1, len(cases) // 4)]:
        chk.sample({"grammar": ctx[c["id"]][0][:1500], "answers": [(x, str(ctx[c["id"]][2]["q"][2 * n:2 * n + 2])[:300]) for n, x in enumerate(ctx[c["id"]][1])][-4:]})
    chk.assumptions = ["TypeScript 5.9 evaluates the types"]
    return chk.finish()

