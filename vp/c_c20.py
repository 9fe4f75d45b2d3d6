"""Generated actions applied to symbol stacks."""
import random
from . import base, biggram, gram as R, tsrun, tspar, valc, valgen

# names that the generated code might use itself
NASTY = ["newStack", "poppedValues", "symbolStack", "__x", "__y", "_x", "__x0", "var0", "var1", "var2", "prodIdx", "rest", "type_defs", "actions",
         "Action1", "Action2", "U", "L", "head", "tail", "value", "kind", "token", "x", "y", "e", "es", "EmitProduction1", "ret", "sym0", "sym1", "S0", "$x"]
NASTY = [n for n in NASTY if n.replace("_", "a").isalnum()]


def ts_type(t):
    """A value tree as a TypeScript type."""
    k = t["k"]
    if k == "str":
        return tspar.ts_lit(base.text(t["s"]))
    if k == "num":
        return str(t["n"])
    if k == "bool":
        return "true" if t["n"] else "false"
    if k == "tup":
        return "[" + ", ".join(ts_type(x) for x in t["xs"]) + "]"
    return "{ " + " ".join("%s: %s;" % (tspar.ts_lit(base.text(f)), ts_type(x)) for f, x in zip(t["f"], t["xs"])) + " }"


def s(x):
    return valgen.node("str", s=base.codes(x))


def obj(**kw):
    fs = sorted(kw)
    return valgen.node("obj", xs=[kw[f] for f in fs], f=[base.codes(f) for f in fs])


def value(rnd, d=2):
    q = rnd.random()
    if q < .4 or d == 0:
        return s(rnd.choice(["", "a", "v", "x y", "☃", '"', "\\", "token", "S", "`${"]))
    if q < .5:
        return valgen.node("num", rnd.randrange(500))
    if q < .55:
        return valgen.node("bool", rnd.randrange(2))
    if q < .8:
        return valgen.node("tup", xs=[value(rnd, d - 1) for _ in range(rnd.choice([0, 1, 2, 3]))])
    return obj(**{f: value(rnd, d - 1) for f in rnd.sample(["a", "kind", "value", "left", "token"], rnd.choice([1, 2]))})


def of_kind(rnd, kd):
    if kd == "any":
        return value(rnd)
    if kd == "arr":
        return valgen.node("tup", xs=[value(rnd, 1) for _ in range(rnd.choice([0, 1, 2, 4]))])
    if kd == "str":
        return s(rnd.choice(["", "p", "q r", "☃", "add", '"', "\\"]))
    fs = {f: value(rnd, 1) for f in rnd.sample(["a", "kind", "left"], rnd.choice([0, 1, 2]))}
    fs["value"] = value(rnd, 1)
    return obj(**fs)


def token(rnd, text, kind=None):
    return obj(kind=s("token"), token=obj(kind=s(kind if kind is not None else text), value=s(text)), lmao=valgen.node("num", rnd.randrange(40)))


def symbol(rnd, k, v, kinds):
    if k == "nt":
        return obj(kind=s(v), value=of_kind(rnd, kinds[v]))
    if k == "lit":
        return token(rnd, v)
    return token(rnd, rnd.choice(["x", "12", "foo", "☃", '"', "\\", "a b"]), v)


def kinds_of(g):
    m = {"(any)": "any", "(unknown)": "any", "(any[])": "arr", "(unknown[])": "arr", "(string)": "str"}
    return {p["name"]: m.get(p["ts"], "obj") for p in g["prods"]}


def stacks(g, rnd, p, b, n):
    """[(top-first symbols)] for one alternative."""
    kinds = kinds_of(g)
    every = [(k, v) for k, v in {(x["k"], x["v"]) for q in g["prods"] for a in q["bodies"] for x in a["syms"]}]
    every.sort()

    def some():
        return symbol(rnd, *rnd.choice(every), kinds)

    def top():
        return [symbol(rnd, x["k"], x["v"], kinds) for x in reversed(b["syms"])]

    def rest():
        return [some() for _ in range(rnd.choice([0, 0, 0, 1, 1, 2, 3, 5, 12, rnd.randrange(13, 140) if rnd.random() < .2 else 0]))]
    out = []
    for _ in range(n):
        out.append(top() + rest())
    L = len(b["syms"])
    out.append(top()[:rnd.randrange(L)])                       # too short
    if L > 1:
        out.append(top()[1:])
    for _ in range(n):                                          # one position holds something else
        t = top()
        j = rnd.randrange(L)
        x = b["syms"][L - 1 - j]
        q = rnd.random()
        if x["k"] == "nt" and q < .4:
            bad = [k for k in ("arr", "str", "obj", "any")]
            t[j] = obj(kind=s(x["v"]), value=of_kind(rnd, rnd.choice(bad)))
        elif x["k"] == "lit" and q < .5:
            t[j] = token(rnd, rnd.choice([x["v"] + "x", x["v"][:-1], x["v"].upper() + "'", ""]), x["v"])
        else:
            t[j] = some()
        out.append(t + rest())
    if L > 1:                                                   # two neighbours swapped, everything turned around
        t = top()
        j = rnd.randrange(L - 1)
        t[j], t[j + 1] = t[j + 1], t[j]
        out.append(t + rest())
        out.append(top()[::-1] + rest())
    return out


def main():
    chk = base.Check("C20")
    rnd = random.Random("C20-%d" % base.SEED)
    lits = [x for x in R.LITS] + ["\\\\", '\\"', "a\\\\n", "*/", "`${", "'", "\\\\\\\""]
    gs = [("classic-" + k, g) for k, g in R.classics()]
    for i in range(base.scale(130, 1200)):
        gs.append(("rand%d" % i, R.rand_grammar(rnd, lits=rnd.sample(lits, rnd.choice([2, 3, 5])), pats=rnd.sample(sorted(R.PATS), rnd.choice([0, 1, 2])),
                                                style=rnd.choice(["ll", "ll", "mixed", "left"]), maxlen=rnd.choice([2, 4, 4, 7, 11]))))
    for i in range(base.scale(30, 300)):
        gs.append(("lang%d" % i, R.gen_language(rnd)))
    for i in range(base.scale(1, 4)):
        gs += [("big-long%d" % i, biggram.long_rhs(rnd, rnd.randint(40, 60))), ("big-records%d" % i, biggram.records(rnd, rnd.randint(40, 50))),
               ("big-statements%d" % i, biggram.statements(rnd, rnd.randint(60, 75)))]
    for _, g in gs:
        names = valgen.BIND
        q = rnd.random()
        if q < .35:
            names = NASTY
        elif q < .6:
            # names of nonterminals, with and without marks in front
            nts = sorted({p["name"] for p in g["prods"]})
            names = nts + ["_" + n for n in nts] + ["__" + n for n in nts] + valgen.BIND
        valgen.decorate(g, rnd, names=[n for n in dict.fromkeys(names) if n not in R.KEYWORDS] + (["w%d" % i for i in range(12)]))
    texts = [R.text_of(g, rnd) for _, g in gs]
    ans = tspar.generate(chk, texts)
    keep = [i for i, a in enumerate(ans) if not tspar.conflict(a)]
    jobs, meta = [], []
    for i in keep:
        g = gs[i][1]
        kinds = kinds_of(g)
        prods, runs, n = [], [], 0
        for p in g["prods"]:
            for b in p["bodies"]:
                n += 1
                prods.append({"name": base.codes(p["name"]), "code": valgen.spec_code(b["code"]),
                              "rhs": [{"k": x["k"], "v": base.codes(x["v"]), "b": bool(x["n"]), "ty": kinds.get(x["v"], "any")} for x in b["syms"]]})
                for st in stacks(g, rnd, p, b, base.scale(2, 5)):
                    runs.append((n, st))
        for k in (0, n + 1, n + 50):
            runs.append((k, rnd.choice(runs)[1]))
        # an action's number decides, whatever the stack
        for _ in range(base.scale(3, 10)):
            runs.append((rnd.randrange(1, n + 1), rnd.choice(runs)[1]))
        rnd.shuffle(runs)
        runs = runs[:base.scale(60, 200)]
        exprs = ["actions.EmitProduction<%d, [%s]>" % (k, ", ".join(ts_type(x) for x in st)) for k, st in runs]
        m = (ans[i].get("gen", {}).get("ok") or {"lex": "", "parse": ""})
        jobs.append(tspar.job(chk, i, m["lex"], m["parse"], exprs=exprs, diag=["parse_state2.gen.ts"]))
        meta.append((i, prods, runs, exprs))
    tl, ctx = [], {}
    for (i, prods, runs, exprs), t in zip(meta, tsrun.run(jobs, chk.scratch)):
        cid = gs[i][0]
        out = []
        bad = ""
        if "gen" not in ans[i] or "ok" not in ans[i]["gen"]:
            bad = "no module: " + str(ans[i].get("gen", ans[i]))[:150]
        elif "fail" in t:
            bad = t["fail"][:150]
        elif t["diag"]["parse_state2.gen.ts"]:
            bad = "the module is not valid TypeScript: " + t["diag"]["parse_state2.gen.ts"][0]["text"][:150]
        lines = {} if "fail" in t else {d["line"]: d["text"] for d in t["qdiag"]}
        for n, (k, st) in enumerate(runs):
            x = {"p": k, "stack": valgen.node("tup", xs=st), "res": "fail", "out": valgen.node("tup"), "note": bad}
            if not bad:
                v = t["q"][n]
                tr = valgen.tree(v)
                if tspar.is_error(v):
                    x["res"] = "error"
                elif tr is not None and tr["k"] == "tup":
                    x["res"], x["out"] = "stack", tr
                else:
                    x["note"] = "neither a stack nor an error: " + str(v).encode("ascii", "replace").decode()[:150]
                if x["res"] == "stack" and n in lines:
                    x["note"] = "the evaluation is reported as an error: " + lines[n][:120]
            out.append(x)
        chk.traces += len(out)
        tl.append({"id": cid, "nts": [{"name": base.codes(n), "ty": k} for n, k in kinds_of(gs[i][1]).items()], "prods": prods, "runs": out})
        ctx[cid] = (texts[i], exprs, t)
    r = chk.tlc("ActionTrace", cases=tl)
    seen = set()
    for b in r.bad:
        if (b["case"], b["why"]) in seen:
            continue
        seen.add((b["case"], b["why"]))
        text, exprs, t = ctx[b["case"]]
        n = b["run"] - 1
        chk.problem(b["case"], b["why"], {"grammar": text, "applied": exprs[n], "evaluated": ascii(t.get("q", [t])[min(n, len(t.get("q", [t])) - 1)])[:1500]})
    kinds = {}
    for o in {(o["case"], o["run"]): o for o in r.out}.values():
        kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    chk.cov["stacks"] = kinds
    chk.cov["type_checking_ms"] = sum(t.get("ms", 0) for _, _, t in ctx.values())
    if __import__("os").environ.get("VP_DEBUG"):
        for m, c in sorted(((t.get("ms", 0), c) for c, (_, _, t) in ctx.items()), reverse=True)[:8]:
            print(m, c, len(ctx[c][1]), ctx[c][0][:1500])
    chk.cov["grammars"] = len(tl)
    chk.cov["productions"] = sum(len(c["prods"]) for c in tl)
    for c in tl[:: max(1, len(tl) // 4)]:
        chk.sample({"grammar": ctx[c["id"]][0], "applied": ctx[c["id"]][1][:2]})
    chk.assumptions = ["TypeScript 5.9 evaluates the types", "mapping code of the kinds generated: literals, tuples with spreads, objects, property access, template literals",
                       "bound names within one alternative are distinct and ones TypeScript accepts for types"]
    return chk.finish()
