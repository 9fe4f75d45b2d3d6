"""The shipped Lisp example: grammar file, committed modules, runtime, end to end."""
import itertools, os, random
from . import base, genre as G, gram as R, lexc, lexgen, parsec, tsrun, tspar, valc, valgen, c_c06, c_c15


# ---------------------------------------------------------------- reading what the grammar file says

class Reader:
    def __init__(self, s):
        self.s, self.i = s, 0

    def white(self):
        while self.i < len(self.s) and self.s[self.i] in " \t\n":
            self.i += 1

    def at(self, x):
        self.white()
        return self.s.startswith(x, self.i)

    def take(self, x):
        if self.at(x):
            self.i += len(x)
            return True
        return False

    def need(self, x):
        if not self.take(x):
            raise base.ToolError("mapping code not understood: %s at %d" % (self.s, self.i))

    def name(self):
        self.white()
        j = self.i
        while j < len(self.s) and (self.s[j].isalnum() or self.s[j] in "_$"):
            j += 1
        if j == self.i:
            self.need("a name")
        r, self.i = self.s[self.i:j], j
        return r

    def string(self):
        self.white()
        q = self.s[self.i]
        j = self.s.index(q, self.i + 1)
        r, self.i = self.s[self.i + 1:j], j + 1
        if "\\" in r or (q == "`" and "${" in r):
            raise base.ToolError("mapping code not understood: %s" % self.s)
        return r


def code_tree(text, names):
    """Mapping code as a tree: objects, tuples with spreads, strings, numbers, bound names, properties."""
    r = Reader(text)

    def expr():
        if r.take("("):
            x = expr()
            r.need(")")
        elif r.take("{"):
            fs = []
            while not r.take("}"):
                r.white()
                f = r.string() if r.s[r.i] in "\"'" else r.name()
                r.need(":")
                fs.append([f, expr()])
                r.take(",") or r.take(";")
            x = {"k": "obj", "f": sorted(fs)}
        elif r.take("["):
            xs = []
            while not r.take("]"):
                if r.take("..."):
                    xs.append({"k": "spread", "n": names[r.name()]})
                else:
                    xs.append(expr())
                r.take(",")
            x = {"k": "tup", "xs": xs}
        elif r.at('"') or r.at("'") or r.at("`"):
            x = {"k": "str", "v": r.string()}
        else:
            n = r.name()
            if n.isdigit():
                x = {"k": "num", "v": int(n)}
            elif n in ("true", "false"):
                x = {"k": "bool", "v": n == "true"}
            elif n in names:
                x = {"k": "var", "n": names[n]}
                if r.take("["):
                    x = {"k": "get", "n": names[n], "f": r.string()}
                    r.need("]")
            else:
                raise base.ToolError("mapping code not understood: %s" % text)
        return x
    x = expr()
    r.white()
    if r.i != len(text):
        raise base.ToolError("mapping code not understood: %s" % text)
    return x


def pattern_tree(s):
    """A pattern of classes, plain characters, groups, |, ?, * and +."""
    i = [0]

    def alt():
        xs = [cat()]
        while i[0] < len(s) and s[i[0]] == "|":
            i[0] += 1
            xs.append(cat())
        return xs[0] if len(xs) == 1 else G.alt(*xs)

    def cat():
        xs = []
        while i[0] < len(s) and s[i[0]] not in "|)":
            c = s[i[0]]
            i[0] += 1
            if c == "(":
                x = alt()
                i[0] += 1
            elif c == "[":
                neg = s[i[0]] == "^"
                i[0] += neg
                rs = []
                while s[i[0]] != "]":
                    a = s[i[0]]
                    i[0] += 1
                    if s[i[0]] == "-" and s[i[0] + 1] != "]":
                        rs.append((ord(a), ord(s[i[0] + 1])))
                        i[0] += 2
                    else:
                        rs.append((ord(a), ord(a)))
                i[0] += 1
                x = G.cls(rs, neg)
            elif c in "\\.^$":
                raise base.ToolError("pattern not understood: " + s)
            else:
                x = G.ch(c)
            while i[0] < len(s) and s[i[0]] in "?*+":
                x = G.rep(x, s[i[0]])
                i[0] += 1
            if i[0] < len(s) and s[i[0]] == "{":
                raise base.ToolError("pattern not understood: " + s)
            xs.append(x)
        return xs[0] if len(xs) == 1 else (G.cat(*xs) if xs else G.eps())
    return alt()


def grammar_of(ast):
    """The productions the file was read as, in the generators' form; decorated with code trees."""
    g = {"prods": []}
    for p in ast:
        bs = []
        for b in p["bodies"]:
            names = {x["n"]: n + 1 for n, x in enumerate(b["syms"]) if x["n"]}
            bs.append({"syms": [R.S(x["k"], x["v"], x["n"]) for x in b["syms"]], "fn": b["fn"], "code": code_tree(b["fn"], names)})
        g["prods"].append({"name": p["name"], "start": p["start"], "ts": p["ts"], "bodies": bs})
    for k in R.terms_of(g):
        if k[0] == "re":
            R.PATS.setdefault(k[1], pattern_tree(k[1]))
    return g


def sentences(g, rnd, known):
    """All short token strings, and longer sentences and near misses."""
    terms = R.terms_of(g)
    out = [""]
    n = base.scale(5, 7)
    for k in range(1, n + 1):
        for t in itertools.product(terms, repeat=k):
            out.append(" ".join(R.spell(x, rnd) for x in t))
    seen = set(out)
    for i in range(base.scale(220, 2500)):
        s = R.derive(g, rnd, rnd.choice([4, 8, 14, 22, 34]), rnd.choice([3, 4, 5, 7, 9]))
        if s is None:
            continue
        q = rnd.random()
        if q < .35:
            s = R.mutate(s, terms, rnd)
        t = R.write(s, rnd, glue=rnd.choice([0, .25, .8]))
        if q > .9:
            j = rnd.randrange(len(t) + 1)
            t = t[:j] + rnd.choice(["#", "\t", "x", "0", "00", "add", "ad", "addd", "\u2603", "-", ".", '"', "\\", "(", ")", "(("]) + t[j:]
        if t not in seen and len(t) < 160:
            seen.add(t)
            out.append(t)
    out += ["()", "(add)", "(1)", "(0)", "(10 20 0)", "(add 34 35)", "(add 1(add 2 3))", "((((1))))", "(add(add(add 1)))", "1", "add", "(", ")", " ", "\n(add\n1\n)\n",
            "(add 34 35", "(add 34 35))", "(add 34 35)(add 1)", "(sub 1 2)", "(a)", "(ad d)", "(addadd)", "(add1)", "(1add)", "(12345678901234567890)", "(add 034)",
            "(add " + "7 " * 9 + ")", "(add " + "7 " * 20 + ")", "(" * 8 + "1" + ")" * 8, "(" * 20 + "1" + ")" * 20]
    return out


def main():
    chk = base.Check("C21")
    rnd = random.Random("C21-%d" % base.SEED)
    with open(os.path.join(base.REPO, "basic_lisp.tlalr"), encoding="utf-8") as f:
        text = f.read()
    core = base.build_bin("core")
    a = base.record(core, [{"op": "grammar", "text": text, "want": ["ast", "astonly"]}], chk.scratch)[0]
    # is it read as it is written?
    case = {"id": "basic_lisp", "w": base.codes(text), "res": "rejected", "ast": [], "note": ""}
    if "ast" in a:
        case["res"] = "ast"
        case["ast"] = [{"name": base.codes(p["name"]), "start": p["start"], "ts": base.codes(p["ts"]),
                        "bodies": [{"fn": base.codes(b["fn"]), "syms": [{"k": s["k"], "v": base.codes(s["v"]), "n": base.codes(s["n"])} for s in b["syms"]]}
                                   for b in p["bodies"]]} for p in a["ast"]]
    for b in chk.tlc("GrammarTextTrace", cases=[case]).bad:
        chk.problem("basic_lisp", b["why"], {"text": text, "recorded": str(a)[:1500]})
    if chk.problems or "ast" not in a:
        if not chk.problems:
            chk.problem("basic_lisp", "the shipped grammar is not read", {"text": text, "recorded": str(a)[:1500]})
        return chk.finish()
    g = grammar_of(a["ast"])
    ins = sentences(g, rnd, None)
    parts = [ins[k::base.CORES] for k in range(base.CORES)]
    recs = base.record(core, [{"op": "grammar", "text": text, "want": ["gen"], "inputs": p} for p in parts], chk.scratch, timeout=120)
    gen = (recs[0].get("gen", {}).get("ok") or {"lex": "", "parse": ""})
    mods = [("committed", tsrun.repo_ts("lex_state.gen.ts"), tsrun.repo_ts("parse_state2.gen.ts"), ""),
            ("generated", gen["lex"], gen["parse"], "" if gen["lex"] else "no modules: " + str(recs[0].get("gen", recs[0]))[:150])]
    jobs, what = [], []
    for n, lex, par, note in mods:
        al = dict(c_c15.aliases(), **{"lex_state.gen.ts": ["Tokens", "States", "DFAtoNFA"]})
        jobs.append(tspar.job(chk, len(jobs), lex, par, exprs=['type_defs.Symbol["kind"]'],
                              diag=["parse_state2.gen.ts", "lex_state.gen.ts", "lex.ts", "parse.ts"], aliases=al))
        what.append((n, None))
        for p in parts:
            if note:
                continue
            use = p if n == "committed" else p[::4]
            jobs.append(tspar.job(chk, len(jobs), lex, par, exprs=["VpParse<Lex<%s>>" % tspar.ts_lit(s) for s in use]))
            what.append((n, p))
    res = tsrun.run(jobs, chk.scratch, timeout=400)
    sg, ids = R.spec_grammar(g)
    key = {v: k for k, v in ids.items()}
    terms = R.terms_of(g)
    defs = parsec.defs_for(g, ids, [k[1] for k in terms if k[0] == "re"])
    lexcases, modcases, valcases, ctx = [], [], [], {}
    for (n, p), t, j in zip(what, res, jobs):
        if p is None:
            note = dict((m[0], m[3]) for m in mods)[n]
            ctx[n] = {"module": n}
            modcases.append(c_c15.case_of(n, g, {"gen": {"ok": {"parse": ""}}} if not note else {"gen": {"note": note}}, t))
            for f in ("lex.ts", "parse.ts"):
                if "fail" not in t and t["diag"].get(f) and not modcases[-1]["note"]:
                    modcases[-1]["note"] = "%s is not valid TypeScript next to the example's modules: %s" % (f, t["diag"][f][0]["text"][:120])
            lexcases += lexgen.to_cases([(n, defs, "" if note else "x", note)], [t])
            continue
        use = p if n == "committed" else p[::4]
        rec = recs[parts.index(p)]
        rr = rec.get("runs")
        if rr is not None and n != "committed":
            rr = rr[::4]
        cid = "%s-%d" % (n, len(valcases))
        ctx[cid] = (use, t)
        runs = [valc.run_of(s, t, k, rr, rec) for k, s in enumerate(use)]
        chk.traces += len(runs)
        valcases.append({"id": cid, "g": sg, "defs": defs, "codes": valgen.codes_of(g), "names": [base.codes(key[x["l"]][1]) for x in sg["prods"]], "runs": runs})
    lexgen.judge(chk, lexcases, ctx)
    c_c15.judge(chk, modcases, ctx)
    r = chk.tlc("ValueTrace", cases=valcases, env={"VP_ASPECT": "reject"})
    for b in r.bad:
        use, t = ctx[b["case"]]
        k = b["run"] - 1
        q = t.get("q", [t])
        chk.problem("%s %r" % (b["case"].split("-")[0], use[k]), b["why"], {"input": use[k], "evaluated": ascii(q[min(k, len(q) - 1)])[:1500], "want": b["want"], "steps": b["steps"]})
    outs = list({(o["case"], o["run"]): o for o in r.out}.values())
    chk.cov["expressions"] = sum(1 for o in outs if o["s"])
    chk.cov["non_expressions"] = sum(1 for o in outs if not o["s"])
    chk.cov["expressions_beyond_budget"] = sum(1 for o in outs if o["s"] and o["z"] > 49)
    chk.cov["all_token_strings_up_to"] = base.scale(5, 7)
    for s in rnd.sample(ins, 5):
        chk.sample(s)
    chk.assumptions = ["TypeScript 5.9 evaluates the types", "the step budget of the shipped parser is 49 shifts and reductions"]
    return chk.finish()
