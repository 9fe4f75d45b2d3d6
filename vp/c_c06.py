import random
from . import base, gram as R

WS = [" ", " ", "\n", "\t", "  ", "\n\n", " \n  ", "\r\n", "\u00a0", "\u2003", "\x0b", "\u2028", ""]
CODES = ["(0)", "()", "(x)", "({ a: 1 })", "({ kind: 'x', v: [a, b] })", "((a))", "(a) + (b)", "(`${a}`)", "(\"q\")",
         "( )", "(=> , ] [ < > :)", "(é ☃ 😀)", "(string | (number[]))", "(')')", "(a))", "(()", "(\\)", "(\\\")", "(export start A: (x) = [ ])",
         "([\"a\", ...B])", "(\t)", "(\ufeff)", "(x\u200b\u2028y\u0085)", "(\x00\x7f)", "(\U0010ffff\ufffd)", "(\u0301)"]
TEXTS = ["a", "+", "", "ab", "r", "export", "start", "=>", "(", ")", "[", "]", "<", ">", ",", ":", "=", "é", "☃", "😀", " ", "a b",
         "\\\\", "\\\"", "\\\\\\\"", "'", "`", "\n", "\t", "$", "r\\\"x\\\"", "//", "/*", "\ufeff", "\u200b\u2028", "\x00", "e\u0301"]
RES = ["[0-9]+", "a|b", "", ".*", "[a-z]+[0-9]*", "x", "(a)", "[^ ]", "é+", "a,b", "]", "=>"]
IDS = ["A", "B", "expr", "_", "_1", "a1", "R", "rr", "r1", "r_", "exports", "startA", "Export", "START", "xr", "export_", "tsr", "start1", "Z9_z"]


def rand_ast(rnd):
    ps = []
    names = rnd.sample(IDS, rnd.choice([1, 1, 2, 3, 4]))
    for i in range(rnd.choice([1, 1, 2, 3, 4])):
        bs = []
        for _ in range(rnd.choice([0, 1, 1, 2, 3])):
            syms = []
            for _ in range(rnd.choice([1, 1, 2, 3, 5])):
                n = rnd.choice(IDS) if rnd.random() < .4 else ""
                q = rnd.random()
                if q < .4:
                    syms.append(R.lit(rnd.choice(TEXTS), n))
                elif q < .6:
                    syms.append(R.pat(rnd.choice(RES), n))
                else:
                    syms.append(R.nt(rnd.choice(names), n))
            bs.append({"syms": syms, "fn": rnd.choice(CODES)})
        ps.append({"name": rnd.choice(names), "start": rnd.random() < .5, "ts": rnd.choice(CODES), "bodies": bs})
    return {"prods": ps}


def tokens(g, rnd):
    out = []
    for p in g["prods"]:
        if p["start"]:
            out += ["export", "start"]
        elif rnd.random() < .5:
            out.append("export")
        out += [p["name"], ":", p["ts"], "=", "["]
        for i, b in enumerate(p["bodies"]):
            for s in b["syms"]:
                t = {"lit": ['"%s"' % s["v"]], "re": ["r", '"%s"' % s["v"]], "nt": [s["v"]]}[s["k"]]
                out += (["<", s["n"], ":"] + t + [">"]) if s["n"] else t
            out += ["=>", b["fn"]]
            if i + 1 < len(p["bodies"]) or rnd.random() < .5:
                out.append(",")
        out.append("]")
    return out


def layout(toks, rnd, dense):
    """Token texts with white space between them. Code gets its own line end: it runs to the last ')' of a line."""
    out = ""
    for i, t in enumerate(toks):
        out += t
        nxt = toks[i + 1] if i + 1 < len(toks) else ""
        if t.startswith("(") and rnd.random() < .97:
            # mostly end the line before the next closing parenthesis
            out += rnd.choice([",\n"[1:], "\n", "\n  ", " \n"]) if rnd.random() < .8 or ")" in "".join(toks[i + 1:i + 4]) else rnd.choice(WS)
            continue
        glue = ""
        if t and nxt and (t[-1].isalnum() or t[-1] == "_") and (nxt[0].isalnum() or nxt[0] == "_"):
            glue = rnd.choice([w for w in WS if w])
        elif not dense or rnd.random() < .3:
            glue = rnd.choice(WS)
        out += glue
    return (rnd.choice(WS) if rnd.random() < .3 else "") + out + (rnd.choice(WS) if rnd.random() < .5 else "")


# what somebody might write instead of a token; some of it is fine
INSTEAD = {
    "id": ["1_a", "1", "9x", "a-b", "a.b", "$a", "a$", "\u00e9", "a\u00e9", "_\u00e9", "A'", "a#", "@a", "_", "__", "0_Z", "a b", "::a", "Export", "START", "exportstart", "R", "a\u200b", "\uff21"],
    "str": ["'x'", "`x`", "x", '"\\n"', '"\\t"', '"a\\u0041"', "\"\\'\"", '"\\""', '"\\\\"', '""', '"""', '"a""b"', '"a\\"b"', "'", '"\n"', '"a', 'a"', '"\\', '#"a"#', "/a/", "r'x'", 'R"x"', 'r#"x"#', 'rr"x"', 'r r"x"', 'b"x"'],
    "code": ["{x}", "[x]", "()", "( )", "x", "((", "))", "(x))", "((x)", "(x) y", '"(x)"', "(x);", "(\r)", "(x\r\ny)", "(x\u2028y)", "(x\x0by)", "(x\ny)"],
    "=>": ["->", "=", ">", "= >", "==>", "=>>", "\u21d2", ":", "=> =>", "=>=>"],
    "=": [":=", "==", ":", "=>", "-", "= =", ""],
    ":": ["::", "=", "", ";", ": :", ":="],
    "[": ["{", "(", "<", "", "[[", "[ ,"],
    "]": ["}", ")", ">", "", "]]", "];", ",]", ",,]", ", ,]"],
    ",": [";", "|", "", ",,", ", ,", ".", "\n", "\uff0c"],
    "<": ["(", "{", "", "<<", "\u2039"],
    ">": [")", "}", "", ">>", "=>"],
    "export": ["Export", "exports", "export export", "pub", "expor t", "export\u00a0", "EXPORT", "export default", ""],
    "start": ["Start", "starts", "start start", "star", "begin", "start:", ""],
    "r": ["R", "rr", "re", "r r", "", "r#", "b"]}


def kind_of(t):
    return t if t in INSTEAD else "str" if t[:1] == '"' else "code" if t[:1] == "(" else "id"


def damage(toks, rnd):
    t = list(toks)
    if t and rnd.random() < .4:
        i = rnd.randrange(len(t))
        w = rnd.choice(INSTEAD[kind_of(t[i])])
        t[i:i + 1] = [w] if w else []
        return t
    if t and rnd.random() < .1:
        t.insert(rnd.randrange(len(t) + 1), rnd.choice(["// c\n", "/* c */", "# c\n", "-- c\n", ";", "\ufeff", "\u200b", "\x00", "%%", "use x;", "#!"]))
        return t
    for _ in range(rnd.choice([1, 1, 2])):
        q = rnd.random()
        i = rnd.randrange(len(t)) if t else 0
        if t and q < .3:
            del t[i]
        elif t and q < .5:
            t.insert(i, t[i])
        elif len(t) > 1 and q < .65:
            j = rnd.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif q < .85:
            t.insert(i, rnd.choice(["export", "start", "r", ",", ":", "=", "[", "]", "<", ">", "=>", "(0)", '"x"', "A", "#", "|", '"', "(", "9", "1a", "\\", "// c", "-"]))
        elif t:
            t = t[:i]
    return t


HAND = ["", " ", "\n", "export", "start", "A", "A: (x) = []", "A: (x) = [\n]", "export A: (x\n) = [\n]", "export start start: (x)\n = []",
        "start A: (x)\n= []", "export export A: (x)\n= []", "export r: (x)\n = []", "A: () = [\n\"a\" => ()\n]", "A: () = [\n=> ()\n]",
        "A: ()\n= [\n, ]", "A: ()\n= [\n\"a\" => (),\n, ]", "A: ()\n= [ <n: \"a\"> => ()\n]", "A: ()\n= [ <n \"a\"> => ()\n]",
        "A: ()\n= [ <n: <m: \"a\">> => ()\n]", "A: ()\n= [ <r: \"a\"> => ()\n]", "A: ()\n= [ <n: r\"a\"> => ()\n]", "A: ()\n= [ <n: r \n \"a\"> => ()\n]",
        "A: ()\n= [ r => ()\n]", "A: ()\n= [ rx\"a\" => ()\n]", "A: ()\n= [ r\"a => ()\n]", "A: ()\n= [ \"a\\n\" => ()\n]", "A: ()\n= [ \"a\\\" => ()\n]",
        "A: ()\n= [ \"a\nb\" => ()\n]", "A: (a (b) c)\n= [ \"x\" => (y) (z)\n]", "A: ()\n= [ \"x\" => (y) ) ) z\n]", "A:()=[]", "A:()\n=[\"a\"=>()\n,\"b\"=>()\n,]B:()\n=[]",
        "A: x = []", "A: (x = []", "A (x)\n= []", "A: (x)\n[]", "A: (x)\n= [", "A: (x)\n= ]", "A: (x)\n= [\"a\"]", "A: (x)\n= [\"a\" =>]", "A: (x)\n= [\"a\" => x]",
        "A: (x)\n= [\"a\" => (x\n)]", "# A: (x)\n= []", "A: (x)\n= [] #", "A: (x)\n= [],", "A: (x)\n= [];", "é: (x)\n= []", "1A: (x)\n= []", "A1_: (x)\n= []"]


def large(rnd):
    """Grammars with much of everything."""
    w = lambda n, a="abcXYZ_019": "k" + "".join(rnd.choice(a) for _ in range(n - 1))
    ps = lambda **k: {"prods": [dict({"name": "A", "start": True, "ts": "(x)", "bodies": []}, **k)]}
    body = lambda *syms, fn="(y)": {"syms": list(syms), "fn": fn}
    t = rnd.choice(TEXTS)
    return [ps(name=w(300), bodies=[body(R.nt(w(270), w(260)))]),
            ps(bodies=[body(R.lit(w(400, "ab \u00e9\U0001f600"), w(20)), R.pat(w(400, "ab[]*+ \u00e9")))]),
            ps(ts="(" + w(1500, "ab () \u00e9;{}") + ")", bodies=[body(R.lit("a"), fn="(" + w(1500, "ab () \u00e9;{},") + ")")]),
            ps(bodies=[body(*[rnd.choice([R.lit(rnd.choice(TEXTS)), R.pat(rnd.choice(RES)), R.nt(rnd.choice(IDS), rnd.choice(IDS))]) for _ in range(280)])]),
            ps(bodies=[body(R.lit("k%d" % i), fn="(%d)" % i) for i in range(280)]),
            {"prods": [{"name": "N%d" % i, "start": i == 270, "ts": "(%d)" % i, "bodies": [body(R.nt("N%d" % (i + 1)), fn="(%d)" % i)]} for i in range(280)]}]


def cps(s):
    return base.codes(s)


def main():
    chk = base.Check("C06")
    rnd = random.Random("C06-%d" % base.SEED)
    texts = list(HAND)
    for i in range(base.scale(1500, 20000)):
        toks = tokens(rand_ast(rnd), rnd)
        q = rnd.random()
        if q < .4:
            toks = damage(toks, rnd)
        s = layout(toks, rnd, rnd.random() < .3)
        if q > .9 and s:
            j = rnd.randrange(len(s))
            s = s[:j] + rnd.choice(["", "(", ")", '"', "\\", "x", "\n", "\u00a0", "\x00", "=", "é"]) + s[j + rnd.choice([0, 1]):]
        texts.append(s)
    texts += [layout(tokens(g, rnd), rnd, rnd.random() < .5) for _ in range(base.scale(1, 5)) for g in large(rnd)]
    # the same grammar in different layouts
    for i in range(base.scale(60, 600)):
        toks = tokens(rand_ast(rnd), rnd)
        for _ in range(4):
            texts.append(layout(toks, rnd, rnd.random() < .5))
    core = base.build_bin("core")
    ans = base.record(core, [{"op": "grammar", "text": t, "want": ["ast", "astonly"]} for t in texts], chk.scratch)
    cases = []
    for i, (t, a) in enumerate(zip(texts, ans)):
        c = {"id": i, "w": cps(t), "res": "ast", "ast": [], "note": ""}
        if "ast" in a:
            c["ast"] = [{"name": cps(p["name"]), "start": p["start"], "ts": cps(p["ts"]),
                         "bodies": [{"fn": cps(b["fn"]), "syms": [{"k": s["k"], "v": cps(s["v"]), "n": cps(s["n"])} for s in b["syms"]]}
                                    for b in p["bodies"]]} for p in a["ast"]]
        elif a.get("stage") == "text":
            c["res"] = "rejected"
        else:
            c["res"], c["note"] = "failed", "reading the text crashed or hung: %s" % a
        cases.append(c)
    chk.traces = len(cases)
    r = chk.tlc("GrammarTextTrace", cases=cases)
    for b in r.bad:
        i = b["case"]
        chk.problem("text%d" % i if i >= len(HAND) else "hand%d" % i, b["why"], {"text": texts[i], "recorded": str(ans[i])[:2000]})
    chk.cov["texts"] = len(cases)
    chk.cov["texts_that_are_grammars"] = sum(1 for o in r.out if o["valid"])
    for i in range(len(HAND), len(texts), max(1, len(texts) // 4)):
        chk.sample(texts[i])
    return chk.finish()
