"""Names, declared types and mapping code for grammars: as data for the specification and as text.

Code is a tree: {"k": "var", "n": i}            value bound at position i of the alternative
                {"k": "str", "v": text} {"k": "num", "v": int} {"k": "bool", "v": bool}
                {"k": "obj", "f": [[name, code]]} {"k": "tup", "xs": [code or {"k": "spread", "n": i}]}
                {"k": "get", "n": i, "f": name}  property of a bound object
                {"k": "tpl", "xs": [code]}       template literal of strings
                {"k": "len", "n": i}             length of a bound list
                {"k": "rev", "n": i}             a bound list turned around, by the runtime's helper
                {"k": "if", "n": i, "v": text, "xs": [then, else]}  is the bound text this one?
"""
from . import base, gram

BIND = ["x", "y", "z", "a", "b", "c1", "c2", "left", "right", "value", "kind", "_v", "token", "newStack", "poppedValues", "symbolStack",
        "__x", "var0", "var1", "e", "es", "type", "U", "L", "actions", "X", "K", "of", "is", "T", "A1", "state", "lmao", "hd", "tl", "type_defs", "prodIdx", "Symbol", "Expr", "S", "A", "constructor"]
FIELDS = ["a", "kind", "value", "left", "right", "$", "in", "0", "k-1", "x y"]
STRS = ["", "a", "S", "x y", "it's", 'say "hi"', "back\\slash", "`tick`", "${x}", "☃", "(", ")", "=>", "]", "error",
        "http://x", "//", "/* c */", "#", ";", ",", "{", "}", "<x>", "x", "y", "value", "left es", "$x", "$$newStack", "...", "infer", "?:",
        "%s", "{}", "{0}", " ", "  a  ", "&amp;", "\u00e9\U0001f600", "-0", "07", "true", "long " * 30, "x" * 257]
COMMENTS = ["/* x => (y) */", "/**/", "/* , ] } */", "/* \" */", "/* // */", " ", "  ", "\t"]


def ts_str(s, rnd):
    q = rnd.choice(['"', "'"])
    return q + s.replace("\\", "\\\\").replace(q, "\\" + q) + q


def ts(code, names, rnd):
    """Text of a code tree. names: position -> bound name."""
    k = code["k"]
    if k == "var":
        return names[code["n"]]
    if k == "spread":
        return "..." + names[code["n"]]
    if k == "get":
        return names[code["n"]] + "[" + ts_str(code["f"], rnd) + "]"
    if k == "str":
        return ts_str(code["v"], rnd)
    if k == "num":
        return str(code["v"])
    if k == "bool":
        return "true" if code["v"] else "false"
    if k == "tup":
        return "[" + ", ".join(ts(x, names, rnd) for x in code["xs"]) + "]"
    if k == "tpl":
        out = ""
        for x in code["xs"]:
            if x["k"] == "str":
                out += x["v"].replace("\\", "\\\\").replace("`", "\\`").replace("${", "\\${")
            else:
                out += "${" + ts(x, names, rnd) + "}"
        return "`" + out + "`"
    if k == "len":
        return names[code["n"]] + "[" + ts_str("length", rnd) + "]"
    if k == "rev":
        return "U.Reverse<" + names[code["n"]] + ">"
    if k == "if":
        a, b = (ts(x, names, rnd) for x in code["xs"])
        return "(%s extends %s ? %s : %s)" % (names[code["n"]], ts_str(code["v"], rnd), a, b)
    if k == "obj":
        fs = list(code["f"])
        rnd.shuffle(fs)
        sep = rnd.choice(["; ", ", "])
        return "{ " + sep.join((f if f.isidentifier() and rnd.random() < .7 else ts_str(f, rnd)) + ": " + ts(x, names, rnd) for f, x in fs) + " }"
    raise ValueError(k)


# kinds of values a nonterminal can have; decides how its symbols may be used
#   "any": anything; "arr": always a tuple; "str": a string; "obj": an object with the field "value"
def decorate(g, rnd, names=BIND, rich=True):
    """Adds names, codes and declared types to a generator grammar, in place."""
    kinds = {}
    for p in g["prods"]:
        kinds.setdefault(p["name"], rnd.choice(["any", "any", "arr", "str", "obj", "obj"]) if rich else "any")
    for p in g["prods"]:
        kd = kinds[p["name"]]
        if kd == "any":
            p["ts"] = rnd.choice(["(any)", "(unknown)", "(any)"])
        elif kd == "arr":
            p["ts"] = rnd.choice(["(any[])", "(unknown[])"])
        elif kd == "str":
            p["ts"] = "(string)"
        else:
            p["ts"] = rnd.choice(['({ value: any })', '({ "value": unknown })', '({ value: any } & {})'])
        for b in p["bodies"]:
            pool = [n for n in names]
            rnd.shuffle(pool)
            if rnd.random() < .04:
                w = gram.longer(pool[-1], rnd)
                pool += [w + c for c in "defgh"[:rnd.randrange(1, 5)]]
            nm = {}
            b["syms"] = [dict(x) for x in b["syms"]]
            for i, s in enumerate(b["syms"]):
                # the checker's work doubles with every bound name
                if rnd.random() < .75 and len(nm) < 7:
                    s["n"] = pool.pop()
                    nm[i + 1] = s["n"]
                else:
                    s["n"] = ""
            b["code"] = code_of(kd, b, kinds, rnd)
            t = ts(b["code"], nm, rnd)
            if rnd.random() < .12:
                t = rnd.choice(COMMENTS) + t
            if rnd.random() < .12:
                t += rnd.choice(COMMENTS)
            b["fn"] = "(" + t + ")"
    # one nonterminal declared twice keeps one type
    last = {}
    for p in g["prods"]:
        last[p["name"]] = p["ts"]
    for p in g["prods"]:
        p["ts"] = last[p["name"]]
    return g


def kind_at(b, i, kinds):
    s = b["syms"][i - 1]
    return "str" if s["k"] != "nt" else kinds[s["v"]]


def code_of(kd, b, kinds, rnd):
    """A code tree. The value of a nonterminal is used at most once (values would double at every
    level of a derivation otherwise), token texts any number of times."""
    pos = [i + 1 for i, s in enumerate(b["syms"]) if s["n"]]
    rnd.shuffle(pos)
    toks = [i for i in pos if b["syms"][i - 1]["k"] != "nt"]
    left = [i for i in pos if i not in toks]

    def take(kind=None):
        """A nonterminal's position not used so far, or any token's."""
        c = [i for i in left if kind is None or kind_at(b, i, kinds) == kind]
        if c and (not toks or rnd.random() < .6 or kind not in (None, "str")):
            i = rnd.choice(c)
            left.remove(i)
            return i
        if toks and kind in (None, "str"):
            return rnd.choice(toks)
        return None

    def use(i):
        kd = kind_at(b, i, kinds)
        if kd == "obj" and rnd.random() < .4:
            return {"k": "get", "n": i, "f": "value"}
        if kd == "arr" and rnd.random() < .25:
            return {"k": rnd.choice(["len", "rev"]), "n": i}
        if kd == "str" and rnd.random() < .15:
            v = b["syms"][i - 1]["v"]
            return {"k": "if", "n": i, "v": rnd.choice([v, v, "12", "x", "foo", "a", "b"]), "xs": [simple(), simple()]}
        return {"k": "var", "n": i}

    def simple():
        return rnd.choice([{"k": "str", "v": rnd.choice(STRS)}, {"k": "num", "v": rnd.randrange(9)}])

    def atom():
        q = rnd.random()
        i = take() if q < .7 else None
        if i is not None:
            return use(i)
        if q < .9:
            return {"k": "str", "v": rnd.choice(STRS)}
        if q < .96:
            return {"k": "num", "v": rnd.randrange(0, 300)}
        return {"k": "bool", "v": rnd.random() < .5}

    def text():
        xs = []
        for _ in range(rnd.choice([1, 2, 3])):
            i = take("str") if rnd.random() < .65 else None
            xs.append({"k": "var", "n": i} if i is not None else {"k": "str", "v": rnd.choice(STRS)})
        return {"k": "tpl", "xs": xs}

    def tup(most=True):
        xs = []
        if most and rnd.random() < .75:
            # every bound value, in some order
            for i in sorted(pos) if rnd.random() < .7 else list(pos):
                if i in left:
                    left.remove(i)
                elif i not in toks:
                    continue
                if kind_at(b, i, kinds) == "arr" and rnd.random() < .7:
                    xs.append({"k": "spread", "n": i})
                else:
                    xs.append(use(i))
        for _ in range(rnd.choice([0, 0, 1, 2])):
            xs.insert(rnd.randrange(len(xs) + 1), atom())
        return {"k": "tup", "xs": xs}

    def obj(must=None):
        fs = rnd.sample(FIELDS, rnd.choice([1, 2, 3]))
        if must and must not in fs:
            fs[0] = must
        out = []
        for f in fs:
            i = take() if rnd.random() < .7 else None
            out.append([f, use(i) if i is not None else rnd.choice([atom, atom, lambda: tup(False), text])()])
        return {"k": "obj", "f": sorted(out)}
    if kd == "arr":
        return tup()
    if kd == "obj":
        return obj("value")
    if kd == "str":
        i = take("str") if rnd.random() < .5 else None
        return {"k": "var", "n": i} if i is not None else text()
    return rnd.choice([tup, tup, obj, text, atom])()


# ---------------------------------------------------------------- values for the specification

def node(k, n=0, s=(), xs=(), f=()):
    return {"k": k, "n": n, "s": list(s), "xs": list(xs), "f": list(f)}


def tree(v):
    """A type as the checker shows it; None: not a plain value."""
    if isinstance(v, bool):
        return node("bool", 1 if v else 0)
    if isinstance(v, str):
        return node("str", s=base.codes(v))
    if isinstance(v, (int, float)):
        return node("num", int(v)) if v == int(v) else None
    if isinstance(v, list):
        xs = [tree(x) for x in v]
        return None if None in xs else node("tup", xs=xs)
    if isinstance(v, dict) and "o" in v:
        fs = sorted(v["o"], key=lambda f: f[0])
        xs = [tree(x) for _, x in fs]
        return None if None in xs else node("obj", xs=xs, f=[base.codes(f) for f, _ in fs])
    return None


def spec_code(c):
    """Code for the specification, in the same shape as values."""
    k = c["k"]
    if k == "str":
        return node(k, s=base.codes(c["v"]))
    if k == "num":
        return node(k, c["v"])
    if k == "bool":
        return node(k, 1 if c["v"] else 0)
    if k in ("var", "spread", "len", "rev"):
        return node(k, c["n"])
    if k == "if":
        return node(k, c["n"], base.codes(c["v"]), [spec_code(x) for x in c["xs"]])
    if k == "get":
        return node(k, c["n"], base.codes(c["f"]))
    if k in ("tup", "tpl"):
        return node(k, xs=[spec_code(x) for x in c["xs"]])
    if k == "obj":
        fs = sorted(c["f"], key=lambda f: f[0])
        return node(k, xs=[spec_code(x) for _, x in fs], f=[base.codes(f) for f, _ in fs])
    raise ValueError(k)


def codes_of(g):
    """Per augmented production the code tree; the first has none."""
    out = [node("none")]
    for p in g["prods"]:
        for b in p["bodies"]:
            out.append(spec_code(b["code"]) if "code" in b else node("none"))
    return out
