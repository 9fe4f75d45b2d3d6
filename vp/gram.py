"""Grammars: the generator's own representation, their text in the grammar notation, the
integer form the specification works on, sentences and near misses."""
import random
from . import base, genre as G

# A grammar: {"prods": [{"name","start","ts","bodies":[{"syms":[{"k","v","n"}],"fn"}]}], "pats": {text: tree}}
KEYWORDS = {"r", "export", "start"}


def S(k, v, n=""):
    return {"k": k, "v": v, "n": n}


def lit(v, n=""):
    return S("lit", v, n)


def nt(v, n=""):
    return S("nt", v, n)


def pat(v, n=""):
    return S("re", v, n)


def prod(name, bodies, start=False, ts="(any)"):
    bs = []
    for b in bodies:
        if isinstance(b, dict):
            bs.append(b)
        else:
            bs.append({"syms": list(b), "fn": "(0)"})
    return {"name": name, "start": start, "ts": ts, "bodies": bs}


PATS = {
    "[0-9]+": G.rep(G.cls([(48, 57)]), "+"),
    "[a-z]+": G.rep(G.cls([(97, 122)]), "+"),
    "[A-Z]": G.cls([(65, 90)]),
    "[a-z]": G.cls([(97, 122)]),
    "x+": G.rep(G.ch("x"), "+"),
    "yz*": G.cat(G.ch("y"), G.rep(G.ch("z"), "*")),
    "a|bb": G.alt(G.ch("a"), G.lit("bb")),
    "[0-9]+(.[0-9])?": None,
}
PATS.pop("[0-9]+(.[0-9])?")


def parse_simple(text, start, pats=None):
    """'E -> E + T | T' lines; upper-case words are nonterminals, r:... patterns, rest literals."""
    prods, names, order = {}, [], []
    for line in text.strip().split("\n"):
        l, r = line.strip().split("->")
        l = l.strip()
        order.append((l, [b.split() for b in r.split(" | ")]))
        names.append(l)
    out = []
    for l, bs in order:
        bodies = []
        for b in bs:
            syms = []
            for x in b:
                if x in names:
                    syms.append(nt(x))
                elif x.startswith("r:"):
                    syms.append(pat(x[2:]))
                else:
                    syms.append(lit(x))
            bodies.append(syms)
        out.append(prod(l, bodies, start=(l == start and not any(p["start"] for p in out))))
    return {"prods": out}


def text_of(g, rnd=None, fancy=False):
    """The grammar in its notation."""
    out = []
    for p in g["prods"]:
        ex = "export start " if p["start"] else ("export " if rnd and rnd.random() < .4 else "")
        bs = []
        for b in p["bodies"]:
            syms = []
            for s in b["syms"]:
                t = {"lit": '"%s"', "re": 'r"%s"', "nt": "%s"}[s["k"]] % s["v"]
                if s["n"]:
                    t = "<%s: %s>" % (s["n"], t)
                syms.append(t)
            bs.append("  " + " ".join(syms) + " => " + b["fn"])
        out.append("%s%s: %s = [\n%s\n]" % (ex, p["name"], p["ts"], ",\n".join(bs) + ("," if bs and not (rnd and rnd.random() < .4) else "")))
    return "\n\n".join(out) + "\n"


def flat(g):
    """Augmented productions in order: [(lhs, [sym keys])]; symbol keys (k, v)."""
    start = next(p["name"] for p in g["prods"] if p["start"])
    out = [(start + "'", [("nt", start)])]
    for p in g["prods"]:
        for b in p["bodies"]:
            out.append((p["name"], [(s["k"], s["v"]) for s in b["syms"]]))
    return out


def spec_grammar(g):
    """Integer form plus the symbol key <-> integer map. 0 is end-of-input."""
    fl = flat(g)
    ids = {("eof", ""): 0}
    nts, ts = [], []
    ids[("nt", fl[0][0])] = 1
    nts.append(1)
    for l, r in fl:
        for k in [("nt", l)] + r:
            if k not in ids:
                ids[k] = len(ids)
                (nts if k[0] == "nt" else ts).append(ids[k])
    return {"prods": [{"l": ids[("nt", l)], "r": [ids[k] for k in r]} for l, r in fl], "nts": nts, "ts": ts}, ids


# ------------------------------------------------------------------ random grammars

NAMES = ["S", "A", "B", "C", "D", "E", "F", "H", "expr", "term", "expr2", "Expr", "_x", "list", "item", "e", "ex", "exp", "S_", "SS"]
LITS = ["a", "b", "c", "d", "+", "*", "(", ")", "[", "]", ",", ";", "if", "else", "=", "==", "a.b", "$", "^", "|", "é", "☃", "/", "//", "ab", "aa", "'", "`", "${", "{", "}", "?"]

# names that the generated modules use themselves, or that are special elsewhere
ODDNAMES = ["Symbol", "Symbols", "Token", "Tokens", "Production", "Productions", "Action", "Goto", "TokenKindToIdx", "type_defs", "L", "U", "Parse",
            "symbolStack", "prodIdx", "poppedValues", "var0", "var1", "newStack", "kind", "value", "length", "token", "nonterminal", "regex",
            "strlit", "constructor", "toString", "__proto__", "__x", "ParseImpl", "Lex", "eof", "EOF", "lmao", "infer_", "Array", "Pred", "Action_1"]


def longer(w, rnd):
    """A long name that begins and ends like a short one."""
    n = rnd.choice([20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300])
    return w + rnd.choice(["_", "x", "1", "aB"]) * n + rnd.choice(["", w, "_"])


def rand_grammar(rnd, nnt=None, nprod=None, lits=None, pats=(), maxlen=4, style=None):
    nnt = nnt or rnd.choice([1, 1, 2, 2, 3, 3, 4, 5])
    names = rnd.sample(NAMES + rnd.sample(ODDNAMES, 6), nnt)
    if rnd.random() < .06:
        w = longer(names[0], rnd)
        names = [w] + [w[:-1] + y if rnd.random() < .5 else n for n, y in zip(names[1:], "abcdefghijkl")]
    nl = rnd.choice([1, 2, 2, 3, 3, 4, 5])
    lits = lits or rnd.sample(LITS, nl)
    style = style or rnd.choice(["mixed", "mixed", "mixed", "ll", "left", "unit"])
    terms = [lit(x) for x in lits] + [pat(x) for x in pats]
    bodies = {n: [] for n in names}

    def sym(i):
        if rnd.random() < (.55 if style != "unit" else .3):
            return dict(rnd.choice(terms))
        return nt(rnd.choice(names))

    for i, n in enumerate(names):
        k = rnd.choice([1, 1, 2, 2, 3])
        for j in range(k):
            ln = rnd.choice([1, 1, 2, 2, 3, 3, maxlen])
            b = [sym(i) for _ in range(ln)]
            if style == "ll":
                b[0] = dict(rnd.choice(terms))
            elif style == "left" and rnd.random() < .5:
                b[0] = nt(n)
            if j == k - 1 and rnd.random() < .6:
                # something that ends the recursion
                b = [dict(rnd.choice(terms)) if s["k"] == "nt" and rnd.random() < .8 else s for s in b]
            bodies[n].append(b)
    # often make everything reachable
    reach, todo = set(), [names[0]]
    while todo:
        x = todo.pop()
        if x in reach:
            continue
        reach.add(x)
        for b in bodies[x]:
            todo += [s["v"] for s in b if s["k"] == "nt"]
    if rnd.random() < .8:
        for x in names:
            if x not in reach:
                b = rnd.choice(bodies[rnd.choice(sorted(reach))])
                b.insert(rnd.randrange(len(b) + 1), nt(x))
    order = names[:]
    if rnd.random() < .4:
        rnd.shuffle(order)
    ps = []
    for n in order:
        bs = bodies[n]
        if len(bs) > 1 and rnd.random() < .15:
            # one nonterminal declared in two places
            ps.append(prod(n, bs[:1], start=(n == names[0])))
            ps.append(prod(n, bs[1:], start=False))
        else:
            ps.append(prod(n, bs, start=(n == names[0])))
    if rnd.random() < .1:
        rnd.shuffle(ps)
        if not any(p["start"] for p in ps):
            ps[0]["start"] = True
    return {"prods": ps}


OPS = ["+", "-", "*", "/", "^", "&&", "||", "==", "<", "::"]


def gen_language(rnd):
    """Random programming-language-like grammar, meant to be LALR(1): layers of binary operators,
    atoms, lists, statements."""
    ps = []
    layers = rnd.randint(1, 4)
    ops = rnd.sample(OPS, layers + 2)
    nm = ["L%d" % i for i in range(layers + 1)]
    if rnd.random() < .5:
        nm = ["expr" + "_" * i for i in range(layers + 1)]
    for i in range(layers):
        a, b = nm[i], nm[i + 1]
        q = rnd.random()
        o = lit(ops[i])
        if q < .45:
            bs = [[nt(a), o, nt(b)], [nt(b)]]
        elif q < .8:
            bs = [[nt(b), o, nt(a)], [nt(b)]]
        else:
            bs = [[o, nt(a)], [nt(b)]]
        if rnd.random() < .3 and q < .45:
            bs.insert(1, [nt(a), lit(ops[-1] if i == 0 else ops[i] + "'"), nt(b)])
        if rnd.random() < .3:
            bs.reverse()
        ps.append((a, bs))
    atom = nm[-1]
    bs = [[rnd.choice([lit("x"), lit("n"), pat("[0-9]+"), pat("[a-z]+")])]]
    extra = []
    if rnd.random() < .9:
        bs.append([lit("("), nt(nm[0]), lit(")")])
    if rnd.random() < .5:
        bs.append([lit("["), nt("items"), lit("]")])
        bs.append([lit("["), lit("]")])
        q = rnd.random()
        if q < .5:
            extra.append(("items", [[nt("items"), lit(","), nt(nm[0])], [nt(nm[0])]]))
        elif q < .8:
            extra.append(("items", [[nt(nm[0]), lit(","), nt("items")], [nt(nm[0])]]))
        else:
            extra.append(("items", [[nt("items"), lit(","), nt(nm[0])], [nt(nm[0])], [nt(nm[0]), lit(",")]]))
    if rnd.random() < .3:
        bs.append([lit("{"), nt(nm[0]), lit("}")])
    if rnd.random() < .3:
        # call without and with arguments on the same prefix
        bs.append([lit("f"), lit("("), lit(")")])
        bs.append([lit("f"), lit("("), nt(nm[0]), lit(")")])
    ps.append((atom, bs))
    ps += extra
    start = nm[0]
    if rnd.random() < .6:
        st = [[lit("let"), lit("v"), lit("="), nt(nm[0]), lit(";")], [nt(nm[0]), lit(";")]]
        if rnd.random() < .6:
            st.append([lit("if"), nt(nm[0]), nt("blk")])
            if rnd.random() < .5:
                st.append([lit("if"), nt(nm[0]), nt("blk"), lit("else"), nt("blk")])
            ps.append(("blk", [[lit("begin"), nt("stmts"), lit("end")]]))
        ps.append(("stmts", [[nt("stmts"), nt("stmt")], [nt("stmt")]] if rnd.random() < .6 else [[nt("stmt"), nt("stmts")], [nt("stmt")]]))
        ps.append(("stmt", st))
        start = "stmts" if rnd.random() < .7 else "prog"
        if start == "prog":
            ps.append(("prog", [[lit("begin"), nt("stmts"), lit("end")]] if rnd.random() < .5 else [[nt("stmts")]]))
    if rnd.random() < .5:
        rnd.shuffle(ps)
    return {"prods": [prod(n, b, start=(n == start)) for n, b in ps]}


CLASSIC = {
    # name: (text, start)
    "dragon-cc": ("S -> C C\nC -> c C | d", "S"),
    "assign": ("S -> L = R | R\nL -> * R | x\nR -> L", "S"),          # LALR, not SLR
    "expr": ("E -> E + T | T\nT -> T * F | F\nF -> ( E ) | x", "E"),
    "right": ("E -> T + E | T\nT -> x", "E"),
    "lr1-not-lalr": ("S -> a E a | b E b | a F b | b F a\nE -> e\nF -> e", "S"),
    "lr1-not-lalr2": ("S -> ( X | E ] | F )\nX -> E ) | F ]\nE -> A\nF -> A\nA -> x", "S"),
    "lalr-sr-fine": ("S -> a A d | b B d | a B e | b A e\nA -> c\nB -> c c", "S"),
    "dangling": ("S -> i S e S | i S | x", "S"),
    "ambig-plus": ("E -> E + E | x", "E"),
    "rr": ("S -> A | B\nA -> x\nB -> x", "S"),
    "cycle": ("S -> A\nA -> S | x", "S"),
    "unit-cycle3": ("S -> A | x\nA -> B\nB -> S", "S"),
    "accept-reduce": ("S -> S | x", "S"),
    "self-only": ("S -> S", "S"),
    "unproductive": ("S -> a S", "S"),
    "unproductive2": ("S -> x | A\nA -> A b | c A", "S"),
    "unreachable": ("S -> x\nA -> y A | z", "S"),
    "mutual-left": ("A -> B a | x\nB -> A b | y", "A"),
    "deep-left": ("A -> B a | a\nB -> C b\nC -> A c | c", "A"),
    "shared-term": ("S -> a b | a c | a d e", "S"),
    "shared-nt": ("S -> A b | A c\nA -> a", "S"),
    "merge-lookahead": ("S -> a A x | b A y\nA -> c D\nD -> d", "S"),
    "merge-deep": ("S -> a A x | b A y | c A z\nA -> B\nB -> ( A ) | d", "S"),
    "palin-marked": ("S -> a S a | b S b | c", "S"),
    "palin-unmarked": ("S -> a S a | a", "S"),
    "anbn": ("S -> a S b | a b", "S"),
    "lists": ("S -> [ L ] | [ ]\nL -> L , S | S", "S"),
    "json": ("V -> { } | { M } | [ ] | [ E ] | s | n\nM -> P | P , M\nP -> s : V\nE -> V | V , E", "V"),
    "lisp": ("P -> L\nL -> ( I )\nI -> I X | X\nX -> L | x | n", "P"),
    "long-rhs": ("S -> a b c d e f g h i j | a b c d e f g h i k", "S"),
    "many-nt": ("S -> A B C D E F\nA -> a\nB -> b\nC -> c\nD -> d\nE -> e\nF -> f | S g", "S"),
    "lalr-propag": ("S -> A a | b A c | d c | b d a\nA -> d", "S"),   # LALR, not SLR
    "start-inside": ("S -> ( S ) | x S y | z", "S"),
    "two-decl": ("S -> A x\nA -> a\nS -> A y\nA -> b", "S"),
    "lr2": ("S -> A B c | A D d\nA -> a\nB -> b\nD -> b", "S"),
    "needs-lr2": ("S -> X Y a | Z Y b\nX -> q\nZ -> q\nY -> w", "S"),
}


def classics():
    out = []
    for k, (t, s) in CLASSIC.items():
        out.append((k, parse_simple(t, s)))
    return out


def nt_names(g):
    return [p["name"] for p in g["prods"]]


def defined(g):
    names = set(nt_names(g))
    return all(s["k"] != "nt" or s["v"] in names for p in g["prods"] for b in p["bodies"] for s in b["syms"])


# ------------------------------------------------------------------ sentences

def minheights(g):
    fl = flat(g)
    h = {}
    while True:
        ch = False
        for l, r in fl:
            try:
                v = 1 + max([0 if k[0] != "nt" else h[k[1]] for k in r] + [0])
            except KeyError:
                continue
            if v < h.get(l, 10 ** 9):
                h[l] = v
                ch = True
        if not ch:
            return h


def derive(g, rnd, maxlen=14, depth=6):
    """A random sentence (list of terminal keys) or None."""
    fl = flat(g)
    h = minheights(g)
    start = fl[0][0]
    if start not in h:
        return None
    by = {}
    for l, r in fl:
        if all(k[0] != "nt" or k[1] in h for k in r):
            by.setdefault(l, []).append(r)

    def height(r):
        return 1 + max([0 if k[0] != "nt" else h[k[1]] for k in r] + [0])

    out = []

    def go(k, d):
        if len(out) > maxlen:
            return
        if k[0] != "nt":
            out.append(k)
            return
        rs = by[k[1]]
        if d <= h[k[1]]:
            m = min(height(r) for r in rs)
            rs = [r for r in rs if height(r) == m]
        for x in rnd.choice(rs):
            go(x, d - 1)
    go(("nt", start), depth)
    return out if len(out) <= maxlen else None


def mutate(toks, terms, rnd):
    t = list(toks)
    for _ in range(rnd.choice([1, 1, 1, 2])):
        q = rnd.random()
        if t and q < .3:
            del t[rnd.randrange(len(t))]
        elif t and q < .5:
            t[rnd.randrange(len(t))] = rnd.choice(terms)
        elif t and q < .6:
            t = t[:rnd.randrange(len(t))]
        elif len(t) > 1 and q < .75:
            i = rnd.randrange(len(t) - 1)
            t[i], t[i + 1] = t[i + 1], t[i]
        elif q < .88:
            t.insert(rnd.randrange(len(t) + 1), rnd.choice(terms))
        else:
            t.append(rnd.choice(terms))
    return t


def terms_of(g):
    out = []
    for p in g["prods"]:
        for b in p["bodies"]:
            for s in b["syms"]:
                if s["k"] != "nt" and (s["k"], s["v"]) not in out:
                    out.append((s["k"], s["v"]))
    return out


def tree_of(key):
    """Regex tree of a terminal."""
    return G.lit(key[1]) if key[0] == "lit" else G.copy(PATS[key[1]])


def spell(key, rnd):
    if key[0] == "lit":
        return key[1]
    return "".join(chr(c) for c in G.sample(PATS[key[1]], rnd, "abcxyz019AZ"))


def write(toks, rnd, glue=.25):
    """Token keys as input text; mostly separated by blanks (glued tokens may lex differently)."""
    out = ""
    for i, k in enumerate(toks):
        if i and rnd.random() > glue:
            out += rnd.choice([" ", " ", "\n", "  ", " \n "])
        out += spell(k, rnd)
    if rnd.random() < .2:
        out = rnd.choice([" ", "\n"]) + out
    if rnd.random() < .2:
        out += rnd.choice([" ", "\n"])
    return out


def derive_long(g, rnd, n):
    """A sentence of roughly n tokens, or None: expands with recursive productions until the
    sentential form is long enough, then finishes as shortly as it can."""
    fl = flat(g)
    h = minheights(g)
    start = fl[0][0]
    if start not in h:
        return None
    by, reach = {}, {}
    for l, r in fl:
        if all(k[0] != "nt" or k[1] in h for k in r):
            by.setdefault(l, []).append(r)
    for l in by:
        reach[l] = {k[1] for r in by[l] for k in r if k[0] == "nt"}
    ch = True
    while ch:
        ch = False
        for l in reach:
            m = set().union(reach[l], *[reach.get(x, set()) for x in reach[l]])
            if m != reach[l]:
                reach[l] = m
                ch = True
    grows = {l for l in reach if l in reach[l] or any(x in reach[x] for x in reach[l])}
    if start not in grows:
        return None

    def height(r):
        return 1 + max([0 if k[0] != "nt" else h[k[1]] for k in r] + [0])
    out, stack, steps = [], [("nt", start)], 0
    while stack:
        k = stack.pop()
        steps += 1
        if steps > 40 * n + 400:
            return None
        if k[0] != "nt":
            out.append(k)
            continue
        rs = by[k[1]]
        if len(out) + len(stack) < n:
            rr = [r for r in rs if any(x[0] == "nt" and x[1] in grows for x in r)]
            if rr and (rnd.random() < .9 or not any(x[0] == "nt" and x[1] in grows for x in stack)):
                # of those that grow, prefer the ones that lead back here
                back = [r for r in rr if any(x[0] == "nt" and k[1] in (reach.get(x[1], set()) | {x[1]}) for x in r)]
                rs = back if back and rnd.random() < .8 else rr
        else:
            m = min(height(r) for r in rs)
            rs = [r for r in rs if height(r) == m]
        stack.extend(reversed(rnd.choice(rs)))
    return out
