"""Sentences and near misses of grammars, for the properties about parsing."""
import itertools
from . import base, genre as G, gram as R


def inputs(g, rnd, n, exhaustive=200, maxlen=14):
    """Texts: sentences, mutations, prefixes, every short token string of small grammars."""
    terms = R.terms_of(g)
    seen, out = set(), []

    def add(s):
        if s not in seen and len(s) <= 70:
            seen.add(s)
            out.append(s)
    add("")
    add(rnd.choice([" ", "\n", " \n "]))
    k = 1
    budget = exhaustive
    while terms and len(terms) ** k <= budget and k <= 8:
        for t in itertools.product(terms, repeat=k):
            add(" ".join(R.spell(x, rnd) for x in t))
        budget -= len(terms) ** k
        k += 1
    for _ in range(n):
        s = R.derive(g, rnd, maxlen, rnd.choice([2, 3, 4, 5, 7]))
        if s is None:
            s = [rnd.choice(terms) for _ in range(rnd.randrange(1, 6))] if terms else []
            add(R.write(s, rnd))
            continue
        add(R.write(s, rnd))
        for _ in range(2):
            add(R.write(R.mutate(s, terms, rnd), rnd))
        q = rnd.random()
        if q < .15:
            add(R.write(s[:-1], rnd))
        elif q < .3:
            add(R.write(s + [rnd.choice(terms)], rnd))
        elif q < .4:
            add(R.write(s, rnd) + rnd.choice(["#", "\t", "\u00a0", " ~", "\u2603\u2603", "\r\n"]))
        elif q < .5:
            t = R.write(s, rnd)
            i = rnd.randrange(len(t) + 1)
            add(t[:i] + rnd.choice(["#", "~", "\t", "\u00a0", "@"]) + t[i:])
        elif q < .6:
            t = R.write(s, rnd)
            if t:
                add(t[:rnd.randrange(len(t))])
    return out


def space_grammars(rnd, n):
    """Grammars with terminals that begin, end with or consist of whitespace: what separates tokens
    elsewhere may begin one here."""
    ws = [" a", "\n\n", "a", "b", "  ", "\n a", "a\n", "a b", " ", "\n", "\n ", " \n b", "ab", "b a"]
    out = [("space-line", R.parse_simple("S -> L | S NL L\nL -> a | L a\nNL -> nn", "S")),
           ("space-both", R.parse_simple("S -> x | S x\nx -> a | nn | sb", "S"))]
    for _, g in out:
        for p in g["prods"]:
            for b in p["bodies"]:
                for y in b["syms"]:
                    y["v"] = {"nn": "\n\n", "sb": "  b"}.get(y["v"], y["v"]) if y["k"] == "lit" else y["v"]
    while len(out) < n:
        out.append(("space%d" % len(out), R.rand_grammar(rnd, lits=rnd.sample(ws, rnd.choice([1, 2, 2, 3, 4])))))
    return out


def space_inputs(g, rnd, n):
    terms = R.terms_of(g)
    bits = ["", "", " ", "\n", "  ", "\n\n", " \n", "\n ", " a", "\t"]
    out = ["", " ", "\n", "\n\n", "  ", " \n "]
    for _ in range(n):
        s = R.derive(g, rnd, 14, rnd.choice([2, 3, 4, 5]))
        if s is None:
            s = [rnd.choice(terms) for _ in range(rnd.randrange(1, 5))] if terms else []
        if terms and rnd.random() < .3:
            s = R.mutate(s, terms, rnd)
        w = [R.spell(k, rnd) for k in s]
        t = rnd.choice(bits) + "".join(x + (rnd.choice(bits) if rnd.random() < .7 else "") for x in w[:-1]) + "".join(w[-1:])
        out += [t, t + rnd.choice(bits[2:]), t + rnd.choice(bits[2:]) + rnd.choice(bits)]
    return list(dict.fromkeys(out))


def defs_for(g, ids, order=None):
    """Lexer definitions in priority order: literals, then patterns (order: their texts)."""
    terms = R.terms_of(g)
    pats = [k for k in terms if k[0] == "re"]
    if order is not None:
        pats.sort(key=lambda k: order.index(k[1]) if k[1] in order else 10 ** 6)
    ts = [k for k in terms if k[0] == "lit"] + pats
    trees = G.number([R.tree_of(k) for k in ts])
    return [{"name": base.codes(k[1]), "val": True, "re": t, "num": ids[k]} for k, t in zip(ts, trees)]


def pattern_order(a):
    return [t[1] for t in a.get("toks", []) if t[0] == "re"]


def long_inputs(g, rnd, n, sizes):
    """Texts with many tokens: long sentences and the same with one token changed, dropped,
    doubled or cut off late in the text."""
    terms = R.terms_of(g)
    out = []
    for _ in range(n):
        s = None
        for _ in range(4):
            s = R.derive_long(g, rnd, rnd.choice(sizes))
            if s:
                break
        if not s:       # no recursion: long all the same if the productions are
            s = R.derive(g, rnd, 5000, 40)
            if not s or len(s) < 40:
                return out
        out.append(R.write(s, rnd, 0))
        q = rnd.random()
        i = rnd.randrange(len(s) * 3 // 4, len(s))
        if q < .25:
            t = s[:i] + s[i + 1:]
        elif q < .5:
            t = s[:i] + [rnd.choice(terms)] + s[i + 1:]
        elif q < .65:
            t = s[:i]
        elif q < .8:
            t = s + [rnd.choice(terms)]
        else:
            t = s[:i] + [s[i]] + s[i:]
        out.append(R.write(t, rnd, 0))
    return out
