"""Large patterns and token lists: many alternatives, many ranges, long literals, deep nesting,
keyword tables with hundreds of automaton states."""
import string
from . import genre as G

LOW = string.ascii_lowercase


def word(rnd, lo=2, hi=9, alph=LOW):
    return "".join(rnd.choice(alph) for _ in range(rnd.randint(lo, hi)))


def words(rnd, n, alph=LOW, lo=2, hi=9):
    """Distinct words; many share prefixes, some are prefixes of others."""
    out = []
    while len(out) < n:
        q = rnd.random()
        if out and q < .35:
            b = rnd.choice(out)
            w = b[:rnd.randint(1, len(b))] + word(rnd, 0, 4, alph)
        else:
            w = word(rnd, lo, hi, alph)
        if w and w not in out:
            out.append(w)
    return out


def ident():
    return G.cat(G.cls([(97, 122), (65, 90), (95, 95)]), G.rep(G.cls([(97, 122), (65, 90), (95, 95), (48, 57)]), "*"))


def number():
    d = lambda: G.cls([(48, 57)])
    return G.cat(G.rep(d(), "+"), G.rep(G.cat(G.ch("."), G.rep(d(), "+")), "?"),
                 G.rep(G.cat(G.cls([(101, 101), (69, 69)]), G.rep(G.cls([(43, 43), (45, 45)]), "?"), G.rep(d(), "+")), "?"))


def comment():
    return G.cat(G.lit("/*"), G.rep(G.alt(G.cls([(42, 42)], True), G.cat(G.rep(G.ch("*"), "+"), G.cls([(42, 42), (47, 47)], True))), "*"),
                 G.rep(G.ch("*"), "+"), G.ch("/"))


def wide_alt(rnd, n):
    """n alternatives: letters, words, ranges."""
    out = []
    for _ in range(n):
        q = rnd.random()
        out.append(G.ch(rnd.choice(LOW)) if q < .3 else G.lit(word(rnd, 2, 4, "abcdef")) if q < .8 else G.cls([G.rand_range(rnd, LOW)]))
    return G.alt(*out)


def wide_class(rnd, n, neg=None):
    """A class of n ranges that do not touch."""
    pts = sorted(rnd.sample(range(0x30, 0x30 + 14 * n), 2 * n))
    if rnd.random() < .3:
        pts = sorted(rnd.sample(range(0x4000, 0xd000), 2 * n))
    rs = [(pts[2 * i], pts[2 * i + 1] - 1) for i in range(n)]
    return G.cls(rs, rnd.random() < .2 if neg is None else neg)


def nest(rnd, depth):
    t = G.ch(rnd.choice("ab"))
    for _ in range(depth):
        q = rnd.random()
        if q < .3:
            t = G.rep(t, rnd.choice("?*+"))
        elif q < .65:
            t = G.cat(G.ch(rnd.choice("abc")), t) if rnd.random() < .5 else G.cat(t, G.ch(rnd.choice("abc")))
        else:
            t = G.alt(t, G.ch(rnd.choice("abcd"))) if rnd.random() < .5 else G.alt(G.lit(word(rnd, 2, 2, "abc")), t)
    return t


def groups(rnd):
    """Groups around groups around groups."""
    def w(t, n):
        t["wrap"] = n
        return t
    return G.cat(w(G.ch("a"), rnd.choice([15, 30, 60, 90])), w(G.rep(w(G.ch("b"), rnd.choice([9, 40])), "*"), rnd.choice([3, 14, 25])),
                 G.rep(w(G.alt(G.ch("a"), w(G.lit("bc"), rnd.choice([2, 7, 17]))), rnd.choice([5, 20, 50])), "+"))


def longest(rnd):
    """A literal of more than 4096 characters, and what is left of it when it breaks off late."""
    w = word(rnd, 4150, 4250, "ab")
    return ("longest", "ab", [["T%d" % k, t, True] for k, t in enumerate([G.lit(w), G.ch("a"), G.lit("bab"), G.ch("b")])],
            [w, w + w[:40], w[-30:] + w])


def long_cat(rnd, n):
    return G.cat(*[G.ch(rnd.choice(LOW)) if rnd.random() < .6 else G.rep(G.ch(rnd.choice(LOW)), "?") if rnd.random() < .25
                   else G.cls([G.rand_range(rnd, LOW)]) for _ in range(n)])


def patterns(rnd, size):
    """[(id, tree, alphabet)]"""
    out = []
    for i in range(size):
        out += [("wide-alt%d" % i, wide_alt(rnd, rnd.randint(9, 16)), LOW),
                ("wider-alt%d" % i, G.rep(wide_alt(rnd, rnd.randint(17, 60)), "+"), LOW),
                ("words%d" % i, G.alt(*[G.lit(w) for w in words(rnd, rnd.randint(60, 120))]), LOW),
                ("class%d" % i, G.cat(wide_class(rnd, rnd.randint(9, 40)), G.rep(wide_class(rnd, rnd.randint(4, 9)), "*")), "0123456789ABCDEFabcdef"),
                ("manyranges%d" % i, wide_class(rnd, rnd.randint(560, 700), False), LOW),
                ("groups%d" % i, groups(rnd), "abc"),
                ("ranges%d" % i, G.cat(wide_class(rnd, rnd.randint(258, 300), False), wide_class(rnd, 70, False)), LOW),
                ("deep%d" % i, nest(rnd, rnd.randint(80, 95)), "abcd"),
                ("allwords%d" % i, G.alt(*[G.lit(w) for w in words(rnd, 270, "abcd", 2, 4)]), "abcd"),
                ("long%d" % i, G.lit(word(rnd, 270, 330, "abc")), "abc"),
                ("longcat%d" % i, long_cat(rnd, rnd.randint(40, 60)), LOW),
                ("nest%d" % i, nest(rnd, rnd.randint(25, 60)), "abcd"),
                ("number%d" % i, number(), "0189.eE+-"), ("comment%d" % i, comment(), "ab*/")]
    return out


def token_lists(rnd, size, allval=False):
    """[(id, alphabet, [[name, tree, val]], extra inputs)]"""
    out = []

    def mk(trees):
        return [["T%d" % k, t, True if allval else rnd.random() < .7] for k, t in enumerate(trees)]
    for i in range(size):
        ws = words(rnd, rnd.randint(60, 90))
        ops = ["+", "-", "*", "/", "=", "==", "<", "<=", "<<", "<<=", "(", ")", "->", "--", "-=", ":", "::", ".", "..", "..."]
        trees = [G.lit(w) for w in ws + ops] + [ident(), number(), comment()]
        ins = []
        for _ in range(12):
            p = []
            for _ in range(rnd.randint(4, 16)):
                q = rnd.random()
                p.append(rnd.choice(ws) + (rnd.choice(["", "", "x", "_1", "."])) if q < .5 else rnd.choice(ops) if q < .75
                         else word(rnd, 1, 12, LOW + "AZ_09") if q < .85 else rnd.choice(["1", "12.5", "1.", "3e", "3e+", "3e+10", "/* a */", "/**/", "/* x"]))
            ins.append(rnd.choice(["", " ", " ", "\n"]).join(p))
        out.append(("language%d" % i, LOW + "_09 .", mk(trees), ins))
        ws = words(rnd, rnd.randint(110, 150), "abc", 3, 7)
        out.append(("words%d" % i, "abc", mk([G.lit(w) for w in ws]), ["".join(rnd.choice(ws) for _ in range(rnd.randint(2, 9))) for _ in range(12)] + ws[-20:]))
        w = word(rnd, 120, 150, "ab")
        cuts = sorted(rnd.sample(range(1, len(w)), 12), reverse=True)
        out.append(("cuts%d" % i, "ab", mk([G.lit(w[:c]) for c in [len(w)] + cuts] + [G.ch("a"), G.ch("b")]),
                    [w[:rnd.randint(1, len(w))] + rnd.choice(["", "a", "b", "c", w[:9]]) for _ in range(14)] + [w, w + w[:70]]))
        tr = [G.cat(wide_class(rnd, rnd.randint(3, 12), False), G.rep(wide_class(rnd, rnd.randint(2, 6), False), rnd.choice("?*+"))) for _ in range(6)]
        out.append(("classes%d" % i, "0123456789ABCDEFabcdef", mk(tr), []))
    return out


def many(rnd, n=290):
    """More than 256 tokens; equal texts and an identifier pattern among the late ones."""
    ws = words(rnd, n, "abcd", 2, 5)
    trees = [G.lit(w) for w in ws]
    trees[n - 20] = G.rep(G.cls([(97, 100)]), "+")          # the words after it never win
    trees[n - 24] = G.lit(ws[3])
    trees[n - 25] = G.alt(G.lit(ws[n - 40]), G.lit(ws[n - 26]), G.lit("zz"))
    ins = [ws[3], "zz", ws[n - 40], ws[n - 26]] + rnd.sample(ws, 16) + ws[-24:] + ws[250:262]
    ins += [rnd.choice([" ", "\n"]).join(rnd.choice(ws) for _ in range(rnd.randint(2, 7))) for _ in range(8)]
    return ("many", "abcd", [["T%d" % k, t, True] for k, t in enumerate(trees)], ins)


def many_literals(rnd, n=280):
    """Literals and patterns of one grammar with more than 256 literals."""
    ws = [w for w in words(rnd, n, "abcd", 2, 5)]
    pats = {"[a-d]+": G.rep(G.cls([(97, 100)]), "+"), "[0-9]+": G.rep(G.cls([(48, 57)]), "+")}
    return {"id": "many", "alph": "abcd09", "lits": {w: G.lit(w) for w in ws}, "pats": pats, "extra": []}


def far(rnd, total):
    """One long input: long tokens, then short ones where the position passes 2^16, then both."""
    trees = [G.rep(G.ch("a"), "+"), G.lit("ab"), G.rep(G.cls([(0xe0, 0xff)]), "+"), G.cat(G.ch("c"), G.rep(G.ch("d"), "*"), G.ch("e")),
             G.ch("c"), G.ch("d"), G.ch("\U0001f600")]
    out = ""

    def some():
        q = rnd.random()
        return (rnd.choice(["ab", "é", "ïé", "ce", "cde", "cd", "c", "d", "aab", "\U0001f600"]) if q < .8 else "a" * rnd.randint(1, 5)) + rnd.choice(["", " ", "", "\n"])
    while len(out) < 65536 - 60:
        k = min(rnd.randint(100, 300), 65536 - 40 - len(out))
        out += rnd.choice(["a", "é", "a"]) * k + rnd.choice(["", " ", "b", "cd"])
    while len(out) < 65536 + 80:
        out += some()
    while len(out) < total:
        out += rnd.choice(["a", "é"]) * rnd.randint(50, 300) + some()
    one = some() + "a" * rnd.randint(1100, 1300) + rnd.choice([" ", "c", "é"]) + "c" + "d" * rnd.randint(1030, 1200) + "e" + some()
    back = "c" + "d" * rnd.randint(1100, 1300)
    return ("far", "abcdeé ", [["T%d" % k, t, True] for k, t in enumerate(trees)], [out, out + "x", out[:65536], out[:65537] + "x" + out[65537:], one, back])
