"""Large grammars: many symbols, productions, nonterminals, states or lookaheads; families whose
shape is known to be LALR(1) (or known not to be), with random sizes and random variations."""
import random
from .gram import lit, nt, pat, prod


def _mk(rules, start):
    return {"prods": [prod(n, bs, start=(n == start)) for n, bs in rules]}


def statements(rnd, n):
    """n keyword statements over a small expression language: many terminals, productions, states."""
    kw = ["kw%d" % i for i in range(n)]
    st = []
    for i, k in enumerate(kw):
        q = rnd.random()
        if q < .4:
            st.append([lit(k), nt("expr"), lit(";")])
        elif q < .6:
            st.append([lit(k), lit("x"), lit("="), nt("expr"), lit(";")])
        elif q < .8:
            st.append([lit(k), lit("{"), nt("stmts"), lit("}")])
        else:
            st.append([lit(k), nt("expr"), lit("then"), nt("stmt")])
    return _mk([("stmts", [[nt("stmts"), nt("stmt")], [nt("stmt")]]), ("stmt", st),
                ("expr", [[nt("expr"), lit("+"), nt("atom")], [nt("atom")]]),
                ("atom", [[lit("x")], [lit("("), nt("expr"), lit(")")]])], "stmts")


def long_rhs(rnd, n):
    """A production with n symbols, and one that shares a long prefix."""
    a = [lit("t%d" % rnd.randrange(12)) for _ in range(n)]
    b = a[: n - 1] + [lit("other")]
    return _mk([("S", [a, b])], "S")


def tower(rnd, n):
    """n levels of binary operators, two operators per level: many lookaheads per item."""
    rules = []
    for i in range(n):
        a, b = "e%d" % i, "e%d" % (i + 1)
        bs = [[nt(a), lit("o%d" % i), nt(b)], [nt(a), lit("p%d" % i), nt(b)], [nt(b)]]
        if rnd.random() < .3:
            bs = [[nt(b), lit("o%d" % i), nt(a)], [nt(b)]]
        rules.append((a, bs))
    rules.append(("e%d" % n, [[lit("x")], [lit("("), nt("e0"), lit(")")]]))
    return _mk(rules, "e0")


def contexts(rnd, n):
    """The same phrase between n different brackets: canonical states that differ in lookahead only."""
    s = [[lit("a%d" % i), nt("A"), lit("z%d" % i)] for i in range(n)]
    inner = rnd.choice([
        [("A", [[lit("("), nt("A"), lit(")")], [lit("d")]])],
        [("A", [[nt("B"), lit("+"), nt("A")], [nt("B")]]), ("B", [[lit("d")], [lit("c"), nt("B")]])],
        [("A", [[nt("A"), nt("B")], [nt("B")]]), ("B", [[lit("d")]])],
    ])
    return _mk([("S", s)] + inner, "S")


def long_contexts(rnd, n, m):
    """The same long phrase between n different brackets: states to be merged whose dots are far to
    the right, and states of the same production far apart."""
    def phrase():
        return [nt("B") if rnd.random() < .2 else lit(rnd.choice("xy")) for _ in range(m)]
    a = phrase()
    rules = [("S", [[lit("a%d" % i), nt("A"), lit("z%d" % i)] for i in range(n)]),
             ("A", [a, a[:-1] + [lit("last"), nt("B")]]),
             ("B", [[lit("b")], [lit("b"), lit("c")]] if rnd.random() < .5 else [[lit("b")], [lit("("), nt("A"), lit(")")]])]
    return _mk(rules, "S")


def late(rnd, m, n):
    """A phrase with m followers from the start, a chain of n unit productions below it, and another
    follower that arises at the chain's end only: it travels alone, behind sets that are already full."""
    rules = [("S", [[nt("N0"), lit("t%d" % i)] for i in range(m)])]
    for i in range(n):
        bs = [[nt("N%d" % (i + 1))]]
        if rnd.random() < .5:
            bs.append([lit("y%d" % i)])
        if rnd.random() < .3:
            bs.append([lit("q%d" % i), nt("N%d" % rnd.randrange(n)), lit("e%d" % i)])
        rnd.shuffle(bs)
        rules.append(("N%d" % i, bs))
    rules.append(("N%d" % n, [[nt("N0"), lit("back")], [lit("x")]]))
    if rnd.random() < .3:
        rules[-1][1].append([nt("N%d" % rnd.randrange(1, n)), lit("again")])
    if rnd.random() < .5:
        rnd.shuffle(rules)
    return _mk(rules, "S")


def chain(rnd, n, loop=False):
    """A chain of n unit productions with extra alternatives; looped: left recursion through all."""
    rules = []
    for i in range(n):
        nxt = "N%d" % (i + 1)
        bs = [[nt(nxt), lit("s%d" % i)]] if loop or rnd.random() < .5 else [[nt(nxt)]]
        bs.append([lit("y%d" % i)])
        if rnd.random() < .5:
            bs.reverse()
        rules.append(("N%d" % i, bs))
    rules.append(("N%d" % n, [[nt("N0"), lit("back")], [lit("end")]] if loop else [[lit("end")]]))
    return _mk(rules, "N0")


def records(rnd, n):
    """n record types with fields: many nonterminals, several productions each."""
    rules = [("file", [[nt("file"), nt("rec")], [nt("rec")]]),
             ("rec", [[nt("R%d" % i)] for i in range(n)])]
    for i in range(n):
        rules.append(("R%d" % i, [[lit("r%d" % i), lit("{"), nt("F%d" % i), lit("}")], [lit("r%d" % i), lit(";")]]))
        rules.append(("F%d" % i, [[nt("F%d" % i), lit(","), nt("val")], [nt("val")]] if rnd.random() < .6
                      else [[nt("val"), lit(","), nt("F%d" % i)], [nt("val")]]))
    rules.append(("val", [[lit("n")], [pat("[0-9]+")], [lit("["), nt("val"), lit("]")]]))
    return _mk(rules, "file")


def conflict_far(rnd, n):
    """A large grammar with one conflict, in a state that is far from the start."""
    g = statements(rnd, n)
    q = rnd.random()
    st = next(p for p in g["prods"] if p["name"] == "stmt")
    if q < .4:      # dangling else
        st["bodies"] += prod("x", [[lit("if"), nt("expr"), nt("stmt")], [lit("if"), nt("expr"), nt("stmt"), lit("else"), nt("stmt")]])["bodies"]
    elif q < .7:    # two ways to read the same atom
        at = next(p for p in g["prods"] if p["name"] == "atom")
        at["bodies"] += prod("x", [[nt("name")], [nt("label")]])["bodies"]
        g["prods"] += [prod("name", [[lit("id")]]), prod("label", [[lit("id")]])]
    else:           # merged states get overlapping lookaheads
        st["bodies"] += prod("x", [[lit("m1"), nt("MA"), lit("p")], [lit("m1"), nt("MB"), lit("q")],
                                   [lit("m2"), nt("MB"), lit("p")], [lit("m2"), nt("MA"), lit("q")]])["bodies"]
        g["prods"] += [prod("MA", [[lit("mm")]]), prod("MB", [[lit("mm")]])]
    return g


def minipascal(rnd):
    """A programming language in the style of Pascal; sections switched on and off at random."""
    on = lambda p=.7: rnd.random() < p
    r = []
    r.append(("prog", [[lit("program"), nt("id"), lit(";"), nt("block"), lit(".")]]))
    blk = [[nt("decls"), nt("compound")], [nt("compound")]]
    r.append(("block", blk))
    r.append(("decls", [[nt("decls"), nt("decl")], [nt("decl")]]))
    dec = [[lit("var"), nt("ids"), lit(":"), nt("type"), lit(";")]]
    if on():
        dec.append([lit("const"), nt("id"), lit("="), nt("expr"), lit(";")])
    if on():
        dec.append([lit("procedure"), nt("id"), lit(";"), nt("block"), lit(";")])
        dec.append([lit("procedure"), nt("id"), lit("("), nt("params"), lit(")"), lit(";"), nt("block"), lit(";")])
        r.append(("params", [[nt("params"), lit(";"), nt("param")], [nt("param")]]))
        r.append(("param", [[nt("ids"), lit(":"), nt("type")]]))
    r.append(("decl", dec))
    r.append(("ids", [[nt("ids"), lit(","), nt("id")], [nt("id")]]))
    ty = [[lit("integer")], [lit("boolean")]]
    if on():
        ty.append([lit("array"), lit("["), nt("expr"), lit(".."), nt("expr"), lit("]"), lit("of"), nt("type")])
    r.append(("type", ty))
    r.append(("compound", [[lit("begin"), nt("stmts"), lit("end")]]))
    r.append(("stmts", [[nt("stmts"), lit(";"), nt("stmt")], [nt("stmt")]]))
    s = [[nt("target"), lit(":="), nt("expr")], [nt("compound")]]
    r.append(("target", [[nt("id")], [nt("id"), lit("["), nt("expr"), lit("]")]] if on() else [[nt("id")]]))
    if on():
        s.append([lit("while"), nt("expr"), lit("do"), nt("stmt")])
    if on():
        s.append([lit("repeat"), nt("stmts"), lit("until"), nt("expr")])
    if on():
        s.append([lit("for"), nt("id"), lit(":="), nt("expr"), lit("to"), nt("expr"), lit("do"), nt("stmt")])
    s.append([lit("if"), nt("expr"), lit("then"), nt("compound")])
    if on():
        s.append([lit("if"), nt("expr"), lit("then"), nt("compound"), lit("else"), nt("compound")])
    if on():
        s.append([lit("case"), nt("expr"), lit("of"), nt("cases"), lit("end")])
        r.append(("cases", [[nt("cases"), nt("onecase")], [nt("onecase")]]))
        r.append(("onecase", [[nt("num"), lit(":"), nt("stmt"), lit(";")]]))
    if on():
        s.append([lit("call"), nt("id"), lit("("), nt("args"), lit(")")])
        r.append(("args", [[nt("args"), lit(","), nt("expr")], [nt("expr")]]))
    r.append(("stmt", s))
    ops = ["=", "<>", "<", "<=", ">", ">="][: rnd.randint(1, 6)]
    r.append(("expr", [[nt("simple")]] + [[nt("simple"), lit(o), nt("simple")] for o in ops]))
    r.append(("simple", [[nt("simple"), lit("+"), nt("term")], [nt("simple"), lit("-"), nt("term")], [nt("term")], [lit("-"), nt("term")]]))
    r.append(("term", [[nt("term"), lit("*"), nt("factor")], [nt("term"), lit("/"), nt("factor")], [nt("factor")]]))
    f = [[nt("target")], [nt("num")], [lit("("), nt("expr"), lit(")")]]
    if on():
        f.append([lit("not"), nt("factor")])
    r.append(("factor", f))
    r.append(("id", [[lit("x")], [lit("y")]] if on(.5) else [[lit("x")]]))
    r.append(("num", [[pat("[0-9]+")]]))
    if on(.5):
        rnd.shuffle(r)
    return _mk(r, "prog")


def wide(rnd, n):
    """More than 256 terminals, productions and nonterminals, few lookaheads."""
    rules = [("S", [[nt("N%d" % i)] for i in range(n)])]
    for i in range(n):
        q = rnd.random()
        a = [lit("t%d" % i), lit("end")] if q < .5 else [lit("t%d" % i)]
        rules.append(("N%d" % i, [a, [lit("t%d" % i), nt("N%d" % rnd.randrange(n)), lit("u")]] if q < .02 else [a]))
    if rnd.random() < .5:
        rnd.shuffle(rules)
    return _mk(rules, "S")


def follow(rnd, n):
    """A phrase that more than 256 different tokens may follow; FIRST sets with more than 256 tokens."""
    a = rnd.choice([[("A", [[lit("a")], [lit("b"), nt("A")]])],
                    [("A", [[nt("A"), lit("b")], [nt("B")]]), ("B", [[lit("a")]])]])
    s = [[nt("A"), lit("t%d" % i)] for i in range(n)]
    q = rnd.random()
    extra = []
    if q < .3:      # a second reading of "a", told apart by what follows
        s += [[nt("C"), lit("u%d" % i)] for i in range(3)]
        extra = [("C", [[lit("a")]])]
    elif q < .6:    # a list of tokens of any kind
        s += [[nt("A"), lit("end"), nt("T")]]
        extra = [("T", [[lit("t%d" % i)] for i in range(n)])]
    return _mk([("S", s)] + a + extra, "S")


def follow_conflict(rnd, n):
    """Two readings of the same phrase whose follow sets (more than 256 tokens) share one token."""
    k = rnd.choice([rnd.randrange(n), n - 1, 256, rnd.randrange(257, n)])
    s = [[nt("A"), lit("t%d" % i)] for i in range(n)] + [[nt("C"), lit("t%d" % k), lit("z")], [nt("C"), lit("u")]]
    return _mk([("S", s), ("A", [[lit("a")]]), ("C", [[lit("a")]])], "S")


def cases(rnd, size):
    """[(id, grammar)]; size 1 for a quick run, more for deeper ones."""
    out = []
    for i in range(size):
        out += [("big-statements%d" % i, statements(rnd, rnd.randint(60, 75))),
                ("big-long%d" % i, long_rhs(rnd, rnd.randint(270, 300))),
                ("big-wide%d" % i, wide(rnd, rnd.randint(258, 290))),
                ("big-follow%d" % i, follow(rnd, rnd.randint(258, 280))),
                ("big-clash%d" % i, follow_conflict(rnd, rnd.randint(258, 280))),
                ("big-tower%d" % i, tower(rnd, rnd.randint(10, 14))),
                ("big-contexts%d" % i, contexts(rnd, rnd.randint(40, 60))),
                ("big-repeat%d" % i, long_contexts(rnd, rnd.randint(2, 4), rnd.randint(30, 70))),
                ("big-chain%d" % i, chain(rnd, rnd.randint(40, 70))),
                ("big-late%d" % i, late(rnd, rnd.randint(6, 24), rnd.randint(3, 9))),
                ("big-loop%d" % i, chain(rnd, rnd.randint(20, 30), True)),
                ("big-records%d" % i, records(rnd, rnd.randint(28, 34))),
                ("big-conflict%d" % i, conflict_far(rnd, rnd.randint(20, 30)))]
        out += [("big-pascal%d-%d" % (i, j), minipascal(rnd)) for j in range(2)]
    return out
