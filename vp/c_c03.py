import random
from . import base, biglex, genre as G, rex, lexc
from .c_c04 import grammar_case, grammar_lexers

L, C, A, R = G.lit, G.cat, G.alt, G.rep


def hand():
    az = lambda: G.cls([(97, 122)])
    d = lambda: G.cls([(48, 57)])
    T = lambda *ts: [("T%d" % i, t, True) for i, t in enumerate(ts)]
    return [
        # the decision needs unbounded look-ahead, with and without a hit in the end
        (T(L("a"), C(R(L("a"), "*"), L("b"))), "ab", ["aaaa", "aaaab", "aaab aaaa", "aaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaac"]),
        (T(L("a"), L("abcde"), L("bc"), L("d")), "abcde", ["abcd", "abcde", "abcdabcde", "abc", "abcdabcd", "abcda"]),
        (T(L("ab"), L("abab"), L("ababab")), "ab", ["ab" * n for n in range(1, 9)] + ["aba", "ababa"]),
        (T(R(d(), "+"), C(R(d(), "+"), L("."), R(d(), "+")), L("."), L("..")), "0.9", ["1..2", "1.2", "1.", "1.2.3", "1...2", "10.20..30"]),
        (T(C(L("/*"), R(A(G.cls([(42, 42)], True), C(R(L("*"), "+"), G.cls([(42, 42), (47, 47)], True))), "*"), R(L("*"), "+"), L("/")), L("/"), L("*"), az()), "ab/*", ["/* a */a", "/* a", "/**/*/", "a/*b*/"]),
        (T(R(az(), "+"), L("if"), L("ifx"), L("i")), "ifxa", ["if", "ifx", "ifxa", "i if ifx"]),
        (T(C(R(A(L("a"), L("b")), "*"), L("c")), L("a"), L("b")), "abc", ["abababc", "ababab", "abab abc", "c", "abcab"]),
        (T(R(L(" "), "+"), L("a"), C(L("a"), R(L(" "), "+"), L("b"))), "a b", ["a   b", "a   a", "a  ", "   a"]),
        (T(C(L("a"), L("\n"), L("b")), L("a"), C(L(" "), L("c"))), "abc \n", ["a\nb", "a\n", "a\na", "a c", "a  c", " "]),
        (T(R(L("é"), "*"), C(R(L("é"), "*"), L("☃"))), "é☃", ["ééé", "ééé☃", "é é☃é"]),
    ]


def build(chk, rnd, pid):
    cases = []
    for i, (toks, a, extra) in enumerate(hand()):
        cases.append(lexc.case("hand%d" % i, toks, a, extra))
    for i in range(base.scale(110, 900)):
        n = rnd.choice([1, 2, 2, 3, 3, 4, 5, 6])
        a, toks = lexc.rand_token_list(rnd, n, ["tiny", "tiny", "abc", "word", "mix", "ws", "uni", "punct"], allval=True)
        cases.append(lexc.case("rnd%d" % i, toks, a))
    for i in range(base.scale(4, 25)):
        a, toks = lexc.rand_token_list(rnd, rnd.choice([15, 25, 40]), ["abc", "word"], allval=True, maxleaves=6, litp=.6)
        cases.append(lexc.case("many%d" % i, toks, a))
    for cid, a, toks, extra in biglex.token_lists(rnd, base.scale(1, 6), True):
        cases.append(lexc.case(cid, toks, a, extra))
    for cid, a, toks, extra in (biglex.far(rnd, 67000), biglex.longest(rnd)):
        cases.append(lexc.case(cid, toks, a, extra))
    return cases


def main():
    chk = base.Check("C03")
    rnd = random.Random("C03-%d" % base.SEED)
    cases = build(chk, rnd, "C03")
    lexc.prepare(chk, cases, rnd, base.scale(40, 100), base.scale(25, 60))
    lexc.record_lexers(chk, cases)
    lexc.judge(chk, cases, "longest")
    gs = [grammar_case("gram%d" % i, rnd) for i in range(base.scale(30, 300))] + [biglex.many_literals(rnd)]
    grammar_lexers(chk, rnd, gs, "longest")
    chk.model("LexModel", base.scale("13", "15"))
    return chk.finish()
