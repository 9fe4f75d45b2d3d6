import random
from . import base, biglex, genre as G, rex, lexc

L, C, A, R = G.lit, G.cat, G.alt, G.rep


def hand():
    az = lambda: G.cls([(97, 122)])
    T = lambda *ts: [("T%d" % i, t, True) for i, t in enumerate(ts)]
    return [
        (T(R(az(), "+")), "ab \n", ["", " ", "\n", "a", " a", "a ", "  a\n\nb  ", "a\tb", "a b", "\ta", "a\r\nb", "a\u00a0b", "a\u2003b", "a\x0bb"]),
        (T(R(G.cls([(10, 10)], True), "+")), "ab \n", ["a b\nc d", " \n ", "\n\n", "é ☃\n😀"]),
        (T(L("a b"), L("a"), L("b")), "ab ", ["a b", "a  b", "a ", "a b a b", " a b"]),
        (T(L(" a"), L("b")), "ab ", [" a", "  a", " ", " b", "b a", "b b", "  "]),
        (T(L("\n\n"), L("a")), "a\n", ["a\na", "a\n\na", "a\n\n\na", "\n", "\n\n\n"]),
        (T(L("é"), L("ée"), L("☃☃"), L("😀")), "é☃😀e", ["éée", "☃", "☃☃☃", "😀é😀", "é ☃☃ 😀", "éx"]),
        (T(L("abc"), L("d")), "abcd", ["abcd", "ab", "dab", "d ab d", "dabd", "abab"]),
        (T(R(L("a"), "*")), "ab ", ["", "a", "b", "ab", " a", "aaa aa"]),
        (T(C(L('"'), R(G.cls([(34, 34)], True), "*"), L('"')), R(az(), "+")), 'ab" ', ['"a b"c', '"a', 'a"b', '"a\nb" "c"', '"é☃"x']),
    ]


def main():
    chk = base.Check("C05")
    rnd = random.Random("C05-%d" % base.SEED)
    cases = [lexc.case("hand%d" % i, t, a, e) for i, (t, a, e) in enumerate(hand())]
    for i in range(base.scale(130, 1000)):
        n = rnd.choice([1, 1, 2, 2, 3, 4, 5])
        a, toks = lexc.rand_token_list(rnd, n, ["ws", "ws", "uni", "uni", "tiny", "abc", "mix", "punct"])
        cases.append(lexc.case("rnd%d" % i, toks, a))
    for cid, a, toks, extra in (biglex.far(rnd, 67000), biglex.longest(rnd)):
        cases.append(lexc.case(cid, toks, a, extra))
    lexc.prepare(chk, cases, rnd, base.scale(25, 80), base.scale(25, 60),
                 seps=(" ", "\n", "", "", "  ", " \n", "\t", "\r\n", "\u00a0", "\u2028"))
    lexc.record_lexers(chk, cases)
    lexc.judge(chk, cases, "slices")
    return chk.finish()
