"""Random token patterns: syntax trees (the spec's input) together with their text."""
import random

META = set("\\.+*?()|[]{}^$#&-~")
CLSMETA = set("\\]^-[&~")


def eps():
    return {"k": "eps", "rs": [], "xs": [], "mn": 0, "mx": 0, "p": 0}


def cls(rs, neg=False):
    return {"k": "ncls" if neg else "cls", "rs": [list(r) for r in rs], "xs": [], "mn": 0, "mx": 0, "p": 0}


def ch(c):
    o = c if isinstance(c, int) else ord(c)
    return cls([(o, o)])


def cat(*xs):
    return {"k": "cat", "rs": [], "xs": list(xs), "mn": 0, "mx": 0, "p": 0}


def alt(*xs):
    return {"k": "alt", "rs": [], "xs": list(xs), "mn": 0, "mx": 0, "p": 0}


def rep(x, op):
    mn, mx = {"?": (0, 1), "*": (0, -1), "+": (1, -1)}[op]
    return {"k": "rep", "rs": [], "xs": [x], "mn": mn, "mx": mx, "p": 0}


def odd(k, text, *xs):
    """An expression outside the supported notation: k = "count", "anchor", "word" or "bad"."""
    return {"k": k, "rs": [], "xs": list(xs), "mn": 0, "mx": 0, "p": 0, "t": text}


def lit(s):
    return cat(*[ch(c) for c in s]) if len(s) != 1 else ch(s)


def number(nodes):
    """Give every leaf of the given trees its own id."""
    n = 0
    stack = list(reversed(nodes))
    while stack:
        x = stack.pop()
        if x["k"] in ("cls", "ncls"):
            n += 1
            x["p"] = n
        stack.extend(reversed(x["xs"]))
    return nodes


def copy(x):
    y = dict(x)
    y["xs"] = [copy(z) for z in x["xs"]]
    y["rs"] = [list(r) for r in x["rs"]]
    return y


# ------------------------------------------------------------------ printing

def esc(o, cl, plain):
    c = chr(o)
    if c == "\n" and not plain:
        return "\\n"
    if c == "\t" and not plain:
        return "\\t"
    if (o < 32 or o == 127 or 0x80 <= o < 0xa0 or o > 0xffff or c == '"') and not plain:
        return "\\x{%x}" % o
    if c in (META | CLSMETA if cl else META):
        if plain:
            return None
        return "\\" + c
    return c


def pr(x, rnd, plain=False):
    """Text of a tree. plain: without backslashes and quotes (grammar files take none).
    wrap: that many groups around it."""
    t = pr1(x, rnd, plain)
    for _ in range(x.get("wrap", 0)):
        t = grp(t, rnd)
    return t


def pr1(x, rnd, plain):
    k = x["k"]
    if k == "eps":
        return "()" if rnd.random() < .5 else "(?:)"
    if k in ("cls", "ncls"):
        rs = x["rs"]
        if k == "cls" and len(rs) == 1 and rs[0][0] == rs[0][1]:
            e = esc(rs[0][0], False, plain)
            if e is not None:
                if rnd.random() < .1 and not (set(e) & CLSMETA):
                    return "[" + e + "]"
                return e
            return "[" + chr(rs[0][0]) + "]"
        if k == "ncls" and rs == [[10, 10]] and rnd.random() < .8:
            return "."
        body = ""
        for a, b in rs:
            ea, eb = esc(a, True, plain), esc(b, True, plain)
            assert ea is not None and eb is not None, x
            body += ea if a == b else ea + "-" + eb
        if rnd.random() < .12 and "-" not in (body[:1], body[-1:]):
            return other(x, rnd, plain, body)
        return "[" + ("^" if k == "ncls" else "") + body + "]"
    if k == "cat":
        out = ""
        for y in x["xs"]:
            t = pr(y, rnd, plain)
            if y["k"] == "alt":
                t = grp(t, rnd)
            out += t
        if not x["xs"]:
            return "(?:)"
        return out
    if k == "alt":
        parts = []
        for i, y in enumerate(x["xs"]):
            if y["k"] == "eps" and rnd.random() < .5 and len(x["xs"]) > 1:
                parts.append("")
            else:
                t = pr(y, rnd, plain)
                parts.append(grp(t, rnd) if y["k"] == "alt" else t)
        return "|".join(parts)
    if k == "rep":
        y = x["xs"][0]
        t = pr(y, rnd, plain)
        if y["k"] in ("cat", "alt", "rep") or (y["k"] in ("cls", "ncls") and False):
            t = grp(t, rnd)
        op = {(0, 1): "?", (0, -1): "*", (1, -1): "+"}[(x["mn"], x["mx"])]
        return t + op + ("?" if rnd.random() < .05 else "")
    # outside the supported notation
    if k in ("anchor", "word", "bad"):
        return x["t"]
    if k == "count":
        y = x["xs"][0]
        t = pr(y, rnd, plain)
        return (grp(t, rnd) if y["k"] in ("cat", "alt", "rep", "count", "anchor", "word") else t) + x["t"]
    raise ValueError(k)


# other spellings of some classes
STD = {
    ((48, 57),): ["[[:digit:]]", "(?-u:\\d)", "(?-u:[0-9])"],
    ((48, 57), (65, 90), (95, 95), (97, 122)): ["(?-u:\\w)", "[[:word:]]", "(?i-u:[a-z_0-9])"],
    ((9, 13), (32, 32)): ["(?-u:\\s)", "[[:space:]]"],
    ((65, 90), (97, 122)): ["[[:alpha:]]", "(?i-u:[a-z])", "(?i-u:[A-Z])"],
    ((33, 126),): ["[[:graph:]]", "[!-~&&[[:ascii:]]]"],
    ((0, 127),): ["[[:ascii:]]"],
    ((48, 57), (65, 70), (97, 102)): ["[[:xdigit:]]", "(?i-u:[a-f0-9])"],
    ((33, 47), (58, 64), (91, 96), (123, 126)): ["[[:punct:]]"],
    ((9, 9), (32, 32)): ["[[:blank:]]"],
    ((0, 31), (127, 127)): ["[[:cntrl:]]"],
    ((48, 57), (65, 90), (97, 122)): ["[[:alnum:]]"],
    ((0, 0x10ffff),): ["(?s:.)"],
    ((65, 65), (97, 97)): ["(?i:a)", "(?i:A)", "(?i-u:a)", "(?i:[Aa])"],
    ((66, 66), (98, 98)): ["(?i:b)", "(?i-u:B)", "(?i:[b])"],
}


def other(x, rnd, plain, body):
    """The class written in another way."""
    rs, neg = x["rs"], x["k"] == "ncls"
    std = [] if neg else STD.get(tuple(tuple(r) for r in rs), [])
    std = [t for t in std if not plain or "\\" not in t]
    if std and rnd.random() < .7:
        return rnd.choice(std)
    q = rnd.random()
    if neg:
        return "[^[" + body + "]]" if q < .5 else "[[^" + body + "]&&[^" + body + "]]"
    if all(b < 128 for _, b in rs) and q < .5:
        return "(?-u:[" + body + "])"
    if q < .8:
        return "[[" + body + "]&&[" + body + "]]"
    return "[[" + body + "][" + body + "]]"


def grp(t, rnd):
    if rnd.random() < .08:
        # group names have to differ within a pattern
        return "(?P<g%d>" % rnd.randrange(10 ** 9) + t + ")"
    return ("(" if rnd.random() < .6 else "(?:") + t + ")"


# ------------------------------------------------------------------ random trees

ALPH = {
    "tiny": "ab",
    "abc": "abc",
    "word": "abcdefghij",
    "mix": "abz09 _",
    "ws": "ab \n",
    "uni": "aé☃😀ß",
    "punct": "+*().[]\\-^$|?{}\"'#&~/<>=;,",
}


def rand_range(rnd, alph):
    lo, hi = sorted([ord(rnd.choice(alph)), ord(rnd.choice(alph))])
    if lo < 0x80 <= hi:
        return (lo, lo)
    return (lo, hi)


def rand_leaf(rnd, alph, plain=False, wide=.12):
    q = rnd.random()
    if q < .55:
        return ch(rnd.choice(alph))
    if plain:
        alph = [c for c in alph if c not in CLSMETA and c not in META] or ["a"]
    if rnd.random() < .07:
        return cls(rnd.choice(sorted(STD)))
    if q < 1 - wide:
        n = rnd.choice([1, 1, 1, 2, 2, 3])
        return cls([rand_range(rnd, alph) for _ in range(n)])
    q = rnd.random()
    if q < .4:
        return cls([(10, 10)], neg=True)      # .
    if q < .8:
        return cls([rand_range(rnd, alph) for _ in range(rnd.choice([1, 2]))], neg=True)
    if plain:
        return cls([(0x21, 0x21), (0x61, 0xffff)]) if q < .9 else cls([(0x30, 0x39), (0x100, 0x2fff)])
    return cls([rnd.choice([(0, 0x10ffff), (0x62, 0x10ffff), (0x80, 0xd7ff), (0xe000, 0x10ffff), (0, 0x61)])])


def rand_tree(rnd, depth, alph, plain=False, epsp=.06, wide=.12):
    q = rnd.random()
    if depth <= 0 or q < .18:
        if rnd.random() < epsp:
            return eps()
        return rand_leaf(rnd, alph, plain, wide)
    if q < .5:
        return cat(*[rand_tree(rnd, depth - 1, alph, plain, epsp, wide) for _ in range(rnd.choice([2, 2, 3, 4]))])
    if q < .72:
        return alt(*[rand_tree(rnd, depth - 1, alph, plain, epsp, wide) for _ in range(rnd.choice([2, 2, 3]))])
    return rep(rand_tree(rnd, depth - 1, alph, plain, epsp, wide), rnd.choice("?*+"))


def leaves(x):
    if x["k"] in ("cls", "ncls"):
        return 1
    return sum(leaves(y) for y in x["xs"])


def nullable(x):
    k = x["k"]
    if k == "eps":
        return True
    if k in ("cls", "ncls"):
        return False
    if k == "cat":
        return all(nullable(y) for y in x["xs"])
    if k == "alt":
        return any(nullable(y) for y in x["xs"])
    return x["mn"] == 0 or nullable(x["xs"][0])


# ------------------------------------------------------------------ sample words

def in_cls(x, o):
    r = any(a <= o <= b for a, b in x["rs"])
    return r != (x["k"] == "ncls")


def scalar(o):
    return 0 <= o <= 0x10ffff and not 0xd800 <= o <= 0xdfff


def pick(x, rnd, alph):
    """A character of the class: often an end point of one of its ranges."""
    cand = [ord(c) for c in alph]
    for a, b in x["rs"]:
        cand += [a, b, a, b, a - 1, b + 1, (a + b) // 2]
    cand = [o for o in cand if scalar(o) and in_cls(x, o)]
    if cand:
        return rnd.choice(cand)
    for o in (0x61, 0x7a, 0x2603, 0x1f600, 0, 0x10ffff):
        if in_cls(x, o):
            return o
    return None


def sample(x, rnd, alph, budget=6):
    k = x["k"]
    if k == "eps":
        return []
    if k in ("cls", "ncls"):
        o = pick(x, rnd, alph)
        return [] if o is None else [o]
    if k == "cat":
        out = []
        for y in x["xs"]:
            out += sample(y, rnd, alph, budget)
        return out
    if k == "alt":
        return sample(rnd.choice(x["xs"]), rnd, alph, budget)
    n = rnd.choice([0, 1, 1, 2, 3] if budget > 3 else [0, 1])
    if x["mx"] == 1:
        n = min(n, 1)
    if x["mn"] == 1:
        n = max(n, 1)
    out = []
    for _ in range(n):
        out += sample(x["xs"][0], rnd, alph, budget - 2)
        if len(out) > 40:
            break
    return out


def mutate(w, rnd, alph):
    w = list(w)
    for _ in range(rnd.choice([1, 1, 2])):
        q = rnd.random()
        if w and q < .35:
            del w[rnd.randrange(len(w))]
        elif w and q < .6:
            i = rnd.randrange(len(w))
            o = w[i] + rnd.choice([-1, 1]) if rnd.random() < .5 else ord(rnd.choice(alph))
            if scalar(o):
                w[i] = o
        elif w and q < .75:
            del w[rnd.randrange(len(w)):]
        else:
            w.insert(rnd.randrange(len(w) + 1), ord(rnd.choice(alph)))
    return w
