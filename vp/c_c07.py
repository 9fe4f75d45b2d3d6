import random
from . import base, gram as R
from .c_c06 import CODES, TEXTS, RES

# names close to each other, literals equal to names and patterns
NAMES = ["A", "AA", "A1", "B", "a", "b", "_", "__", "expr", "expr1", "Expr", "num", "Z", "z", "S", "S1"]
LITS = ["A", "a", "b", "aa", "ab", "expr", "+", "x", "[0-9]+", "S'", "'", "é", "zé", "", " ", "\\\\", "😀", "Z", "_"]
RESX = ["[0-9]+", "a", "b", "A", "expr", "x", "x+", "é", "a|b"]


def grammar(rnd):
    names = rnd.sample(NAMES, rnd.choice([1, 1, 2, 3, 4, 6]))
    ps = []
    for _ in range(rnd.choice([0, 0, 0, 1, 3])):
        names.append(rnd.choice(names))            # declared in several places
    starts = set([rnd.randrange(len(names))])
    for i, n in enumerate(names):
        bs = []
        for _ in range(rnd.choice([1, 1, 2, 3, 4])):
            syms = []
            for _ in range(rnd.choice([1, 1, 2, 3, 4, 7])):
                nm = rnd.choice(["x", "y", "A", "left"]) if rnd.random() < .4 else ""
                q = rnd.random()
                if q < .45:
                    syms.append(R.lit(rnd.choice(LITS), nm))
                elif q < .65:
                    syms.append(R.pat(rnd.choice(RESX), nm))
                else:
                    syms.append(R.nt(rnd.choice(names), nm))
            bs.append({"syms": syms, "fn": rnd.choice(CODES[:14])})
        if rnd.random() < .15:
            bs.insert(rnd.randrange(len(bs) + 1), dict(rnd.choice(bs)))      # the same alternative again
        if i not in starts and rnd.random() < .08:
            bs = []
        ps.append({"name": n, "start": i in starts, "ts": rnd.choice(CODES[:14]), "bodies": bs})
    return {"prods": ps}


def big(rnd, n):
    """Many symbols and productions: numbers beyond one byte."""
    ps = []
    for i in range(n):
        ps.append(R.prod("N%d" % i, [[R.lit("t%d" % i)], [R.lit("u%d" % i), R.nt("N%d" % ((i * 7 + 1) % n)), R.pat("p%d" % i)]], start=(i == n // 2)))
    return {"prods": ps}


def long(rnd, ns, nb):
    """Alternatives of up to ns symbols, productions of up to nb alternatives."""
    names = NAMES[:5]

    def syms(n):
        return [R.lit(rnd.choice(LITS)) if q < .5 else R.pat(rnd.choice(RESX)) if q < .6 else R.nt(rnd.choice(names))
                for q in [rnd.random() for _ in range(n)]]
    ps = [R.prod(n, [syms(rnd.choice([1, 1, 2, 3])) for _ in range(rnd.randint(nb // 2, nb))]
                 + [syms(rnd.randint(ns // 2, ns)) for _ in range(2)], start=(i == 1)) for i, n in enumerate(names)]
    return {"prods": ps}


def main():
    chk = base.Check("C07")
    rnd = random.Random("C07-%d" % base.SEED)
    gs = [grammar(rnd) for _ in range(base.scale(600, 8000))] + [g for _, g in R.classics()]
    gs += [R.gen_language(rnd) for _ in range(base.scale(40, 300))] + [big(rnd, n) for n in (10, 40, 100, 270)]
    gs += [long(rnd, a, b) for a, b in ((20, 30), (50, 90), (300, 12), (40, 300)) for _ in range(base.scale(2, 8))]
    texts = [R.text_of(g, rnd) for g in gs]
    core = base.build_bin("core")
    tabs = base.build_bin("tables")
    a1 = base.record(core, [{"op": "grammar", "text": t, "want": []} for t in texts], chk.scratch)
    a2 = base.record(tabs, [{"text": t, "want": ["lookup"]} for t in texts], chk.scratch)
    kk = {"lit": "lit", "re": "re", "nt": "nt", "eof": "eof"}

    def sym(s):
        return {"k": kk.get(s[0], s[0]), "v": s[1] if len(s) > 1 and s[0] != "eof" else ""}
    cases = []
    for i, (g, a, b) in enumerate(zip(gs, a1, a2)):
        c = {"id": i, "note": "", "prods": [], "toks": [], "idxof": [], "nts": [], "byname": []}
        c["ast"] = [{"name": p["name"], "start": p["start"], "ts": p["ts"][1:-1],
                     "bodies": [{"fn": x["fn"][1:-1], "syms": [{"k": s["k"], "v": s["v"]} for s in x["syms"]]} for x in p["bodies"]]}
                    for p in g["prods"]]
        if "prods" not in a or "ok" not in b.get("lookup", {}):
            c["note"] = "no grammar: %s %s" % (str(a)[:150], str(b)[:150])
        else:
            c["prods"] = [{"l": p["lhs"], "r": [sym(s) for s in p["rhs"]], "fn": p["fn"], "ts": p["ts"], "code": p["hasfn"]} for p in a["prods"]]
            c["toks"] = [sym(s) for s in a["toks"]]
            lk = b["lookup"]["ok"]
            c["idxof"], c["nts"] = lk["idx_of"], lk["nts"]
            c["byname"] = [{"n": n, "ix": ix} for n, ix in lk["by_name"]]
        cases.append(c)
    chk.traces = len(cases)
    r = chk.tlc("AugmentTrace", cases=cases)
    for b in r.bad:
        i = b["case"]
        chk.problem("g%d" % i, b["why"], {"grammar": texts[i], "recorded": str(a1[i])[:2500], "lookup": str(a2[i])[:1500]})
    chk.cov["grammars"] = len(cases)
    chk.cov["most_productions"] = max(len(R.flat(g)) for g in gs)
    for i in range(0, len(texts), max(1, len(texts) // 4)):
        chk.sample(texts[i])
    return chk.finish()
