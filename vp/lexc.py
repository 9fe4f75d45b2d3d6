"""Cases over token lists: C02-C05 and the lexer part of others."""
from . import base, genre as G, rex

KNOWN = []      # the type-level lexer's character table; unused for Rust runs


def rand_token_list(rnd, ntok, alphs, plain=False, maxleaves=10, litp=.35, names=None, allval=False, wide=.1):
    """[(name, tree, val)] with overlapping patterns over one alphabet."""
    a = G.ALPH[rnd.choice(alphs)]
    out = []
    for i in range(ntok):
        q = rnd.random()
        if q < litp:
            w = "".join(rnd.choice(a) for _ in range(rnd.choice([1, 1, 2, 2, 3, 4])))
            t = G.lit(w)
        elif q < litp + .15 and out:
            # extend or cut an earlier token, so that longest match matters
            t = G.copy(rnd.choice(out)[1])
            x = G.rand_tree(rnd, 1, a, plain, wide=wide)
            t = G.cat(t, x) if rnd.random() < .6 else G.alt(t, x)
        else:
            while True:
                t = G.rand_tree(rnd, rnd.choice([1, 2, 2, 3]), a, plain, wide=wide)
                if G.leaves(t) <= maxleaves:
                    break
        out.append(["", t, True if allval else rnd.random() < .6])
    for i, o in enumerate(out):
        o[0] = (names[i] if names else "T%d" % i)
    return a, out


def inputs(toks, a, rnd, words, n, maxlen=36, seps=(" ", "\n", "", "", "  ", " \n")):
    """Inputs: specification words, concatenations, samples, near misses, truncations."""
    res, seen = [], set()

    def add(w):
        t = tuple(w[:maxlen])
        if t not in seen:
            seen.add(t)
            res.append(list(t))
    add([])
    for w in words:
        add(w)
        if rnd.random() < .5:
            add(w + rnd.choice(words))
    for _ in range(n):
        w = []
        for _ in range(rnd.choice([1, 2, 2, 3, 4, 6])):
            q = rnd.random()
            if q < .75:
                w = w + G.sample(rnd.choice(toks)[1], rnd, a)
            elif words:
                w = w + rnd.choice(words)
            w = w + [ord(x) for x in rnd.choice(seps)]
        if rnd.random() < .35:
            w = G.mutate(w, rnd, a)
        add(w)
    return res


def record_lexers(chk, cases, gen=False):
    """cases: [{id, toks, inputs}] -> adds 'ans'."""
    core = base.build_bin("core")
    reqs = [{"op": "lexer", "gen": gen, "inputs": [base.text(w) for w in c["inputs"]],
             "tokens": [{"name": n, "re": t, "val": v} for (n, _, v), t in zip(c["toks"], c["texts"])]} for c in cases]
    for c, a in zip(cases, base.record(core, reqs, chk.scratch)):
        if "badre" in a:
            raise base.ToolError("pattern of the generator not accepted: %s in %r" % (a["badre"], c["texts"]))
        c["ans"] = a


def tok_rec(t, num=-1):
    has = "val" in t
    return {"name": base.codes(t["name"]), "hasval": has, "val": base.codes(t["val"]) if has else [], "num": num}


def run_rec(w, x):
    r = {"w": w, "out": [], "res": "ok", "note": "", "strict": False, "known": []}
    if "ok" in x:
        r["out"] = [tok_rec(t, t.get("idx", -1)) for t in x["ok"]]
    else:
        r["res"] = "fail"
        r["note"] = "the lexer panicked: " + str(x.get("panic", x))[:120]
    return r


def defs_of(c):
    return [{"name": base.codes(n), "val": v, "re": t, "num": i + 1} for i, (n, t, v) in enumerate(c["toks"])]


def judge(chk, cases, aspect):
    """TLC replays every recorded run through the lexer machine."""
    tl = []
    byid = {}
    for c in cases:
        byid[c["id"]] = c
        if "runs" in c["ans"]:
            runs = [run_rec(w, x) for w, x in zip(c["inputs"], c["ans"]["runs"])]
        else:
            runs = [{"w": [], "out": [], "res": "fail", "note": "building the lexer failed: " + str(c["ans"])[:160],
                     "strict": False, "known": []}]
        chk.traces += len(runs)
        tl.append({"id": c["id"], "defs": defs_of(c), "runs": runs})
    r = chk.tlc("LexTrace", cases=tl, env={"VP_ASPECT": aspect})
    for b in r.bad:
        c = byid[b["case"]]
        w = c["inputs"][b["run"] - 1] if b["run"] - 1 < len(c["inputs"]) else []
        runs = c["ans"].get("runs")
        chk.problem(b["case"], b["why"], {"tokens": [[n, t, v] for (n, _, v), t in zip(c["toks"], c["texts"])],
                                          "input": base.text(w), "position": b["pos"],
                                          "recorded": runs[b["run"] - 1] if runs else c["ans"]})
    for c in cases[:: max(1, len(cases) // 5)]:
        chk.sample({"tokens": c["texts"], "inputs": [base.text(w) for w in c["inputs"][1:5]]})
    chk.count("token_lists", len(cases))
    chk.count("longest_token_list", max([len(c["toks"]) for c in cases] + [0]))


def prepare(chk, cases, rnd, nwords, nrand, seps=(" ", "\n", "", "", "  ", " \n")):
    for c in cases:
        G.number([t for _, t, _ in c["toks"]])
        c["res"] = [t for _, t, _ in c["toks"]]
        c["texts"] = [G.pr(t, rnd) for _, t, _ in c["toks"]]
    gen = rex.wordgen(chk, cases, nwords, rnd)
    for c in cases:
        c["inputs"] = inputs(c["toks"], c["alph"], rnd, gen.get(c["id"], []), nrand, seps=seps)
        for w in c.get("extra", []):
            c["inputs"].append(base.codes(w))


def case(cid, toks, alph="abc", extra=()):
    return {"id": cid, "toks": [list(t) for t in toks], "alph": alph, "extra": list(extra)}
