"""Cases over grammars for the parser-construction properties (C08-C11)."""
import itertools, random
from . import base, biggram, gram as R


def case_set(rnd, nrand, nlang, nbig=0):
    """[(id, grammar)]: classics, random grammars, language-like grammars, large grammars."""
    out = [("classic-" + k, g) for k, g in R.classics()]
    for i in range(nrand):
        out.append(("rand%d" % i, R.rand_grammar(rnd, pats=rnd.sample(sorted(R.PATS), rnd.choice([0, 0, 1, 2])))))
    for i in range(nlang):
        out.append(("lang%d" % i, R.gen_language(rnd)))
    return out + biggram.cases(rnd, nbig)


def small_grammars():
    """Every grammar with nonterminals S and A, terminals a and b, one or two alternatives of one or
    two symbols for each (three for S alone), up to exchanging a and b: [(alternatives of S, of A)]."""
    rhs = [(x,) for x in "SAab"] + [(x, y) for x in "SAab" for y in "SAab"]
    alts = [c for n in (1, 2) for c in itertools.combinations(rhs, n)]
    noa = [r for r in rhs if "A" not in r]
    out = [(c, ()) for n in (1, 2, 3) for c in itertools.combinations(noa, n)]
    out += [(c, d) for c in alts if any("A" in r for r in c) for d in alts]
    sw = {"a": "b", "b": "a"}
    swap = lambda c: tuple(sorted(tuple(sw.get(x, x) for x in r) for r in c))
    norm = lambda c: tuple(sorted(c))
    return [(c, d) for c, d in out if (norm(c), norm(d)) <= (swap(c), swap(d))]


def small(rnd, n):
    """n of them (None: all), alternatives and productions in random order."""
    every = small_grammars()
    out = []
    for i in sorted(rnd.sample(range(len(every)), n)) if n is not None and n < len(every) else range(len(every)):
        ps = []
        for name, alts in zip("SA", every[i]):
            alts = [[R.nt(x) if x in "SA" else R.lit(x) for x in r] for r in alts]
            rnd.shuffle(alts)
            if alts:
                ps.append(R.prod(name, alts, start=(name == "S")))
        if rnd.random() < .5:
            ps.reverse()
        out.append(("small%d" % i, {"prods": ps}))
    return out


def outcome_of(a):
    """What building a parser did: 'tables', 'conflict' or a description of something else."""
    if "crash" in a:
        return "building the parser crashed (exit %s)" % a["crash"]
    if "hang" in a:
        return "building the parser does not terminate"
    p = a.get("panic")
    if p is None:
        return "tables"
    if a.get("stage") in (None, "lalr") and "conflict" in p.lower():
        return "conflict"
    return "building the parser panicked at stage %s: %s" % (a.get("stage"), p[:200])


def key_of(s):
    """Recorder's symbol -> generator's symbol key."""
    return {"lit": ("lit", s[1]), "re": ("re", s[1]), "nt": ("nt", s[1]), "eof": ("eof", "")}.get(s[0], tuple(s))


def to_case(cid, g, a, want):
    """One case for LalrTrace from the recorded answer."""
    sg, ids = R.spec_grammar(g)
    c = {"id": cid, "g": sg, "note": ""}
    if "toks" not in a:
        c["note"] = outcome_of(a)
        a = {"toks": []}
    impl = [ids.get(key_of(t), -1) for t in a["toks"]]
    if c["note"] == "" and (-1 in impl or len(set(impl)) != len(impl)):
        c["note"] = "symbols of the grammar are not numbered one to one"

    def section(k):
        x = a.get(k) or {}
        if c["note"]:
            return None
        if "ok" not in x:
            c["note"] = "%s: %s" % (k, x.get("panic", "no answer"))[:200]
            return None
        return x["ok"]
    if want == "first":
        v = section("first")
        c["first"] = [{"s": ids.get(key_of(s), -1), "f": [ids.get(key_of(x), -1) for x in f]} for s, f in v] if v is not None else []
    if want in ("items", "tables"):
        x = a.get("tables") or {}
        if "conflict" in str(x.get("panic", "")).lower() and not c["note"]:
            c["note"] = "a conflict is reported for a grammar that has none"     # the specification knows which has one
        v = section("tables")
        ok = v is not None

        def sid(t):
            return impl[t] if 0 <= t < len(impl) else -1
        if want == "items":
            c["items"] = [[{"p": p + 1, "d": d, "las": [sid(t) for t in las]} for p, d, las in st] for st in (v["items"] if ok else [])]
        else:
            n = 1
            if ok:
                n = 1 + max([0] + [e[0] for e in v["action"]] + [e[3] for e in v["action"] if e[2] == "s"]
                            + [e[0] for e in v["goto"]] + [e[2] for e in v["goto"]])
                n = max(n, len(v["items"]))
            act, goto = [[] for _ in range(n)], [[] for _ in range(n)]
            if ok:
                for s, t, k, x in v["action"]:
                    act[s].append({"t": sid(t), "k": k, "n": x + 1 if k in "sr" else 0})
                for s, name, j in v["goto"]:
                    goto[s].append({"s": ids.get(("nt", name), -1), "n": j + 1})
            c["act"], c["goto"] = act, goto
    return c


def run(chk, cases, aspect):
    """cases: [(id, grammar)] judged by LalrTrace under one aspect."""
    rnd = random.Random("text-%s-%d" % (chk.pid, base.SEED))
    texts = [R.text_of(g, rnd) for _, g in cases]
    byid = {}
    tl = []
    if aspect == "conflict":
        ans = base.record(base.build_bin("core"), [{"op": "grammar", "text": t, "want": ["lalr"]} for t in texts], chk.scratch)
    else:
        ans = base.record(base.build_bin("tables"), [{"text": t, "want": ["first"] if aspect == "first" else ["tables"]} for t in texts], chk.scratch)
    skipped = 0
    for (cid, g), t, a in zip(cases, texts, ans):
        byid[cid] = (t, a)
        if aspect == "conflict":
            sg, _ = R.spec_grammar(g)
            c = {"id": cid, "g": sg, "note": "", "built": outcome_of(a)}
        else:
            c = to_case(cid, g, a, aspect)
            skipped += c["note"].startswith("a conflict is reported")
        tl.append(c)
        chk.traces += 1
    r = chk.tlc("LalrTrace", cases=tl, env={"VP_ASPECT": aspect})
    seen = set()
    for b in r.bad:
        if b["case"] in seen:
            continue
        seen.add(b["case"])
        t, a = byid[b["case"]]
        chk.problem(b["case"], b["why"], {"grammar": t, "at": b.get("at"), "recorded": str(a)[:3000]})
    chk.cov["grammars"] = chk.cov.get("grammars", 0) + len(tl)
    chk.cov["grammars_reported_as_conflicts_skipped"] = chk.cov.get("grammars_reported_as_conflicts_skipped", 0) + skipped
    if r.out:
        chk.cov["largest_lalr_automaton"] = max([o["lalr"] for o in r.out] + [chk.cov.get("largest_lalr_automaton", 0)])
        chk.cov["largest_lr1_collection"] = max([o["lr1"] for o in r.out] + [chk.cov.get("largest_lr1_collection", 0)])
        chk.cov["with_conflict"] = chk.cov.get("with_conflict", 0) + sum(1 for o in r.out if o["confl"])
        chk.cov["merging_grammars"] = chk.cov.get("merging_grammars", 0) + sum(1 for o in r.out if o["lalr"] < o["lr1"])
    for cid, g in cases[:: max(1, len(cases) // 4)]:
        chk.sample({"id": cid, "grammar": byid[cid][0]})
    return r
