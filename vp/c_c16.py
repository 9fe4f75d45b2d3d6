import os, random
from . import base, biglex, genre as G, lexc, lexgen, tsrun, tspar, c_c03, c_c04


def odd_inputs(rnd, words, known):
    """Characters outside the table, in and around words."""
    out = []
    bad = [0x1, 0x9, 0xb, 0xd, 0x7f, 0xa0, 0xad, 0x100, 0x2603, 0x1f600, 0xfffd, 0x2028]
    for _ in range(3):
        w = list(rnd.choice(words)) if words else []
        w.insert(rnd.randrange(len(w) + 1), rnd.choice(bad))
        out.append(w)
    for x in rnd.sample(sorted(known), 2):
        out.append([x])
    return out


def main():
    chk = base.Check("C16")
    rnd = random.Random("C16-%d" % base.SEED)
    known = tspar.known_chars(chk)
    lists = []
    for i, (toks, a, extra) in enumerate(c_c03.hand()):
        lists.append(("hand%d" % i, a, [list(t) for t in toks], extra))
    for i, (toks, a, extra) in enumerate(c_c04.hand()[::base.scale(8, 2)]):
        lists.append(("perm%d" % i, a, [list(t) for t in toks], extra))
    for i in range(base.scale(100, 700)):
        n = rnd.choice([1, 2, 3, 3, 4, 5, 7])
        a, toks = lexc.rand_token_list(rnd, n, ["tiny", "abc", "word", "mix", "mix", "ws", "ws", "uni", "punct", "punct"], wide=.2)
        lists.append(("rnd%d" % i, a, toks, []))
    for i in range(base.scale(20, 200)):
        a, toks = c_c04.dup_lists(rnd, rnd.choice([2, 3, 5]))
        for t in toks:
            t[2] = rnd.random() < .5
        lists.append(("dup%d" % i, a, toks, []))
    for i in range(base.scale(2, 8)):
        n = rnd.choice([30, 50])
        ws = ["".join(rnd.choice("abc") for _ in range(rnd.choice([2, 3, 4]))) for _ in range(n)]
        lists.append(("long%d" % i, "abc", [["T%d" % k, G.lit(w), rnd.random() < .5] for k, w in enumerate(ws)], rnd.sample(ws, 10)))
    cid, a, toks, extra = biglex.many(rnd)
    lists.append((cid, a, toks, extra[:24]))
    cases = []
    for cid, a, toks, extra in lists:
        if rnd.random() < .3:
            odd = rnd.sample([n for n in lexgen.NAMES if n != "EOF"], min(len(toks), len(lexgen.NAMES)))
            for t, n in zip(toks, odd):
                t[0] = n
        cases.append(lexc.case(cid, toks, a, extra))
    lexc.prepare(chk, cases, rnd, base.scale(14, 40), base.scale(10, 25))
    for c in cases:
        c["inputs"] += odd_inputs(rnd, c["inputs"], known)
        # white space at every place
        w = rnd.choice(c["inputs"])
        c["inputs"].append([32, 10] + w[:len(w) // 2] + [10, 32, 32] + w[len(w) // 2:] + [10])
        if rnd.random() < .3:
            w = []
            while len(w) < 110:
                w = w + rnd.choice(c["inputs"]) + [rnd.choice([32, 10])]
            c["inputs"].append([x for x in w if x in known or rnd.random() < .05])
    # positions beyond the 256th character, one long token, long white space
    for c in rnd.sample(cases, base.scale(10, 60)):
        w = []
        while len(w) < rnd.randint(270, 320):
            w = w + rnd.choice(c["inputs"])[:60] + rnd.choice([[], [32], [10]])
        w = [x for x in w if x in known]
        one = [x for x in (w or [97]) if x not in (32, 10)][:1] or [97]
        c["inputs"] += [w[:330], w[:rnd.randint(258, 300)] + [rnd.choice([1, 0x2603])] + w[:3],
                        one * rnd.randint(258, 300), [32] * rnd.randint(250, 290) + one]
    lexc.record_lexers(chk, cases, gen=True)
    sh = tsrun.shared_dir(chk)
    jobs = []
    for i, c in enumerate(cases):
        jobs.append({"dir": os.path.join(chk.scratch, "l%d" % i),
                     "files": {"lex_state.gen.ts": (c["ans"].get("gen") or {}).get("ok", ""), "lex.ts": tsrun.repo_ts("lex.ts")},
                     "links": tsrun.links(sh),
                     "imports": ['import { Lex } from "./lex";'],
                     "exprs": ["Lex<%s>" % tspar.ts_lit(base.text(w)) for w in c["inputs"]]})
    ans = tsrun.run(jobs, chk.scratch)
    tl, byid = [], {}
    for c, a in zip(cases, ans):
        byid[c["id"]] = (c, a)
        runs = []
        for n, w in enumerate(c["inputs"]):
            runs.append(run_of(w, a, n, known))
        chk.traces += len(runs)
        tl.append({"id": c["id"], "defs": lexc.defs_of(c), "runs": runs})
    r = chk.tlc("LexTrace", cases=tl, env={"VP_ASPECT": "all"})
    for b in r.bad:
        c, a = byid[b["case"]]
        n = b["run"] - 1
        chk.problem(b["case"], b["why"], {"tokens": [[x, t, v] for (x, _, v), t in zip(c["toks"], c["texts"])],
                                          "input": base.text(c["inputs"][n]), "evaluated": str(a.get("q", [a])[min(n, len(a.get("q", [a])) - 1)])[:1500]})
    for c in cases[:: max(1, len(cases) // 5)]:
        chk.sample({"tokens": c["texts"], "inputs": [base.text(w) for w in c["inputs"][1:5]]})
    chk.cov["token_lists"] = len(cases)
    chk.cov["characters_in_table"] = len(known)
    chk.cov["error_runs"] = sum(1 for c in tl for x in c["runs"] if x["res"] == "error")
    chk.assumptions = ["TypeScript 5.9 evaluates the types; inputs up to 330 characters, below its instantiation depth limit"]
    return chk.finish()


def run_of(w, a, n, known):
    """One evaluated Lex<...> as a run."""
    r = {"w": w, "out": [], "res": "fail", "note": "", "strict": True, "known": known}
    if "fail" in a:
        r["note"] = a["fail"][:200]
        return r
    if any(d["line"] == n and "excessively deep" in d["text"] for d in a["qdiag"]):
        r["res"] = "none"
        return r
    if any(d["line"] == n for d in a["qdiag"]):
        r["note"] = "the evaluation is reported as an error: " + [d for d in a["qdiag"] if d["line"] == n][0]["text"][:120]
        return r
    v = a["q"][n]
    if tspar.is_error(v):
        r["res"] = "error"
        return r
    if v == {"x": "any"}:       # the checker gave up
        r["res"] = "none"
        return r
    if not isinstance(v, list) or not v:
        r["note"] = "neither a token list nor an error: " + str(v)[:120]
        return r
    out = []
    for t in v:
        o = dict(t["o"]) if isinstance(t, dict) and "o" in t else {}
        if not isinstance(o.get("kind"), str) or not set(o) <= {"kind", "value"} or not isinstance(o.get("value", ""), str):
            r["note"] = "an element of the list is no token: " + str(t)[:120]
            return r
        x = {"name": o["kind"]}
        if "value" in o:
            x["val"] = o["value"]
        out.append(x)
    if out[-1] != {"name": "EOF"}:
        r["note"] = "the token list does not end with the end marker"
        return r
    r["res"] = "ok"
    r["out"] = [lexc.tok_rec(t) for t in out[:-1]]
    return r
