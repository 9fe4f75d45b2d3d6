"""What a rejected input is rejected for."""
import random, re
from . import base, biggram, gram as R, lalrc, parsec

ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}
STR = r'"((?:[^"\\]|\\.)*)"'


def unesc(s):
    """The text of a Rust character or string literal."""
    return re.sub(r"\\(?:u\{([0-9a-fA-F]+)\}|(.))", lambda m: chr(int(m.group(1), 16)) if m.group(1) else ESC.get(m.group(2), m.group(2)), s, flags=re.S)


def said(msg, ids):
    """What a message says, read leniently; k = "" if it is of neither known kind."""
    no = {"k": "", "at": 0, "ch": 0, "name": [], "hasval": False, "val": [], "valid": [], "num": 0, "stack": []}
    m = re.search(r"symbol\W+'((?:[^'\\]|\\.[^']*|'))'.*?(\d+)\s*$", msg, re.S)
    if m and msg.startswith("Invalid symbol"):
        ch = unesc(m.group(1))
        if len(ch) == 1:
            return {**no, "k": "char", "at": int(m.group(2)), "ch": ord(ch)}
    # the token first, then the terminals
    m = re.match(r"Invalid token(.*?\{.*?name: " + STR + r", val: (?:None|Some\(" + STR + r"\)).*?\})(.*)", msg, re.S)
    if not m:
        return no
    valid = []
    for k, v in re.findall(r"(StrLit|Regex|Eof|TokenIdx)(?:\((" + STR[:1] + r"(?:[^\"\\]|\\.)*\"|\d+)\))?", m.group(4)):
        key = ("eof", "") if k == "Eof" else ({"StrLit": "lit", "Regex": "re"}.get(k, k), unesc(v[1:-1]))
        valid.append(ids.get(key, -1))
    return {**no, "k": "token", "name": base.codes(unesc(m.group(2))), "hasval": m.group(3) is not None,
            "val": base.codes(unesc(m.group(3) or "")), "valid": valid}


def main():
    chk = base.Check("C23")
    rnd = random.Random("C23-%d" % base.SEED)
    core = base.build_bin("core")
    near = lambda g: [x for x in parsec.inputs(g, rnd, base.scale(10, 30), base.scale(30, 300))]
    jobs = [(k, g, near(g)) for k, g in lalrc.case_set(rnd, base.scale(160, 1500), base.scale(40, 300))]
    jobs += [(k, g, parsec.space_inputs(g, rnd, base.scale(8, 25))) for k, g in parsec.space_grammars(rnd, base.scale(30, 250))]
    sizes = base.scale([40, 100, 250], [60, 150, 300, 700, 1500])
    jobs += [(k, g, parsec.long_inputs(g, rnd, base.scale(4, 10), sizes) or parsec.inputs(g, rnd, 6, 0))
             for k, g in [("long-" + k, g) for k, g in R.classics()]
             + [("long-lang%d" % i, R.gen_language(rnd)) for i in range(base.scale(10, 60))]
             + biggram.cases(rnd, base.scale(1, 4))]
    texts = [R.text_of(g, rnd) for _, g, _ in jobs]
    ans = base.record(core, [{"op": "grammar", "text": t, "want": [], "inputs": i, "msgcap": 40000} for t, (_, _, i) in zip(texts, jobs)],
                      chk.scratch, timeout=60)
    cases, byid, unread = [], {}, 0
    for (cid, g, ins), t, a in zip(jobs, texts, ans):
        if "runs" not in a:
            continue                    # the business of C08, C11 and C12
        sg, ids = R.spec_grammar(g)
        runs = []
        for s, x in zip(ins, a["runs"]):
            sd = said(x.get("msg", ""), ids)
            unread += not x["acc"] and sd["k"] == ""
            runs.append({"w": base.codes(s), "res": "accepted" if x["acc"] else "rejected", "note": "", "said": sd})
        cases.append({"id": cid, "g": sg, "defs": parsec.defs_for(g, ids, parsec.pattern_order(a)), "runs": runs, "bound": 0, "known": []})
        byid[cid] = (t, ins, a)
        chk.traces += sum(1 for x in runs if x["said"]["k"])
    r = chk.tlc("LrParse", cases=cases, env={"VP_ASPECT": "where"})
    for b in r.bad:
        t, ins, a = byid[b["case"]]
        n = b["run"] - 1
        chk.problem(b["case"], b["why"], {"grammar": t, "input": ins[n], "recorded": str(a["runs"][n])[:3000]})
    chk.cov["reports_of_a_character"] = sum(1 for c in cases for x in c["runs"] if x["said"]["k"] == "char")
    chk.cov["reports_of_a_token"] = sum(1 for c in cases for x in c["runs"] if x["said"]["k"] == "token")
    chk.cov["reports_not_read"] = unread
    chk.cov["latest_place_in_tokens"] = max([o["n"] for o in r.out] + [0])
    for c in cases[:: max(1, len(cases) // 3)]:
        chk.sample({"grammar": byid[c["id"]][0][:1500], "reports": [(i[:200], x.get("msg", "")[:300]) for i, x in zip(byid[c["id"]][1][-4:], byid[c["id"]][2]["runs"][-4:])]})

    # the specification against itself: the machine stops exactly at the first symbol that no
    # sentence continues with
    ms = []
    for k, g in R.classics() + [("rand%d" % i, R.rand_grammar(rnd, lits=rnd.sample(R.LITS, rnd.choice([1, 2, 2, 3])))) for i in range(base.scale(40, 400))]:
        sg, ids = R.spec_grammar(g)
        t = len(sg["ts"])
        b = 1
        while t and t ** (b + 1) <= base.scale(60, 1000) and b < 7:
            b += 1
        ms.append({"id": "model-" + k, "g": sg, "defs": [], "runs": [], "bound": b})
    r = chk.tlc("LrParse", cases=ms, env={"VP_ASPECT": "prefix"})
    for b in r.bad:
        chk.problem(b["case"], b["why"], {"tokens": b.get("toks"), "grammar": next(m["g"] for m in ms if m["id"] == b["case"])})
    chk.cov["model_prefixes"] = len(r.out)
    return chk.finish()
