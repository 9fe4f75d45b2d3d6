import os, random
from . import base, tsrun, tspar, valgen

ELEMS = ["1", '"a"', '{ kind: "x" }', "[1, 2]", "true", '""', "0", "[]", '{ kind: "token"; token: { kind: "T"; value: "v" } }', '"☃"', "7", "false"]
CHARS = ["a", "b", "Z", "0", " ", "\n", '"', "\\", "`", "$", "{", "}", "é", "☃", "😀", "\t", "\u2028", "'", "-"]


def units(s):
    """UTF-16 code units: what TypeScript takes as characters of a string."""
    b = s.encode("utf-16-le", "surrogatepass")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def utree(v):
    if isinstance(v, str):
        return valgen.node("str", s=units(v))
    if isinstance(v, list):
        xs = [utree(x) for x in v]
        return None if None in xs else valgen.node("tup", xs=xs)
    if isinstance(v, dict) and "o" in v:
        fs = sorted(v["o"])
        xs = [utree(x) for _, x in fs]
        return None if None in xs else valgen.node("obj", xs=xs, f=[base.codes(f) for f, _ in fs])
    return valgen.tree(v)


def calls(rnd, lim, small):
    """[(function, argument types)]"""
    out = []
    nums = ["Succ", "Pred"]
    two = ["Add", "Sub", "Eq", "Gte", "Gt", "Lte", "Lt"]
    if small:
        pairs = [(a, b) for a in range(lim + 1) for b in range(lim + 1)]
        ones = range(lim + 1)
    else:
        e = [0, 1, 2, 3, lim - 2, lim - 1, lim // 2, lim // 2 - 1]
        pairs = [(a, b) for a in e for b in e if abs(a - b) < lim]
        pairs += [(rnd.randrange(lim), rnd.randrange(lim)) for _ in range(base.scale(120, 1500))]
        pairs += [(n, n + d) for n in rnd.sample(range(2, lim - 2), base.scale(40, 300)) for d in (-1, 0, 1)]
        ones = e + [lim] + rnd.sample(range(lim), min(lim, base.scale(100, 1000)))
    for n in ones:
        for f in nums:
            if f == "Pred" or n < lim:
                out.append((f, [str(n)]))
    for pair in pairs:
        for f in two:
            a, b = pair
            if f == "Sub" and b > a:
                a, b = b, a
            if f == "Add" and a + b > lim:
                a, b = a // 2, b // 2
            out.append((f, [str(a), str(b)]))
    return out


def lists(rnd):
    out = []
    for n in list(range(0, 8)) + [rnd.choice([12, 20, 30, 48]) for _ in range(base.scale(6, 60))]:
        for _ in range(base.scale(3, 12)):
            xs = [rnd.choice(ELEMS) if rnd.random() < .5 else str(rnd.randrange(1000)) for _ in range(n)]
            t = "[" + ", ".join(xs) + "]"
            out += [("Reverse", [t]), ("Tail", [t])]
            for k in (range(n + 1) if n < 8 else [0, 1, n - 1, n, rnd.randrange(n), rnd.randrange(n)]):
                out += [("PopNStack", [t, str(k)]), ("PopNStackWithValue", [t, str(k)])]
    return out


def strings(rnd):
    out = []
    for n in list(range(0, 6)) + [rnd.choice([9, 17, 40, 90]) for _ in range(base.scale(8, 80))]:
        for _ in range(base.scale(2, 8)):
            s = "".join(rnd.choice(CHARS) for _ in range(n))
            u = len(units(s))
            if n < 6:
                pairs = [(a, b) for a in range(u + 1) for b in range(u + 3)]
            else:
                pairs = [(a, b) for a in (0, 1, u - 1, u, rnd.randrange(u)) for b in (0, a, a + 1, u - 1, u, u + 1, rnd.randrange(u))]
            for a, b in pairs:
                out.append(("Substring", [tspar.ts_lit(s), str(a), str(b)]))
    for ch in CHARS + ["", "  ", " \n", "\r", "\v", "\f", "\u00a0", "ab", "\u3000", "\ufeff"]:
        out.append(("IsWhitespace", [tspar.ts_lit(ch)]))
    out += [("Negate", ["true"]), ("Negate", ["false"])]
    return out


def main():
    chk = base.Check("C18")
    rnd = random.Random("C18-%d" % base.SEED)
    core = base.build_bin("core")
    limits = [0, 1, 2, 3, 10, 12, 37, 255, 256, 999, 1000, 1001] + base.scale([5000], [4096, 5000, 20000]) + [rnd.randrange(4, 3000) for _ in range(base.scale(4, 20))]
    limits = sorted(set(limits))
    tabs = {n: a for n, a in zip(limits, base.record(core, [{"op": "arith", "n": n} for n in limits], chk.scratch))}
    sh = tsrun.shared_dir(chk)
    jobs, what = [], []
    for n in limits:
        jobs.append({"dir": os.path.join(chk.scratch, "t%d" % n), "files": {"arith_table.gen.ts": tabs[n].get("ok", "")},
                     "diag": ["arith_table.gen.ts"], "aliases": {"arith_table.gen.ts": ["SuccTable", "PredTable"]}})
        what.append(("table", n, None))
    groups = []
    for n in (3, 12):
        groups.append((n, calls(rnd, n, True)))
    groups.append((1000, calls(rnd, 1000, False)))
    groups.append((257, calls(rnd, 257, False)))
    groups.append((1000, lists(rnd)))
    groups.append((1000, strings(rnd)))
    for g, (n, cs) in enumerate(groups):
        for k in range(0, len(cs), 400):
            part = cs[k:k + 400]
            ar = tabs[n] if n in tabs else base.record(core, [{"op": "arith", "n": n}], chk.scratch)[0]
            # every argument is also asked for on its own, so that the model gets what the checker sees
            jobs.append({"dir": os.path.join(chk.scratch, "h%d-%d" % (g, k)),
                         "files": {"arith_table.gen.ts": ar.get("ok", ""), "util.ts": tsrun.repo_ts("util.ts")},
                         "diag": ["util.ts"], "imports": ['import * as U from "./util";'],
                         "exprs": ["U.%s<%s>" % (f, ", ".join(a)) for f, a in part] + [x for _, a in part for x in a]})
            what.append(("calls", n, part))
    cases, ctx = [], {}
    for (kind, n, part), r in zip(what, tsrun.run(jobs, chk.scratch)):
        fail = r.get("fail", "")
        if kind == "table":
            c = {"id": "table%d" % n, "t": "table", "n": n, "succ": [], "pred": [], "note": fail}
            if "ok" not in tabs[n]:
                c["note"] = "no table: %s" % str(tabs[n])[:150]
            elif not fail:
                dg = r["diag"]["arith_table.gen.ts"]
                al = r["aliases"]["arith_table.gen.ts"]
                try:
                    c["succ"] = [[int(k), v] for k, v in al["SuccTable"]["o"]]
                    c["pred"] = [[int(k), v] for k, v in al["PredTable"]["o"]]
                    assert all(isinstance(v, int) for _, v in c["succ"] + c["pred"])
                except (KeyError, TypeError, ValueError, AssertionError):
                    c["note"] = "the module does not define the tables"
                    c["succ"], c["pred"] = [], []
                if dg:
                    c["note"] = "not valid TypeScript: " + dg[0]["text"][:150]
            cases.append(c)
            ctx[c["id"]] = {"limit": n}
            continue
        # where each argument's own type is
        at = len(part)
        mod = "" if fail else "; ".join(d["text"][:100] for d in r["diag"]["util.ts"][:1])
        for i, (f, a) in enumerate(part):
            cid = "%s<%s>" % (f, ", ".join(a)) + "/%d" % n
            c = {"id": cid, "t": "call", "f": f, "args": [], "lim": n, "note": fail[:150], "res": valgen.node("none")}
            if not fail:
                c["args"] = [utree(v) for v in r["q"][at:at + len(a)]]
                at += len(a)
                if None in c["args"]:
                    raise base.ToolError("argument of %s not understood" % cid)
                v = utree(r["q"][i])
                ds = [d["text"] for d in r["qdiag"] if d["line"] == i]
                if mod:
                    c["note"] = "util.ts is not valid TypeScript: " + mod
                elif ds:
                    c["note"] = "the evaluation is reported as an error: " + ds[0][:120]
                elif v is None:
                    c["note"] = "no value: " + str(r["q"][i]).encode("ascii", "replace").decode()[:120]
                else:
                    c["res"] = v
            cases.append(c)
            ctx[cid] = {"call": cid, "evaluated": str(None if fail else r["q"][i])[:500]}
            chk.count("calls_" + f)
    chk.traces = len(cases)
    r = chk.tlc("HelperTrace", cases=cases)
    seen = set()
    for b in r.bad:
        if b["case"] not in seen:
            seen.add(b["case"])
            chk.problem(b["case"], b["why"], ctx[b["case"]])
    chk.cov["outside_the_range"] = len(set(o["case"] for o in r.out))
    for c in rnd.sample(cases, 5):
        chk.sample(c["id"])
    chk.assumptions = ["TypeScript 5.9 evaluates the types; numbers below its limit of 1000 tail-recursive steps",
                       "characters of a string are UTF-16 code units, as TypeScript takes them"]
    return chk.finish()
