"""Generated lexer modules as data for LexGenTrace (C14, C21)."""
import os
from . import base, tsrun

NAMES = ["T", "LET", "SEMI-COLON", '"', "\\", "a\\nb", "line\nbreak", "tab\tx", "${x}", "`", "'", "*/", "//", "☃", "😀é", "", "}", "EOF'",
         "constructor", "__proto__", "toString", "\\u0041", "\r", "[1-9]+[0-9]*", "a b", "\u2028", "\\\"", "0", "1", "{{", "<T>", "true", "\x00", "\x7f"]


def obj(v):
    return dict((k, x) for k, x in v["o"]) if isinstance(v, dict) and "o" in v else None


def module_case(al):
    """(note, states, map, toks) of the aliases Tokens, States and DFAtoNFA as the checker saw them."""
    try:
        toks = []
        for k, v in al["Tokens"]["o"]:
            v = obj(v)
            if not isinstance(v["kind"], str) or not isinstance(v["hasValue"], bool):
                raise ValueError("token %s is not a definition" % k)
            toks.append({"n": int(k), "kind": base.codes(v["kind"]), "val": v["hasValue"]})
        states = []
        for s in al["States"]:
            s = obj(s)
            if len(s["to"]) != len(s["labels"]):
                raise ValueError("labels and targets of a state differ in number")
            es = []
            for t, l in zip(s["to"], s["labels"]):
                l = obj(l)
                es.append([int(l["from"]), int(l["to"]), int(t)])
            acc = s.get("accepting", False)
            if not isinstance(acc, bool):
                raise ValueError("accepting is not a flag")
            states.append({"e": es, "acc": acc})
        mp = [{"d": int(k), "n": [int(x) for x in v]} for k, v in al["DFAtoNFA"]["o"]]
        if not states:
            raise ValueError("no states")
        return "", states, mp, toks
    except (KeyError, TypeError, ValueError, IndexError) as e:
        return "the module does not define the tables: %s" % str(e)[:120], [], [], []




def ts_jobs(chk, mods):
    return [{"dir": os.path.join(chk.scratch, "m%d" % i), "files": {"lex_state.gen.ts": m}, "diag": ["lex_state.gen.ts"],
             "aliases": {"lex_state.gen.ts": ["Tokens", "States", "DFAtoNFA"]}} for i, m in enumerate(mods)]


def to_cases(items, answers):
    """items: [(id, defs, generated text or None, failure)]"""
    out = []
    for (cid, defs, text, fail), a in zip(items, answers):
        note, st, mp, tk = fail, [], [], []
        if not fail:
            if "fail" in a:
                note = "the type checker gave no answer: " + a["fail"][:120]
            else:
                dg = a["diag"].get("lex_state.gen.ts", [])
                if dg:
                    note = "the module is not valid TypeScript: " + dg[0]["text"][:150]
                else:
                    note, st, mp, tk = module_case(a["aliases"]["lex_state.gen.ts"])
        out.append({"id": cid, "note": note, "defs": defs, "states": st, "map": mp, "toks": tk})
    return out


def judge(chk, cases, ctx):
    r = chk.tlc("LexGenTrace", cases=cases)
    seen = set()
    for b in r.bad:
        if b["case"] in seen:
            continue
        seen.add(b["case"])
        chk.problem(b["case"], b["why"], dict(ctx[b["case"]], input=base.text(b.get("w", []))))
    return r
