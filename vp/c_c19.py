"""Character tables: the committed ts/chars.ts and the one the code writes."""
import os, shutil, subprocess, tempfile
from . import base, tsrun, c_c18

TEST = "codegen::lex_gen::test::generate__"


def generated(chk):
    """ts/chars.ts as written by the repository's own generator, in a scratch copy. (text or None, note)"""
    d = os.path.join(base.BUILD, "charsrepo")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "ts"))
    shutil.copytree(os.path.join(base.REPO, "src"), os.path.join(d, "src"), copy_function=shutil.copyfile)
    for f in ("Cargo.toml", "build.rs"):
        shutil.copyfile(os.path.join(base.REPO, f), os.path.join(d, f))
    with open(os.path.join(d, "Cargo.toml"), "a") as f:
        f.write("\n[workspace]\n")
    shutil.copyfile(os.path.join(base.VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    e = base.cargo_env()
    e["CARGO_TARGET_DIR"] = os.path.join(base.BUILD, "target-chars")
    p = subprocess.run(["cargo", "test", "--offline", "--lib", TEST, "--", "--exact", "--test-threads", "1"], cwd=d, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = os.path.join(d, "ts", "chars.ts")
    res = (None, "")
    if os.path.exists(out):
        with open(out, encoding="utf-8", errors="surrogateescape", newline="") as f:
            res = (f.read(), "")
        if p.returncode != 0:
            res = (None, "writing the table fails")
    elif "panicked" in p.stdout:
        res = (None, "writing the table panics")
    else:
        raise base.ToolError("the generator of the character table did not run:\n" + p.stdout[-2500:])
    shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    chk = base.Check("C19")
    gen, note = generated(chk)
    mods = [("committed", tsrun.repo_ts("chars.ts"), ""), ("generated", gen, note)]
    jobs = [{"dir": os.path.join(chk.scratch, n), "files": {"chars.ts": t or ""}, "diag": ["chars.ts"],
             "aliases": {"chars.ts": ["Characters", "CharTable"]},
             "imports": ['import { Characters, CharTable } from "./chars";'],
             # what the lexer asks: is it in the table, which number has it
             "exprs": ["Characters[keyof Characters]", "keyof CharTable"]} for n, t, _ in mods]
    cases = []
    for (n, t, note), r in zip(mods, tsrun.run(jobs, chk.scratch)):
        c = {"id": n, "note": note, "chars": [], "table": []}
        cases.append(c)
        if note:
            continue
        if "fail" in r:
            c["note"] = r["fail"][:150]
            continue
        if r["diag"]["chars.ts"]:
            c["note"] = "not valid TypeScript: " + r["diag"]["chars.ts"][0]["text"][:150]
            continue
        try:
            al = r["aliases"]["chars.ts"]
            c["chars"] = [{"n": int(k), "s": c_c18.units(v)} for k, v in al["Characters"]["o"]]
            c["table"] = [{"s": c_c18.units(k), "n": int(v)} for k, v in al["CharTable"]["o"]]
            for q, want in ((r["q"][0], [x["s"] for x in c["chars"]]), (r["q"][1], [x["s"] for x in c["table"]])):
                if sorted(c_c18.units(x) for x in q["u"]) != sorted(want):
                    c["note"] = "the table does not give its characters back"
        except (KeyError, TypeError, ValueError, AttributeError) as e:
            c["note"] = "the module does not define the tables: %s" % str(e)[:100]
            c["chars"], c["table"] = [], []
    chk.traces = len(cases)
    r = chk.tlc("CharsTrace", cases=cases)
    for b in r.bad:
        m = cases[[x["id"] for x in cases].index(b["case"])]
        chk.problem(b["case"], b["why"], {"module": b["case"], "entry": b.get("at"), "chars": str(m["chars"])[:1000]})
    for o in r.out:
        chk.cov["characters_" + o["case"]] = o["n"]
    chk.sample({"chars": cases[0]["chars"][:5]})
    chk.sample({"table": cases[1]["table"][:5]})
    chk.assumptions = ["TypeScript 5.9 decides whether a module is valid and what its types are"]
    return chk.finish()
