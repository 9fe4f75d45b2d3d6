"""Running the TypeScript checker on generated modules and type expressions."""
import json, os, shutil, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import base

ARITH_N = 1000


def repo_ts(name):
    with open(os.path.join(base.REPO, "ts", name), encoding="utf-8", newline="") as f:
        return f.read()


def shared_dir(chk, arith=None):
    """The runtime modules of the repository, next to a generated arithmetic table."""
    d = os.path.join(chk.scratch, "shared")
    if not os.path.isdir(d):
        os.makedirs(d)
        for f in os.listdir(os.path.join(base.REPO, "ts")):
            if f.endswith(".ts"):
                shutil.copy(os.path.join(base.REPO, "ts", f), d)
        if arith is None:
            core = base.build_bin("core")
            a = base.record(core, [{"op": "arith", "n": ARITH_N}], chk.scratch)[0]
            if "ok" not in a:
                raise base.ToolError("no arithmetic table: %s" % a)
            arith = a["ok"]
        with open(os.path.join(d, "arith_table.gen.ts"), "w") as f:
            f.write(arith)
    return d


def links(sh):
    """Every shared module that a job does not bring itself."""
    return {f: os.path.join(sh, f) for f in os.listdir(sh) if f not in ("lex.ts", "parse.ts", "lex_state.gen.ts", "parse_state2.gen.ts")}


def _proc(jobs, scratch, timeout, out, idx):
    p = subprocess.Popen([base.NODE, "--stack-size=3900", "--max-old-space-size=3500", os.path.join(base.VERIF, "tsx", "types.js")],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=scratch)
    data = json.dumps({"jobs": [jobs[i] for i in idx]}).encode()
    done = []
    last = [time.time()]

    def feed():
        try:
            p.stdin.write(data)
            p.stdin.close()
        except BrokenPipeError:
            pass
    hung = [False]

    def watch():
        while p.poll() is None:
            if time.time() - last[0] > timeout:
                hung[0] = True
                p.kill()
                return
            time.sleep(0.5)
    threading.Thread(target=feed, daemon=True).start()
    threading.Thread(target=watch, daemon=True).start()
    for line in p.stdout:
        if not line.endswith(b"\n"):
            break
        done.append(json.loads(line))
        last[0] = time.time()
    p.wait()
    for i, r in zip(idx, done):
        out[i] = r
    rest = idx[len(done):]
    if rest:
        out[rest[0]] = {"fail": "the type checker did not finish" if hung[0] else "the type checker crashed (exit %s)" % p.returncode}
        if rest[1:]:
            _proc(jobs, scratch, timeout, out, rest[1:])


def run(jobs, scratch, timeout=120):
    out = [None] * len(jobs)
    chunks = [list(range(k, len(jobs), base.CORES)) for k in range(base.CORES)]
    with ThreadPoolExecutor(base.CORES) as ex:
        for f in [ex.submit(_proc, jobs, scratch, timeout, out, c) for c in chunks if c]:
            f.result()
    return out
