"""Plumbing shared by the checks: building the recorders, running them in isolation,
running TLC, reporting. Nothing here decides a property."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CORES = 8
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def quick():
    return TIER == "quick"


BOOST = {"C02": 2, "C05": 2, "C06": 3, "C07": 3, "C08": 2, "C09": 2, "C10": 2, "C11": 2, "C25": 3, "C26": 3}  # checks that are quick anyway
PID = ""


def scale(q, t):
    b = q * BOOST.get(PID, 1)
    return t if TIER != "quick" else b if t is None else max(q, min(t, b))


# ---------------------------------------------------------------- building

def cargo_env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTC_WRAPPER="",
             CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    e.setdefault("HOME", "/root")
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    return e


def repo_hash():
    h = hashlib.sha256()
    for root in ("src", "build.rs", "Cargo.toml"):
        p = os.path.join(REPO, root)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def fresh_target(h):
    """cargo trusts modification times; a tree put there with old ones must still be rebuilt."""
    mark = os.path.join(BUILD, "target", ".repo-hash")
    want = repo_hash()
    have = open(mark).read() if os.path.exists(mark) else ""
    if have != want:
        if os.path.exists(os.path.join(BUILD, "target", "debug")):
            subprocess.run(["cargo", "clean", "--offline", "-p", "typelalr"], cwd=h, env=cargo_env(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.makedirs(os.path.dirname(mark), exist_ok=True)
        open(mark, "w").write(want)


def build_bin(name):
    """Build one recorder against /repo's working tree; path of the binary."""
    os.makedirs(BUILD, exist_ok=True)
    h = os.path.join(VERIF, "harness")
    fresh_target(h)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", name], cwd=h, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("building recorder %s failed:\n%s" % (name, p.stdout[-3000:]))
    return os.path.join(BUILD, "target", "debug", name)


# ---------------------------------------------------------------- recording

def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run_some(binary, reqs, idx, out, timeout, scratch, retry):
    """Run reqs[idx...] one after another in a process, surviving crashes and hangs."""
    todo = list(idx)
    while todo:
        fd, path = tempfile.mkstemp(dir=scratch, suffix=".out")
        os.close(fd)
        inp = path + ".in"
        with open(inp, "w") as f:
            for i in todo:
                f.write(json.dumps(reqs[i]) + "\n")
        with open(inp) as fin:
            p = subprocess.Popen([binary, path], stdin=fin, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL, preexec_fn=_limits, cwd=scratch)
        last, size, hung = time.time(), 0, False
        while True:
            try:
                p.wait(timeout=0.5 if size else 0.05)
                break
            except subprocess.TimeoutExpired:
                s = os.path.getsize(path)
                if s != size:
                    size, last = s, time.time()
                elif time.time() - last > timeout:
                    hung = True
                    p.kill()
                    p.wait()
                    break
        with open(path, encoding="utf-8") as f:
            lines = f.read().split("\n")
        done = lines[:-1]      # only complete lines
        for i, l in zip(todo, done):
            out[i] = json.loads(l)
        os.unlink(path)
        os.unlink(inp)
        rest = todo[len(done):]
        if rest:
            if hung and retry:
                # once more on its own, with more time
                one = [None] * len(reqs)
                _run_some(binary, reqs, [rest[0]], one, timeout * 3, scratch, False)
                out[rest[0]] = one[rest[0]]
            else:
                out[rest[0]] = {"hang": True} if hung else {"crash": p.returncode}
            rest = rest[1:]
        todo = rest


def record(binary, reqs, scratch, timeout=20):
    """Answers of the recorder, in order. A crash or a hang of the code under test is data."""
    out = [None] * len(reqs)
    chunks = [list(range(k, len(reqs), CORES)) for k in range(CORES)]
    with ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(_run_some, binary, reqs, ch, out, timeout, scratch, True) for ch in chunks if ch]
        for f in fs:
            f.result()
    return out


# ---------------------------------------------------------------- node

NODE = shutil.which("node") or "node"


def node(script, args, timeout=600, stdin=None):
    p = subprocess.run([NODE, "--stack-size=4000", "--max-old-space-size=6000",
                        os.path.join(VERIF, "tsx", script)] + args, input=stdin,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    return p


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.bad = []        # details printed by the specification
        self.out = []        # other VP lines
        self.states = 0
        self.generated = 0
        self.violated = False
        self.diameter = 0
        self.actions = {}
        self.wall = 0.0


TLC_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
BADRE = re.compile(r'^"?VPBAD (.*?)"?$')


def _unq(line, tag):
    # PrintT of a string value prints it with TLA+ quoting
    s = line.strip()
    if s.startswith('"') and s.endswith('"'):
        s = s[1:-1]
    s = s[len(tag) + 1:]
    try:
        return json.loads(s)
    except ValueError:
        return json.loads(s.replace('\\"', '"').replace("\\\\", "\\"))


class Watch:
    """Follows a TLC log. Once violations are known, exploring everything else (and printing a
    counterexample for each) only takes time: some more seconds or cases are enough."""
    def __init__(self, path, known):
        self.path, self.known, self.at, self.n, self.first, self.part = path, known, 0, 0, None, ""

    def enough(self):
        with open(self.path, encoding="utf-8", errors="replace", newline="\n") as f:
            f.seek(self.at)
            text = self.part + f.read()
            self.at = f.tell()
        lines = text.split("\n")
        self.part = lines.pop()
        for l in lines:
            if "VPBAD " in l[:8] and str(_unq(l, "VPBAD").get("case")) not in self.known:
                self.n += 1
                self.first = self.first or time.time()
        return self.n > 400 or (self.first is not None and time.time() - self.first > 30)


def tlc(module, scratch, env=None, cases=None, cfg=None, workers=CORES, cont=True, timeout=3000,
        heap="12g", extra=(), known=()):
    """Run TLC on spec/<module>.tla. Returns what the model checker reported."""
    d = tempfile.mkdtemp(prefix="tlc-" + module + "-", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    if cases is not None:
        path = os.path.join(d, "cases.json")
        with open(path, "w") as f:
            json.dump(cases, f)
        e["VP_CASES"] = path
        if os.environ.get("VP_KEEP"):
            shutil.copy(path, os.path.join(os.environ["VP_KEEP"], module + ".json"))
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg")]
    if cont:
        cmd.append("-continue")
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    logp = os.path.join(d, "log")
    with open(logp, "w") as lf:
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        watch = Watch(logp, known)
        enough = False
        while True:
            try:
                p.wait(timeout=1)
                break
            except subprocess.TimeoutExpired:
                enough = watch.enough()
                if enough or time.time() - t > timeout:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    if not enough:
                        raise ToolError("TLC on %s did not finish in %d s" % (module, timeout))
                    break
    r = TlcResult()
    r.wall = time.time() - t
    finished = False
    errors = []
    with open(logp, encoding="utf-8", errors="replace") as f:
        for line in f:
            if "VPBAD " in line[:8]:
                if line.endswith("\n"):
                    r.bad.append(_unq(line, "VPBAD"))
                continue
            if not line.endswith("\n"):
                continue
            if "VPOUT " in line[:8]:
                r.out.append(_unq(line, "VPOUT"))
                continue
            m = TLC_STATES.search(line)
            if m:
                r.generated, r.states = int(m.group(1)), int(m.group(2))
            if "is violated" in line or "Deadlock reached" in line:
                r.violated = True
                if "Invariant" not in line or "Conforms" not in line:
                    errors.append(line.strip())
            elif line.startswith("Error:"):
                if "The behavior up to this point is" in line:
                    continue
                errors.append(line.strip())
            if "Finished in" in line:
                finished = True
            m = re.search(r"depth of the complete state graph search is (\d+)", line)
            if m:
                r.diameter = int(m.group(1))
            m = re.match(r"<(\w+) line .* of module (\w+)>: (\d+):(\d+)", line)
            if m:
                r.actions[m.group(1)] = (int(m.group(3)), int(m.group(4)))
    if enough:
        r.violated = True
        shutil.rmtree(d, ignore_errors=True)
        return r
    hard = [x for x in errors if "Invariant" not in x and "is violated" not in x]
    # what TLC cannot evaluate after it has already refuted a case (a recorded
    # table so wrong that it leads nowhere) does not take the refutation back
    if [x for x in r.bad if x.get("case") not in known]:
        r.violated = True
        shutil.rmtree(d, ignore_errors=True)
        return r
    if hard or not finished or p.returncode not in (0, 12):
        with open(logp, errors="replace") as f:
            log = f.read()
        at = max(0, log.find("Error:") - 200)
        raise ToolError("TLC failed on %s (exit %s): %s\n%s" % (module, p.returncode, hard[:2], log[at:at + 2500] + "\n...\n" + log[-1000:]))
    if r.violated and not r.bad:
        with open(logp, errors="replace") as f:
            tail = f.read()[:6000]
        r.bad.append({"case": "model", "why": "; ".join(errors) or "invariant violated", "log": tail})
    shutil.rmtree(d, ignore_errors=True)
    return r


def tlc_parallel(jobs):
    """Several TLC runs next to each other. jobs: list of kwargs for tlc()."""
    with ThreadPoolExecutor(max(1, len(jobs))) as ex:
        return [f.result() for f in [ex.submit(lambda j=j: tlc(**j)) for j in jobs]]


# ---------------------------------------------------------------- reporting

def codes(s):
    return [ord(ch) for ch in s]


def text(cs):
    return "".join(chr(x) for x in cs)


def load_known(pid):
    """{key: description} of recorded, unrepaired findings of this property."""
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


class Check:
    def __init__(self, pid, level="model_checking"):
        global PID
        PID = pid
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.problems = []           # (key, description, replay data)
        self.known_hit = {}
        os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(BUILD, "run"))
        self.known = load_known(pid)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def tlc(self, module, **kw):
        r = tlc(module, self.scratch, known=self.known, **kw)
        self.states += r.states
        self.transitions += r.generated
        self.cov.setdefault("tlc_runs", []).append(
            {"module": module, "cfg": kw.get("cfg") or module, "distinct_states": r.states,
             "states_generated": r.generated, "depth": r.diameter, "wall_s": round(r.wall, 2)})
        return r

    def model(self, module, bounds):
        """The specification against itself."""
        r = self.tlc(module, cases=[], env={"VP_ASPECT": bounds})
        for b in r.bad:
            self.problem("specification-" + module, b["why"], b.get("log", ""))
        self.cov.setdefault("specification_models", {})[module] = {"bounds": bounds, "states": r.states}

    def problem(self, key, why, data):
        """A violation the model checker reported. key names the case it belongs to."""
        self.problems.append((key, why, data))

    def finish(self):
        viol = []
        for key, why, data in self.problems:
            if key in self.known:
                self.known_hit.setdefault(key, why)
            else:
                viol.append((key, why, data))
        for key in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, self.known[key], key))
        replay = None
        if viol:
            d = os.path.join(BUILD, "replay", self.pid)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            for n, (key, why, data) in enumerate(viol[:20]):
                p = os.path.join(d, "%02d.json" % n)
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "case": key, "why": why, "data": data,
                               "seed": SEED, "tier": TIER,
                               "rerun": "VERIF_SEED=%d VERIF_TIER=%s ./check %s" % (SEED, TIER, self.pid)},
                              f, indent=1, ensure_ascii=True, default=str)
                replay = replay or p
                print("  case %s: %s" % (key, str(why)[:300]))
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples)
        if "tlc_runs" in cov and len(cov["tlc_runs"]) > 60:
            cov["tlc_runs"] = cov["tlc_runs"][:60]
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if viol:
            print("%d case(s) violate %s" % (len(viol), self.pid))
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        print("%s held: %d states, %d transitions, %d traces, %.1f s" %
              (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0
