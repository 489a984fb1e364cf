"""Common machinery of the checks: run TLC on the specifications in /verif/spec, build the
Rust harness in /verif/harness against /repo's working tree, replay behaviours, compare,
apply the known-findings file and write the evidence.

Exit codes: 0 property held on everything explored, 1 + VIOLATION line, 2 tool error."""
import json, os, re, shutil, subprocess, sys, time, math, random, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
WORK = os.path.join(ROOT, ".work")
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 4)
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print("[check]", *a, flush=True)


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self):
        self.lines = []          # decoded PrintT(ToJson(..)) values
        self.generated = 0
        self.distinct = 0
        self.traces = 0
        self.ok = False
        self.output = ""
        self.violated = None
        self.wall = 0.0


def cfg_text(spec="Spec", constants=None, invariants=(), properties=(), constraint=None,
             view=None, postcondition=None, deadlock=False, init=None, next_=None, action_constraint=None):
    out = []
    if init:
        out += [f"INIT {init}", f"NEXT {next_}"]
    else:
        out.append(f"SPECIFICATION {spec}")
    if constants:
        out.append("CONSTANTS")
        for k, v in constants.items():
            out.append(f"  {k} = {v}" if not str(v).startswith("<-") else f"  {k} {v}")
    for i in invariants:
        out.append(f"INVARIANT {i}")
    for i in properties:
        out.append(f"PROPERTY {i}")
    if constraint:
        out.append(f"CONSTRAINT {constraint}")
    if action_constraint:
        out.append(f"ACTION_CONSTRAINT {action_constraint}")
    if view:
        out.append(f"VIEW {view}")
    if postcondition:
        out.append(f"POSTCONDITION {postcondition}")
    out.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(out) + "\n"


def tlc(ctx, module, cfg, name=None, workers=None, simulate=None, depth=None, seed=None,
        timeout=600, expect_ok=True, files=None, heap="6g", overrides=None):
    """Run TLC. cfg is the text of the configuration file. Every line the specification prints
    with PrintT(ToJson(x)) is decoded and returned. A failing invariant of the specification is a
    tool error (the specification itself is wrong) unless expect_ok is False."""
    name = name or module
    d = os.path.join(ctx.work, "tlc_" + re.sub(r"\W", "_", name))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for fn, txt in (overrides or {}).items():
        with open(os.path.join(d, fn), "w") as fh:
            fh.write(txt)
    for fn, path in (files or {}).items():
        shutil.copy(path, os.path.join(d, fn))
    with open(os.path.join(d, "run.cfg"), "w") as fh:
        fh.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-cp", TLA_CP, "tlc2.TLC", "-config", "run.cfg",
           "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
           "-workers", str(workers or 1)]
    if simulate:
        cmd += ["-simulate", f"num={simulate}"]
        cmd += ["-depth", str(depth)]
        cmd += ["-seed", str(ctx.seed if seed is None else seed)]
    cmd.append(module + ".tla")
    t0 = time.time()
    outp = os.path.join(d, "out.txt")
    with open(outp, "wb") as fo:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {name} exceeded {timeout}s")
    r = TlcResult()
    r.wall = time.time() - t0
    other = []
    with open(outp, encoding="utf-8", errors="replace") as fh:
        for line in fh:
            if line.startswith('"'):
                try:
                    s = json.loads(line)
                    r.lines.append(json.loads(s) if s[:1] in "[{" else s)
                    continue
                except ValueError:
                    pass
            other.append(line)
    r.output = "".join(other)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.output)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.findall(r"The number of states generated: ([\d,]+)", r.output)
    if m:
        r.generated = int(m[-1].replace(",", ""))
    m = re.findall(r"(\d+) traces generated", r.output)
    if m:
        r.traces = int(m[-1])
    r.rc = rc
    r.ok = rc == 0 and "Error:" not in r.output
    if expect_ok and not r.ok:
        raise ToolError(f"TLC on {name} failed (rc={rc}):\n" + r.output[-4000:])
    ctx.states += r.distinct or r.generated
    ctx.transitions += r.generated
    ctx.tlc_runs.append({"module": module, "run": name, "states_generated": r.generated,
                         "distinct": r.distinct, "printed": len(r.lines), "wall_s": round(r.wall, 1)})
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return r


def par(*thunks):
    """Evaluate independent TLC runs side by side; results in order."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(max_workers=min(NCPU, len(thunks))) as ex:
        return [x.result() for x in [ex.submit(t) for t in thunks]]


# ------------------------------------------------------------------ harness
def cargo_env():
    env = {k: v for k, v in os.environ.items() if k in ("TMPDIR", "LANG", "TERM")}
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
               PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="false",
               PYO3_PYTHON="/usr/bin/python3",
               CARGO_TARGET_DIR=os.environ.get("VERIF_TARGET", os.path.join(HARNESS, "target")))
    return env


def build(ctx, binary, feature=None, timeout=840):
    """Build one harness binary against /repo's current working tree. A compile error of the
    harness or of the code under test is a tool error, never a verdict."""
    feature = feature or binary
    env = cargo_env()
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path",
           os.path.join(HARNESS, "Cargo.toml"), "--bin", binary, "--features", feature]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("harness build timed out")
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout.decode("utf-8", "replace")[-6000:])
    ctx.build_s += time.time() - t0
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", binary)


class Build(threading.Thread):
    """Build in the background while TLC runs."""
    def __init__(self, ctx, binary, feature=None):
        super().__init__(daemon=True)
        self.ctx, self.binary, self.feature = ctx, binary, feature
        self.path, self.err = None, None
        self.start()

    def run(self):
        try:
            self.path = build(self.ctx, self.binary, self.feature)
        except BaseException as e:  # noqa
            self.err = e

    def get(self):
        self.join()
        if self.err:
            raise self.err
        return self.path


# A runaway allocation ends the harness process, not the sandbox.
LIMITED = ["/bin/sh", "-c", 'ulimit -v 4194304; exec "$@"', "sh"]


def run_harness(ctx, path, cases, timeout=300, shards=None, args=()):
    """Feed the cases (JSON lines) to the harness, in parallel shards; one JSON result line per
    case. A case the harness did not answer (abort, endless loop) yields {"dead": ...}."""
    n = len(cases)
    if n == 0:
        return []
    shards = shards or min(NCPU, max(1, n // 200))
    res = [None] * n
    start = time.monotonic()
    if getattr(ctx, "hung", False):          # one endless loop was already reported: do not
        timeout = min(timeout, 60)           # spend the whole allowance on further ones

    def one(k):
        nonlocal timeout
        idx = list(range(k, n, shards))
        pos = 0
        while pos < len(idx):
            data = "".join(json.dumps(cases[i], separators=(",", ":")) + "\n" for i in idx[pos:]).encode()
            inp = os.path.join(ctx.work, f"h_in_{k}.jsonl")
            outp = os.path.join(ctx.work, f"h_out_{k}.jsonl")
            with open(inp, "wb") as fh:
                fh.write(data)
            why = None
            with open(inp, "rb") as fi, open(outp, "wb") as fo:
                try:
                    p = subprocess.run([*LIMITED, path, *args], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL,
                                       timeout=timeout, env={**os.environ, "RUST_BACKTRACE": "0"})
                    if p.returncode != 0:
                        why = f"harness ended with code {p.returncode}"
                except subprocess.TimeoutExpired:
                    why = f"no answer within {timeout}s"
            got = 0
            with open(outp, "rb") as fo:
                for line in fo:
                    if not line.endswith(b"\n"):
                        break
                    try:
                        res[idx[pos + got]] = json.loads(line)
                    except ValueError:
                        raise ToolError("bad harness output: " + line[:300].decode("utf-8", "replace"))
                    got += 1
            if pos + got >= len(idx):
                return
            if why is None:
                raise ToolError("harness stopped early without an error")
            res[idx[pos + got]] = {"dead": why}
            pos += got + 1
            if why.startswith("no answer"):
                ctx.hung = True
                timeout = min(timeout, 60)
            if why.startswith("no answer") or time.monotonic() - start > 150:
                for i in idx[pos:]:
                    res[i] = {"skipped": True}
                return

    with ThreadPoolExecutor(shards) as ex:
        list(ex.map(one, range(shards)))
    ctx.evaluations += n
    ctx.deaths += [(c, r["dead"]) for c, r in zip(cases, res) if isinstance(r, dict) and "dead" in r]
    return res


# ------------------------------------------------------------------ comparison
def num(x):
    """Expected numbers: int, float, {"q":[n,d]} rational."""
    if isinstance(x, dict) and "q" in x:
        return x["q"][0] / x["q"][1]
    return x


def close(exp, got, rel=1e-9, abs_=1e-12):
    if got is None or isinstance(got, (str, dict, list)):
        return False
    e = num(exp)
    if e is None or isinstance(e, (str, dict, list)):        # an observed value in the other place
        return False
    if isinstance(e, float) and (math.isnan(e) or math.isinf(e)):
        return (math.isnan(e) and isinstance(got, float) and math.isnan(got)) or e == got
    if isinstance(got, float) and (math.isnan(got) or math.isinf(got)):
        return False
    return abs(e - got) <= abs_ + rel * max(abs(e), abs(got))


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.work = os.path.join(WORK, prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replay_dir = os.path.join(ROOT, "replay", prop)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        self.states = self.transitions = self.evaluations = self.traces = 0
        self.build_s = 0.0
        self.tlc_runs, self.samples, self.violations, self.notes = [], [], [], {}
        self.deaths = []
        self.assumptions = []
        self.nontrivial = set()
        self.findings = {}
        self.hit = {}
        self.load_findings()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def load_findings(self):
        fn = os.path.join(ROOT, "known_findings.txt")
        if not os.path.exists(fn):
            return
        for line in open(fn, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == self.prop:
                self.findings[m.group(2)] = m.group(3).strip()

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def nontriv(self, key):
        self.nontrivial.add(hash(key) if not isinstance(key, (int, str)) else key)

    def broke_off(self, why):
        """the check could not go on: when the code gave no answer to a case, or a violation was already
        seen, that is the result; otherwise None"""
        if not self.violations:
            for c, w in self.deaths[:3]:
                self.violation(f"no answer ({w}) to {str(c)[:300]}", {"case": c})
        return self.finish(f"broke off: {why}") if self.violations else None

    def violation(self, what, case, key=None):
        """what: one line; case: JSON-able replay record; key: identity against known findings."""
        if key is not None and key in self.findings:
            self.hit[key] = self.hit.get(key, 0) + 1
            return
        self.violations.append({"what": what, "key": key, "case": case})

    def finish(self, rule, exhaustive=False, extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "evaluations": self.evaluations, "distinct_nontrivial": len(self.nontrivial),
               "rule": rule, "samples": self.samples or ["(none)"], "exhaustive": bool(exhaustive),
               "tlc_runs": self.tlc_runs, "build_s": round(self.build_s, 1)}
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", f".{self.prop}.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", self.prop + ".json"))
        for k, w in self.findings.items():
            print(f"KNOWN-FINDING: property={self.prop} key={k} {w} (seen {self.hit.get(k, 0)} times)")
        if self.violations:
            os.makedirs(self.replay_dir, exist_ok=True)
            for i, v in enumerate(self.violations[:20]):
                fn = os.path.join(self.replay_dir, f"{i}.json")
                with open(fn, "w") as fh:
                    json.dump(v, fh, indent=1)
                if i < 5:
                    print("  " + v["what"][:600])
                    print(f"VIOLATION property={self.prop} replay={fn}", flush=True)
            print(f"{self.prop}: {len(self.violations)} violations", flush=True)
            return 1
        print(f"{self.prop}: held; {self.states} spec states, {self.traces} behaviours and "
              f"{self.evaluations} cases replayed, {time.time()-self.t0:.1f}s "
              f"(build {self.build_s:.1f}s)", flush=True)
        return 0
