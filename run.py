#!/usr/bin/env python3
"""Checks of /verif. Usage:
  run.py setup              builds the framework once (only warms up .build)
  run.py check ID           one property; VERIF_SEED and VERIF_TIER from the environment
  run.py replay FILE        re-executes a replay file; exit 1 if the violation shows again
  run.py trace FILE         prints model and real trace of a replay file
"""
import ctypes, fcntl, glob, json, os, re, resource, shutil, signal, subprocess, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "target")
JOBS = 8

PARSE_PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12"]
# properties under which a conflict-free grammar that does not expand or compile is a violation
COMPILE_PROPS = {"C01", "C11"}


DIED = "process died or hung"


class HarnessError(Exception):
    pass


def env(**extra):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "VERIF"))}
    e.update(
        HOME=os.environ.get("HOME", "/root"),
        PATH="/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="stable",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        LANG="C.UTF-8",
    )
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(extra)
    return e


LIBC = ctypes.CDLL(None)


def limits(gb, pin=None):
    cpus = sorted(os.sched_getaffinity(0))

    def f():
        os.setpgid(0, 0)
        # not to outlive this process (PR_SET_PDEATHSIG)
        LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if pin is not None:
            # its threads run one at a time anyway, and pass the baton faster on one processor
            os.sched_setaffinity(0, {cpus[pin % len(cpus)]})

    return f


def call(cmd, timeout, gb=8, cwd=None, e=None, pin=None):
    """(returncode or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(
        cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(gb, pin), text=True, errors="replace"
    )
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, r = p.communicate()
        return None, o, r


class Tools:
    """The simulator and the macro of the current working tree, built and copied aside."""

    def __init__(self, work):
        self.dir = os.path.join(work, "lib")
        os.makedirs(self.dir)
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            # cargo judges freshness by mtime; drop what it knows of the crate under test
            for d in glob.glob(os.path.join(TARGET, "debug/.fingerprint/parsegen-*")):
                shutil.rmtree(d)
            cmd = ["cargo", "build", "--offline", "--locked", "--message-format=json", "-p", "glue", "-p", "simcore"]
            rc, out, err = call(cmd, 600, 16, os.path.join(ROOT, "sim"), env(CARGO_TARGET_DIR=TARGET))
            if rc != 0:
                raise HarnessError("cargo build failed\n" + err[-3000:] + out[-3000:])
            for line in out.splitlines():
                if not line.startswith("{"):
                    continue
                m = json.loads(line)
                if m.get("reason") != "compiler-artifact":
                    continue
                name = m["target"]["name"].replace("-", "_")
                for f in m["filenames"]:
                    if name == "parsegen" and f.endswith(".so"):
                        self.macro = shutil.copy(f, self.dir)
                    if name == "simcore" and f.endswith(".rlib"):
                        self.simcore = shutil.copy(f, os.path.join(self.dir, "libsimcore.rlib"))
                if m.get("executable") and name == "simgen":
                    self.simgen = shutil.copy(m["executable"], self.dir)

    def gen(self, *args):
        rc, out, err = call([self.simgen, *map(str, args)], 300)
        if rc != 0:
            raise HarnessError(f"simgen {args}: {rc} {out[-500:]} {err[-2000:]}")
        return out

    def expand(self, d, names, timeout):
        sub = os.path.join(d, "few")
        os.makedirs(sub)
        for n in names:
            shutil.copy(os.path.join(d, n + ".rs"), sub)
        self.gen("root", sub, *names)
        cmd = ["rustc", "--edition", "2021", "-Zunpretty=expanded", "--cap-lints", "allow"]
        cmd += ["--extern", f"simcore={self.simcore}", "--extern", f"parsegen={self.macro}", "-L", self.dir]
        res = call(cmd + ["-o", os.path.join(sub, "out"), os.path.join(sub, "main.rs")], timeout, 12, sub, env(RUSTC_BOOTSTRAP="1"))
        shutil.rmtree(sub)
        return res

    def rustc(self, d, timeout=300, opt=False, edges=False):
        cmd = ["rustc", "--edition", "2021", "--crate-name", "shard", "-C", f"opt-level={1 if opt else 0}", "-C", "debuginfo=0"]
        if opt:
            cmd += ["-C", "debug-assertions=off"]
        if edges:
            # a call at every edge of the control flow (sim/simcore/src/preempt.rs)
            # and before every access to memory that parses could share (shared.rs)
            cmd += ["-Z", "sanitizer=thread", "-Z", "external-clangrt", "-Z", "unstable-options", "-C", "unsafe-allow-abi-mismatch=sanitizer"]
            cmd += ["-C", "llvm-args=-tsan-instrument-func-entry-exit=0"]
            cmd += ["-C", "passes=sancov-module", "-C", "llvm-args=-sanitizer-coverage-level=3", "-C", "llvm-args=-sanitizer-coverage-trace-pc-guard"]
        cmd += ["--cap-lints", "allow", "--error-format=json"]
        cmd += ["--extern", f"simcore={self.simcore}", "--extern", f"parsegen={self.macro}", "-L", self.dir]
        cmd += ["-o", os.path.join(d, "shard"), os.path.join(d, "main.rs")]
        return call(cmd, timeout, 12, d, env(RUSTC_BOOTSTRAP="1") if edges else None)


# a grammar that the compiler does not get done with was found
STUCK = threading.Event()


def span_files(diag, acc):
    for s in diag.get("spans", []):
        while s:
            acc.add(os.path.basename(s["file_name"]))
            s = (s.get("expansion") or {}).get("span")
    for c in diag.get("children", []):
        span_files(c, acc)


def first_words(diag):
    t = diag.get("message", "")
    for c in diag.get("children", []):
        t += "; " + c.get("message", "")
    return t[:300]


def compile_shard(tools, d, opt=False, edges=False, patience=60):
    """Compiles the modules of a directory, without those that do not compile.
    Returns {module: (kind, message)} of the modules left out; kind is rejected, error or stuck.
    Gives up as soon as one is stuck."""
    bad = {}
    names = sorted((f[:-3] for f in os.listdir(d) if f.endswith(".rs") and f != "main.rs"), key=lambda n: (len(n), n))
    for _ in range(6):
        left = [n for n in names if n not in bad]
        if not left:
            return bad
        tools.gen("root", d, *left)
        rc, _, err = tools.rustc(d, patience, opt=opt, edges=edges)
        if rc == 0:
            return bad
        new = {}
        if rc is None and len(left) == 1:
            return {**bad, left[0]: ("stuck", f"rustc did not finish in {patience} s")}
        for line in err.splitlines():
            if not line.startswith("{"):
                continue
            diag = json.loads(line)
            if diag.get("level") != "error" and "internal compiler error" not in diag.get("level", ""):
                continue
            fs = set()
            span_files(diag, fs)
            for f in fs:
                n = f[:-3]
                if n in left and n not in new:
                    kind = "rejected" if "proc macro panicked" in diag["message"] else "error"
                    new[n] = (kind, first_words(diag))
        if not new:
            # stuck or killed: find the module; small and yet slow ones first
            left = sorted(left, key=lambda n: os.path.getsize(os.path.join(d, n + ".rs")))
            for i in range(0, len(left), 16):
                if STUCK.is_set():
                    return {**bad, left[0]: ("unknown", "one of the grammars does not expand; not searched, as another was found already")}
                rc1, _, _ = tools.expand(d, left[i : i + 16], 30)
                if rc1 is None or rc1 < 0 or rc1 > 1:
                    left = left[i : i + 16]
                    break
            for n in left:
                sub = os.path.join(d, "one_" + n)
                os.makedirs(sub, exist_ok=True)
                shutil.copy(os.path.join(d, n + ".rs"), sub)
                tools.gen("root", sub, n)
                rc1, _, err1 = tools.rustc(sub, timeout=30)
                shutil.rmtree(sub)
                if rc1 is None or rc1 < 0 or rc1 > 1:
                    STUCK.set()
                    return {**bad, n: ("stuck", f"rustc did not finish ({rc1})")}
            raise HarnessError(f"rustc fails without naming a grammar: rc {rc}\n" + err[-3000:])
        bad.update(new)
    raise HarnessError("grammars keep failing to compile: " + repr(bad)[:2000])


def spec_of(path):
    """The grammar text embedded in a generated module."""
    s = open(path).read()
    m = re.search(r'^pub const SPEC: &str = (".*");$', s, re.M)
    # rustc's {:?} form: same escapes as JSON here, but \u{..} and \'
    t = m.group(1)
    t = re.sub(r"\\u\{([0-9a-f]+)\}", lambda x: chr(int(x.group(1), 16)), t).replace("\\'", "'").replace("\\0", "\\u0000")
    return json.loads(t)


def died(rc):
    return rc is not None and (rc < 0 or rc in (4, 134))


def run_shard(tools, d, prop, seed, runs, secs, thorough, pin=None):
    out = os.path.join(d, "out")
    os.makedirs(out, exist_ok=True)
    cmd = [os.path.join(d, "shard"), "run", prop, seed, runs, secs, out, int(thorough)]
    rc, o, err = call(list(map(str, cmd)), secs + 120, 5, d, pin=pin)
    return rc, out, o + err


# --------------------------------------------------------------------------------------------
# replay


def do_replay(tools, work, path, verbose=True, mode="replay"):
    """Returns (violated, digest line)"""
    text = open(path).read()
    head = re.search(r"^\((\S+)", text).group(1)
    d = os.path.join(work, "replay")
    shutil.rmtree(d, ignore_errors=True)
    tools.gen("emit", path, d)
    bad = compile_shard(tools, d, opt="(optimised)" in text, edges="(property C08)" in text)
    say = print if verbose else (lambda *a, **k: None)
    if head == "compile":
        for n, (kind, msg) in bad.items():
            say(f"{n}: {kind}: {msg}")
        say("no violation" if not bad else "violated: a conflict-free grammar is not accepted")
        return bool(bad), repr(sorted(bad))
    if bad:
        say("grammar of the replay does not compile:", bad)
        return False, "not compiled"
    if head == "prefix":
        g = lambda k: re.search(r"^\s*\(%s ([^)]*)\)" % k, text, re.M).group(1)
        out = os.path.join(d, "out")
        rc, out, log = run_shard(tools, d, g("property"), int(g("shard-seed")), int(g("runs")), 10**6, g("thorough") == "1")
        dig = "died" if died(rc) else str(rc)
        if rc == 1:
            dig = open(os.path.join(out, "violation.msg")).read()
        say(dig)
        return rc == 1 or died(rc), dig
    rc, o, e = call([os.path.join(d, "shard"), mode, path], 120, 5, d)
    if rc is None:
        rc, o = 4, "stuck"
    say(o + e[-2000:], end="")
    if rc == 3:
        raise HarnessError("replay: " + e[-2000:])
    if died(rc):
        say(f"violated: the process running the parser died ({rc})")
    return rc != 0, o if not died(rc) else "died"


# --------------------------------------------------------------------------------------------
# checks of the generated parsers


def parse_check(prop, seed, thorough, work, evidence):
    tools = Tools(work)
    t0 = time.time()
    per = 240 if thorough else 220
    secs = 40 if thorough else 14
    budget = float(os.environ.get("VERIF_BUDGET", 1200 if thorough else 0))
    xc = json.loads(tools.gen("xcheck", seed, 20000 if thorough else 3000))
    cov = {}
    sums = {}
    faults = {}
    samples = []
    left_out = []
    violations = []
    lib_time = {"compile": 0.0, "run": 0.0}
    kinds = {
        "C01": {0: "0", 1: "1,5", 2: "2", 3: "3", 4: "4"},
        "C02": {0: "0", 1: "1,5", 2: "2", 4: "4"},
        "C03": {0: "0", 1: "5", 2: "2", 4: "4"},
        "C04": {0: "0", 1: "5", 2: "2", 4: "4"},
        "C09": {0: "0", 1: "1", 3: "3", 4: "4"},
        "C08": {4: "4", 5: "5"},
        "C11": {1: "7"},
        "C12": {1: "6", 2: "5"},
    }.get(prop, {1: "1,5", 2: "2", 4: "4"})
    detail = []

    def shard(rnd, k):
        d = os.path.join(work, f"s{rnd}_{k}")
        large = kinds.get(k, "") if rnd == 0 else ""
        # the large tables take their time in the compiler
        n = per // 2 if set(large) & set("0237") else per * 3 // 5 if k == 7 else per
        tools.gen("gen", prop, seed, (rnd * JOBS + k) * per, n, int(thorough), d, large)
        free = set(open(os.path.join(d, "free")).read().split())
        a = time.time()
        given = len(glob.glob(os.path.join(d, "*.rs"))) - os.path.exists(os.path.join(d, "main.rs"))
        bad = compile_shard(tools, d, opt=(k == 7), edges=prop == "C08", patience=300 if thorough else 120)
        b = time.time()
        res = {"dir": d, "bad": bad, "free": free, "k": k, "rnd": rnd, "given": given, "compile": b - a}
        if os.path.exists(os.path.join(d, "shard")):
            sseed = seed * 1000003 + rnd * 64 + k
            rc, out, log = run_shard(tools, d, prop, sseed, 10**9, secs, thorough, k)
            res.update(rc=rc, out=out, log=log, seed=sseed, run=time.time() - b)
        return res

    def sexp_str(s):
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", " ") + '"'

    def mark(text, k):
        # shard 7 is compiled with optimisation
        return text.replace("(replay\n", "(replay\n  (optimised)\n", 1) if k == 7 else text

    def new_replay(name):
        rd = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        return os.path.join(rd, name)

    rnd = 0
    n_grammars = 0
    first = None
    while True:
        with ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(lambda k: shard(rnd, k), range(JOBS)))
        if prop not in COMPILE_PROPS and any(kind == "stuck" for r in results for kind, _ in r["bad"].values()):
            raise HarnessError("expansion does not end: " + repr([r["bad"] for r in results])[:2000])
        for r in results:
            d = r["dir"]
            n_grammars += r["given"]
            lib_time["compile"] += r["compile"]
            for n, (kind, msg) in r["bad"].items():
                conflict_free = n in r["free"]
                left_out.append({"grammar": n, "kind": kind, "conflict_free": conflict_free, "message": msg})
                if kind != "unknown" and conflict_free and prop in COMPILE_PROPS and sum(len(v) == 2 for v in violations) < 3:
                    p = new_replay(f"{prop}-seed{seed}-{n}-compile.sx")
                    with open(p, "w") as f:
                        f.write(f"(compile\n  (property {prop})\n  (violation {sexp_str(kind + ': ' + msg)})\n  (seed {seed})\n{spec_of(os.path.join(d, n + '.rs'))})\n")
                    violations.append((p, f"conflict-free grammar {n} does not become a parser ({kind}): {msg}"))
            if "rc" not in r:
                continue
            lib_time["run"] += r["run"]
            rc = r["rc"]
            if rc == 3:
                raise HarnessError("shard: " + r["log"][-3000:])
            sj = os.path.join(r["out"], "stats.json")
            if os.path.exists(sj):
                st = json.load(open(sj))
                for k2, v in st.items():
                    if isinstance(v, (int, float)) and k2 != "next":
                        sums[k2] = sums.get(k2, 0) + v
                for k2, v in st["faults"].items():
                    faults[k2] = faults.get(k2, 0) + v
                if len(samples) < 3:
                    samples += st["samples"][:1]
            if rc == 1:
                v = os.path.join(r["out"], "violation.sx")
                idx, msg = open(os.path.join(r["out"], "violation.msg")).read().split("\n", 1)
                p = new_replay(f"{prop}-seed{seed}-r{r['rnd']}s{r['k']}-run{idx}.sx")
                with open(p, "w") as f:
                    f.write(mark(open(v).read(), r["k"]))
                violations.append((p, msg, r, int(idx)))
            elif died(rc) or rc is None:
                if rc is None:
                    idx = int.from_bytes(open(os.path.join(r["out"], "progress"), "rb").read(8), "little")
                else:
                    idx = int.from_bytes(open(os.path.join(r["out"], "progress"), "rb").read(8), "little")
                p = new_replay(f"{prop}-seed{seed}-r{r['rnd']}s{r['k']}-run{idx}.sx")
                violations.append((p, f"{DIED} ({rc}) {r['log'][-300:]}", r, idx))
            elif rc != 0:
                raise HarnessError(f"shard ended with {rc}: " + r["log"][-3000:])
            if first is None and rc == 0:
                first = r
        if violations:
            break
        rnd += 1
        keep = first["dir"] if first else None
        for r in results:
            if r["dir"] != keep:
                shutil.rmtree(r["dir"])
        if time.time() - t0 + 0.6 * (time.time() - t0) / rnd > budget:
            break

    # every reported violation is confirmed by replaying its file in a fresh process
    confirmed = []
    violations.sort(key=lambda v: (-len(v), v[1].startswith(DIED)))
    t_conf = time.time()
    for v in violations[:6]:
        p, msg = v[0], v[1]
        if any(c[2] for c in confirmed) and (msg.startswith(DIED) or time.time() - t_conf > 60):
            break
        if msg.startswith(DIED):
            r, idx = v[2], v[3]
            sh = os.path.join(r["dir"], "shard")
            if os.path.exists(p):
                os.remove(p)
            call([sh, "dead", prop, str(r["seed"]), str(idx), p, str(int(thorough))], 100, 5, r["dir"])
            if not os.path.exists(p):
                call([sh, "show", prop, str(r["seed"]), str(idx), p, str(int(thorough))], 60, 5, r["dir"])
            if os.path.exists(p):
                text = mark(open(p).read(), r["k"])
                open(p, "w").write(text)
        ok1, d1 = do_replay(tools, work, p, verbose=False)
        ok2, d2 = do_replay(tools, work, p, verbose=False) if ok1 else (False, "")
        if not (ok1 and ok2 and d1 == d2) and len(v) == 4:
            # depends on what ran before in the process: replay the shard up to that run
            r, idx = v[2], v[3]
            text = [f"(prefix\n  (property {prop})\n  (violation {sexp_str(msg)})\n  (seed {seed})\n  (shard-seed {r['seed']})\n  (runs {idx + 1})\n  (thorough {int(thorough)})\n" + ("(optimised)\n" if r["k"] == 7 else "")]
            names = re.findall(r"^#\[path = \"(.*)\.rs\"\]", open(os.path.join(r["dir"], "main.rs")).read(), re.M)
            text += [spec_of(os.path.join(r["dir"], n + ".rs")) for n in names]
            p = p[:-3] + "-prefix.sx"
            open(p, "w").write("".join(text) + ")\n")
            ok1, d1 = do_replay(tools, work, p, verbose=False)
            ok2, d2 = do_replay(tools, work, p, verbose=False)
        confirmed.append((p, msg, ok1 and ok2, d1 == d2))
        if len(confirmed) >= 3:
            break

    # the simulator itself: the same seed twice gives the same runs
    det = None
    if not violations and first:
        digs = []
        # as many runs as take a few seconds
        done = json.load(open(os.path.join(first["out"], "stats.json")))["next"]
        n_det = max(1, min(1000 if prop != "C08" else 300, done // 4))
        for i in range(2):
            out = os.path.join(first["dir"], f"det{i}")
            os.makedirs(out)
            cmd = [os.path.join(first["dir"], "shard"), "run", prop, first["seed"], n_det, 600, out, int(thorough)]
            rc, o, e = call(list(map(str, cmd)), 300, 5, first["dir"])
            if rc != 0:
                raise HarnessError(f"determinism self-test: {rc} {o}{e}"[-2000:])
            digs.append(json.load(open(os.path.join(out, "stats.json")))["digest"])
        det = digs[0] == digs[1]
        if not det:
            raise HarnessError("the same seed gave two different executions")
    if not sums.get("runs") and not violations:
        raise HarnessError("nothing ran: " + json.dumps(left_out)[:3000])

    run_s = max(sums.get("seconds", 0.0), 1e-9)
    cov.update(
        evaluations=int(sums.get("runs", 0)),
        distinct_nontrivial=int(sums.get("distinct", 0)),
        rule="one evaluation = one simulated run: a seeded plan (grammars, streams, faults, crash points, nesting, schedule) executed by the "
        "compiled parsers and judged against the reference model. Non-trivial: at least one fault injected, or tasks switched, or three or "
        "more actions run; distinct by the digest of the full event trace, grammar, entry points and interleaving.",
        samples=samples or ["(no sample)"],
        faults_injected=faults,
        distinct_interleavings=int(sums.get("orders", 0)),
        interleaving_measure="distinct sequences of task choices at yield points, of runs with at least one switch",
        state_terminal_cells_reached=int(sums.get("cells", 0)),
        state_terminal_cells_total=int(sums.get("cells_total", 0)),
        simulated_steps=int(sums.get("steps", 0)),
        simulated_time=f"{sums.get('simulated_seconds', 0) / 86400:.1f} days of simulated clock (stalls included); a step is one request, action or error clone that the scheduler let go on",
        answered_for_the_parser={"clock reads": int(sums.get("clock_reads", 0)), "entropy requests": int(sums.get("entropy", 0)), "sleeps": int(sums.get("sleeps", 0))},
        requests=int(sums.get("pulls", 0)),
        actions=int(sums.get("acts", 0)),
        parses={k: int(sums.get(k, 0)) for k in ("parses", "ok", "perr", "lex", "crashed")},
        task_switches=int(sums.get("switches", 0)),
        accesses_to_shared_memory=int(sums.get("shared", 0)),
        switches_offered_between_callbacks=int(sums.get("preemptions", 0)),
        lock_waits_turned_into_switches=int(sums.get("lock_waits", 0)),
        runs_skipped=int(sums.get("skipped", 0)),
        grammars_compiled=n_grammars - len(left_out),
        grammars_left_out=len(left_out),
        grammars_left_out_sample=left_out[:5],
        seeds={"VERIF_SEED": seed, "shard_seeds": f"{seed} * 1000003 + 64 * round + shard", "rounds": max(rnd, 1), "shards": JOBS},
        runs_per_hour=int(sums.get("runs", 0) / run_s * JOBS * 3600),
        seeds_per_hour=int(sums.get("runs", 0) / run_s * JOBS * 3600),
        cpu_seconds={"compile": round(lib_time["compile"], 1), "run": round(run_s, 1)},
        model_cross_check=xc,
        determinism_self_test=det,
        real_components="the macro of /repo's working tree expands every grammar; the generated driver, tables, classification, value "
        "and action functions run as compiled by rustc (shard 7 of 8 optimised and without debug assertions)",
        stub_components="token source, token payloads, error values, user code inside actions, thread scheduler (baton passing), clock, entropy, process id, waiting for locks, contents of fresh memory",
    )
    evidence["coverage"] = cov
    evidence["violations"] = len(violations)
    return confirmed


def check(prop):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    t0 = time.time()
    work = os.path.join(BUILD, f"w-{prop}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev_path = os.path.join(ROOT, "evidence", prop + ".json")
    evidence = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration", "coverage": {}}
    try:
        if prop in ("C10", "C13", "C14"):
            import expand

            confirmed = expand.check(sys.modules[__name__], prop, seed, thorough, work, evidence)
        else:
            confirmed = parse_check(prop, seed, thorough, work, evidence)
        evidence["assumptions"] = [
            "rustc, the standard library and the crates syn, quote and proc-macro2 are correct",
            "the reference model (independent LR(1) construction and interpreter, cross-checked against an Earley recogniser in this run) is correct",
            "generated user code is well-behaved: actions and the source only do what the plan says",
        ]
        evidence["wall_s"] = round(time.time() - t0, 2)
        with open(ev_path, "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
            f.write("\n")
        if not confirmed:
            c = evidence["coverage"]
            print(f"OK property={prop} evaluations={c['evaluations']} distinct={c['distinct_nontrivial']} wall={evidence['wall_s']}s")
            return 0
        sure = [c for c in confirmed if c[2]]
        for p, msg, ok, same in confirmed:
            if not ok and sure:
                continue
            print(f"{msg}\n  replayed: {'violated again' if ok else 'NOT reproduced'}, {'identical' if same else 'DIFFERENT'} on two replays")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    except Exception as e:
        print(f"HARNESS ERROR property={prop}: {e if isinstance(e, HarnessError) else traceback.format_exc()}", file=sys.stderr)
        return 2
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    cmd = sys.argv[1]
    if cmd == "check":
        return check(sys.argv[2])
    work = os.path.join(BUILD, f"w-{cmd}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        if cmd == "setup":
            Tools(work)
            import expand

            expand.build(sys.modules[__name__], work)
            return 0
        if cmd in ("replay", "trace"):
            path = os.path.abspath(sys.argv[2])
            if re.match(r"\(expand", open(path).read()):
                import expand

                return expand.replay(sys.modules[__name__], path, work)
            bad, _ = do_replay(Tools(work), work, path, mode=cmd)
            return 1 if bad and cmd == "replay" else 0
    except HarnessError as e:
        print(f"HARNESS ERROR: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
