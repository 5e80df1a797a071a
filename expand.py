"""C10: simulation of the expansion. See sim10/expander."""
import json, os, random, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
import fcntl, glob


def build(R, work):
    os.makedirs(R.BUILD, exist_ok=True)
    target = os.path.join(R.BUILD, "target10")
    with open(os.path.join(R.BUILD, "lock10"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for d in glob.glob(os.path.join(target, "debug/.fingerprint/plain-*")):
            shutil.rmtree(d)
        rc, out, err = R.call(
            ["cargo", "build", "--offline", "--locked", "-p", "expander"], 600, 16, os.path.join(R.ROOT, "sim10"), R.env(CARGO_TARGET_DIR=target, RUSTC_WORKSPACE_WRAPPER=os.path.join(R.ROOT, "sim10/edges.sh"))
        )
        if rc != 0:
            raise R.HarnessError("cargo build (expander) failed\n" + err[-4000:])
        return shutil.copy(os.path.join(target, "debug/expander"), work)


def surroundings(R, work, k, files):
    """Another environment for every process: variables, directories. Scratch files are in `files`, made anew."""
    rng = random.Random(k)
    shutil.rmtree(files, ignore_errors=True)
    for d in ("tmp", "home", "out", "cwd"):
        os.makedirs(os.path.join(files, d))
    tmp = os.path.join(files, "tmp")
    e = R.env(TMPDIR=tmp, TEMP=tmp, HOME=os.path.join(files, "home"))
    for v in ("USER", "LOGNAME", "HOSTNAME", "CARGO_PKG_NAME", "CARGO_MANIFEST_DIR", "CARGO_PKG_VERSION", "OUT_DIR", "PROFILE", "TERM", "COLUMNS", "TZ", "DEBUG", "CI"):
        if rng.random() < 0.5:
            e[v] = rng.choice(["", "0", "1", "80", "/nonexistent", "x%d" % rng.randrange(1000), os.path.join(files, "out")])
    if rng.random() < 0.25:
        e["TMPDIR"] = e["TEMP"] = rng.choice(["/nonexistent/tmp", "/dev/null", ""])
    if rng.random() < 0.5:
        e["RUST_BACKTRACE"] = "1"
    return e, os.path.join(files, "cwd")


def died(rc):
    return rc is not None and rc not in (0, 1)


def run_plan(R, exe, work, inputs, base, plan, k=0, timeout=120):
    """(violated, message)"""
    p = os.path.join(work, f"plan{k}-{os.getpid()}")
    with open(p, "w") as f:
        f.write(plan)
    e, cwd = surroundings(R, work, int(re.search(r"\(process (\d+)\)", plan).group(1)), os.path.join(work, f"files{k}"))
    rc, out, err = R.call([exe, "exec", inputs, base, p], timeout, 8, cwd, e)
    os.remove(p)
    if rc is None:
        return True, "violated: expansion does not end"
    if died(rc):
        return True, f"violated: the process running the expansions died ({rc})"
    return rc == 1, out.strip()


def plan_text(head, runs):
    o = "(plan\n  (process %s)\n  (hash-order %s)\n" % head
    for (seed, period), tasks in runs:
        o += f"  (run (sched {seed} {period})" + "".join(" (task " + " ".join(map(str, t)) + ")" for t in tasks) + ")\n"
    return o + ")\n"


def parse_plan(text):
    head = re.search(r"\(process (\d+)\)\s*\(hash-order (\d+)\)", text).groups()
    runs = []
    for m in re.finditer(r"\(run\s*\(sched (\d+) (\d+)\)((?:\s*\(task[ \d]*\))*)\)", text):
        tasks = [list(map(int, t.split())) for t in re.findall(r"\(task([ \d]*)\)", m.group(3))]
        runs.append(((int(m.group(1)), int(m.group(2))), tasks))
    return head, runs


def shrink(R, exe, work, inputs, base, head, runs, limit=60.0):
    """Fewer runs, tasks and expansions that still violate."""
    end = time.time() + limit
    n = [0]

    def fails(rs):
        if time.time() > end:
            return False
        n[0] += 1
        return run_plan(R, exe, work, inputs, base, plan_text(head, rs), 9)[0]

    if fails(runs[-1:]):
        runs = runs[-1:]
    size = max(1, len(runs) // 2)
    while len(runs) > 1:
        i = 0
        while i < len(runs):
            c = runs[:i] + runs[i + size :]
            if c and fails(c):
                runs = c
            else:
                i += size
        if size == 1:
            break
        size //= 2
    changed = True
    while changed and time.time() < end:
        changed = False
        for i in range(len(runs)):
            k = 0
            while k < len(runs[i][1]) and len(runs[i][1]) > 1:
                c = runs[:i] + [(runs[i][0], runs[i][1][:k] + runs[i][1][k + 1 :])] + runs[i + 1 :]
                if fails(c):
                    runs, changed = c, True
                else:
                    k += 1
            for k in range(len(runs[i][1])):
                x = 0
                while x < len(runs[i][1][k]):
                    t = runs[i][1][k]
                    ts = runs[i][1][:k] + [t[:x] + t[x + 1 :]] + runs[i][1][k + 1 :]
                    c = runs[:i] + [(runs[i][0], ts)] + runs[i + 1 :]
                    if fails(c):
                        runs, changed = c, True
                    else:
                        x += 1
            if runs[i][0][1] != 0:
                c = runs[:i] + [((runs[i][0][0], 0), runs[i][1])] + runs[i + 1 :]
                if fails(c):
                    runs, changed = c, True
    # without idle tasks, unless that makes others out of the ones that are left
    less = [(s, [t for t in ts if t]) for s, ts in runs]
    less = [r for r in less if r[1]]
    if less != runs and run_plan(R, exe, work, inputs, base, plan_text(head, less), 9)[0]:
        runs = less
    return runs, n[0]


def run_files(R, exe, work, inputs, base, order, name, k):
    """(violated, message): the inputs of `order`, each expanded in its own process, one after the other, in the same directories"""
    d = os.path.join(work, f"seq{name}")
    e, cwd = surroundings(R, work, k, d)
    rc, out, err = R.call([exe, "files", inputs, base, d] + [str(i) for i in order], 300, 12, cwd, e)
    if rc not in (0, 1):
        raise R.HarnessError(f"processes one after the other: {rc} {err[-2000:]}")
    return rc == 1, out.strip()


def shrink_files(R, exe, work, inputs, base, order, k, limit=60.0):
    end = time.time() + limit
    n = [0]

    def fails(o):
        n[0] += 1
        return time.time() < end and run_files(R, exe, work, inputs, base, o, "shrink", k)[0]

    size = max(1, len(order) // 2)
    while len(order) > 1:
        i = 0
        while i < len(order):
            c = order[:i] + order[i + size :]
            if c and fails(c):
                order = c
            else:
                i += size
        if size == 1:
            break
        size //= 2
    return order, n[0]


def split_modules(text):
    """rustc's pretty-printed crate -> {module: lines without blank ones}"""
    mods, cur = {}, None
    for l in text.splitlines():
        m = re.match(r"mod (g\d+) \{$", l)
        if m:
            cur = mods.setdefault(m.group(1), [])
        elif l == "}":
            cur = None
        elif cur is not None and l.strip():
            cur.append(l)
    return mods


def rustc_expand(R, tools, work, name, body, k):
    d = os.path.join(work, "rc_" + name)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "main.rs")
    with open(p, "w") as f:
        f.write("#![allow(warnings)]\n" + body + "fn main() {}\n")
    e, cwd = surroundings(R, work, k, os.path.join(d, "files"))
    e["HOME"] = R.env()["HOME"]
    e["TMPDIR"] = e["TEMP"] = os.path.join(d, "files", "tmp")
    e["RUSTC_BOOTSTRAP"] = "1"
    rc, out, err = R.call(["rustc", "--edition", "2021", "-Zunpretty=expanded", "--extern", f"parsegen={tools.macro}", p], 300, 8, cwd, e)
    return rc, out, err


def check(R, prop, seed, thorough, work, evidence):
    verdicts = prop != "C10"
    tools = R.Tools(work)
    exe = build(R, work)
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", 1200 if thorough else 0))
    sums, hist, samples, violations = {}, {}, [], []
    families = (2000 if thorough else 500) if verdicts else 120 if thorough else 60
    # what the expander alone said of each
    judged = {}
    secs = 14 if thorough else 4
    procs = 3 * R.JOBS
    # further processes that make one run only: what happens the first time happens once per process
    cold = 20 * R.JOBS
    rnd = 0
    n_inputs = 0
    rejected_alone = 0
    conf = None
    det = None
    rd = os.path.join(R.ROOT, "evidence", "replays")
    os.makedirs(rd, exist_ok=True)

    def report(name, inputs, base, head, runs, msg):
        runs, tries = shrink(R, exe, work, inputs, base, head, runs)
        texts = open(inputs).read().split("----\n")
        used = sorted({i for _, ts in runs for t in ts for i in t})
        ren = {i: k for k, i in enumerate(used)}
        plan = plan_text(head, [(s, [[ren[i] for i in t] for t in ts]) for s, ts in runs])
        p = os.path.join(rd, name)
        head = "(expand)"
        if verdicts:
            v = open(inputs + ".verdicts").read().split()
            head = "(expand %s)" % " ".join(v[i] for i in used)
        with open(p, "w") as f:
            f.write("%s\n%s====\n%s====\n%s" % (head, msg.replace("====", "== =="), plan, "----\n".join(texts[i] for i in used)))
        violations.append((p, msg))

    def report_files(name, inputs, base, order, k, msg):
        order, _ = shrink_files(R, exe, work, inputs, base, order, k)
        texts = open(inputs).read().split("----\n")
        used = sorted(set(order))
        p = os.path.join(rd, name)
        with open(p, "w") as f:
            f.write("(expand-files %d)\n%s====\n%s\n====\n%s" % (k, msg.replace("====", "== =="), " ".join(str(used.index(i)) for i in order), "----\n".join(texts[i] for i in used)))
        violations.append((p, msg))

    while True:
        inputs = os.path.join(work, f"inputs{rnd}")
        base = os.path.join(work, f"base{rnd}")
        os.makedirs(base)
        if verdicts:
            tools.gen("verdicts", prop, seed * 1000 + rnd, families, inputs)
            for v in open(inputs + ".verdicts").read().split():
                judged[v] = judged.get(v, 0) + 1
        else:
            tools.gen("inputs", seed * 1000 + rnd, families, inputs)
        texts = open(inputs).read().split("----\n")
        n_inputs += len(texts)
        e, cwd = surroundings(R, work, 0, os.path.join(work, "filesb"))

        def each_alone(base, hash_order):
            rc, out, err = R.call([exe, "base", inputs, base, str(hash_order)], 300, 12, cwd, e)
            if rc != 0:
                raise R.HarnessError("baseline: " + err[-2000:])
            return [open(os.path.join(base, str(i))).read().split("\n", 1) for i in range(len(texts))]

        alone = each_alone(base, 0)
        rejected_alone += sum(a[0] != "OK" for a in alone)
        if verdicts:
            # alone, and alone with another order of hash containers for each
            os.makedirs(base + "o")
            ho = (seed * 1000 + rnd) * 100003 * 2 + 1
            other = each_alone(base + "o", ho)
            for i, v in enumerate(open(inputs + ".verdicts").read().split()):
                for o, h in ((alone[i], 0), (other[i], ho + 2 * i)):
                    if v != "open" and (o[0] == "OK") != (v == "accept") and len(violations) < 3:
                        report(f"{prop}-seed{seed}-r{rnd}-alone{i}.exp", inputs, base, ("0", str(h)), [((1, 0), [[i]])], f"input {i} must be {v}ed, but is not when expanded alone")
                        break
            shutil.rmtree(base + "o")
            sums["expanded_alone_in_another_hash_order"] = sums.get("expanded_alone_in_another_hash_order", 0) + len(texts)
        # processes one after the other with the same directories, in eight orders, in other surroundings:
        # text must be the same
        def sequence(k):
            order = list(range(k % R.JOBS, len(texts), R.JOBS))
            random.Random(seed * 1000 + rnd * 64 + k).shuffle(order)
            # what one process leaves behind must not matter to another one with the same input
            order += order[: len(order) // 2]
            return k, order, run_files(R, exe, work, inputs, base, order, f"{rnd}_{k}", seed + k)

        with ThreadPoolExecutor(R.JOBS) as ex:
            for k, order, (bad, msg) in ex.map(sequence, range(0 if verdicts else R.JOBS)):
                sums["processes_after_others"] = sums.get("processes_after_others", 0) + len(order)
                if bad and len(violations) < 3:
                    report_files(f"{prop}-seed{seed}-r{rnd}-files{k}.exp", inputs, base, order, seed + k, msg)

        slots = list(range(R.JOBS))

        def sim(k):
            pin = slots.pop()
            try:
                return sim_on(k, pin)
            finally:
                slots.append(pin)

        def sim_on(k, pin):
            # half of the processes keep the hash order of the shipped code: text must be equal.
            # The others change it: the items must be equal.
            hash_order = 0 if k % 2 == 0 or k >= procs else (seed * 32 + rnd * 256 + k) | 1
            out = os.path.join(work, f"sim{rnd}_{k}")
            os.makedirs(out, exist_ok=True)
            pseed = seed * 100003 + rnd * 256 + k
            e, cwd = surroundings(R, work, pseed, os.path.join(work, f"filess{k}"))
            rc, o, err = R.call([exe, "sim", inputs, base, str(pseed), str(10**9 if k < procs else 1), str(secs), str(hash_order), out], secs + 120, 8, cwd, e, pin)
            return k, pseed, hash_order, rc, out, err

        with ThreadPoolExecutor(R.JOBS) as ex:
            res = list(ex.map(sim, range(procs + cold)))
        for k, pseed, ho, rc, out, err in res:
            sj = os.path.join(out, "stats.json")
            if os.path.exists(sj):
                st = json.load(open(sj))
                for a, v in st.items():
                    if isinstance(v, (int, float)):
                        sums[a] = sums.get(a, 0) + v
                for a, v in st["history"].items():
                    hist[a] = hist.get(a, 0) + v
                if st["sample"] and len(samples) < 3:
                    samples.append(st["sample"])
            if rc == 0:
                continue
            if rc == 1:
                idx, msg = open(os.path.join(out, "violation.msg")).read().split("\n", 1)
            else:
                idx = open(os.path.join(out, "progress")).read()
                msg = f"expansions do not end or kill the process ({rc}) {err[-300:]}"
                if rc is not None and rc not in (5, 101) and rc > 0:
                    raise R.HarnessError(f"expander: {rc} {err[-2000:]}")
            if len(violations) >= 3:
                continue
            _, plan, _ = R.call([exe, "plan", str(pseed), str(ho), str(int(idx) + 1), str(len(texts))], 60)
            head, runs = parse_plan(plan)
            assert len(runs) == int(idx) + 1
            report(f"{prop}-seed{seed}-r{rnd}p{k}-run{idx}.exp", inputs, base, head, runs, msg)

        # the real compiler: the macro in rustc against the same expansion alone, in two orders
        if not violations and rnd == 0 and not verdicts:
            ok = [i for i, a in enumerate(alone) if a[0] == "OK"][: 60 if thorough else 24]
            inv = lambda order: "".join(f"mod g{i} {{\n parsegen::parser!{{\n{texts[i]}\n}}\n}}\n" for i in order)
            jobs = {
                "alone": ("".join(f"mod g{i} {{\n{alone[i][1]}\n}}\n" for i in ok[::2]), ok[::2]),
                "forward": (inv(ok), ok),
                "backward": (inv(ok[::-1]), ok),
                "some": (inv(ok[::3]), ok[::3]),
            }
            with ThreadPoolExecutor(4) as ex:
                outs = dict(zip(jobs, ex.map(lambda j: rustc_expand(R, tools, work, j[1][0], j[1][1][0], 50 + j[0]), enumerate(jobs.items()))))
            mods = {}
            for name, (rc, out, err) in outs.items():
                if rc is None or (not out and name != "alone"):
                    raise R.HarnessError(f"rustc -Zunpretty=expanded ({name}): {rc} {err[-1500:]}")
                mods[name] = split_modules(out)
            n = 0
            for name in ("backward", "some"):
                for i in jobs[name][1]:
                    n += 1
                    if mods[name].get(f"g{i}") != mods["forward"].get(f"g{i}"):
                        p = os.path.join(rd, f"{prop}-seed{seed}-rustc-{name}-g{i}.exp")
                        with open(p, "w") as f:
                            ks = [50 + list(jobs).index(x) for x in ("forward", name)]
                            f.write("(expand-rustc %d %d)\n%s\n====\n%s====\n%s" % (*ks, i, inv(ok), jobs[name][0]))
                        violations.append((p, f"input {i}: the compiler expands it to different code in the crate `{name}`"))
                        break
            same = sum(mods["alone"].get(f"g{i}") == mods["forward"].get(f"g{i}") for i in ok[::2])
            conf = {"inputs": len(ok), "compared_between_compiler_processes": n, "compared_with_plain_library_build": len(ok[::2]), "same_as_plain_library_build": same}
        # determinism of the simulator itself
        if not violations and det is None:
            def again(i):
                out = os.path.join(work, f"det{i}")
                os.makedirs(out)
                e, cwd = surroundings(R, work, 3, os.path.join(work, f"filesd{i}"))
                rc, o, err = R.call([exe, "sim", inputs, base, str(seed), "60", "100", "0", out], 200, 8, cwd, e)
                if rc != 0:
                    raise R.HarnessError("self-test: " + err[-1000:])
                st = json.load(open(os.path.join(out, "stats.json")))
                return st["digest"], st["switches"], st["hash_ops"]

            with ThreadPoolExecutor(2) as ex:
                digs = list(ex.map(again, range(2)))
            det = digs[0] == digs[1]
            if not det:
                raise R.HarnessError(f"the same seed gave two different executions: {digs}")
        rnd += 1
        if violations or time.time() - t0 + (time.time() - t0) / rnd > budget:
            break

    confirmed = []
    for p, msg in violations[:3]:
        a = replay_result(R, p, work, exe, tools)
        b = replay_result(R, p, work, exe, tools)
        confirmed.append((p, msg, a[0] and b[0], a == b))
    run_s = max(sums.get("seconds", 0), 1e-9)
    evidence["coverage"] = dict(
        evaluations=int(sums.get("runs", 0)),
        distinct_nontrivial=int(sums.get("distinct", 0)),
        rule="one evaluation = one simulated run inside a compiler process: 1-4 threads, each expanding 1-4 grammars in turn, switched by the "
        "scheduler at allocations, hash operations, lock waits and edges of the control flow. Non-trivial: tasks were switched, or an expansion was rejected, or one "
        "followed another on its thread; distinct by inputs per task and interleaving.",
        samples=samples or ["(no sample)"],
        expansions=int(sums.get("expansions", 0)),
        rejected_expansions=int(sums.get("rejected", 0)),
        faults_injected={**hist, "changed hash order (expansions)": "half of the simulated processes", "lock waits": int(sums.get("lock_waits", 0)), "entropy requests answered": int(sums.get("entropy", 0)), "clock reads answered": int(sums.get("clock", 0)), "environment variables answered": int(sums.get("environment", 0))},
        inputs=n_inputs,
        inputs_rejected_alone=rejected_alone,
        processes_after_others_in_the_same_directories=int(sums.get("processes_after_others", 0)),
        distinct_interleavings=int(sums.get("orders", 0)),
        interleaving_measure="distinct sequences of task choices",
        simulated_steps=int(sums.get("hash_ops", 0) + sums.get("allocs", 0) + sums.get("edges", 0)),
        accesses_to_shared_memory=int(sums.get("shared", 0)),
        simulated_time="logical: seam crossings (hash operations, allocations, edges of the control flow)",
        task_switches=int(sums.get("switches", 0)),
        seeds={"VERIF_SEED": seed, "process_seeds": f"{seed} * 100003 + 256 * round + process", "rounds": rnd, "processes": (procs + cold) * rnd},
        runs_per_hour=int(sums.get("runs", 0) / run_s * R.JOBS * 3600),
        seeds_per_hour=int(sums.get("runs", 0) / run_s * R.JOBS * 3600),
        real_compiler=conf,
        determinism_self_test=det,
        real_components="/repo/src compiled as a plain library (cfg parsegen_sim), syn, quote, proc-macro2; rustc with the real macro for the comparison of processes",
        stub_components="hash function of FxHashMap (seeded), addresses, entropy, clock, process id, waiting for locks, thread scheduler; proc_macro2's fallback token streams instead of the compiler's",
    )
    if verdicts:
        c = evidence["coverage"]
        for k in ("real_compiler", "processes_after_others_in_the_same_directories"):
            del c[k]
        c["inputs_by_model_verdict"] = judged
        c["expanded_alone_in_another_hash_order"] = sums["expanded_alone_in_another_hash_order"]
        c["real_components"] = "/repo/src compiled as a plain library (cfg parsegen_sim), syn, quote, proc-macro2"
    evidence["violations"] = len(violations)
    return confirmed


def replay_result(R, path, work, exe, tools):
    head, rest = open(path).read().split("\n", 1)
    if head.startswith("(expand-rustc"):
        ks = re.findall(r"\d+", head)
        i, rest = rest.split("\n====\n", 1)
        a, b = rest.split("====\n", 1)
        m = []
        for k, t in enumerate((a, b)):
            rc, out, err = rustc_expand(R, tools, work, f"replay{k}", t, int(ks[k]))
            m.append(split_modules(out).get(f"g{i}"))
        return m[0] != m[1], "violated: different code" if m[0] != m[1] else "no violation"
    msg, plan, texts = rest.split("====\n", 2)
    inputs = os.path.join(work, "replay-inputs")
    with open(inputs, "w") as f:
        f.write(texts)
    v = head.strip("()").split()[1:] if head.startswith("(expand ") else []
    if v:
        with open(inputs + ".verdicts", "w") as f:
            f.write("\n".join(v) + "\n")
    base = os.path.join(work, "replay-base")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    e, cwd = surroundings(R, work, 0, os.path.join(work, "filesb"))
    R.call([exe, "base", inputs, base, "0"], 300, 12, cwd, e)
    if head.startswith("(expand-files"):
        return run_files(R, exe, work, inputs, base, list(map(int, plan.split())), "replay", int(head.split()[1].rstrip(")")))
    return run_plan(R, exe, work, inputs, base, plan, 5)


def replay(R, path, work):
    tools = R.Tools(work)
    exe = build(R, work)
    ok, out = replay_result(R, path, work, exe, tools)
    print(out)
    return 1 if ok else 0
