//! Runs /repo's expansion as a plain function: alone, and in simulated compiler processes where
//! several expansions run after and next to each other.
mod seam;

use simcore::prng::{mix, Rng};
use simcore::sexp::{a, parse, pretty, S};
use simcore::sx;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[global_allocator]
static ALLOC: seam::Alloc = seam::Alloc;

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Text(String),
    Rejected(String),
}

fn expand(input: &str) -> Out {
    let r = std::panic::catch_unwind(|| {
        let ts: proc_macro2::TokenStream = input.parse().map_err(|e| format!("not lexed: {e}"))?;
        let t = plain::parser(ts).to_string();
        // a diagnosed error: `compile_error` in the output, and nothing else
        if t.contains("compile_error") && t.len() < 600 {
            return Err(t);
        }
        Ok(t)
    });
    match r {
        Ok(Ok(t)) => Out::Text(t),
        Ok(Err(e)) => Out::Rejected(e),
        Err(p) => Out::Rejected(
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
        ),
    }
}

/// What must not depend on the order of hash containers: the generated items as a multiset.
fn canonical(t: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    match syn::parse_str::<syn::File>(t) {
        Ok(f) => {
            use quote::ToTokens;
            let mut v: Vec<String> = f.items.iter().map(|i| i.to_token_stream().to_string()).collect();
            v.sort();
            v.hash(&mut h)
        }
        Err(_) => t.hash(&mut h),
    }
    h.finish()
}

fn items(t: &str) -> Vec<String> {
    use quote::ToTokens;
    match syn::parse_str::<syn::File>(t) {
        Ok(f) => f.items.iter().map(|i| i.to_token_stream().to_string()).collect(),
        Err(_) => vec![t.to_string()],
    }
}

fn load(file: &str) -> Vec<String> {
    std::fs::read_to_string(file).unwrap().split("----\n").map(|s| s.to_string()).collect()
}

#[derive(Clone)]
struct Run {
    seed: u64,
    period: u64,
    tasks: Vec<Vec<usize>>,
}

impl Run {
    fn to_s(&self) -> S {
        let mut v = vec![a("run"), sx!["sched", self.seed, self.period]];
        for t in &self.tasks {
            let mut l = vec![a("task")];
            l.extend(t.iter().map(|i| a(&i.to_string())));
            v.push(S::L(l));
        }
        S::L(v)
    }
    fn from_s(s: &S) -> Run {
        let n = |x: &S| x.atom().parse::<u64>().unwrap();
        let c = s.get("sched").unwrap().list();
        Run {
            seed: n(&c[1]),
            period: n(&c[2]),
            tasks: s.all("task").map(|t| t.list()[1..].iter().map(|x| n(x) as usize).collect()).collect(),
        }
    }
}

fn make_run(seed: u64, i: u64, n: usize) -> Run {
    let mut rng = Rng::new(mix(seed, i));
    let first = i == 0;
    let tasks = if first { 3 } else { *rng.pick(&[1, 1, 2, 2, 3, 4]) };
    // few different inputs per run, so that the same one meets itself, its twins and rejected ones
    let pool: Vec<usize> = (0..rng.range(1, 5))
        .flat_map(|_| {
            let x = rng.below(n);
            // inputs come in families of four
            let f = x - x % 4;
            if rng.chance(1, 2) {
                vec![x]
            } else {
                (f..(f + 4).min(n)).collect()
            }
        })
        .collect();
    let seed = rng.next() >> 1;
    if rng.chance(if first { 3 } else { 1 }, 4) && tasks > 1 {
        // side by side, mostly the same inputs
        let same: Vec<usize> = (0..rng.range(1, 2)).map(|_| *rng.pick(&pool)).collect();
        let tasks = (0..tasks).map(|_| if rng.chance(1, 5) { vec![*rng.pick(&pool)] } else { same.clone() }).collect();
        let period = if rng.chance(2, 5) {
            seam::SHARED
        } else {
            seam::LOCKSTEP + if first { *rng.pick(&[7, 15, 15, 40]) } else { *rng.pick(&[15, 100, 1000, 10_000]) }
        };
        return Run { seed, period, tasks };
    }
    let tasks = (0..tasks).map(|_| (0..rng.range(1, 4)).map(|_| *rng.pick(&pool)).collect()).collect();
    // the first expansions of a process are often switched
    Run { seed, period: *rng.pick(if first { &[8, 20, 60] } else { &[8, 60, 400, 3000, 0] }), tasks }
}

/// Outcome of every expansion of every task, and the digest of the interleaving.
fn execute(r: &Run, inputs: &Arc<Vec<String>>) -> (Vec<Vec<Out>>, u64) {
    seam::start(r.tasks.len(), r.seed, r.period);
    let hs: Vec<_> = r
        .tasks
        .iter()
        .enumerate()
        .map(|(k, t)| {
            let (t, inputs, seed) = (t.clone(), inputs.clone(), mix(r.seed, k as u64 + seam::ADDRESSES.load(Relaxed)));
            // the name of the thread is a matter of the process, too
            let b = match mix(seed, 3) % 4 {
                0 => std::thread::Builder::new(),
                1 => std::thread::Builder::new().name("main".into()),
                2 => std::thread::Builder::new().name("rustc".into()),
                _ => std::thread::Builder::new().name(format!("worker-{k}")),
            };
            b.stack_size(64 << 20)
                .spawn(move || {
                    let mut v = Vec::with_capacity(t.len());
                    seam::enter(k, seed);
                    for i in t {
                        v.push(expand(&inputs[i]))
                    }
                    seam::leave();
                    v
                })
                .unwrap()
        })
        .collect();
    let v = hs.into_iter().map(|h| h.join().unwrap()).collect();
    (v, seam::finish())
}

fn read_out(file: &str) -> Out {
    let t = std::fs::read_to_string(file).unwrap();
    let (h, b) = t.split_once('\n').unwrap();
    if h == "OK" {
        Out::Text(b.to_string())
    } else {
        Out::Rejected(b.to_string())
    }
}

/// One expansion in a process of its own, whose scratch files are in `files`.
fn solo(exe: &std::path::Path, inputs: &str, i: usize, out: &str, files: &str, hash: u64) {
    for d in ["tmp", "cwd", "home", "out"] {
        std::fs::create_dir_all(format!("{files}/{d}")).unwrap();
    }
    let mut c = std::process::Command::new(exe);
    c.args(["solo", inputs, &i.to_string(), out, &hash.to_string()]).current_dir(format!("{files}/cwd"));
    for (v, d) in [("TMPDIR", "tmp"), ("TEMP", "tmp"), ("HOME", "home"), ("OUT_DIR", "out"), ("CARGO_MANIFEST_DIR", "cwd")] {
        c.env(v, format!("{files}/{d}"));
    }
    let st = c.status().unwrap();
    if !st.success() {
        std::fs::write(out, format!("REJECTED\nprocess ended with {st}")).unwrap();
    }
}

struct Judge {
    /// what is being checked: whether inputs are accepted that must be, and only those; or else the code
    verdicts: Option<Vec<Option<bool>>>,
    base: Vec<Out>,
    canon: Vec<u64>,
    known: HashMap<u64, u64>,
    exact: bool,
}

impl Judge {
    fn new(inputs: &str, dir: &str, n: usize, exact: bool) -> Judge {
        let verdicts = std::fs::read_to_string(format!("{inputs}.verdicts")).ok().map(|t| {
            t.lines().map(|l| if l == "open" { None } else { Some(l == "accept") }).collect()
        });
        let base: Vec<Out> = (0..n)
            .map(|i| read_out(&format!("{dir}/{i}")))
            .collect();
        let canon = base
            .iter()
            .map(|o| match o {
                Out::Text(t) if !exact && verdicts.is_none() => canonical(t),
                _ => 0,
            })
            .collect();
        Judge { verdicts, base, canon, known: HashMap::new(), exact }
    }

    fn check(&mut self, i: usize, o: &Out) -> Option<String> {
        if let Some(v) = &self.verdicts {
            return match (v[i], o) {
                (Some(true), Out::Rejected(m)) => Some(format!("input {i} must be accepted, but is rejected: {m}")),
                (Some(false), Out::Text(_)) => Some(format!("input {i} must be rejected, but is accepted")),
                _ => None,
            };
        }
        match (&self.base[i], o) {
            (Out::Rejected(_), Out::Rejected(_)) => None,
            (Out::Rejected(m), Out::Text(_)) => Some(format!("input {i} is rejected when expanded alone ({m}), but accepted here")),
            (Out::Text(_), Out::Rejected(m)) => Some(format!("input {i} is accepted when expanded alone, but rejected here: {m}")),
            (Out::Text(b), Out::Text(t)) => {
                if b == t {
                    return None;
                }
                if self.exact {
                    let k = b.bytes().zip(t.bytes()).take_while(|(x, y)| x == y).count();
                    let from = (0..=k.saturating_sub(30)).rev().find(|x| b.is_char_boundary(*x) && t.is_char_boundary(*x)).unwrap_or(0);
                    let cut = |s: &str| s[from..].chars().take(80).collect::<String>();
                    return Some(format!("input {i} expands to other code than alone: at byte {k}: `{}` instead of `{}`", cut(t), cut(b)));
                }
                let mut h = std::collections::hash_map::DefaultHasher::new();
                t.hash(&mut h);
                let c = *self.known.entry(h.finish()).or_insert_with(|| canonical(t));
                if c == self.canon[i] {
                    return None;
                }
                let have: HashSet<String> = items(b).into_iter().collect();
                let odd = items(t).into_iter().find(|x| !have.contains(x)).unwrap_or("(items missing)".into());
                Some(format!("input {i}: generated items depend on the order of hash containers, e.g. `{}`", odd.chars().take(160).collect::<String>()))
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !seam::active() {
            old(i)
        }
    }));
    simcore::shared::set_point(seam::shared_point);
    let _ = fxhash::YIELD.set(seam::hash_point);
    match args[1].as_str() {
        // solo FILE INDEX OUT HASHSEED: the expansion alone in a process
        "solo" => {
            setup(0, num(5));
            let inputs = Arc::new(load(&args[2]));
            let (v, _) = execute(&Run { seed: 1, period: 0, tasks: vec![vec![num(3) as usize]] }, &inputs);
            let t = match &v[0][0] {
                Out::Text(t) => format!("OK\n{t}"),
                Out::Rejected(m) => format!("REJECTED\n{m}"),
            };
            std::fs::write(&args[4], t).unwrap();
        }
        // files FILE BASEDIR OUTDIR INDEX...: each in a process of its own, one after the other, all with
        // the same directories for scratch files
        "files" => {
            let n = load(&args[2]).len();
            let exe = std::env::current_exe().unwrap();
            let mut j = Judge::new(&args[2], &args[3], n, true);
            for (k, i) in args[5..].iter().map(|x| x.parse::<usize>().unwrap()).enumerate() {
                let out = format!("{}/expansion", args[4]);
                solo(&exe, &args[2], i, &out, &format!("{}/files", args[4]), 0);
                if let Some(m) = j.check(i, &read_out(&out)) {
                    println!("violated: process {k}: {m}");
                    std::process::exit(1)
                }
            }
            println!("no violation");
        }
        // base FILE OUTDIR HASHSEED: all of them, each in a process of its own and with its own scratch files,
        // and its own order of hash containers unless HASHSEED is 0
        "base" => {
            let hash = num(4);
            let n = load(&args[2]).len();
            let exe = std::env::current_exe().unwrap();
            let next = Mutex::new(0);
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| loop {
                        let i = {
                            let mut g = next.lock().unwrap();
                            *g += 1;
                            *g - 1
                        };
                        if i >= n {
                            break;
                        }
                        solo(&exe, &args[2], i, &format!("{}/{i}", args[3]), &format!("{}/files{i}", args[3]), if hash == 0 { 0 } else { hash + 2 * i as u64 })
                    });
                }
            });
        }
        // sim FILE BASEDIR SEED MAXRUNS SECONDS HASHSEED OUTDIR
        "sim" => sim(&args[2], &args[3], num(4), num(5), num(6), num(7), &args[8]),
        // plan SEED HASHSEED UPTO N: the runs of a simulated process, as a plan
        "plan" => println!("{}", pretty(&plan(num(2), num(3), num(4), num(5) as usize))),
        // exec FILE BASEDIR PLAN
        "exec" => {
            let inputs = Arc::new(load(&args[2]));
            let p = parse(&std::fs::read_to_string(&args[4]).unwrap());
            let g = |k: &str| p.get1(k).unwrap().atom().parse::<u64>().unwrap();
            setup(g("process"), g("hash-order"));
            let mut j = Judge::new(&args[2], &args[3], inputs.len(), g("hash-order") == 0);
            for (k, r) in p.all("run").map(Run::from_s).enumerate() {
                let (v, _) = execute(&r, &inputs);
                for (t, (os, is)) in v.iter().zip(&r.tasks).enumerate() {
                    for (x, (o, i)) in os.iter().zip(is).enumerate() {
                        if let Some(m) = j.check(*i, o) {
                            println!("violated: run {k}, task {t}, expansion {x}: {m}");
                            std::process::exit(1)
                        }
                    }
                }
            }
            println!("no violation");
        }
        x => panic!("mode {x}"),
    }
}

fn setup(process: u64, hash: u64) {
    seam::ENTROPY.store(mix(process, 1), Relaxed);
    seam::ADDRESSES.store(mix(process, 2) | 1, Relaxed);
    fxhash::ORDER_SEED.store(hash, Relaxed);
}

fn plan(seed: u64, hash: u64, upto: u64, n: usize) -> S {
    let mut v = vec![a("plan"), sx!["process", seed], sx!["hash-order", hash]];
    for i in 0..upto {
        v.push(make_run(seed, i, n).to_s())
    }
    S::L(v)
}

fn sim(file: &str, base: &str, seed: u64, max: u64, secs: u64, hash: u64, out: &str) {
    let inputs = Arc::new(load(file));
    setup(seed, hash);
    let mut j = Judge::new(file, base, inputs.len(), hash == 0);
    let start = Instant::now();
    let (mut i, mut expansions, mut rejected, mut digest, mut switched) = (0, 0u64, 0u64, 0u64, 0u64);
    let mut distinct = HashSet::new();
    let mut orders = HashSet::new();
    let mut after: BTreeMap<&str, u64> = BTreeMap::new();
    let mut fail = None;
    let mut sample = None;
    while i < max && start.elapsed().as_secs() < secs && fail.is_none() {
        std::fs::write(format!("{out}/progress"), i.to_string()).unwrap();
        let r = make_run(seed, i, inputs.len());
        let sw = seam::N_SWITCH.load(Relaxed);
        let (v, order) = execute(&r, &inputs);
        let sw = seam::N_SWITCH.load(Relaxed) - sw;
        let mut d = order;
        let mut rej = false;
        for (t, (os, is)) in v.iter().zip(&r.tasks).enumerate() {
            let mut prev: Option<(&Out, usize)> = None;
            for (o, n) in os.iter().zip(is) {
                expansions += 1;
                d = mix(d, (t * 100_000 + n) as u64);
                if let Some((p, m)) = prev {
                    let k = match p {
                        Out::Rejected(_) => "after a rejected expansion on its thread",
                        _ if m == *n => "after the same grammar on its thread",
                        _ => "after another grammar on its thread",
                    };
                    *after.entry(k).or_default() += 1;
                }
                prev = Some((o, *n));
                if let Out::Rejected(_) = o {
                    rejected += 1;
                    rej = true;
                }
                if let Some(m) = j.check(*n, o) {
                    fail.get_or_insert(m);
                }
            }
        }
        if sw > 0 {
            switched += 1;
            orders.insert(mix(order, r.tasks.len() as u64));
            *after.entry("tasks interleaved in the run").or_default() += 1;
        }
        if sw > 0 || rej || r.tasks.iter().any(|t| t.len() > 1) {
            distinct.insert(d);
        }
        if sample.is_none() && sw > 0 && rej {
            sample = Some(pretty(&r.to_s()));
        }
        digest = mix(digest, d);
        i += 1;
    }
    if let Some(m) = &fail {
        std::fs::write(format!("{out}/violation.msg"), format!("{}\n{m}", i - 1)).unwrap();
    }
    let f: Vec<String> = after.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    let text = format!(
        "{{\"runs\": {i}, \"expansions\": {expansions}, \"rejected\": {rejected}, \"distinct\": {}, \"orders\": {}, \"switched\": {switched}, \"hash_ops\": {}, \"allocs\": {}, \"edges\": {}, \"shared\": {}, \"switches\": {}, \"lock_waits\": {}, \"entropy\": {}, \"clock\": {}, \"environment\": {}, \"seconds\": {:.2}, \"digest\": \"{digest:016x}\", \"history\": {{{}}}, \"sample\": {:?}}}\n",
        distinct.len(),
        orders.len(),
        seam::N_HASH.load(Relaxed),
        seam::N_ALLOC.load(Relaxed),
        seam::N_EDGE.load(Relaxed),
        seam::N_SHARED.load(Relaxed),
        seam::N_SWITCH.load(Relaxed),
        seam::N_WAIT.load(Relaxed),
        seam::N_ENTROPY.load(Relaxed),
        seam::N_CLOCK.load(Relaxed),
        seam::N_ENV.load(Relaxed),
        start.elapsed().as_secs_f64(),
        f.join(", "),
        sample.unwrap_or_default(),
    );
    std::fs::write(format!("{out}/stats.json"), text).unwrap();
    std::process::exit(fail.is_some() as i32)
}
