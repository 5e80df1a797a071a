//! Main program of a shard: a process that holds a batch of compiled parsers and runs them.
use crate::exec;
use crate::model::Model;
use crate::oracle::{evaluate, fnv, Eval};
use crate::plan::*;
use crate::plangen::{self, Info};
use crate::rt::{GEntry, STEPS};
use crate::sexp::{a, parse, pretty, S};
use crate::shrink::Shrink;
use crate::spec::Spec;
use crate::sx;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}

pub fn replay_text(prop: &str, class: &str, msg: &str, seed: u64, index: u64, ms: &[Model], r: &Run, injected: &[(String, usize)]) -> String {
    let gs = r.grammars();
    let mut r = r.clone();
    let map = |g: usize| gs.iter().position(|x| *x == g).unwrap();
    for t in r.tasks.iter_mut().chain(r.history.iter_mut()) {
        t.map_g(&map)
    }
    let mut inj = vec![a("injected")];
    inj.extend(injected.iter().map(|(k, p)| sx![k, *p]));
    let mut v = vec![
        a("replay"),
        sx!["property", prop],
        sx!["class", class],
        sx!["violation", msg],
        sx!["seed", seed],
        sx!["run-index", index],
        S::L(inj),
        r.to_s(),
    ];
    for g in gs {
        v.push(ms[g].spec.to_s())
    }
    pretty(&S::L(v))
}

fn injected(r: &Run) -> Vec<(String, usize)> {
    fn go(t: &Task, o: &mut Vec<(String, usize)>) {
        for (k, p) in &t.faults {
            o.push((k.clone(), *p))
        }
        for n in &t.nested {
            go(&n.1, o)
        }
    }
    let mut o = vec![];
    for t in r.tasks.iter().chain(&r.history) {
        go(t, &mut o)
    }
    o
}

/// Replays carry what is delivered; the log of how it came about is in the header.
fn strip_log(r: &mut Run) {
    fn go(t: &mut Task) {
        t.faults.clear();
        for n in t.nested.iter_mut() {
            go(&mut n.1)
        }
    }
    for t in r.tasks.iter_mut().chain(r.history.iter_mut()) {
        go(t)
    }
}

#[derive(Default)]
struct Stats {
    runs: u64,
    skipped: u64,
    nontrivial: HashSet<u64>,
    orders: HashSet<u64>,
    cells: HashSet<u64>,
    sum: [u64; 8],
    faults: BTreeMap<String, u64>,
    grammars: HashSet<usize>,
    digest: u64,
    cpu: f64,
}

fn models(reg: &'static [GEntry]) -> Vec<Model> {
    reg.iter().map(|g| Model::new(Spec::from_text(g.spec))).collect()
}

pub fn main(reg: &'static [GEntry]) {
    crate::shared::set_point(crate::preempt::shared);
    let _ = exec::REG.set(reg);
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let ms = models(reg);
    exec::install_hook();
    exec::watchdog(8.0);
    match arg(1) {
        // run PROP SEED MAXRUNS SECONDS OUTDIR THOROUGH
        "run" => {
            let (prop, seed, max, secs, out, thorough) = (arg(2), num(3), num(4), arg(5).parse::<f64>().unwrap(), arg(6), num(7) == 1);
            let infs: Vec<Info> = ms.iter().map(plangen::info).collect();
            let code = run(prop, seed, max, secs, out, thorough, &ms, &infs);
            std::process::exit(code)
        }
        // show PROP SEED INDEX OUTFILE THOROUGH: the run of that index, as a replay file
        "show" => {
            let infs: Vec<Info> = ms.iter().map(plangen::info).collect();
            let r = plangen::run(arg(2), &ms, &infs, num(3), num(4), num(6) == 1);
            let text = replay_text(arg(2), "died", "the process running the parsers died", num(3), num(4), &ms, &r, &injected(&r));
            std::fs::write(arg(5), text).unwrap();
        }
        // dead PROP SEED INDEX OUTFILE THOROUGH: minimises a run that kills the process
        "dead" => {
            let infs: Vec<Info> = ms.iter().map(plangen::info).collect();
            let mut r = plangen::run(arg(2), &ms, &infs, num(3), num(4), num(6) == 1);
            let inj = injected(&r);
            let tmp = format!("{}.try", arg(5));
            let exe = std::env::current_exe().unwrap();
            let mut fails = |r: &Run| {
                std::fs::write(&tmp, pretty(&r.to_s())).unwrap();
                let st = std::process::Command::new(&exe).args(["try", arg(2), &tmp]).stderr(std::process::Stdio::null()).status().unwrap();
                st.code().is_none() || st.code() == Some(4) || st.code() == Some(134)
            };
            let died = fails(&r);
            if died {
                Shrink { fails: &mut fails, left: 400, until: Instant::now() + Duration::from_secs(60) }.run(&mut r);
            }
            strip_log(&mut r);
            let text = replay_text(arg(2), "died", "the process running the parsers died or hung", num(3), num(4), &ms, &r, &inj);
            std::fs::write(arg(5), text).unwrap();
            let _ = std::fs::remove_file(&tmp);
            std::process::exit(if died { 1 } else { 0 })
        }
        "try" => {
            let r = Run::from_s(&parse(&std::fs::read_to_string(arg(3)).unwrap()));
            let e = evaluate(arg(2), &ms, &r);
            std::process::exit(e.violation.is_some() as i32)
        }
        // alone FILE: does the run what the model says?
        "alone" => {
            let r = Run::from_s(&parse(&std::fs::read_to_string(arg(2)).unwrap()));
            std::process::exit(!crate::oracle::as_predicted(&ms, &r) as i32)
        }
        // replay FILE: this binary holds exactly the replay's grammars
        "replay" => {
            let s = parse(&std::fs::read_to_string(arg(2)).unwrap());
            let prop = s.get1("property").unwrap().atom().to_string();
            let r = Run::from_s(s.get("run").unwrap());
            let e = evaluate(&prop, &ms, &r);
            println!("digest {:016x} order {:016x}", e.digest, e.order_digest);
            match e.violation {
                Some(v) => {
                    println!("violated: [{}] {}", v.class, v.msg);
                    std::process::exit(1)
                }
                None => println!("no violation"),
            }
        }
        // trace FILE: prints what every parse of the run does
        "trace" => {
            let s = parse(&std::fs::read_to_string(arg(2)).unwrap());
            let mut r = Run::from_s(s.get("run").unwrap());
            let n = r.number();
            let p = crate::model::predict_run(&ms, &r, n, &mut |_, _, _, _| {});
            let res = exec::run(&r, n, vec![1_000_000; n as usize]);
            for i in 0..n as usize {
                println!("== {}", crate::oracle::label(&r, i));
                if let Some(p) = &p[i] {
                    println!("  model ({:?}):", p.end);
                    p.events.iter().for_each(|e| println!("    {}", crate::oracle::show(e)));
                }
                if let Some(t) = &res.tasks[i] {
                    println!("  real ({:?}) live {:?} held {:?}:", t.end, t.live, t.held);
                    t.events.iter().for_each(|e| println!("    {}", crate::oracle::show(e)));
                }
            }
        }
        x => {
            eprintln!("unknown mode {x}");
            std::process::exit(3)
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn run(prop: &str, seed: u64, max: u64, secs: f64, out: &str, thorough: bool, ms: &[Model], infs: &[Info]) -> i32 {
    let start = Instant::now();
    let mut st = Stats::default();
    let mut samples: Vec<String> = vec![];
    let progress = std::fs::File::create(format!("{out}/progress")).unwrap();
    let mut i = 0;
    let mut code = 0;
    while i < max && start.elapsed().as_secs_f64() < secs {
        let r = plangen::run(prop, ms, infs, seed, i, thorough);
        {
            use std::os::unix::fs::FileExt;
            progress.write_all_at(&i.to_le_bytes(), 0).unwrap();
        }
        let e = evaluate(prop, ms, &r);
        i += 1;
        if e.skipped {
            st.skipped += 1;
            continue;
        }
        count(&mut st, &r, &e);
        st.cpu = st.cpu.max(e.cpu);
        if samples.len() < 3 && e.acts > 2 && !injected(&r).is_empty() {
            samples.push(replay_text(prop, "-", "sample", seed, i - 1, ms, &r, &injected(&r)));
        }
        if let Some(v) = e.violation {
            let mut m = r.clone();
            if m.threads {
                m.order = Order::List(e.log.clone());
            }
            let mut fails = |c: &Run| evaluate(prop, ms, c).violation.is_some_and(|x| x.class == v.class);
            let (mut msg, mut stable) = (v.msg.clone(), false);
            if !m.cold && fails(&m) {
                Shrink { fails: &mut fails, left: 6000, until: Instant::now() + Duration::from_secs(15) }.run(&mut m);
                if let Some(x) = evaluate(prop, ms, &m).violation {
                    msg = x.msg;
                    stable = true;
                }
            }
            if m.cold {
                // each attempt needs a process in which nothing has run yet
                let tmp = format!("{out}/cold.try");
                let exe = std::env::current_exe().unwrap();
                let mut fails = |r: &Run| {
                    std::fs::write(&tmp, pretty(&r.to_s())).unwrap();
                    let st = std::process::Command::new(&exe).args(["try", prop, &tmp]).stderr(std::process::Stdio::null()).status().unwrap();
                    st.code() == Some(1)
                };
                if fails(&m) {
                    Shrink { fails: &mut fails, left: 300, until: Instant::now() + Duration::from_secs(30) }.run(&mut m);
                    stable = true;
                }
            }
            if stable {
                strip_log(&mut m);
            }
            std::fs::write(format!("{out}/violation.sx"), replay_text(prop, v.class, &msg, seed, i - 1, ms, &m, &injected(&r))).unwrap();
            std::fs::write(format!("{out}/violation.msg"), format!("{}\n[{}] {msg}", i - 1, v.class)).unwrap();
            code = 1;
            break;
        }
    }
    let f: Vec<String> = st.faults.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let names = ["pulls", "acts", "ok", "perr", "lex", "crashed", "parses", "switches"];
    let sums: Vec<String> = names.iter().zip(st.sum).map(|(n, v)| format!("\"{n}\": {v}")).collect();
    let sm: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
    let total_cells: usize = ms
        .iter()
        .map(|m| m.tables.values().map(|t| t.act.len() * (m.g.n_t + 1)).sum::<usize>())
        .sum();
    let text = format!(
        "{{\"runs\": {}, \"next\": {i}, \"skipped\": {}, \"distinct\": {}, \"orders\": {}, \"cells\": {}, \"cells_total\": {total_cells}, \"steps\": {}, \"grammars\": {}, \"seconds\": {:.3}, \"digest\": \"{:016x}\", \"max_cpu\": {:.3}, \"preemptions\": {}, \"shared\": {}, \"lock_waits\": {}, \"simulated_seconds\": {:.3}, \"clock_reads\": {}, \"entropy\": {}, \"sleeps\": {}, {}, \"faults\": {{{}}}, \"samples\": [{}]}}\n",
        st.runs,
        st.skipped,
        st.nontrivial.len(),
        st.orders.len(),
        st.cells.len(),
        STEPS.load(Ordering::Relaxed),
        st.grammars.len(),
        start.elapsed().as_secs_f64(),
        st.digest,
        st.cpu,
        crate::preempt::OFFERS.load(Ordering::Relaxed),
        crate::preempt::SHARED_ACCESSES.load(Ordering::Relaxed),
        crate::preempt::WAITS.load(Ordering::Relaxed),
        crate::world::COVERED.load(Ordering::Relaxed) as f64 * 1e-9,
        crate::world::CLOCK.load(Ordering::Relaxed),
        crate::world::ENTROPY.load(Ordering::Relaxed),
        crate::world::SLEEPS.load(Ordering::Relaxed),
        sums.join(", "),
        f.join(", "),
        sm.join(", "),
    );
    std::fs::write(format!("{out}/stats.json"), text).unwrap();
    code
}

fn count(st: &mut Stats, r: &Run, e: &Eval) {
    st.runs += 1;
    let inj = injected(r);
    for (k, _) in &inj {
        let k = k.split(' ').next().unwrap();
        *st.faults.entry(k.to_string()).or_default() += 1;
    }
    if r.world != 0 {
        *st.faults.entry("other-clock-entropy-memory".to_string()).or_default() += 1;
    }
    let mut d = e.digest;
    for g in r.grammars() {
        fnv(&mut d, g as u64);
        st.grammars.insert(g);
    }
    for t in r.tasks.iter().chain(&r.history) {
        fnv(&mut d, t.entry as u64)
    }
    let mut o = e.order_digest;
    if e.switches > 0 {
        fnv(&mut o, d);
        st.orders.insert(o);
        d ^= o;
    }
    fnv(&mut st.digest, d);
    if !inj.is_empty() || e.switches > 0 || e.acts >= 3 {
        st.nontrivial.insert(d);
    }
    for c in &e.cells {
        st.cells.insert(*c);
    }
    for (s, v) in st.sum.iter_mut().zip([e.pulls, e.acts, e.ok, e.perr, e.lex, e.crashed, e.parses, e.switches]) {
        *s += v
    }
}
