//! Executes a run and judges it for one property.
use crate::exec::{self, TaskResult};
use crate::lr::Verdict;
use crate::model::{predict_run, Model, Trace};
use crate::plan::{Item, Order, Run, Task};
use crate::mem;
use crate::rt::{self, End, Ev, Outcome};
use std::sync::atomic::Ordering;

#[derive(Clone, Debug)]
pub struct Violation {
    /// kind of failure: kept the same while minimising
    pub class: &'static str,
    pub msg: String,
    pub task: usize,
}

#[derive(Default)]
pub struct Eval {
    pub violation: Option<Violation>,
    /// hash over all events: what the run did
    pub digest: u64,
    /// hash over the interleaving
    pub order_digest: u64,
    pub log: Vec<u8>,
    pub switches: u64,
    pub pulls: u64,
    pub acts: u64,
    pub ok: u64,
    pub perr: u64,
    pub lex: u64,
    pub crashed: u64,
    pub parses: u64,
    pub skipped: bool,
    /// distinct table cells are reported through this callback's effect; number seen in this run
    pub cells: Vec<u64>,
    /// CPU seconds of the first task
    pub cpu: f64,
}

/// CPU seconds from which on a parse is suspected of superlinear work.
const SLOW: f64 = 2.5;

pub fn fnv(h: &mut u64, x: u64) {
    for b in x.to_le_bytes() {
        *h = (*h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
}

fn dig(h: &mut u64, r: &TaskResult) {
    use std::hash::{Hash, Hasher};
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3)
            }
        }
    }
    let mut f = F(*h);
    for e in &r.events {
        match e {
            Ev::Pull(n) => (1u8, *n).hash(&mut f),
            Ev::Act(p, v) => (2u8, *p, v).hash(&mut f),
            Ev::EClone => 3u8.hash(&mut f),
            Ev::Crash => 4u8.hash(&mut f),
            Ev::Ret(Outcome::Ok(v)) => (5u8, v).hash(&mut f),
            Ev::Ret(Outcome::Lex(c)) => (6u8, *c).hash(&mut f),
            Ev::Ret(Outcome::Perr { found, expected }) => (7u8, found, expected).hash(&mut f),
        }
    }
    *h = f.finish();
}

/// One `parse` call within a session.
struct Doc<'a> {
    ev: Vec<&'a Ev>,
    ret: Option<&'a Outcome>,
    crash: bool,
}

fn docs(ev: &[Ev]) -> Vec<Doc<'_>> {
    let mut v = vec![];
    let mut d = Doc { ev: vec![], ret: None, crash: false };
    for e in ev {
        match e {
            Ev::EClone => {}
            Ev::Ret(o) => {
                d.ret = Some(o);
                v.push(std::mem::replace(&mut d, Doc { ev: vec![], ret: None, crash: false }));
            }
            Ev::Crash => d.crash = true,
            e => d.ev.push(e),
        }
    }
    if d.crash || !d.ev.is_empty() {
        v.push(d)
    }
    v
}

fn pulls(d: &Doc) -> usize {
    d.ev.iter().filter(|e| matches!(e, Ev::Pull(_))).count()
}
fn acts<'a>(d: &Doc<'a>) -> Vec<&'a Ev> {
    d.ev.iter().copied().filter(|e| matches!(e, Ev::Act(..))).collect()
}
fn acts_after_last_pull(d: &Doc) -> usize {
    d.ev.iter().rev().take_while(|e| matches!(e, Ev::Act(..))).count()
}
fn class(d: &Doc) -> &'static str {
    match d.ret {
        Some(Outcome::Ok(_)) => "success",
        Some(Outcome::Lex(_)) => "a source error",
        Some(Outcome::Perr { .. }) => "a parse error",
        None if d.crash => "the injected panic",
        None => "nothing",
    }
}

pub fn show(e: &Ev) -> String {
    match e {
        Ev::Pull(n) => format!("request {n}"),
        Ev::Act(p, v) => format!("action of production {p} on {v:?}"),
        Ev::EClone => "clone of the source error".into(),
        Ev::Crash => "injected panic".into(),
        Ev::Ret(o) => format!("returns {o:?}"),
    }
}

fn first_diff(a: &[&Ev], b: &[&Ev]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let f = |v: &[&Ev]| v.get(n).map_or("nothing more".to_string(), |e| show(e));
    format!("event {n}: expected {}, got {}", f(a), f(b))
}

fn is_prefix(a: &[&Ev], b: &[&Ev]) -> bool {
    a.len() <= b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}

/// Terminals that can follow the first `n` delivered tokens of a document, as the error text has it.
fn viable_after(m: &Model, entry: usize, toks: &[usize]) -> Option<String> {
    let tab = &m.tables[&entry];
    let mut v = vec![];
    let mut w = toks.to_vec();
    match tab.run(&m.g, toks, |_, _| {}, |_| {}) {
        Verdict::Error(p, _) if p < toks.len() => return None,
        _ => {}
    }
    for t in 0..m.g.n_t {
        w.push(t);
        match tab.run(&m.g, &w, |_, _| {}, |_| {}) {
            Verdict::Error(p, _) if p + 1 == w.len() => {}
            _ => v.push(m.spec.terms[t].name.as_str()),
        }
        w.pop();
    }
    Some(v.join(", "))
}

fn judge(prop: &str, m: &Model, t: &Task, p: &Trace, r: &TaskResult) -> Option<(&'static str, String)> {
    let pd = docs(&p.events);
    let rd = docs(&r.events);
    // crash_eclone: whether and how often the error is cloned is the parser's business
    let crash_ok = t.crash_eclone && (r.end == End::Crashed) != (p.end == End::Crashed);
    if let End::OwnPanic(msg) = &r.end {
        if matches!(prop, "C01" | "C09" | "C11" | "C12") {
            return Some(("own-panic", format!("the parser panicked: {msg}")));
        }
    }
    if r.end == End::Budget && matches!(prop, "C09" | "C12") {
        return Some(("no-progress", format!("{} callbacks where {} are due", r.events.len(), p.n_cb)));
    }
    if r.end == End::Memory {
        return Some(("memory", format!("more than {} bytes and {} per callback were allocated after {} callbacks", rt::MEM_BASE, rt::MEM_PER_CB, r.events.len())));
    }
    match prop {
        "C01" => {
            for (i, (a, b)) in pd.iter().zip(&rd).enumerate() {
                if a.ret.is_none() {
                    break;
                }
                let (x, y) = (class(a) == "success", class(b) == "success");
                if x != y {
                    let c = if x { "rejects-sentence" } else { "accepts-nonsentence" };
                    return Some((c, format!("document {i}: the delivered tokens call for {}, got {}: {:?}", class(a), class(b), b.ret)));
                }
                if a.ret.is_some() != b.ret.is_some() || pulls(a) != pulls(b) {
                    break;
                }
            }
            if rd.len() < pd.len() && rd.iter().all(|d| d.ret.is_some()) && p.end == End::Done && r.end == End::Done {
                return Some(("missing", "fewer results than documents".into()));
            }
        }
        "C02" => {
            for (i, (a, b)) in pd.iter().zip(&rd).enumerate() {
                let (aa, ba) = (acts(a), acts(b));
                if class(a) == class(b) || crash_ok {
                    if aa != ba {
                        return Some(("actions", format!("document {i}, actions only: {}", first_diff(&aa, &ba))));
                    }
                    if let (Some(Outcome::Ok(x)), Some(Outcome::Ok(y))) = (a.ret, b.ret) {
                        if x != y {
                            return Some(("result", format!("document {i}: expected the value {x:?}, got {y:?}")));
                        }
                    }
                } else if !is_prefix(&aa, &ba) && !is_prefix(&ba, &aa) {
                    return Some(("actions", format!("document {i}, actions only: {}", first_diff(&aa, &ba))));
                }
                if class(a) != class(b) || pulls(a) != pulls(b) {
                    break;
                }
            }
        }
        "C03" => {
            for (i, (a, b)) in pd.iter().zip(&rd).enumerate() {
                let (x, y) = (class(a) == "a parse error", class(b) == "a parse error");
                if x && !y && b.crash {
                    break;
                }
                if x && !y && b.ret.is_some() {
                    return Some(("not-reported", format!("document {i}: expected {:?}, got {:?}", a.ret, b.ret)));
                }
                if y && !x && !a.crash {
                    return Some(("premature", format!("document {i}: {:?} after {} requests, but the prefix can still be completed", b.ret, pulls(b))));
                }
                if x && y {
                    if pulls(a) != pulls(b) {
                        return Some(("position", format!("document {i}: the offending item is request {}, reported at request {}: {:?}", pulls(a), pulls(b), b.ret)));
                    }
                    let n = acts_after_last_pull(b);
                    if n > 0 {
                        return Some(("late-actions", format!("document {i}: {n} action(s) after the offending item was read")));
                    }
                    if let (Some(Outcome::Perr { found: f, .. }), Some(Outcome::Perr { found: g, .. })) = (a.ret, b.ret) {
                        if f != g {
                            return Some(("found", format!("document {i}: offending item is {f:?}, reported as {g:?}")));
                        }
                    }
                }
                if class(a) != class(b) || pulls(a) != pulls(b) {
                    break;
                }
            }
        }
        "C04" => {
            let items = t.items();
            let mut start = 0;
            for (i, (a, b)) in pd.iter().zip(&rd).enumerate() {
                if let Some(Outcome::Perr { expected: y, .. }) = b.ret {
                    let same = pulls(a) == pulls(b);
                    let want = match a.ret {
                        Some(Outcome::Perr { expected, .. }) if same => Some(expected.clone()),
                        _ if pulls(b) > 0 => {
                            let n = pulls(b) - 1;
                            let toks: Vec<usize> = items[start.min(items.len())..]
                                .iter()
                                .take(n)
                                .filter_map(|x| if let Item::Tok(v) = x { Some(m.spec.classify(v, 0).0) } else { None })
                                .collect();
                            if toks.len() == n && n < 3000 {
                                viable_after(m, t.entry, &toks)
                            } else {
                                None
                            }
                        }
                        _ => None,
                    };
                    if let Some(w) = want {
                        if w != *y {
                            return Some(("expected", format!("document {i}: tokens that could follow: [{w}], reported: [{y}]")));
                        }
                    }
                }
                if class(a) != class(b) || pulls(a) != pulls(b) {
                    break;
                }
                start += pulls(a);
            }
        }
        "C05" => {
            let items = t.items();
            let mut start = 0;
            for (i, (a, b)) in pd.iter().zip(&rd).enumerate() {
                let read_err = items.iter().skip(start).take(pulls(b)).any(|x| matches!(x, Item::Err(_)));
                match (a.ret, b.ret) {
                    (Some(Outcome::Lex(c)), got) if read_err && !b.crash => {
                        if got != a.ret {
                            return Some(("lost", format!("document {i}: source error {c} was read, got {got:?}")));
                        }
                        if acts_after_last_pull(b) > 0 {
                            return Some(("late-actions", format!("document {i}: actions after the source error was read")));
                        }
                        if pulls(a) != pulls(b) {
                            return Some(("late-requests", format!("document {i}: {} requests, the source error came at {}", pulls(b), pulls(a))));
                        }
                    }
                    (Some(x), Some(Outcome::Lex(c))) if !matches!(x, Outcome::Lex(_)) => {
                        return Some(("invented", format!("document {i}: expected {x:?}, got source error {c}")));
                    }
                    _ => {}
                }
                if class(a) != class(b) || pulls(a) != pulls(b) {
                    break;
                }
                start += pulls(a);
            }
        }
        "C06" => {
            let items = t.items();
            let mut start = 0;
            let shape = |d: &Doc| -> Vec<u8> { d.ev.iter().map(|e| matches!(e, Ev::Act(..)) as u8).collect() };
            for (i, (a, b)) in pd.iter().zip(&rd).enumerate() {
                // an outcome rests on what was actually read last
                let np = pulls(b);
                let last = if np == 0 { Some("nothing") } else { None }.unwrap_or_else(|| match items.get(start + np - 1) {
                    None | Some(Item::End) => "the end",
                    Some(Item::Err(_)) => "an error",
                    Some(Item::Tok(_)) => "a token",
                });
                let due = match b.ret {
                    Some(Outcome::Ok(_)) => "the end",
                    Some(Outcome::Perr { found, .. }) if found == crate::model::EOF => "the end",
                    Some(Outcome::Perr { .. }) => "a token",
                    Some(Outcome::Lex(_)) => "an error",
                    None => last,
                };
                if due != last {
                    return Some(("ungrounded", format!("document {i}: {:?} rests on {due}, but {last} was read last ({np} requests)", b.ret)));
                }
                if class(a) == class(b) {
                    let (x, y) = (shape(a), shape(b));
                    if x != y {
                        let n = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
                        let f = |v: &[u8]| match v.get(n) {
                            None => "to be finished",
                            Some(0) => "a request",
                            _ => "an action",
                        };
                        return Some(("discipline", format!("document {i}, event {n}: expected {}, got {} ({} requests due, {} made)", f(&x), f(&y), pulls(a), pulls(b))));
                    }
                } else {
                    // only what holds whatever the verdict: nothing is requested after end or error
                    for (k, it) in (start..start + pulls(b)).map(|k| (k, items.get(k))) {
                        let last = k + 1 == start + pulls(b);
                        if !last && matches!(it, None | Some(Item::End) | Some(Item::Err(_))) {
                            return Some(("past-end", format!("document {i}: item {k} ended the stream, but more was requested")));
                        }
                    }
                    break;
                }
                start += pulls(a);
            }
        }
        "C07" => {
            if let Some(b) = &r.bad {
                return Some(("double", b.clone()));
            }
            if t.crash_drop.is_some() {
                // when a destructor panics, compiled Rust itself forgets siblings (rust-lang/rust#47949)
                return None;
            }
            for (i, (live, acc)) in r.live.iter().enumerate() {
                if live != acc {
                    return Some(("held", format!("document {i}: at return {live} instances are alive, the outcome holds {acc}; alive at the end: {:?}", r.held)));
                }
            }
            if !r.held.is_empty() {
                return Some(("leak", format!("never dropped: {}", r.held.join(", "))));
            }
        }
        "C09" => {
            if p.end == End::Done && r.end == End::Done && !t.stalls.is_empty() {
                // a stall must not change anything; what the parse does without it is run separately
            }
            if r.end != End::Done && r.end != End::Slow && p.end == End::Done {
                return Some(("not-returned", format!("the parse ended with {:?}", r.end)));
            }
        }
        "C11" | "C12" => {
            let f = |v: &[Ev]| -> Vec<Ev> { v.iter().filter(|e| **e != Ev::EClone).cloned().collect() };
            let (a, b) = (f(&p.events), f(&r.events));
            if (a != b || p.end != r.end) && !crash_ok {
                let (x, y): (Vec<&Ev>, Vec<&Ev>) = (a.iter().collect(), b.iter().collect());
                return Some(("trace", format!("{}; ended with {:?}", first_diff(&x, &y), r.end)));
            }
        }
        _ => {}
    }
    None
}

fn solo(t: &Task, crash: Option<usize>) -> Run {
    let mut t = t.clone();
    t.nested.clear();
    t.nested_ids.clear();
    t.stalls.clear();
    t.crash_at = match (t.crash_at, crash) {
        (Some(a), Some(b)) => Some(a.min(b)),
        (a, b) => a.or(b),
    };
    let mut r = Run { history: vec![], times: 1, tasks: vec![t], order: Order::Seed(0, 4), stack_kb: 1024, preempt: None, world: 0, cold: false, threads: false };
    r.number();
    r
}

/// Whether errors are cloned is the parser's business: a panic planned for a clone that was never
/// made did not happen.
fn happened(r: &Run, res: &[Option<TaskResult>]) -> Option<Run> {
    fn go(t: &mut Task, id: u32, res: &[Option<TaskResult>], hit: &mut bool) {
        if t.crash_eclone {
            if let Some(x) = &res[id as usize] {
                if !x.events.contains(&Ev::EClone) {
                    t.crash_eclone = false;
                    *hit = true;
                }
            }
        }
        let ids = t.nested_ids.clone();
        for (i, (_, n, _)) in t.nested.iter_mut().enumerate() {
            go(n, ids[i], res, hit)
        }
    }
    let mut q = r.clone();
    let mut hit = false;
    for (i, t) in q.tasks.iter_mut().chain(q.history.iter_mut()).enumerate() {
        go(t, i as u32, res, &mut hit)
    }
    hit.then_some(q)
}

fn each<'a>(r: &'a Run, f: &mut dyn FnMut(&'a Task, u32)) {
    fn go<'a>(t: &'a Task, id: u32, f: &mut dyn FnMut(&'a Task, u32)) {
        f(t, id);
        for (i, (_, n, _)) in t.nested.iter().enumerate() {
            go(n, t.nested_ids[i], f)
        }
    }
    for (i, t) in r.tasks.iter().chain(&r.history).enumerate() {
        go(t, i as u32, f)
    }
}

pub fn label(r: &Run, id: usize) -> String {
    if id < r.tasks.len() {
        format!("task {id}")
    } else if id < r.tasks.len() + r.history.len() {
        format!("history parse {}", id - r.tasks.len())
    } else {
        format!("nested parse {id}")
    }
}

/// Parses that were the first of their grammars in this process, next to each other: each must do what
/// it does when it is the first and only one.
fn cold(r: &Run, preds: &[Option<Trace>], res: &[Option<TaskResult>]) -> Option<Violation> {
    static ASKED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let diff = |a: &[Ev], b: &[Ev]| {
        let f = |e: &&Ev| !matches!(e, Ev::EClone);
        let (x, y): (Vec<&Ev>, Vec<&Ev>) = (a.iter().filter(f).collect(), b.iter().filter(f).collect());
        (x != y).then(|| first_diff(&x, &y))
    };
    for (i, t) in r.tasks.iter().enumerate() {
        let (Some(p), Some(x)) = (&preds[i], &res[i]) else { continue };
        let bad = match diff(&p.events, &x.events) {
            Some(d) => d,
            None if p.end != x.end && !t.crash_eclone => format!("ended with {:?}", x.end),
            None => continue,
        };
        // the model may be wrong about this parse, or the parser whatever happens around it
        if ASKED.fetch_add(1, Ordering::Relaxed) < 12 && alone_as_predicted(&solo(t, None)) {
            let (class, task) = ("first", i);
            return Some(Violation { class, msg: format!("{} as the only parse of the process and as one of the first ones differ: {bad}; ended with {:?}", label(r, i), x.end), task });
        }
    }
    None
}

/// Whether a fresh process that runs only this does what the model says.
fn alone_as_predicted(s: &Run) -> bool {
    let tmp = std::env::temp_dir().join(format!("sim-alone-{}-{}", std::process::id(), ASK.fetch_add(1, Ordering::Relaxed)));
    std::fs::write(&tmp, crate::sexp::pretty(&s.to_s())).unwrap();
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["alone", tmp.to_str().unwrap()])
        .stderr(std::process::Stdio::null())
        .status()
        .unwrap();
    let _ = std::fs::remove_file(&tmp);
    st.code() == Some(0)
}
static ASK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn as_predicted(ms: &[Model], r: &Run) -> bool {
    let mut r = r.clone();
    let n = r.number();
    let preds = predict_run(ms, &r, n, &mut |_, _, _, _| {});
    let budgets = preds.iter().map(|p| p.as_ref().map_or(1000, |p| 4 * p.n_cb + 1000)).collect();
    let res = exec::run(&r, n, budgets);
    let f = |v: &[Ev]| v.iter().filter(|e| !matches!(e, Ev::EClone)).cloned().collect::<Vec<_>>();
    preds.iter().zip(&res.tasks).all(|(p, x)| match (p, x) {
        (Some(p), Some(x)) => f(&p.events) == f(&x.events) && p.end == x.end,
        _ => true,
    })
}

pub fn evaluate(prop: &str, ms: &[Model], r: &Run) -> Eval {
    let mut r = r.clone();
    let n = r.number();
    let mut ev = Eval { digest: 0xcbf2_9ce4_8422_2325, order_digest: 0xcbf2_9ce4_8422_2325, ..Default::default() };
    let mut cells = vec![];
    let mut preds = predict_run(ms, &r, n, &mut |g, e, s, t| {
        cells.push(((g as u64) << 48) | ((e as u64) << 40) | ((s as u64) << 16) | t as u64)
    });
    cells.sort_unstable();
    cells.dedup();
    ev.cells = cells;
    if preds.iter().flatten().any(|p| p.looped) {
        ev.skipped = true;
        return ev;
    }
    let budgets: Vec<usize> = preds.iter().map(|p| p.as_ref().map_or(1000, |p| 4 * p.n_cb + 1000)).collect();

    let mut solos: Vec<Option<(Run, TaskResult)>> = vec![None; n as usize];
    if prop == "C08" && !r.cold {
        // what each parse does alone, before
        let mut order: Vec<(&Task, u32)> = vec![];
        each(&r, &mut |t, id| order.push((t, id)));
        order.reverse(); // nested ones first
        for (t, id) in order {
            // a parse that the model does not expect at all may still come about
            let n_cb = preds[id as usize].as_ref().map_or(2 * t.len() + 200, |p| p.n_cb);
            let mut crash = None;
            for (i, (at, _, prop)) in t.nested.iter().enumerate() {
                let ended = solos[t.nested_ids[i] as usize].as_ref().is_some_and(|s| s.1.end == End::Crashed);
                if *prop && ended && crash.is_none_or(|c| *at < c) {
                    crash = Some(*at);
                }
            }
            let s = solo(t, crash);
            let mut res = exec::run(&s, 1, vec![4 * n_cb + 1000]);
            solos[id as usize] = Some((s, res.tasks[0].take().unwrap()));
        }
    }

    exec::MEM.store(if prop == "C09" { rt::MEM_PER_CB } else { 0 }, Ordering::Relaxed);
    let held = mem::LIVE.load(Ordering::Relaxed);
    let res = exec::run(&r, n, budgets.clone());
    if let Some(q) = happened(&r, &res.tasks) {
        r = q;
        preds = predict_run(ms, &r, n, &mut |_, _, _, _| {});
        if preds.iter().flatten().any(|p| p.looped) {
            ev.skipped = true;
            return ev;
        }
    }
    ev.log = res.log;
    ev.switches = res.switches;
    for x in &ev.log {
        fnv(&mut ev.order_digest, *x as u64);
    }
    for t in res.tasks.iter().flatten() {
        dig(&mut ev.digest, t);
        ev.parses += 1;
        for e in &t.events {
            match e {
                Ev::Pull(_) => ev.pulls += 1,
                Ev::Act(..) => ev.acts += 1,
                Ev::Ret(Outcome::Ok(_)) => ev.ok += 1,
                Ev::Ret(Outcome::Lex(_)) => ev.lex += 1,
                Ev::Ret(Outcome::Perr { .. }) => ev.perr += 1,
                _ => {}
            }
        }
        ev.crashed += (t.end == End::Crashed) as u64;
    }

    if prop == "C08" && r.cold {
        ev.violation = cold(&r, &preds, &res.tasks);
        return ev;
    }
    if prop == "C08" {
        let mut bad = None;
        each(&r, &mut |_, id| {
            let i = id as usize;
            if let (Some((_, a)), Some(b)) = (&solos[i], &res.tasks[i]) {
                if bad.is_none() && (a.events != b.events || a.end != b.end || a.live != b.live || a.held != b.held) {
                    let (x, y): (Vec<&Ev>, Vec<&Ev>) = (a.events.iter().collect(), b.events.iter().collect());
                    bad = Some(Violation {
                        class: "together",
                        msg: format!("{} alone and together with others differ: {}; ended with {:?} / {:?}", label(&r, i), first_diff(&x, &y), a.end, b.end),
                        task: i,
                    });
                }
            }
        });
        if bad.is_none() {
            for (i, s) in solos.iter().enumerate() {
                if let Some((s, a)) = s {
                    let mut again = exec::run(s, 1, vec![4 * a.events.len() + 1000]);
                    let b = again.tasks[0].take().unwrap();
                    if a.events != b.events || a.end != b.end || a.live != b.live {
                        let (x, y): (Vec<&Ev>, Vec<&Ev>) = (a.events.iter().collect(), b.events.iter().collect());
                        bad = Some(Violation {
                            class: "after",
                            msg: format!("{} before and after the others differ: {}; ended with {:?} / {:?}", label(&r, i), first_diff(&x, &y), a.end, b.end),
                            task: i,
                        });
                        break;
                    }
                }
            }
        }
        ev.violation = bad;
        return ev;
    }

    each(&r, &mut |t, id| {
        let i = id as usize;
        if ev.violation.is_some() {
            return;
        }
        if let (Some(p), Some(x)) = (&preds[i], &res.tasks[i]) {
            if let Some((class, msg)) = judge(prop, &ms[t.g], t, p, x) {
                ev.violation = Some(Violation { class, msg: format!("{}: {msg}", label(&r, i)), task: i });
            }
        }
    });

    let mut drops = false;
    each(&r, &mut |t, _| drops |= t.crash_drop.is_some());
    if prop == "C07" && ev.violation.is_none() && !drops && mem::LIVE.load(Ordering::Relaxed) > held {
        // something was kept: a cache is filled once, a leak grows with every parse
        let mut v = vec![mem::LIVE.load(Ordering::Relaxed)];
        for _ in 0..4 {
            exec::run(&r, n, budgets.clone());
            v.push(mem::LIVE.load(Ordering::Relaxed));
        }
        if v.windows(2).all(|w| w[0] < w[1]) {
            ev.violation = Some(Violation {
                class: "memory",
                msg: format!("the same parses again and again hold more and more memory: {:?} bytes", v.iter().map(|x| x - held).collect::<Vec<_>>()),
                task: 0,
            });
        }
    }

    if prop == "C09" && ev.violation.is_none() && r.tasks.len() == 1 {
        let t = res.tasks[0].as_ref().unwrap();
        if t.cpu > SLOW {
            // the same with a sixteenth of the repetitions: linear work takes as long per event
            let mut q = r.clone();
            q.tasks[0].segs.iter_mut().for_each(|s| s.0 = s.0.div_ceil(16));
            let mut per = f64::MAX;
            for _ in 0..3 {
                let x = exec::run(&q, n, budgets.clone()).tasks[0].take().unwrap();
                per = per.min(x.cpu / x.events.len() as f64);
            }
            if q.tasks[0].len() * 8 < r.tasks[0].len() && t.cpu / t.events.len() as f64 > 5.0 * per {
                ev.violation = Some(Violation {
                    class: "superlinear",
                    msg: format!("with {} items an event takes more than five times as long as with {} items", r.tasks[0].len(), q.tasks[0].len()),
                    task: 0,
                });
            }
        }
        ev.cpu = t.cpu;
    }

    if prop == "C09" && ev.violation.is_none() && r.tasks.iter().any(|t| !t.stalls.is_empty()) {
        // the same parses without stalls must do the same
        let mut q = r.clone();
        for t in q.tasks.iter_mut() {
            t.stalls.clear()
        }
        let res2 = exec::run(&q, n, budgets);
        for i in 0..r.tasks.len() {
            let (a, b) = (res2.tasks[i].as_ref().unwrap(), res.tasks[i].as_ref().unwrap());
            if a.events != b.events || a.end != b.end {
                let (x, y): (Vec<&Ev>, Vec<&Ev>) = (a.events.iter().collect(), b.events.iter().collect());
                ev.violation = Some(Violation {
                    class: "stall",
                    msg: format!("{} without and with stalls differ: {}", label(&r, i), first_diff(&x, &y)),
                    task: i,
                });
                break;
            }
        }
    }
    ev
}
