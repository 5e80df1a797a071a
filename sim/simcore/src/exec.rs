//! Executes a run: real threads, one of which holds the baton at any time. The scheduler decides at
//! every callback who gets it next, so the order of everything the parsers do is a function of the
//! run's data.
use crate::plan::{Item, Order, Run, Task};
use crate::prng::Rng;
use crate::mem::{self, Side};
use crate::preempt;
use crate::world;
use crate::rt::{self, Ctx, End, Ev, GEntry};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock};

pub static REG: OnceLock<&'static [GEntry]> = OnceLock::new();

// ---------------------------------------------------------------------------------------------
// scheduler

pub enum Chooser {
    Uniform(Rng),
    Sticky(Rng),
    RoundRobin,
    /// priorities, with a change point about every n steps
    Pct(Rng, Vec<u32>, usize),
    /// one task after the other
    Serial,
    List(Vec<u8>, usize),
}

struct St {
    cur: usize,
    live: Vec<bool>,
    n_live: usize,
    ch: Chooser,
    log: Vec<u8>,
    switches: u64,
    /// who goes on when a task waits for a lock
    rng: Rng,
    /// waits in a row
    waits: u64,
}

pub struct Sched {
    m: Mutex<St>,
    cv: Vec<Condvar>,
}

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

impl St {
    fn choose(&mut self, me: Option<usize>) -> usize {
        let lv: Vec<usize> = (0..self.live.len()).filter(|&i| self.live[i]).collect();
        if lv.len() == 1 {
            return lv[0];
        }
        let keep = me.filter(|m| self.live[*m]);
        let n = match &mut self.ch {
            Chooser::Uniform(r) => *r.pick(&lv),
            Chooser::Sticky(r) => match keep {
                Some(m) if !r.chance(1, 8) => m,
                _ => *r.pick(&lv),
            },
            Chooser::RoundRobin => {
                let c = self.cur;
                *lv.iter().find(|&&i| i > c).unwrap_or(&lv[0])
            }
            Chooser::Pct(r, pr, n) => {
                if let Some(m) = keep {
                    if r.chance(1, *n) {
                        let min = *pr.iter().min().unwrap();
                        pr[m] = min.saturating_sub(1);
                    }
                }
                *lv.iter().max_by_key(|&&i| pr[i]).unwrap()
            }
            Chooser::Serial => keep.unwrap_or(lv[0]),
            Chooser::List(l, p) => {
                let n = l.get(*p).map(|x| *x as usize);
                *p += 1;
                match n {
                    Some(n) if n < self.live.len() && self.live[n] => n,
                    _ => keep.unwrap_or(lv[0]),
                }
            }
        };
        self.log.push(n as u8);
        n
    }

    fn choose_other(&mut self, me: usize) -> usize {
        let lv: Vec<usize> = (0..self.live.len()).filter(|&i| self.live[i] && i != me).collect();
        if lv.is_empty() {
            return me;
        }
        let n = match &mut self.ch {
            Chooser::List(l, p) => {
                *p += 1;
                match l.get(*p - 1).map(|x| *x as usize) {
                    Some(n) if n < self.live.len() && self.live[n] => n,
                    _ => *lv.iter().find(|&&i| i > me).unwrap_or(&lv[0]),
                }
            }
            _ => *self.rng.pick(&lv),
        };
        self.log.push(n as u8);
        n
    }
}

impl Sched {
    fn new(n: usize, order: &Order) -> Sched {
        let ch = match order {
            Order::List(l) => Chooser::List(l.clone(), 0),
            Order::Seed(s, style) => {
                let mut r = Rng::new(*s);
                match style {
                    0 => Chooser::Uniform(r),
                    1 => Chooser::Sticky(r),
                    2 => Chooser::RoundRobin,
                    3 => {
                        let pr = (0..n).map(|_| 1000 + r.below(1000) as u32).collect();
                        let k = *r.pick(&[3, 8, 20, 60]);
                        Chooser::Pct(r, pr, k)
                    }
                    _ => Chooser::Serial,
                }
            }
        };
        let mut st = St { cur: 0, live: vec![true; n], n_live: n, ch, log: vec![], switches: 0, rng: Rng::new(n as u64), waits: 0 };
        st.cur = st.choose(None);
        Sched { m: Mutex::new(st), cv: (0..n).map(|_| Condvar::new()).collect() }
    }

    fn wait(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        while s.cur != me {
            s = self.cv[me].wait(s).unwrap();
        }
    }

    pub fn yield_now(&self) {
        let me = SLOT.with(|s| s.get());
        let s = self.m.lock().unwrap();
        self.go(s, me, false)
    }

    fn go(&self, mut s: std::sync::MutexGuard<St>, me: usize, blocked: bool) {
        s.waits = if blocked { s.waits + 1 } else { 0 };
        let n = if blocked { s.choose_other(me) } else { s.choose(Some(me)) };
        if n != me {
            s.switches += 1;
            s.cur = n;
            self.cv[n].notify_one();
            while s.cur != me {
                s = self.cv[me].wait(s).unwrap();
            }
        }
    }

    /// The task waits for a lock: anybody else may go on.
    pub fn yield_blocked(&self) {
        let me = SLOT.with(|s| s.get());
        let s = self.m.lock().unwrap();
        if s.waits > 100_000 {
            eprintln!("DEADLOCK: every parse waits");
            std::process::exit(4);
        }
        self.go(s, me, true)
    }

    fn finish(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.waits = 0;
        s.live[me] = false;
        s.n_live -= 1;
        if s.n_live > 0 {
            let n = s.choose(None);
            s.cur = n;
            self.cv[n].notify_one();
        }
    }
}

// ---------------------------------------------------------------------------------------------
// tasks

#[derive(Clone, Debug, PartialEq)]
pub struct TaskResult {
    pub events: Vec<Ev>,
    pub end: End,
    /// at each return: live instances, instances the outcome accounts for
    pub live: Vec<(i64, i64)>,
    /// instances still held when everything of the parse is gone
    pub held: Vec<String>,
    pub bad: Option<String>,
    /// CPU seconds of the session
    pub cpu: f64,
}

static RESULTS: Mutex<Vec<Option<TaskResult>>> = Mutex::new(vec![]);

/// Panics of the parsers themselves are recorded, not printed. Any other panic is a harness error.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _h = Side::harness();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if rt::in_parse() && !m.starts_with("sim:") {
            MSG.with(|x| *x.borrow_mut() = m);
        } else {
            eprintln!("HARNESS PANIC: {i}");
            std::process::exit(3);
        }
    }));
}

fn run_parse(t: &Task, id: u32, sched: Option<Arc<Sched>>, budget: usize) -> End {
    let entry = &REG.get().expect("registry")[t.g];
    let plan = Arc::new(t.clone());
    let items = Arc::new(t.items());
    rt::push_ctx(Ctx {
        task: id,
        plan,
        items,
        pos: 0,
        events: vec![],
        n_pull: 0,
        n_act: 0,
        n_cb: 0,
        n_drop: 0,
        mem: (mem::TOTAL.load(Ordering::Relaxed), MEM.load(Ordering::Relaxed)),
        cpu: thread_cpu(),
        crash_eclone: t.crash_eclone,
        budget,
        strs: rt::strs(),
        sched,
        live: vec![],
    });
    let cpu = thread_cpu();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _p = Side::parser();
        (entry.run)(t.entry, t.docs)
    }));
    let cpu = thread_cpu() - cpu;
    let c = rt::pop_ctx();
    let end = match r {
        Ok(()) => End::Done,
        Err(p) => {
            if p.is::<rt::SimCrash>() {
                End::Crashed
            } else if p.is::<rt::SimBudget>() {
                End::Budget
            } else if p.is::<rt::SimMemory>() {
                End::Memory
            } else if p.is::<rt::SimSlow>() {
                End::Slow
            } else {
                End::OwnPanic(MSG.with(|m| m.borrow().clone()))
            }
        }
    };
    let res = TaskResult {
        events: c.events,
        end: end.clone(),
        live: c.live,
        held: if rt::ledger_live(id) != 0 { rt::ledger_held(id) } else { vec![] },
        bad: rt::ledger_bad(id),
        cpu,
    };
    RESULTS.lock().unwrap()[id as usize] = Some(res);
    end
}

/// Bytes a parser may ask for per callback; 0: not judged.
pub static MEM: AtomicU64 = AtomicU64::new(0);

/// CPU time of this thread in seconds.
pub fn thread_cpu() -> f64 {
    let mut t = world::Ts { s: 0, n: 0 };
    // CLOCK_THREAD_CPUTIME_ID, whoever asks
    unsafe { preempt::raw(228, [3, &mut t as *mut _ as usize, 0, 0, 0, 0]) };
    t.s as f64 + t.n as f64 * 1e-9
}

static BUDGETS: Mutex<Vec<usize>> = Mutex::new(vec![]);

pub fn run_nested(t: &Task, id: u32, sched: Option<Arc<Sched>>) -> End {
    let b = BUDGETS.lock().unwrap()[id as usize];
    run_parse(t, id, sched, b)
}

pub struct RunResult {
    pub tasks: Vec<Option<TaskResult>>,
    pub log: Vec<u8>,
    pub switches: u64,
}

/// Set while parsers run: the watchdog looks at it.
pub static IN_RUN: AtomicBool = AtomicBool::new(false);

/// `budgets`: per task number. The run must have been numbered.
pub fn run(r: &Run, n_ids: u32, budgets: Vec<usize>) -> RunResult {
    rt::ledger_reset(n_ids as usize);
    *RESULTS.lock().unwrap() = vec![None; n_ids as usize];
    *BUDGETS.lock().unwrap() = budgets;
    IN_RUN.store(true, Ordering::SeqCst);
    world::start(r.world);
    let bud = |i: usize| BUDGETS.lock().unwrap()[i];
    let mut first: Vec<Option<TaskResult>> = vec![];
    'past: for k in 0..r.times {
        for (i, t) in r.history.iter().enumerate() {
            let id = r.tasks.len() + i;
            let b = bud(id);
            run_parse(t, id as u32, None, b);
            // what differs from the first time is what is judged
            if let Some(f) = first.get(id).and_then(|x| x.as_ref()) {
                let g = RESULTS.lock().unwrap();
                let x = g[id].as_ref().unwrap();
                if x.events != f.events || x.end != f.end || x.live != f.live || x.held != f.held {
                    break 'past;
                }
            }
        }
        if k + 1 < r.times {
            if k == 0 {
                first = RESULTS.lock().unwrap().clone();
            }
            rt::ledger_reset(n_ids as usize);
        }
    }
    let mut log = vec![];
    let mut switches = 0;
    if !r.threads && r.tasks.len() == 1 {
        let b = bud(0);
        run_parse(&r.tasks[0], 0, None, b);
    } else if !r.tasks.is_empty() {
        let s = Arc::new(Sched::new(r.tasks.len(), &r.order));
        std::thread::scope(|sc| {
            for (i, t) in r.tasks.iter().enumerate() {
                let s = s.clone();
                let b = bud(i);
                let th = match world::thread_name(i) {
                    Some(n) => std::thread::Builder::new().name(n),
                    None => std::thread::Builder::new(),
                };
                th.stack_size(r.stack_kb.max(64) * 1024)
                    .spawn_scoped(sc, move || {
                        SLOT.with(|x| x.set(i));
                        s.wait(i);
                        preempt::enter(&s, i, r.preempt);
                        run_parse(t, i as u32, Some(s.clone()), b);
                        preempt::leave();
                        s.finish(i);
                    })
                    .expect("sim: thread");
            }
        });
        let mut st = s.m.lock().unwrap();
        log = std::mem::take(&mut st.log);
        switches = st.switches;
    }
    IN_RUN.store(false, Ordering::SeqCst);
    world::finish();
    let tasks = std::mem::take(&mut *RESULTS.lock().unwrap());
    RunResult { tasks, log, switches }
}

/// True when every thread but this one sleeps.
fn all_asleep() -> bool {
    let me = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|n| n.to_owned()));
    let Ok(ts) = std::fs::read_dir("/proc/self/task") else { return false };
    for t in ts.flatten() {
        if Some(t.file_name()) == me {
            continue;
        }
        let s = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        if !s.rsplit(')').next().unwrap_or("").trim_start().starts_with('S') {
            return false;
        }
    }
    me.is_some()
}

/// Ends the process when a parser runs for long without reaching a callback, or waits for what
/// cannot come.
pub fn watchdog(limit_cpu_s: f64) {
    fn cpu() -> f64 {
        let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
        let rest = s.rsplit(')').next().unwrap_or("");
        let f: Vec<&str> = rest.split_whitespace().collect();
        let u: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
        let k: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
        (u + k) / 100.0
    }
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0.0);
        let mut asleep = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let st = rt::STEPS.load(Ordering::Relaxed);
            if !IN_RUN.load(Ordering::SeqCst) || st != last.0 {
                last = (st, cpu());
                asleep = 0;
                continue;
            }
            asleep = if all_asleep() { asleep + 1 } else { 0 };
            if asleep >= 12 {
                eprintln!("DEADLOCK: every thread sleeps");
                std::process::exit(4);
            }
            if cpu() - last.1 > limit_cpu_s {
                eprintln!("HANG: no callback for {limit_cpu_s} s of CPU time");
                std::process::exit(4);
            }
        }
    });
}

/// Number of items of `items` up to the first end marker.
pub fn until_end(items: &[Item]) -> usize {
    items.iter().position(|i| *i == Item::End).unwrap_or(items.len())
}
