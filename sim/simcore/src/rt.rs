//! Run-time side of a simulated parse: everything the generated parsers touch (token source,
//! payloads, action values, source errors) reports here. Each of these is a seam: it records an
//! event, gives the scheduler the chance to run somebody else, and injects the planned fault.
use crate::exec::Sched;
use crate::mem::{self, Side};
use crate::plan::{Item, Task};
use crate::spec::{TokVal, Val, CHARS, STRS};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------------------------------------
// events

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Ok(Vec<Val>),
    Lex(u32),
    Perr { found: String, expected: String },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// the nth request to the source
    Pull(u32),
    /// an action ran: production, operands
    Act(u32, Vec<Val>),
    /// the source error was cloned
    EClone,
    /// parse returned
    Ret(Outcome),
    /// an injected panic left the callback
    Crash,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    /// unwound with the injected panic
    Crashed,
    /// the parser panicked by itself
    OwnPanic(String),
    /// stopped by the step budget
    Budget,
    /// stopped by the memory budget
    Memory,
    /// stopped after using much more CPU time than a parse of any length should
    Slow,
}

pub struct SimCrash;
pub struct SimBudget;
pub struct SimMemory;
pub struct SimSlow;

// ---------------------------------------------------------------------------------------------
// ledger of every payload, value and error instance

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Pay,
    Node,
    Err,
    Src,
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub task: u32,
    pub kind: Kind,
    pub a: u32,
    pub b: u32,
    pub drops: u8,
    pub used: u8,
}

#[derive(Default)]
pub struct Ledger {
    gen: u32,
    pub entries: Vec<Entry>,
    pub live: Vec<i64>,
    /// first anomaly per task (dropped twice, used twice)
    pub bad: Vec<Option<String>>,
    pub stale_drops: u64,
}

pub static LEDGER: Mutex<Ledger> =
    Mutex::new(Ledger { gen: 0, entries: vec![], live: vec![], bad: vec![], stale_drops: 0 });

fn ledger() -> std::sync::MutexGuard<'static, Ledger> {
    LEDGER.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn ledger_reset(n_tasks: usize) {
    let mut l = ledger();
    l.gen += 1;
    l.entries.clear();
    l.live = vec![0; n_tasks];
    l.bad = vec![None; n_tasks];
    l.stale_drops = 0;
}

pub fn ledger_live(task: u32) -> i64 {
    ledger().live[task as usize]
}

/// What is still held of a task, described.
pub fn ledger_held(task: u32) -> Vec<String> {
    ledger()
        .entries
        .iter()
        .filter(|e| e.task == task && e.drops == 0)
        .map(|e| match e.kind {
            Kind::Pay => format!("payload {} of item {}", e.b, e.a),
            Kind::Node => format!("value of action {}", e.a),
            Kind::Err => format!("source error {}", e.a),
            Kind::Src => "the source".to_string(),
        })
        .collect()
}

pub fn ledger_bad(task: u32) -> Option<String> {
    ledger().bad[task as usize].clone()
}

#[derive(Debug)]
pub struct Tick {
    gen: u32,
    lid: u32,
}

fn tick(task: u32, kind: Kind, a: u32, b: u32) -> Tick {
    let _h = Side::harness();
    let mut l = ledger();
    let lid = l.entries.len() as u32;
    l.entries.push(Entry { task, kind, a, b, drops: 0, used: 0 });
    l.live[task as usize] += 1;
    Tick { gen: l.gen, lid }
}

impl Tick {
    fn used(&self) {
        let mut l = ledger();
        if l.gen != self.gen {
            return;
        }
        let e = &mut l.entries[self.lid as usize];
        e.used = e.used.saturating_add(1);
        if e.used > 1 {
            let (t, m) = (e.task, format!("used twice: {:?} {} {}", e.kind, e.a, e.b));
            l.bad[t as usize].get_or_insert(m);
        }
    }
}

impl Drop for Tick {
    fn drop(&mut self) {
        let side = Side::harness();
        let mut l = ledger();
        if l.gen != self.gen {
            l.stale_drops += 1;
            return;
        }
        let e = &mut l.entries[self.lid as usize];
        e.drops = e.drops.saturating_add(1);
        let (t, d) = (e.task, e.drops);
        let m = format!("dropped twice: {:?} {} {}", e.kind, e.a, e.b);
        if d > 1 {
            l.bad[t as usize].get_or_insert(m);
        } else {
            l.live[t as usize] -= 1;
        }
        drop(l);
        if side.was_parser() && !std::thread::panicking() {
            let crash = STACK.try_with(|s| {
                let mut s = s.borrow_mut();
                let Some(c) = s.last_mut().filter(|c| c.task == t) else { return false };
                c.n_drop += 1;
                let crash = c.plan.crash_drop == Some(c.n_drop - 1);
                if crash {
                    c.events.push(Ev::Crash);
                }
                crash
            });
            if crash == Ok(true) {
                std::panic::resume_unwind(Box::new(SimCrash));
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// values that flow through the generated parsers

#[derive(Debug)]
pub struct Pay {
    t: Tick,
    item: u32,
    slot: u32,
}

#[derive(Debug)]
pub struct Node {
    t: Tick,
    k: u32,
}

#[derive(Debug)]
pub struct W<const N: usize>(pub Node);

#[derive(Debug)]
pub struct Ref<'i>(pub Node, pub std::marker::PhantomData<&'i str>);

#[derive(Debug)]
pub enum In {
    A(Pay),
    B { q: Pay, r: u32 },
    C,
}

#[derive(Debug)]
pub struct SimErr {
    t: Tick,
    task: u32,
    code: u32,
}

impl SimErr {
    fn new(task: u32, code: u32) -> SimErr {
        SimErr { t: tick(task, Kind::Err, code, 0), task, code }
    }
    pub fn code(&self) -> u32 {
        let _ = &self.t;
        self.code
    }
}

impl Clone for SimErr {
    fn clone(&self) -> SimErr {
        let _h = Side::harness();
        let crash = with(|c| {
            c.events.push(Ev::EClone);
            c.crash_eclone
        });
        sched_yield(1);
        if crash {
            with(|c| c.events.push(Ev::Crash));
            std::panic::resume_unwind(Box::new(SimCrash));
        }
        SimErr::new(self.task, self.code)
    }
}

/// Anything an action may receive.
pub trait Fl {
    fn fl(self, o: &mut Vec<Val>);
}
impl Fl for () {
    fn fl(self, o: &mut Vec<Val>) {
        o.push(Val::Unit)
    }
}
impl Fl for u32 {
    fn fl(self, o: &mut Vec<Val>) {
        o.push(Val::U32(self))
    }
}
impl Fl for &str {
    fn fl(self, o: &mut Vec<Val>) {
        o.push(Val::Str(self.to_string()))
    }
}
impl Fl for char {
    fn fl(self, o: &mut Vec<Val>) {
        o.push(Val::Char(self))
    }
}
impl Fl for bool {
    fn fl(self, o: &mut Vec<Val>) {
        o.push(Val::Bool(self))
    }
}
impl Fl for Pay {
    fn fl(self, o: &mut Vec<Val>) {
        self.t.used();
        o.push(Val::Pay(self.item, self.slot))
    }
}
impl Fl for Node {
    fn fl(self, o: &mut Vec<Val>) {
        self.t.used();
        o.push(Val::Node(self.k))
    }
}
impl Fl for Ref<'_> {
    fn fl(self, o: &mut Vec<Val>) {
        self.0.fl(o)
    }
}
impl<const N: usize> Fl for W<N> {
    fn fl(self, o: &mut Vec<Val>) {
        o.push(Val::Tag(100 + N as u32));
        self.0.fl(o)
    }
}
impl<T: Fl> Fl for Box<T> {
    fn fl(self, o: &mut Vec<Val>) {
        (*self).fl(o)
    }
}
impl<T: Fl> Fl for Vec<T> {
    fn fl(self, o: &mut Vec<Val>) {
        o.push(Val::Tag(self.len() as u32));
        for x in self {
            x.fl(o)
        }
    }
}
impl<T: Fl> Fl for Option<T> {
    fn fl(self, o: &mut Vec<Val>) {
        match self {
            None => o.push(Val::Tag(0)),
            Some(x) => {
                o.push(Val::Tag(1));
                x.fl(o)
            }
        }
    }
}
impl Fl for In {
    fn fl(self, o: &mut Vec<Val>) {
        match self {
            In::A(p) => {
                o.push(Val::Tag(0));
                p.fl(o)
            }
            In::B { q, r } => {
                o.push(Val::Tag(1));
                q.fl(o);
                r.fl(o)
            }
            In::C => o.push(Val::Tag(2)),
        }
    }
}
macro_rules! tup { ($($t:ident $i:tt),*) => {
    impl<$($t: Fl),*> Fl for ($($t,)*) { fn fl(self, o: &mut Vec<Val>) { $(self.$i.fl(o);)* } }
} }
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);

/// Operand list of an action.
pub struct V(Vec<Val>);
impl V {
    pub fn new() -> V {
        let _h = Side::harness();
        V(Vec::with_capacity(4))
    }
    pub fn a(mut self, x: impl Fl) -> V {
        let _h = Side::harness();
        x.fl(&mut self.0);
        self
    }
}

/// Result types of non-terminals.
pub trait NtVal {
    fn mk(n: Node) -> Self;
}
impl NtVal for Node {
    fn mk(n: Node) -> Node {
        n
    }
}
impl NtVal for () {
    fn mk(n: Node) {
        n.t.used()
    }
}
impl<const N: usize> NtVal for W<N> {
    fn mk(n: Node) -> Self {
        W(n)
    }
}
impl NtVal for Ref<'_> {
    fn mk(n: Node) -> Self {
        Ref(n, std::marker::PhantomData)
    }
}
impl NtVal for Box<Node> {
    fn mk(n: Node) -> Self {
        Box::new(n)
    }
}
impl NtVal for Vec<Node> {
    fn mk(n: Node) -> Self {
        vec![n]
    }
}
impl NtVal for (Node, u32) {
    fn mk(n: Node) -> Self {
        (n, 77)
    }
}
impl NtVal for Option<Node> {
    fn mk(n: Node) -> Self {
        Some(n)
    }
}

pub fn touch<T>(_: &mut T) {}

pub const UNIT: () = ();

/// The literals as constants, for patterns that name them by path.
pub const KU0: u32 = 0;
pub const KU1: u32 = 1;
pub const KU2: u32 = 2;
pub const KU3: u32 = 3;
pub const KS0: &str = STRS[0];
pub const KS1: &str = STRS[1];
pub const KS2: &str = STRS[2];
pub const KS3: &str = STRS[3];
pub const KC0: char = CHARS[0];
pub const KC1: char = CHARS[1];
pub const KC2: char = CHARS[2];

// ---------------------------------------------------------------------------------------------
// context of the running parse session

pub struct Ctx {
    pub task: u32,
    pub plan: Arc<Task>,
    pub items: Arc<Vec<Item>>,
    pub pos: usize,
    pub events: Vec<Ev>,
    pub n_pull: u32,
    pub n_act: u32,
    pub n_cb: usize,
    pub n_drop: usize,
    /// bytes parsers may have asked for: (at the start, limit per callback)
    pub mem: (u64, u64),
    /// CPU time of the thread at the start
    pub cpu: f64,
    pub crash_eclone: bool,
    pub budget: usize,
    pub strs: &'static [&'static str],
    pub sched: Option<Arc<Sched>>,
    /// (live instances, instances the outcome accounts for), after each return
    pub live: Vec<(i64, i64)>,
}

thread_local! {
    static STACK: RefCell<Vec<Box<Ctx>>> = const { RefCell::new(vec![]) };
}

pub fn push_ctx(c: Ctx) {
    STACK.with(|s| s.borrow_mut().push(Box::new(c)))
}
pub fn pop_ctx() -> Ctx {
    STACK.with(|s| *s.borrow_mut().pop().unwrap())
}
fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    STACK.with(|s| f(s.borrow_mut().last_mut().expect("callback outside a parse")))
}
pub fn in_parse() -> bool {
    STACK.with(|s| !s.borrow().is_empty())
}

/// Simulated time: total number of scheduler steps of the process. Also the watchdog's pulse.
pub static STEPS: AtomicU64 = AtomicU64::new(0);

fn sched_yield(n: usize) {
    STEPS.fetch_add(n as u64, Ordering::Relaxed);
    let s = with(|c| c.sched.clone());
    if let Some(s) = s {
        for _ in 0..n {
            s.yield_now();
        }
    }
}

/// What a parse may allocate regardless of its length.
pub const MEM_BASE: u64 = 64 << 20;
pub const MEM_PER_CB: u64 = 16 << 10;
/// CPU seconds after which a parse is stopped (if its work is judged).
pub const CPU_MAX: f64 = 12.0;

/// A callback from the parser into user code: scheduling point, nested parses, injected panic.
fn callback() {
    crate::preempt::callback();
    let (cb, stall, nested) = with(|c| {
        let cb = c.n_cb;
        c.n_cb += 1;
        let stall = c.plan.stalls.iter().find(|s| s.0 == cb).map_or(1, |s| 1 + s.1);
        let has_nested = c.plan.nested.iter().any(|n| n.0 == cb);
        (cb, stall, has_nested)
    });
    crate::world::pass(stall);
    sched_yield(stall);
    if nested {
        let (plan, sched) = with(|c| (c.plan.clone(), c.sched.clone()));
        for (i, (at, t, propagate)) in plan.nested.iter().enumerate() {
            if *at == cb {
                let end = crate::exec::run_nested(t, plan.nested_ids[i], sched.clone());
                if *propagate && end == End::Crashed {
                    with(|c| c.events.push(Ev::Crash));
                    std::panic::resume_unwind(Box::new(SimCrash));
                }
            }
        }
    }
    let mut slow = false;
    let (crash, over, mem) = with(|c| {
        let used = mem::TOTAL.load(Ordering::Relaxed) - c.mem.0;
        let mem = c.mem.1 > 0 && used > MEM_BASE + c.mem.1 * c.n_cb as u64;
        if c.mem.1 > 0 && (c.n_cb > 1000 || c.n_cb % 16 == 0) && crate::exec::thread_cpu() - c.cpu > CPU_MAX {
            slow = true
        }
        (c.plan.crash_at == Some(cb), c.n_cb > c.budget, mem)
    });
    if slow {
        std::panic::resume_unwind(Box::new(SimSlow));
    }
    if mem {
        std::panic::resume_unwind(Box::new(SimMemory));
    }
    if crash {
        with(|c| c.events.push(Ev::Crash));
        std::panic::resume_unwind(Box::new(SimCrash));
    }
    if over {
        std::panic::resume_unwind(Box::new(SimBudget));
    }
}

/// A semantic action.
pub fn act<T: NtVal>(prod: u32, v: V) -> T {
    let _h = Side::harness();
    let (task, k) = with(|c| {
        let k = c.n_act;
        c.n_act += 1;
        c.events.push(Ev::Act(prod, v.0));
        (c.task, k)
    });
    callback();
    T::mk(Node { t: tick(task, Kind::Node, k, 0), k })
}

/// Reads the leaves of a token value while the generated code builds the token.
pub struct Cur {
    task: u32,
    item: u32,
    v: TokVal,
    pos: usize,
    slot: u32,
    strs: &'static [&'static str],
}

impl Cur {
    pub fn variant(&self) -> usize {
        self.v.variant
    }
    pub fn raw(&mut self) -> u32 {
        let x = self.v.leaves[self.pos];
        self.pos += 1;
        x
    }
    pub fn str(&mut self) -> &'static str {
        let i = self.raw();
        self.strs[i as usize]
    }
    pub fn char(&mut self) -> char {
        CHARS[self.raw() as usize]
    }
    pub fn bool(&mut self) -> bool {
        self.raw() != 0
    }
    pub fn pay(&mut self) -> Pay {
        self.pos += 1;
        let slot = self.slot;
        self.slot += 1;
        Pay { t: tick(self.task, Kind::Pay, self.item, slot), item: self.item, slot }
    }
    pub fn inn(&mut self) -> In {
        match self.raw() {
            0 => In::A(self.pay()),
            1 => In::B { q: self.pay(), r: self.raw() },
            _ => In::C,
        }
    }
}

/// The token source given to `parse`.
pub struct Src<T> {
    make: fn(&mut Cur) -> T,
    _t: Option<Tick>,
}

impl<T> Src<T> {
    pub fn new(make: fn(&mut Cur) -> T, lent: bool) -> Src<T> {
        let _h = Side::harness();
        let task = with(|c| c.task);
        Src { make, _t: if lent { None } else { Some(tick(task, Kind::Src, 0, 0)) } }
    }
}

impl<T> Iterator for Src<T> {
    type Item = Result<T, SimErr>;
    fn next(&mut self) -> Option<Result<T, SimErr>> {
        let _h = Side::harness();
        with(|c| {
            let n = c.n_pull;
            c.n_pull += 1;
            c.events.push(Ev::Pull(n));
        });
        callback();
        enum D {
            End,
            Err(SimErr),
            Tok(Cur),
        }
        let d = with(|c| {
            let i = c.pos;
            c.pos += 1;
            match c.items.get(i) {
                None | Some(Item::End) => D::End,
                Some(Item::Err(code)) => D::Err(SimErr::new(c.task, *code)),
                Some(Item::Tok(v)) => {
                    D::Tok(Cur { task: c.task, item: i as u32, v: v.clone(), pos: 0, slot: 0, strs: c.strs })
                }
            }
        });
        match d {
            D::End => None,
            D::Err(e) => Some(Err(e)),
            D::Tok(mut c) => Some(Ok((self.make)(&mut c))),
        }
    }

    /// The contract of `Iterator` lets an adversary answer anything.
    fn size_hint(&self) -> (usize, Option<usize>) {
        let _h = Side::harness();
        with(|c| {
            let left = c.items.len().saturating_sub(c.pos);
            match c.plan.hint {
                0 => (0, None),
                1 => (left, Some(left)),
                2 => (0, Some(0)),
                3 => (usize::MAX, None),
                4 => (usize::MAX, Some(usize::MAX)),
                5 => (1, Some(1)),
                _ => (left + 1000, Some(left + 1000)),
            }
        })
    }
}

/// What a generated module reports of one call of `parse`.
pub enum Res<R> {
    Ok(R),
    Lex(SimErr),
    Perr(&'static str, &'static str),
}

pub fn ret<R: Fl>(r: Res<R>) {
    let _h = Side::harness();
    let task = with(|c| c.task);
    let live = ledger_live(task);
    let (o, acc) = match r {
        Res::Ok(v) => {
            let mut o = vec![];
            v.fl(&mut o);
            let n = o.iter().filter(|v| matches!(v, Val::Node(_) | Val::Pay(..))).count() as i64;
            (Outcome::Ok(o), n)
        }
        Res::Lex(e) => (Outcome::Lex(e.code()), 1),
        Res::Perr(f, e) => (Outcome::Perr { found: f.to_string(), expected: e.to_string() }, 0),
    };
    with(|c| {
        c.live.push((live, acc));
        c.events.push(Ev::Ret(o));
    });
}

/// One registered grammar of a shard.
pub struct GEntry {
    pub spec: &'static str,
    pub run: fn(entry: usize, docs: usize),
}

#[macro_export]
macro_rules! sim_ret {
    ($m:ident, $e:expr) => {
        $crate::rt::ret(match $e {
            Ok(v) => $crate::rt::Res::Ok(v),
            Err($m::ParseError::LexerError(e)) => $crate::rt::Res::Lex(e),
            Err($m::ParseError::ParserError { found, expected }) => $crate::rt::Res::Perr(found, expected),
        })
    };
}

pub fn strs() -> &'static [&'static str] {
    &STRS
}
