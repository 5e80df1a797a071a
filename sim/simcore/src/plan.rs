//! A run: everything the simulator decides, as data. One run = one exactly repeatable execution.
use crate::sexp::{a, S};
use crate::spec::TokVal;
use crate::sx;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Tok(TokVal),
    Err(u32),
    /// the source answers "end of stream" here, whatever follows
    End,
}

/// A piece of the delivered stream, repeated.
pub type Seg = (usize, Vec<Item>);

#[derive(Clone, Debug, Default)]
pub struct Task {
    /// grammar (index in the shard) and entry non-terminal
    pub g: usize,
    pub entry: usize,
    pub segs: Vec<Seg>,
    /// number of consecutive parses on the same (lent) source
    pub docs: usize,
    /// panic at the nth callback (request or action)
    pub crash_at: Option<usize>,
    /// panic when the source error is cloned
    pub crash_eclone: bool,
    /// panic in the nth destructor (payload, value, error) that the parser runs
    pub crash_drop: Option<usize>,
    /// what the source says about its length: 0 nothing, see `rt::Src::size_hint`
    pub hint: u8,
    /// extra scheduling steps at the nth callback
    pub stalls: Vec<(usize, usize)>,
    /// a whole parse run inside the nth callback; bool: its panic propagates
    pub nested: Vec<(usize, Task, bool)>,
    /// task numbers of the nested parses (assigned by `number`)
    pub nested_ids: Vec<u32>,
    /// log of what was done to the stream: (fault kind, position)
    pub faults: Vec<(String, usize)>,
}

#[derive(Clone, Debug)]
pub enum Order {
    /// PRNG seed and style
    Seed(u64, u8),
    /// explicit list of task numbers to run at each scheduling point
    List(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Run {
    /// parses run one after the other before the concurrent ones
    pub history: Vec<Task>,
    /// how often the history takes place
    pub times: usize,
    pub tasks: Vec<Task>,
    pub order: Order,
    pub stack_kb: usize,
    /// switches between callbacks: PRNG seed and mean number of basic blocks of parser code from one to the next
    pub preempt: Option<(u64, usize)>,
    /// clock, entropy, names of threads, contents of fresh memory (see `world`)
    pub world: u64,
    /// nothing of these grammars runs in the process before
    pub cold: bool,
    /// true: tasks run on their own threads even when there is only one
    pub threads: bool,
}

impl Task {
    pub fn items(&self) -> Vec<Item> {
        let mut v = vec![];
        for (n, s) in &self.segs {
            for _ in 0..*n {
                v.extend(s.iter().cloned())
            }
        }
        v
    }

    pub fn number(&mut self, next: &mut u32) {
        self.nested_ids.clear();
        for (_, t, _) in self.nested.iter_mut() {
            self.nested_ids.push(*next);
            *next += 1;
            t.number(next);
        }
    }

    pub fn len(&self) -> usize {
        self.segs.iter().map(|(n, s)| n * s.len()).sum()
    }

    pub fn grammars(&self, out: &mut Vec<usize>) {
        out.push(self.g);
        for n in &self.nested {
            n.1.grammars(out)
        }
    }

    pub fn map_g(&mut self, f: &dyn Fn(usize) -> usize) {
        self.g = f(self.g);
        for n in self.nested.iter_mut() {
            n.1.map_g(f)
        }
    }

    pub fn to_s(&self) -> S {
        let mut r = vec![a("task"), sx!["grammar", self.g], sx!["entry", self.entry], sx!["docs", self.docs]];
        if let Some(c) = self.crash_at {
            r.push(sx!["crash-at", c]);
        }
        if self.crash_eclone {
            r.push(sx!["crash-eclone"]);
        }
        if let Some(c) = self.crash_drop {
            r.push(sx!["crash-drop", c]);
        }
        if self.hint > 0 {
            r.push(sx!["size-hint", self.hint as usize]);
        }
        for (at, n) in &self.stalls {
            r.push(sx!["stall", *at, *n]);
        }
        for (k, p) in &self.faults {
            r.push(sx!["fault", k, *p]);
        }
        for (n, s) in &self.segs {
            let mut v = vec![a("stream"), a(n)];
            for i in s {
                v.push(match i {
                    Item::End => a("end"),
                    Item::Err(c) => sx!["err", *c],
                    Item::Tok(t) => {
                        let mut q = vec![a("tok"), a(t.variant)];
                        q.extend(t.leaves.iter().map(a));
                        S::L(q)
                    }
                })
            }
            r.push(S::L(v));
        }
        for (at, t, p) in &self.nested {
            r.push(sx!["nested", *at, *p, t.to_s()]);
        }
        S::L(r)
    }

    pub fn from_s(s: &S) -> Task {
        Task {
            g: s.get1("grammar").unwrap().num(),
            entry: s.get1("entry").unwrap().num(),
            docs: s.get1("docs").unwrap().num(),
            crash_at: s.get1("crash-at").map(|x| x.num()),
            crash_eclone: s.get("crash-eclone").is_some(),
            crash_drop: s.get1("crash-drop").map(|x| x.num()),
            hint: s.get1("size-hint").map_or(0, |x| x.num() as u8),
            stalls: s.all("stall").map(|x| (x.list()[1].num(), x.list()[2].num())).collect(),
            faults: s.all("fault").map(|x| (x.list()[1].atom().to_string(), x.list()[2].num())).collect(),
            segs: s
                .all("stream")
                .map(|x| {
                    let x = x.list();
                    let items = x[2..]
                        .iter()
                        .map(|i| match i.head() {
                            "end" => Item::End,
                            "err" => Item::Err(i.list()[1].num() as u32),
                            _ => Item::Tok(TokVal {
                                variant: i.list()[1].num(),
                                leaves: i.list()[2..].iter().map(|l| l.num() as u32).collect(),
                            }),
                        })
                        .collect();
                    (x[1].num(), items)
                })
                .collect(),
            nested: s
                .all("nested")
                .map(|x| (x.list()[1].num(), Task::from_s(&x.list()[3]), x.list()[2].bool()))
                .collect(),
            nested_ids: vec![],
        }
    }
}

impl Run {
    /// Assigns task numbers: concurrent tasks first, then history, then nested ones. Returns the count.
    pub fn number(&mut self) -> u32 {
        let mut next = (self.tasks.len() + self.history.len()) as u32;
        for t in self.tasks.iter_mut().chain(self.history.iter_mut()) {
            t.number(&mut next);
        }
        next
    }

    pub fn grammars(&self) -> Vec<usize> {
        let mut v = vec![];
        for t in self.tasks.iter().chain(&self.history) {
            t.grammars(&mut v)
        }
        v.sort();
        v.dedup();
        v
    }

    pub fn to_s(&self) -> S {
        let mut r = vec![a("run"), sx!["stack-kb", self.stack_kb], sx!["threads", self.threads]];
        r.push(match &self.order {
            Order::Seed(s, k) => sx!["order-seed", *s, *k as usize],
            Order::List(v) => {
                let mut q = vec![a("order")];
                q.extend(v.iter().map(a));
                S::L(q)
            }
        });
        if let Some((s, n)) = self.preempt {
            r.push(sx!["preempt", s, n]);
        }
        if self.world != 0 {
            r.push(sx!["world", self.world]);
        }
        if self.cold {
            r.push(sx!["cold"]);
        }
        if !self.history.is_empty() {
            let mut q = vec![a("history")];
            q.extend(self.history.iter().map(|t| t.to_s()));
            r.push(S::L(q));
            if self.times != 1 {
                r.push(sx!["times", self.times]);
            }
        }
        r.extend(self.tasks.iter().map(|t| t.to_s()));
        S::L(r)
    }

    pub fn from_s(s: &S) -> Run {
        Run {
            stack_kb: s.get1("stack-kb").unwrap().num(),
            threads: s.get1("threads").unwrap().bool(),
            preempt: s.get("preempt").map(|x| (x.list()[1].u64(), x.list()[2].num())),
            world: s.get("world").map_or(0, |x| x.list()[1].u64()),
            cold: s.get("cold").is_some(),
            order: match s.get("order-seed") {
                Some(x) => Order::Seed(x.list()[1].u64(), x.list()[2].num() as u8),
                None => Order::List(s.get("order").unwrap().list()[1..].iter().map(|x| x.num() as u8).collect()),
            },
            history: s.get("history").map_or(vec![], |h| h.list()[1..].iter().map(Task::from_s).collect()),
            times: s.get1("times").map_or(1, |x| x.num()),
            tasks: s.all("task").map(Task::from_s).collect(),
        }
    }
}
