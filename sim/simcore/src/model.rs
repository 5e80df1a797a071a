//! Reference model, part 3: what a parse session must do, event by event.
use crate::lr::{self, Act, G, Table};
use crate::plan::{Item, Run, Task};
use crate::rt::{End, Ev, Outcome};
use crate::spec::{nt_vals, Bind, PKind, Spec, Sym, Val, ANON, NO_ACT};
use std::collections::HashMap;

/// What the end of the stream is called in parse errors.
pub const EOF: &str = "end-of-input";

/// A grammar with what the model needs.
pub struct Model {
    pub spec: Spec,
    pub g: G,
    /// per entry non-terminal
    pub tables: HashMap<usize, Table>,
    prods: Vec<(usize, usize)>,
    /// non-terminal -> (state, terminal) accesses are recorded here by `predict`
    pub cap: usize,
}

pub const MAX_STATES: usize = 3000;

impl Model {
    pub fn new(spec: Spec) -> Model {
        let g = G::of(&spec);
        let mut tables = HashMap::new();
        for e in spec.entries() {
            tables.insert(e, lr::build(&g, e, MAX_STATES).expect("sim: automaton too big"));
        }
        let prods = spec.prods();
        Model { spec, g, tables, prods, cap: 0 }
    }

    pub fn conflict_free(&self) -> bool {
        self.tables.values().all(|t| t.conflicts.none())
    }
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub events: Vec<Ev>,
    pub end: End,
    pub n_cb: usize,
    /// the model gave up (endless reductions, only in conflicted grammars)
    pub looped: bool,
    /// parse error or lexer error happened (used by oracles)
    pub max_burst: usize,
}

#[derive(Clone)]
enum V {
    Tok(Vec<Val>),
    Nt(usize, u32),
}

struct P<'a> {
    m: &'a Model,
    t: &'a Task,
    items: &'a [Item],
    tr: Trace,
    pos: usize,
    n_pull: u32,
    n_act: u32,
    burst: usize,
    /// crashes[i]: nested parse i unwinds with its injected panic
    nested_crash: &'a [bool],
}

struct Stop;

impl P<'_> {
    fn callback(&mut self) -> Result<(), Stop> {
        let cb = self.tr.n_cb;
        self.tr.n_cb += 1;
        for (i, (at, _, prop)) in self.t.nested.iter().enumerate() {
            if *at == cb && *prop && self.nested_crash[i] {
                self.tr.events.push(Ev::Crash);
                self.tr.end = End::Crashed;
                return Err(Stop);
            }
        }
        if self.t.crash_at == Some(cb) {
            self.tr.events.push(Ev::Crash);
            self.tr.end = End::Crashed;
            return Err(Stop);
        }
        Ok(())
    }

    /// Requests the next item; returns its terminal and captures.
    fn pull(&mut self) -> Result<Look, Stop> {
        self.tr.events.push(Ev::Pull(self.n_pull));
        self.n_pull += 1;
        self.burst = 0;
        self.callback()?;
        let i = self.pos;
        self.pos += 1;
        Ok(match self.items.get(i) {
            None | Some(Item::End) => Look::End,
            Some(Item::Err(c)) => Look::Err(*c),
            Some(Item::Tok(v)) => {
                let (t, caps) = self.m.spec.classify(v, i as u32);
                Look::Tok(t, caps)
            }
        })
    }

    fn doc(&mut self, tab: &Table, cell: &mut dyn FnMut(u32, usize)) -> Result<(), Stop> {
        let m = self.m;
        let mut st: Vec<u32> = vec![0];
        let mut vals: Vec<V> = vec![];
        let mut look = self.pull()?;
        loop {
            let s = *st.last().unwrap();
            let t = match &look {
                Look::End => m.g.n_t,
                Look::Tok(t, _) => *t,
                Look::Err(c) => {
                    let c = *c;
                    self.tr.events.push(Ev::EClone);
                    if self.t.crash_eclone {
                        self.tr.events.push(Ev::Crash);
                        self.tr.end = End::Crashed;
                        return Err(Stop);
                    }
                    self.tr.events.push(Ev::Ret(Outcome::Lex(c)));
                    return Ok(());
                }
            };
            cell(s, t);
            match tab.act[s as usize][t] {
                None => {
                    let found =
                        if t == m.g.n_t { EOF.to_string() } else { m.spec.terms[t].name.clone() };
                    let ex: Vec<&str> =
                        tab.expected(&m.g, s).into_iter().map(|t| m.spec.terms[t].name.as_str()).collect();
                    self.tr.events.push(Ev::Ret(Outcome::Perr { found, expected: ex.join(", ") }));
                    return Ok(());
                }
                Some(Act::Shift(n)) => {
                    st.push(n);
                    let next = self.pull()?;
                    if let Look::Tok(_, caps) = std::mem::replace(&mut look, next) {
                        vals.push(V::Tok(caps))
                    }
                }
                Some(Act::Reduce(p)) => {
                    let (nt, j) = m.prods[p as usize];
                    let prod = &m.spec.nts[nt].prods[j];
                    let rhs = &prod.rhs;
                    let at = vals.len() - rhs.len();
                    self.burst += 1;
                    self.tr.max_burst = self.tr.max_burst.max(self.burst);
                    if self.burst > 200_000 + 4 * self.items.len() {
                        self.tr.looped = true;
                        return Err(Stop);
                    }
                    let k = match prod.kind {
                        PKind::Id(i) => match &vals[at + i] {
                            V::Nt(_, k) => *k,
                            V::Tok(_) => panic!("sim: identity of a token"),
                        },
                        PKind::Konst => NO_ACT,
                        PKind::Normal | PKind::Anon => {
                            let mut ops = vec![];
                            for ((sym, b), v) in rhs.iter().zip(&vals[at..]) {
                                if *b != Bind::No {
                                    match v {
                                        V::Tok(c) if c.is_empty() => ops.push(Val::Unit),
                                        V::Tok(c) => ops.extend(c.iter().cloned()),
                                        V::Nt(n, k) => nt_vals(m.spec.nts[*n].ty, *k, &mut ops),
                                    }
                                    debug_assert!(matches!((sym, v), (Sym::T(_), V::Tok(_)) | (Sym::N(_), V::Nt(..))));
                                }
                            }
                            let k = self.n_act;
                            self.n_act += 1;
                            let id = if prod.kind == PKind::Anon { ANON } else { p };
                            self.tr.events.push(Ev::Act(id, ops));
                            self.callback()?;
                            k
                        }
                    };
                    vals.truncate(at);
                    vals.push(V::Nt(nt, k));
                    let n = st.len() - rhs.len();
                    st.truncate(n);
                    let s = *st.last().unwrap();
                    st.push(tab.goto[s as usize][nt].expect("sim: goto"));
                }
                Some(Act::Accept) => {
                    let mut o = vec![];
                    match vals.pop() {
                        Some(V::Nt(n, k)) => nt_vals(m.spec.nts[n].ty, k, &mut o),
                        _ => panic!("sim: accept"),
                    }
                    self.tr.events.push(Ev::Ret(Outcome::Ok(o)));
                    return Ok(());
                }
            }
        }
    }
}

enum Look {
    End,
    Err(u32),
    Tok(usize, Vec<Val>),
}

/// What `t` must do. `nested_crash`: which of its nested parses end with their injected panic.
/// `cell` sees every table access.
pub fn predict(m: &Model, t: &Task, nested_crash: &[bool], cell: &mut dyn FnMut(u32, usize)) -> Trace {
    let items = t.items();
    let tab = &m.tables[&t.entry];
    let mut p = P {
        m,
        t,
        items: &items,
        tr: Trace { events: vec![], end: End::Done, n_cb: 0, looped: false, max_burst: 0 },
        pos: 0,
        n_pull: 0,
        n_act: 0,
        burst: 0,
        nested_crash,
    };
    for _ in 0..t.docs {
        if p.doc(tab, cell).is_err() {
            break;
        }
    }
    p.tr
}

/// Predicts every task of a run, nested ones included, by task number.
pub fn predict_run(
    ms: &[Model],
    r: &Run,
    n_ids: u32,
    cell: &mut dyn FnMut(usize, usize, u32, usize),
) -> Vec<Option<Trace>> {
    fn go(
        ms: &[Model],
        t: &Task,
        id: u32,
        out: &mut Vec<Option<Trace>>,
        cell: &mut dyn FnMut(usize, usize, u32, usize),
    ) -> bool {
        let mut nc = vec![];
        for (i, (_, n, _)) in t.nested.iter().enumerate() {
            nc.push(go(ms, n, t.nested_ids[i], out, cell));
        }
        let tr = predict(&ms[t.g], t, &nc, &mut |s, x| cell(t.g, t.entry, s, x));
        let c = tr.end == End::Crashed;
        // a nested parse whose host never reaches its callback does not happen
        for (i, (at, _, _)) in t.nested.iter().enumerate() {
            if *at >= tr.n_cb {
                drop_all(&t.nested[i].1, t.nested_ids[i], out);
            }
        }
        out[id as usize] = Some(tr);
        c
    }
    fn drop_all(t: &Task, id: u32, out: &mut Vec<Option<Trace>>) {
        out[id as usize] = None;
        for (i, (_, n, _)) in t.nested.iter().enumerate() {
            drop_all(n, t.nested_ids[i], out)
        }
    }
    let mut out = vec![None; n_ids as usize];
    for (i, t) in r.tasks.iter().chain(&r.history).enumerate() {
        go(ms, t, i as u32, &mut out, cell);
    }
    out
}
