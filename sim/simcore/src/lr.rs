//! Reference model, part 1: an independent canonical LR(1) construction, one automaton per entry
//! point, written from the textbook definition. Used as the executable specification of what a
//! parser for the grammar must do on a delivered stream, and to classify grammars.
use crate::spec::{Spec, Sym};
use std::collections::HashMap;

/// Grammar in index form. Terminals 0..nt, end of input = n_t.
#[derive(Clone, Debug)]
pub struct G {
    pub n_t: usize,
    pub n_n: usize,
    /// (lhs, rhs)
    pub prods: Vec<(usize, Vec<Sym>)>,
    pub by_lhs: Vec<Vec<usize>>,
    pub nullable: Vec<bool>,
    /// FIRST as bit per terminal
    pub first: Vec<Vec<bool>>,
    /// minimal yield length of each non-terminal, None = unproductive
    pub min: Vec<Option<usize>>,
    /// cheapest production of each non-terminal
    pub min_prod: Vec<usize>,
}

impl G {
    pub fn of(sp: &Spec) -> G {
        let prods = sp
            .prods()
            .into_iter()
            .map(|(n, j)| (n, sp.nts[n].prods[j].rhs.iter().map(|x| x.0).collect()))
            .collect();
        G::new(sp.n_t(), sp.nts.len(), prods)
    }

    pub fn new(n_t: usize, n_n: usize, prods: Vec<(usize, Vec<Sym>)>) -> G {
        let mut g = G {
            n_t,
            n_n,
            by_lhs: vec![vec![]; n_n],
            nullable: vec![false; n_n],
            first: vec![vec![false; n_t]; n_n],
            min: vec![None; n_n],
            min_prod: vec![usize::MAX; n_n],
            prods,
        };
        for (i, (l, _)) in g.prods.iter().enumerate() {
            g.by_lhs[*l].push(i);
        }
        // nullable
        loop {
            let mut ch = false;
            for (l, r) in &g.prods {
                if !g.nullable[*l] && r.iter().all(|s| matches!(s, Sym::N(n) if g.nullable[*n])) {
                    g.nullable[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // FIRST
        loop {
            let mut ch = false;
            for (l, r) in &g.prods {
                for s in r {
                    match s {
                        Sym::T(t) => {
                            ch |= !g.first[*l][*t];
                            g.first[*l][*t] = true;
                            break;
                        }
                        Sym::N(n) => {
                            for t in 0..n_t {
                                if g.first[*n][t] && !g.first[*l][t] {
                                    g.first[*l][t] = true;
                                    ch = true;
                                }
                            }
                            if !g.nullable[*n] {
                                break;
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        // minimal yields
        loop {
            let mut ch = false;
            for (i, (l, r)) in g.prods.iter().enumerate() {
                let mut c = Some(0usize);
                for s in r {
                    c = match (c, s) {
                        (Some(c), Sym::T(_)) => Some(c + 1),
                        (Some(c), Sym::N(n)) => g.min[*n].map(|m| c + m + 1),
                        _ => None,
                    };
                }
                if let Some(c) = c {
                    if g.min[*l].map_or(true, |m| c < m) {
                        g.min[*l] = Some(c);
                        g.min_prod[*l] = i;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        g
    }

    pub fn all_productive(&self) -> bool {
        self.min.iter().all(|m| m.is_some())
    }

    pub fn reachable(&self, from: &[usize]) -> Vec<bool> {
        let mut r = vec![false; self.n_n];
        let mut w: Vec<usize> = from.to_vec();
        while let Some(n) = w.pop() {
            if std::mem::replace(&mut r[n], true) {
                continue;
            }
            for &p in &self.by_lhs[n] {
                for s in &self.prods[p].1 {
                    if let Sym::N(m) = s {
                        w.push(*m)
                    }
                }
            }
        }
        r
    }

    /// The shortest yield of a non-terminal (by the `min` measure).
    pub fn min_yield(&self, n: usize, out: &mut Vec<usize>) {
        for s in &self.prods[self.min_prod[n]].1 {
            match s {
                Sym::T(t) => out.push(*t),
                Sym::N(m) => self.min_yield(*m, out),
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    Shift(u32),
    Reduce(u32),
    Accept,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Conflicts {
    pub sr: usize,
    pub rr: usize,
    pub acc: usize,
    /// shift/reduce conflicts where a production with a shift is declared before (or is) the one
    /// that is complete. Only steers the generator.
    pub late: usize,
}

impl Conflicts {
    pub fn none(&self) -> bool {
        self.sr + self.rr + self.acc == 0
    }
    pub fn only_sr(&self) -> bool {
        self.sr > 0 && self.rr + self.acc == 0
    }
}

/// The automaton of one entry point.
#[derive(Clone, Debug)]
pub struct Table {
    pub entry: usize,
    /// state -> per terminal (and end of input) action. Shift preferred on shift/reduce conflicts,
    /// otherwise the first production.
    pub act: Vec<Vec<Option<Act>>>,
    pub goto: Vec<Vec<Option<u32>>>,
    pub conflicts: Conflicts,
}

type Item = (u32, u16, u16); // production (u32::MAX = augmented), dot, lookahead

/// Builds the automaton, or None when it exceeds `max_states`.
pub fn build(g: &G, entry: usize, max_states: usize) -> Option<Table> {
    let eof = g.n_t as u16;
    let aug = [Sym::N(entry)];
    let rhs = |p: u32| -> &[Sym] {
        if p == u32::MAX {
            &aug
        } else {
            &g.prods[p as usize].1
        }
    };
    let closure = |kernel: Vec<Item>| -> Vec<Item> {
        let mut seen: std::collections::HashSet<Item> = kernel.iter().copied().collect();
        let mut all = kernel;
        let mut i = 0;
        while i < all.len() {
            let (p, d, la) = all[i];
            i += 1;
            let r = rhs(p);
            if let Some(Sym::N(n)) = r.get(d as usize) {
                // FIRST(rest la)
                let mut las = vec![false; g.n_t + 1];
                let mut through = true;
                for s in &r[d as usize + 1..] {
                    match s {
                        Sym::T(t) => {
                            las[*t] = true;
                            through = false
                        }
                        Sym::N(m) => {
                            for t in 0..g.n_t {
                                las[t] |= g.first[*m][t]
                            }
                            through = g.nullable[*m]
                        }
                    }
                    if !through {
                        break;
                    }
                }
                if through {
                    las[la as usize] = true
                }
                for &q in &g.by_lhs[*n] {
                    for (t, &on) in las.iter().enumerate() {
                        let it = (q as u32, 0, t as u16);
                        if on && seen.insert(it) {
                            all.push(it)
                        }
                    }
                }
            }
        }
        all.sort_unstable();
        all
    };

    let mut ids: HashMap<Vec<Item>, u32> = HashMap::new();
    let mut states: Vec<Vec<Item>> = vec![];
    let start = closure(vec![(u32::MAX, 0, eof)]);
    ids.insert(start.clone(), 0);
    states.push(start);
    let mut act: Vec<Vec<Option<Act>>> = vec![];
    let mut goto: Vec<Vec<Option<u32>>> = vec![];
    let mut conflicts = Conflicts::default();
    let mut i = 0;
    while i < states.len() {
        let items = states[i].clone();
        let mut kernels: std::collections::BTreeMap<Sym, Vec<Item>> = Default::default();
        for &(p, d, la) in &items {
            if let Some(s) = rhs(p).get(d as usize) {
                kernels.entry(*s).or_default().push((p, d + 1, la))
            }
        }
        let mut arow: Vec<Option<Act>> = vec![None; g.n_t + 1];
        let mut grow: Vec<Option<u32>> = vec![None; g.n_n];
        for (s, k) in kernels {
            let c = closure(k);
            let id = match ids.get(&c) {
                Some(id) => *id,
                None => {
                    let id = states.len() as u32;
                    if states.len() >= max_states {
                        return None;
                    }
                    ids.insert(c.clone(), id);
                    states.push(c);
                    id
                }
            };
            match s {
                Sym::T(t) => arow[t] = Some(Act::Shift(id)),
                Sym::N(n) => grow[n] = Some(id),
            }
        }
        for &(p, d, la) in &items {
            if d as usize == rhs(p).len() {
                let cell = &mut arow[la as usize];
                if p == u32::MAX {
                    if cell.is_some() {
                        conflicts.acc += 1
                    }
                    *cell = Some(Act::Accept);
                } else {
                    match cell {
                        None => *cell = Some(Act::Reduce(p)),
                        Some(Act::Shift(_)) => {
                            conflicts.sr += 1;
                            let t = la as usize;
                            let before =
                                items.iter().any(|&(q, e, _)| q <= p && rhs(q).get(e as usize) == Some(&Sym::T(t)));
                            conflicts.late += before as usize;
                        }
                        Some(Act::Reduce(_)) => conflicts.rr += 1,
                        Some(Act::Accept) => conflicts.acc += 1,
                    }
                }
            }
        }
        act.push(arow);
        goto.push(grow);
        i += 1;
    }
    Some(Table { entry, act, goto, conflicts })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    /// Error at this position (== len: at end of input), in this state
    Error(usize, u32),
    /// gave up (endless reduction in a conflicted grammar)
    Loop,
}

impl Table {
    /// Runs over a terminal sequence followed by end of input. `cell` sees (state, terminal) of
    /// every table access, `red` every production reduced.
    pub fn run(&self, g: &G, w: &[usize], mut cell: impl FnMut(u32, usize), mut red: impl FnMut(u32)) -> Verdict {
        let mut st: Vec<u32> = vec![0];
        let mut i = 0;
        let mut steps = 0usize;
        loop {
            let s = *st.last().unwrap();
            let t = if i < w.len() { w[i] } else { g.n_t };
            cell(s, t);
            match self.act[s as usize][t] {
                None => return Verdict::Error(i, s),
                Some(Act::Shift(n)) => {
                    st.push(n);
                    i += 1;
                    steps = 0;
                }
                Some(Act::Reduce(p)) => {
                    red(p);
                    let (l, r) = &g.prods[p as usize];
                    st.truncate(st.len() - r.len());
                    let s = *st.last().unwrap();
                    st.push(self.goto[s as usize][*l].expect("goto"));
                    steps += 1;
                    if steps > 100_000 + 2 * w.len() {
                        return Verdict::Loop;
                    }
                }
                Some(Act::Accept) => return Verdict::Accept,
            }
        }
    }

    /// Terminals with an action in this state, in declaration order (no end of input).
    pub fn expected(&self, g: &G, s: u32) -> Vec<usize> {
        (0..g.n_t).filter(|&t| self.act[s as usize][t].is_some()).collect()
    }
}
