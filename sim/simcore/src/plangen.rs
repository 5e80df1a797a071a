//! Seeded generation of runs: what the sources deliver, what fails, who runs when.
use crate::preempt::NEVER;
use crate::lr::Act;
use crate::model::{predict, Model};
use crate::plan::*;
use crate::prng::Rng;
use crate::spec::*;

/// Per grammar: what the generator precomputes.
pub struct Info {
    /// terminals that some token value is classified as
    pub deliverable: Vec<bool>,
    /// per entry: shortest terminal prefix that leads into each state
    pub access: Vec<(usize, Vec<Option<Vec<usize>>>)>,
    /// per entry: pump contexts
    pub weight: usize,
}

pub fn info(m: &Model) -> Info {
    let mut rng = Rng::new(7);
    let deliverable = (0..m.g.n_t).map(|t| (0..5).any(|_| m.spec.tok_of(t, &mut rng).is_some())).collect();
    let mut access = vec![];
    let mut states = 0;
    let mut es: Vec<usize> = m.tables.keys().copied().collect();
    es.sort();
    for e in es {
        let tab = &m.tables[&e];
        states += tab.act.len();
        let mut acc: Vec<Option<Vec<usize>>> = vec![None; tab.act.len()];
        acc[0] = Some(vec![]);
        // breadth first over the automaton
        let mut q = std::collections::VecDeque::from([0u32]);
        while let Some(s) = q.pop_front() {
            let base = acc[s as usize].clone().unwrap();
            if base.len() > 400 {
                continue;
            }
            for t in 0..m.g.n_t {
                if let Some(Act::Shift(n)) = tab.act[s as usize][t] {
                    if acc[n as usize].is_none() {
                        let mut w = base.clone();
                        w.push(t);
                        acc[n as usize] = Some(w);
                        q.push_back(n);
                    }
                }
            }
            for x in 0..m.g.n_n {
                if let Some(n) = tab.goto[s as usize][x] {
                    if acc[n as usize].is_none() {
                        let mut w = base.clone();
                        m.g.min_yield(x, &mut w);
                        acc[n as usize] = Some(w);
                        q.push_back(n);
                    }
                }
            }
        }
        access.push((e, acc));
    }
    Info { deliverable, access, weight: if m.spec.id.starts_with("big") { 100 } else if states > 200 { 4 } else { 12 } }
}

/// A random sentence of non-terminal `n`; after about `size` expansions it is closed as fast as possible.
pub fn sentence(m: &Model, n: usize, rng: &mut Rng, size: usize) -> Vec<usize> {
    let g = &m.g;
    let mut out = vec![];
    let mut st = vec![Sym::N(n)];
    let mut steps = 0;
    while let Some(s) = st.pop() {
        match s {
            Sym::T(t) => out.push(t),
            Sym::N(n) => {
                steps += 1;
                let p = if steps > size || st.len() > 4 * size + 100 {
                    g.min_prod[n]
                } else {
                    *rng.pick(&g.by_lhs[n])
                };
                for s in g.prods[p].1.iter().rev() {
                    st.push(*s)
                }
            }
        }
    }
    out
}

/// u, v, prefix, middle, suffix: prefix u^n middle v^n suffix is a sentence for every n.
pub fn pump(m: &Model, entry: usize, rng: &mut Rng) -> Option<[Vec<usize>; 5]> {
    let g = &m.g;
    // edges n -> m through (production, position)
    let path = |from: usize, to: usize, rng: &mut Rng, nonempty: bool| -> Option<Vec<(usize, usize)>> {
        let mut prev: Vec<Option<(usize, usize, usize)>> = vec![None; g.n_n];
        let mut seen = vec![false; g.n_n];
        let mut q = std::collections::VecDeque::new();
        if from == to && !nonempty {
            return Some(vec![]);
        }
        q.push_back(from);
        if !nonempty {
            seen[from] = true
        }
        while let Some(n) = q.pop_front() {
            let mut es = vec![];
            for &p in &g.by_lhs[n] {
                for (i, s) in g.prods[p].1.iter().enumerate() {
                    if let Sym::N(x) = s {
                        es.push((p, i, *x))
                    }
                }
            }
            rng.shuffle(&mut es);
            for (p, i, x) in es {
                if !seen[x] {
                    seen[x] = true;
                    prev[x] = Some((n, p, i));
                    if x == to {
                        let mut v = vec![];
                        let mut c = to;
                        loop {
                            let (pn, pp, pi) = prev[c].unwrap();
                            v.push((pp, pi));
                            c = pn;
                            if c == from {
                                break;
                            }
                        }
                        v.reverse();
                        return Some(v);
                    }
                    q.push_back(x);
                }
            }
        }
        None
    };
    let ctx = |p: &[(usize, usize)]| -> (Vec<usize>, Vec<usize>) {
        let (mut u, mut vs) = (vec![], vec![]);
        let y = |s: &[Sym], o: &mut Vec<usize>| {
            for s in s {
                match s {
                    Sym::T(t) => o.push(*t),
                    Sym::N(n) => g.min_yield(*n, o),
                }
            }
        };
        for (p, i) in p {
            y(&g.prods[*p].1[..*i], &mut u);
            let mut r = vec![];
            y(&g.prods[*p].1[*i + 1..], &mut r);
            vs.push(r);
        }
        vs.reverse();
        (u, vs.concat())
    };
    let mut cands: Vec<usize> = (0..g.n_n).collect();
    rng.shuffle(&mut cands);
    for a in cands {
        let Some(pre) = path(entry, a, rng, false) else { continue };
        let Some(cyc) = path(a, a, rng, true) else { continue };
        let (u, v) = ctx(&cyc);
        if u.is_empty() && v.is_empty() {
            continue;
        }
        let (p, s) = ctx(&pre);
        let mut mid = vec![];
        g.min_yield(a, &mut mid);
        return Some([u, v, p, mid, s]);
    }
    None
}

fn toks(m: &Model, w: &[usize], rng: &mut Rng) -> Option<Vec<Item>> {
    w.iter().map(|&t| m.spec.tok_of(t, rng).map(Item::Tok)).collect()
}

/// A terminal; the first and the last ones more often.
fn any_term(n: usize, rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => n - 1 - rng.below(n.min(4)),
        1 => rng.below(n.min(2)),
        _ => rng.below(n),
    }
}

fn any_tok(m: &Model, rng: &mut Rng) -> Item {
    if rng.chance(1, 2) {
        for _ in 0..4 {
            let t = any_term(m.g.n_t, rng);
            if let Some(v) = m.spec.tok_of(t, rng) {
                return Item::Tok(v);
            }
        }
    }
    Item::Tok(m.spec.random_tok(rng.below(m.spec.variants.len()), rng))
}

#[derive(Clone, Copy)]
struct Mix {
    /// weights: truncate, lose, duplicate, reorder, insert, corrupt, replace
    stream: [usize; 7],
    n_max: usize,
    err: usize,     // of 10
    resume: usize,  // end-then-more, of 10
    docs: usize,    // several documents, of 10
    crash: usize,   // of 10
    stall: usize,   // of 10
    aimed: usize,   // of 10: (state, token) cell
    drop: bool,     // destructors may panic
}

fn mix_for(prop: &str) -> Mix {
    let base = Mix { stream: [2, 2, 2, 2, 2, 2, 2], n_max: 2, err: 1, resume: 1, docs: 1, crash: 0, stall: 0, aimed: 2, drop: false };
    match prop {
        "C01" => Mix { err: 0, resume: 1, docs: 0, aimed: 3, ..base },
        "C02" => Mix { crash: 3, docs: 2, ..base },
        "C03" => Mix { aimed: 6, n_max: 2, ..base },
        "C04" => Mix { aimed: 7, n_max: 2, ..base },
        "C05" => Mix { err: 8, n_max: 1, resume: 2, docs: 3, ..base },
        "C06" => Mix { err: 3, crash: 1, resume: 6, docs: 7, n_max: 1, ..base },
        "C07" => Mix { drop: true, err: 3, crash: 6, docs: 3, resume: 3, ..base },
        "C08" => Mix { drop: true, err: 2, crash: 3, docs: 2, stall: 2, ..base },
        "C09" => Mix { stall: 3, n_max: 1, ..base },
        "C11" => Mix { stream: [1, 1, 1, 1, 2, 8, 2], n_max: 4, err: 1, aimed: 0, ..base },
        "C12" => Mix { err: 1, aimed: 3, ..base },
        _ => base,
    }
}

fn fault(m: &Model, items: &mut Vec<Item>, k: usize, rng: &mut Rng, log: &mut Vec<(String, usize)>) {
    let n = items.len();
    let name = ["truncate", "lose", "duplicate", "reorder", "insert", "corrupt", "replace"][k];
    let pos;
    match k {
        0 => {
            if n == 0 {
                return;
            }
            pos = rng.below(n);
            items.truncate(pos)
        }
        1 => {
            if n == 0 {
                return;
            }
            pos = rng.below(n);
            items.remove(pos);
        }
        2 => {
            if n == 0 {
                return;
            }
            pos = rng.below(n);
            let x = items[pos].clone();
            let at = if rng.chance(2, 3) { pos } else { rng.below(n + 1) };
            items.insert(at, x)
        }
        3 => {
            if n < 2 {
                return;
            }
            pos = rng.below(n - 1);
            if rng.chance(2, 3) {
                items.swap(pos, pos + 1)
            } else {
                let x = items.remove(pos);
                let at = rng.below(n);
                items.insert(at, x)
            }
        }
        4 => {
            pos = rng.below(n + 1);
            items.insert(pos, any_tok(m, rng))
        }
        5 => {
            // payload corruption: same variant, other payload; sometimes another variant
            if n == 0 {
                return;
            }
            pos = rng.below(n);
            if let Item::Tok(v) = &items[pos] {
                let var = if rng.chance(4, 5) { v.variant } else { rng.below(m.spec.variants.len()) };
                items[pos] = Item::Tok(m.spec.random_tok(var, rng))
            }
        }
        _ => {
            if n == 0 {
                return;
            }
            pos = rng.below(n);
            items[pos] = any_tok(m, rng)
        }
    }
    log.push((name.to_string(), pos));
}

/// One document: items without the end marker.
fn document(m: &Model, inf: &Info, entry: usize, mx: &Mix, size: usize, rng: &mut Rng, log: &mut Vec<(String, usize)>) -> Vec<Item> {
    if rng.chance(mx.aimed, 10) {
        // aim at a table cell: the way into a state, then any token
        let acc = &inf.access.iter().find(|a| a.0 == entry).unwrap().1;
        for _ in 0..4 {
            let s = rng.below(acc.len());
            if let Some(w) = &acc[s] {
                let t = any_term(m.g.n_t + 1, rng);
                let mut w = w.clone();
                if t < m.g.n_t {
                    w.push(t)
                }
                if let Some(mut v) = toks(m, &w, rng) {
                    log.push((format!("cell {s} {t}"), w.len()));
                    if rng.chance(1, 2) && t < m.g.n_t {
                        v.push(any_tok(m, rng))
                    }
                    return v;
                }
            }
        }
    }
    let w = sentence(m, entry, rng, size);
    let mut items = match toks(m, &w, rng) {
        Some(v) => v,
        None => (0..rng.below(8)).map(|_| any_tok(m, rng)).collect(),
    };
    if rng.chance(3, 5) && mx.n_max > 0 {
        // swarm: a subset of kinds is on
        let mut w = mx.stream;
        for x in w.iter_mut() {
            if rng.chance(1, 2) {
                *x = 0
            }
        }
        if w.iter().sum::<usize>() > 0 {
            for _ in 0..rng.range(1, mx.n_max) {
                let k = rng.weighted(&w);
                fault(m, &mut items, k, rng, log)
            }
        }
    }
    items
}

fn size_of(rng: &mut Rng) -> usize {
    match rng.below(20) {
        0..=7 => rng.range(1, 6),
        8..=15 => rng.range(4, 25),
        16..=18 => rng.range(20, 120),
        _ => rng.range(100, 600),
    }
}

fn task(ms: &[Model], infs: &[Info], g: usize, mx: &Mix, size: Option<usize>, rng: &mut Rng) -> Task {
    let m = &ms[g];
    let inf = &infs[g];
    let entry = *rng.pick(&m.spec.entries());
    let mut t = Task { g, entry, docs: 1, ..Default::default() };
    let size = size.unwrap_or_else(|| size_of(rng));
    let n_docs = if m.spec.flags.lent && rng.chance(mx.docs, 10) { rng.range(2, 4) } else { 1 };
    t.docs = n_docs;
    let mut items = vec![];
    for d in 0..n_docs {
        let off = items.len();
        let mut log = vec![];
        let size = if n_docs > 1 { size.min(20) } else { size };
        let mut doc = document(m, inf, entry, mx, size, rng, &mut log);
        if rng.chance(mx.err, 10) {
            let pos = rng.below(doc.len() + 1);
            let c = rng.below(1000) as u32;
            log.push(("source-error".into(), pos));
            doc.insert(pos, Item::Err(c));
            if rng.chance(1, 6) {
                let pos = rng.below(doc.len() + 1);
                doc.insert(pos, Item::Err(c + 1000));
                log.push(("source-error".into(), pos));
            }
        }
        if rng.chance(mx.resume, 10) && n_docs == 1 {
            // the source ends early or ends and then delivers more
            let pos = if rng.chance(1, 2) { doc.len() } else { rng.below(doc.len() + 1) };
            log.push(("end-then-more".into(), pos));
            doc.insert(pos, Item::End);
            for _ in 0..rng.below(3) {
                doc.push(if rng.chance(1, 5) { Item::Err(7) } else { any_tok(m, rng) })
            }
        }
        for (k, p) in log {
            t.faults.push((k, p + off))
        }
        items.append(&mut doc);
        if d + 1 < n_docs {
            // usually the documents are separated by an end of stream
            if rng.chance(9, 10) {
                items.push(Item::End)
            }
            t.faults.push(("next-document".into(), items.len()));
        }
    }
    t.segs = vec![(1, items)];
    if rng.chance(1, 4) {
        t.hint = rng.range(1, 6) as u8;
        t.faults.push(("size-hint".into(), 0));
    }
    crashes(m, &mut t, mx, rng);
    t
}

/// Panics and stalls.
fn crashes(m: &Model, t: &mut Task, mx: &Mix, rng: &mut Rng) {
    let n_cb = if mx.crash + mx.stall > 0 { predict(m, t, &[], &mut |_, _| {}).n_cb } else { 0 };
    if n_cb > 0 && rng.chance(mx.crash, 10) {
        let has_err = t.segs.iter().any(|s| s.1.iter().any(|i| matches!(i, Item::Err(_))));
        if has_err && rng.chance(1, 3) {
            t.crash_eclone = true;
            t.faults.push(("crash-clone".into(), 0));
        } else if mx.drop && rng.chance(1, 3) {
            let c = if rng.chance(1, 2) { rng.below(3) } else { rng.below(n_cb + 1) };
            t.crash_drop = Some(c);
            t.faults.push(("crash-drop".into(), c));
        } else {
            let c = rng.below(n_cb);
            t.crash_at = Some(c);
            t.faults.push(("crash".into(), c));
        }
    }
    if n_cb > 0 && rng.chance(mx.stall, 10) {
        for _ in 0..rng.range(1, 3) {
            let c = rng.below(n_cb);
            t.stalls.push((c, rng.range(1, 30)));
            t.faults.push(("stall".into(), c));
        }
    }
}

/// Puts `x` in front of item `at` of a stream given as repeated pieces.
fn splice(segs: &mut Vec<(usize, Vec<Item>)>, at: usize, x: Vec<Item>, skip: usize) {
    let mut before = 0;
    for i in 0..segs.len() {
        let (n, u) = segs[i].clone();
        if at < before + n * u.len() {
            let (r, off) = ((at - before) / u.len(), (at - before) % u.len());
            let rest = u[(off + skip).min(u.len())..].to_vec();
            segs.splice(i..i + 1, [(r, u.clone()), (1, u[..off].to_vec()), (1, x), (1, rest), (n - r - 1, u)]);
            segs.retain(|s| s.0 > 0 && !s.1.is_empty());
            return;
        }
        before += n * u.len();
    }
    segs.push((1, x));
}

fn pick_g(infs: &[Info], rng: &mut Rng) -> usize {
    let total: usize = infs.iter().map(|i| i.weight).sum();
    let mut x = rng.below(total);
    for (i, f) in infs.iter().enumerate() {
        if x < f.weight {
            return i;
        }
        x -= f.weight;
    }
    infs.len() - 1
}

/// Adds a parse nested in callbacks of `t`.
fn nest(ms: &[Model], infs: &[Info], t: &mut Task, mx: &Mix, depth: usize, rng: &mut Rng) {
    let n_cb = predict(&ms[t.g], t, &vec![false; t.nested.len()], &mut |_, _| {}).n_cb;
    let at = rng.below(n_cb.max(1));
    if t.nested.iter().any(|n| n.0 == at) {
        return;
    }
    let g = if rng.chance(1, 2) { t.g } else { pick_g(infs, rng) };
    let size = rng.range(1, 12);
    let mut n = task(ms, infs, g, mx, Some(size), rng);
    if depth > 0 && rng.chance(if depth > 2 { 3 } else { 1 }, 4) {
        nest(ms, infs, &mut n, mx, depth - 1, rng)
    }
    let prop = rng.chance(1, 2);
    t.faults.push(("nested".into(), at));
    t.nested.push((at, n, prop));
}

/// A source or actions that parse something small at many of their calls.
fn many_nested(ms: &[Model], infs: &[Info], t: &mut Task, mx: &Mix, rng: &mut Rng) {
    let n_cb = predict(&ms[t.g], t, &[], &mut |_, _| {}).n_cb;
    let n = rng.range(17, 280).min(n_cb);
    let g = if rng.chance(1, 2) { t.g } else { pick_g(infs, rng) };
    let from = rng.below(n_cb - n + 1);
    for at in from..from + n {
        let n = task(ms, infs, g, mx, Some(1), rng);
        t.nested.push((at, n, false));
    }
    t.faults.push(("many-nested".into(), from));
}

/// Wraps long streams so that they are given as repeated pieces.
fn pumped(ms: &[Model], g: usize, n: usize, mx: &Mix, rng: &mut Rng) -> Option<Task> {
    let m = &ms[g];
    let entry = *rng.pick(&m.spec.entries());
    let [u, v, p, mid, s] = pump(m, entry, rng)?;
    let n = n / (u.len() + v.len()).max(1);
    let n = n.max(1);
    let (u, v, p, mid, s) = (toks(m, &u, rng)?, toks(m, &v, rng)?, toks(m, &p, rng)?, toks(m, &mid, rng)?, toks(m, &s, rng)?);
    let mut t = Task { g, entry, docs: 1, ..Default::default() };
    t.segs = vec![(1, p), (n, u), (1, mid), (n, v), (1, s)];
    t.segs.retain(|s| !s.1.is_empty());
    t.faults.push(("long".into(), t.len()));
    if rng.chance(1, 4) {
        t.hint = rng.range(1, 6) as u8;
        t.faults.push(("size-hint".into(), 0));
    }
    match rng.below(4) {
        0 if t.segs.len() > 1 => {
            // the connection breaks: everything after some piece is lost
            let k = rng.range(1, t.segs.len() - 1);
            t.segs.truncate(k);
            t.faults.push(("truncate".into(), t.len()));
        }
        1 => {
            t.segs.push((1, vec![any_tok(m, rng)]));
            t.faults.push(("insert".into(), t.len()));
        }
        2 => {
            let at = rng.below(t.len() + 1);
            let skip = rng.below(2);
            splice(&mut t.segs, at, vec![any_tok(m, rng)], skip);
            t.faults.push((if skip == 0 { "insert" } else { "replace" }.into(), at));
        }
        _ => {}
    }
    if rng.chance(mx.err, 10) {
        let at = rng.below(t.len() + 1);
        splice(&mut t.segs, at, vec![Item::Err(rng.below(1000) as u32)], 0);
        t.faults.push(("source-error".into(), at));
    }
    if rng.chance(mx.resume, 10) {
        let at = if rng.chance(1, 2) { t.len() } else { rng.below(t.len() + 1) };
        splice(&mut t.segs, at, vec![Item::End], 0);
        t.segs.push((1, vec![any_tok(m, rng)]));
        t.faults.push(("end-then-more".into(), at));
    }
    if m.spec.flags.lent && rng.chance(mx.docs, 10) {
        // a short document after the long one
        t.segs.push((1, vec![Item::End]));
        let w = sentence(m, entry, rng, 5);
        t.segs.push((1, toks(m, &w, rng)?));
        t.docs = 2;
        t.segs.retain(|s| !s.1.is_empty());
        t.faults.push(("next-document".into(), t.len()));
    }
    crashes(m, &mut t, mx, rng);
    Some(t)
}

pub fn run(prop: &str, ms: &[Model], infs: &[Info], seed: u64, i: u64, thorough: bool) -> Run {
    const LONG_PAST: u64 = 200;
    let mut rng = Rng::new(crate::prng::mix(seed, i));
    let rng = &mut rng;
    let mx = mix_for(prop);
    let style = *rng.pick(&[0u8, 0, 1, 1, 2, 3, 3, 4]);
    let mut r = Run { history: vec![], times: 1, tasks: vec![], order: Order::Seed(rng.next(), style), stack_kb: 512, preempt: None, world: 0, cold: false, threads: false };
    if rng.chance(1, 2) {
        r.world = 1 + (rng.next() >> 1);
    }
    let g = pick_g(infs, rng);
    match prop {
        // first of all: the first parses of a grammar in this process, next to each other
        "C08" if i < ms.len() as u64 => {
            let g = i as usize;
            let entry = *rng.pick(&ms[g].spec.entries());
            for _ in 0..*rng.pick(&[2, 2, 2, 3, 4]) {
                let size = rng.range(1, 12);
                let mx = Mix { drop: false, crash: 1, ..mx };
                let mut t = task(ms, infs, g, &mx, Some(size), rng);
                if t.entry != entry && rng.chance(2, 3) && t.docs == 1 {
                    t.entry = entry;
                }
                r.tasks.push(t);
            }
            r.threads = true;
            r.cold = true;
            r.preempt = Some((rng.next(), *rng.pick(&[3, 10, 10, 30, 30, 100, 400, NEVER, NEVER, NEVER])));
        }
        // a long past: counters wrap, pools run dry
        "C08" if i == ms.len() as u64 + LONG_PAST => {
            let mut hx = Mix { drop: false, ..mx };
            for k in 0..rng.range(1, 3) {
                hx.crash = 2 + 4 * k;
                let size = rng.range(1, 3);
                r.history.push(task(ms, infs, g, &hx, Some(size), rng));
            }
            r.times = 70_000 / r.history.len();
            for _ in 0..rng.range(1, 3) {
                let size = rng.range(1, 12);
                r.tasks.push(task(ms, infs, g, &mx, Some(size), rng));
            }
            r.threads = true;
        }
        "C08" => {
            let n = if rng.chance(1, 500) {
                rng.range(65, 140)
            } else if rng.chance(1, 60) {
                rng.range(6, 14)
            } else { *rng.pick(&[1, 2, 2, 2, 3, 3, 4, 5]) };
            let same = rng.chance(2, 3);
            let long = rng.chance(1, 50);
            for k in 0..n {
                let g = if same || k == 0 { g } else { pick_g(infs, rng) };
                if long && k < 3 && rng.chance(2, 3) {
                    let len = if rng.chance(1, 6) { rng.range(400, 2000) } else { rng.range(40, 400) };
                    if let Some(mut t) = pumped(ms, g, len, &mx, rng) {
                        if rng.chance(1, 4) {
                            many_nested(ms, infs, &mut t, &mx, rng)
                        }
                        r.tasks.push(t);
                        continue;
                    }
                }
                let size = if n > 60 { 1 } else { rng.range(1, 25) };
                let mut t = task(ms, infs, g, &mx, Some(size), rng);
                let depth = if rng.chance(1, 12) { 6 } else { 2 };
                while n < 60 && rng.chance(1, 3) && t.nested.len() < 3 {
                    nest(ms, infs, &mut t, &mx, depth, rng)
                }
                r.tasks.push(t);
            }
            let past = if rng.chance(1, 60) { rng.range(4, 30) } else { *rng.pick(&[0, 0, 1, 1, 2]) };
            for _ in 0..past {
                let g = if rng.chance(2, 3) { g } else { pick_g(infs, rng) };
                let size = rng.range(1, 15);
                let mut hx = mx;
                hx.crash = 6;
                r.history.push(task(ms, infs, g, &hx, Some(size), rng));
            }
            if r.tasks.len() == 1 && r.history.is_empty() && r.tasks[0].nested.is_empty() {
                let mut t = r.tasks[0].clone();
                t.stalls.clear();
                r.tasks.push(t);
            }
            r.threads = r.tasks.len() > 1 || rng.chance(1, 3);
            if r.tasks.len() > 1 && rng.chance(1, 2) {
                r.preempt = Some((rng.next(), *rng.pick(&[4, 15, 60, 60, 250, 1000, NEVER, NEVER])));
            }
        }
        "C09" => {
            let kind = rng.below(100);
            let long = if kind < 2 {
                pumped(ms, g, rng.range(60_000, 130_000), &mx, rng)
            } else if kind < 12 {
                let n = rng.range(300, 4000);
                pumped(ms, g, n, &mx, rng)
            } else {
                None
            };
            match long {
                Some(t) => {
                    r.tasks.push(t);
                    r.threads = true;
                    r.stack_kb = *rng.pick(&[96, 128, 192]);
                }
                None => {
                    let size = match rng.below(10) {
                        0 => Some(rng.range(500, if thorough { 20_000 } else { 4000 })),
                        _ => None,
                    };
                    r.tasks.push(task(ms, infs, g, &mx, size, rng));
                    r.threads = rng.chance(1, 3);
                    r.stack_kb = 128;
                }
            }
        }
        _ => {
            let t = match rng.below(8000) {
                0 => {
                    let n = rng.range(60_000, 80_000);
                    pumped(ms, g, n, &mx, rng)
                }
                1..=24 => {
                    let n = rng.range(300, 5000);
                    pumped(ms, g, n, &mx, rng)
                }
                25..=60 => {
                    let n = rng.range(40, 400);
                    pumped(ms, g, n, &mx, rng)
                }
                _ => None,
            };
            let mut t = t.unwrap_or_else(|| task(ms, infs, g, &mx, None, rng));
            if matches!(prop, "C02" | "C07") && t.segs.len() == 1 && rng.chance(1, 10) {
                nest(ms, infs, &mut t, &mx, 1, rng)
            }
            r.tasks.push(t);
            if rng.chance(1, 12) && prop != "C01" {
                // company, so that nothing is decided in a calm process only
                let h = pick_g(infs, rng);
                let size = rng.range(1, 12);
                r.tasks.push(task(ms, infs, h, &mx, Some(size), rng));
                r.threads = true;
            }
        }
    }
    r
}
