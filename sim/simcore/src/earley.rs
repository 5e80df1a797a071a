//! Reference model, part 2: an Earley recogniser, sharing no code with the LR construction except
//! the grammar itself. Cross-validates verdicts, error positions and sets of viable next tokens.
use crate::lr::G;
use crate::spec::Sym;
use std::collections::HashSet;

pub struct Earley {
    /// set of terminals that can be scanned after each prefix
    pub next: Vec<HashSet<usize>>,
    /// whether each prefix is a sentence
    pub complete: Vec<bool>,
    /// number of prefixes that are viable (index of the offending token otherwise)
    pub viable: usize,
}

pub fn run(g: &G, entry: usize, w: &[usize]) -> Earley {
    type It = (usize, usize, usize); // production, dot, origin
    let mut cols: Vec<Vec<It>> = vec![];
    let mut seen: Vec<HashSet<It>> = vec![];
    cols.push(g.by_lhs[entry].iter().map(|&p| (p, 0, 0)).collect());
    seen.push(cols[0].iter().copied().collect());
    let mut e = Earley { next: vec![], complete: vec![], viable: 0 };
    for i in 0..=w.len() {
        // naive fixpoint: nullable completions within one column need it
        loop {
            let before = cols[i].len();
            let mut j = 0;
            while j < cols[i].len() {
                let (p, d, o) = cols[i][j];
                j += 1;
                match g.prods[p].1.get(d) {
                    Some(Sym::N(n)) => {
                        for &q in &g.by_lhs[*n] {
                            let it = (q, 0, i);
                            if seen[i].insert(it) {
                                cols[i].push(it)
                            }
                        }
                    }
                    Some(Sym::T(_)) => {}
                    None => {
                        let lhs = g.prods[p].0;
                        let adv: Vec<It> = cols[o]
                            .iter()
                            .filter(|(q, e, _)| g.prods[*q].1.get(*e) == Some(&Sym::N(lhs)))
                            .map(|&(q, e, oo)| (q, e + 1, oo))
                            .collect();
                        for it in adv {
                            if seen[i].insert(it) {
                                cols[i].push(it)
                            }
                        }
                    }
                }
            }
            if cols[i].len() == before {
                break;
            }
        }
        let mut next = HashSet::new();
        for &(p, d, _) in &cols[i] {
            if let Some(Sym::T(t)) = g.prods[p].1.get(d) {
                next.insert(*t);
            }
        }
        e.next.push(next);
        e.complete.push(cols[i].iter().any(|&(p, d, o)| o == 0 && g.prods[p].0 == entry && d == g.prods[p].1.len()));
        e.viable = i;
        if i == w.len() {
            break;
        }
        let col: Vec<It> = cols[i]
            .iter()
            .filter(|(p, d, _)| g.prods[*p].1.get(*d) == Some(&Sym::T(w[i])))
            .map(|&(p, d, o)| (p, d + 1, o))
            .collect();
        if col.is_empty() {
            return e;
        }
        seen.push(col.iter().copied().collect());
        cols.push(col);
    }
    e
}
