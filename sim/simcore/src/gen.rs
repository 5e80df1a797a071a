//! Seeded generation of grammars.
use crate::lr::{self, Conflicts, G};
use crate::prng::Rng;
use crate::spec::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Bnf {
    pub n_t: usize,
    pub nts: Vec<(bool, Vec<Vec<Sym>>)>,
    pub origin: String,
}

/// `*` marks entry points, names starting with an upper-case letter are non-terminals.
pub const CURATED: &[&str] = &[
    // tiny and nullable
    "*S : a",
    "*S : ",
    "*S : a | ",
    "*S : A b ; A : a | ",
    "*S : A B c ; A : a | ; B : b | ",
    "*S : A B C d ; A : a | ; B : b | ; C : c | ",
    "*S : A B C ; A : a | ; B : b | ; C : c | ",
    "*S : A x ; A : B ; B : C ; C : D ; D : | d",
    "*S : A ; A : B ; B : C ; C : D ; D : E ; E : ",
    "*S : X A B ; X : x ; A : B ; B : C ; C : D ; D : | c",
    "*S : L A r ; L : A l ; A : B B ; B : C ; C : ",
    "*S : A a A b | B b B a ; A : ; B : ",
    "*S : M a N b ; M : ; N : ",
    "*S : M S a | b ; M : ",
    "*S : a S M | b ; M : ",
    "*S : a M S | b ; M : ",
    "*S : O P Q a | ; O : P ; P : Q ; Q : | q",
    "*T : U V W ; U : V ; V : W ; W : | w x",
    "*S : A S b | c ; A : ",
    // lists
    "*S : | S a",
    "*S : | a S",
    "*S : a | S a",
    "*S : a | a S",
    "*S : a | S c a",
    "*S : a | a c S",
    "*S : | L ; L : a | L c a",
    "*S : l L r ; L : | E ; E : a | E c a",
    "*S : l L r ; L : | E | E c ; E : a | E c a",
    "*S : l L r ; L : E O ; O : | c ; E : a | a c E",
    "*S : L s | S L s ; L : | L a",
    "*S : I T ; T : | c I T ; I : x | y",
    "*S : A B ; A : | A a ; B : | B b",
    "*S : A B ; A : | a A ; B : | b B",
    "*S : A c B ; A : | A a ; B : | B a",
    // expressions
    "*E : E p T | T ; T : T m F | F ; F : l E r | n",
    "*E : T X ; X : p T X | ; T : F Y ; Y : m F Y | ; F : l E r | n",
    "*E : E p T | E s T | T ; T : T m F | T d F | F ; F : s F | P ; P : A w F | A ; A : n | l E r | A l G r ; G : | H ; H : E | H c E",
    "*E : C q E k E | C ; C : C o D | D ; D : D a N | N ; N : t N | B ; B : i | l E r",
    "*E : i | L i d E | l E r | E2 ; E2 : n ; L : f",
    "*E : f P d E | A ; A : A B | B ; B : i | l E r ; P : i | P i",
    "*S : L e R | R ; L : s R | i ; R : L",
    // statements
    "*S : M | U ; M : f e M l M | o ; U : f e S | f e M l U",
    "*P : B ; B : l D T r ; D : | D t i s ; T : | T S ; S : i q E s | B | w E S ; E : i | n | E p i",
    "*P : | P S ; S : i q E s | f E B X | w E B | l P r ; X : | e B | e f E B X ; B : l P r ; E : E p T | T ; T : i | n | b E g",
    // data formats
    "*V : n | s | t | O | A ; O : l r | l M r ; M : P | M c P ; P : s k V ; A : b d | b E d ; E : V | E c V",
    "*S : a | l L r ; L : | L S",
    "*S : a | q S | l L r | l L S d S r ; L : | L S",
    "*T : l T T r | n",
    "*D : | D o A T c | D t ; A : | A i q s ; T : D",
    // lookahead-sensitive: LR(1) but not LALR(1), not SLR(1), not LR(0)
    "*S : a E a | b E b | a F b | b F a ; E : e ; F : e",
    "*S : a E c | a F d | b F c | b E d ; E : e ; F : e",
    "*S : a A d | b B d | a B e | b A e ; A : c ; B : c",
    "*S : a A d | b B d | a B e | b A e ; A : c A | c ; B : c B | c",
    "*S : A a | b A c | B c | b B a ; A : d ; B : d",
    "*S : A a | b A c | d c | b d a ; A : d",
    "*S : x A y | x B z | w A z | w B y ; A : M k ; B : M k ; M : ",
    "*S : l X r | l Y d | b X d | b Y r ; X : m ; Y : m",
    "*S : p A q | p B r | t A r | t B q ; A : | A n ; B : | B n",
    "*S : a X b | c X d | a Y d | c Y b ; X : U v ; Y : W v ; U : u ; W : u",
    "*S : C C ; C : c C | d",
    "*S : A a A b | B b B a | c S ; A : d | ; B : e | ",
    "*S : a T b | a U c ; T : x T | x ; U : x U | x",
    // palindromes and counting
    "*S : a S b | ",
    "*S : a S b | a b",
    "*S : a S a | b S b | c",
    "*S : a S c | B ; B : b B c | ",
    "*S : A B ; A : a A b | ; B : c B d | ",
    "*S : l S r S | ",
    "*S : S l S2 r | ; S2 : S",
    // several entry points
    "*S : A b ; *T : A c ; A : a | A a",
    "*E : E p T | T ; *T : n | l E r",
    "*S : x T y | T ; *T : | T z",
    "*S : T ; *T : U ; *U : | u U",
    "*A : x B | ; *B : y A | z",
    "*S : a T ; *T : b | S c",
    "*S : I | S I ; *I : i q E s ; *E : E p A | A ; *A : n | i | l E r",
    "*S : x ; *T : x x ; *U : x U | ; *V : V x | x",
    "*S : M M ; *M : | m ; N : n",
    "*T : S ; *S : S S1 | ; S1 : a",
    // mutual recursion
    "*A : a B | x ; B : b C | y ; C : c A | z",
    "*A : B a | x ; B : C b | y ; C : A c | z",
    "*S : a A | b B ; A : a | b S | a S ; B : b b",
    "*S : A ; A : l B r | x ; B : A | B c A | ",
    // assorted
    "*S : a b c d e f g h",
    "*S : A B C D ; A : a ; B : b A ; C : c B A ; D : d C B A",
    "*S : D v ; D : y L | D c L ; L : i O ; O : | q E ; E : n | E p n",
    "*S : s F w T O ; F : a | F c a ; T : t | T c t ; O : | h C ; C : K | C n K ; K : a q a | l C r",
    "*S : N | S N ; N : i k R e ; R : Q | R o Q ; Q : | Q Z ; Z : i | t | l R r | Z m",
    "*R : R o C | C ; C : C K | K ; K : A | A s | A p | A q ; A : c | d | l R r | b I e ; I : J | I J ; J : c | c h c",
];

/// Ambiguous grammars whose conflicts are shift/reduce only.
pub const AMBIGUOUS: &[&str] = &[
    "*S : f e S | f e S l S | o",
    "*S : f e S L | o ; L : l S | ",
    "*S : f E S L | i q E s ; L : l S | ; E : i | n",
    "*E : E p E | n",
    "*E : E p E | E m E | n",
    "*E : E p E | l E r | n",
    "*E : s E | E p E | n",
    "*E : E q E k E | n",
    "*E : f i E | E E2 | i ; E2 : i",
    "*S : A b ; A : A a A | c",
    "*S : f e T L ; L : l S | ; T : S | o",
    "*T : t | T x T | l T r",
    "*S : a O O2 ; O : | b ; O2 : | b c",
    "*S : L ; L : | L i T ; T : | c i T",
    "*S : w S | f S X | o ; X : | l S",
    "*S : X a ; X : | a",
    "*C : C o C | t C | i",
    "*S : S s S | f e S | f e S l S | o",
];

pub fn parse_bnf(text: &str) -> Bnf {
    let mut nt: HashMap<String, usize> = HashMap::new();
    let mut te: HashMap<String, usize> = HashMap::new();
    let rules: Vec<&str> = text.split(';').collect();
    for r in &rules {
        let l = r.split(':').next().unwrap().trim().trim_start_matches('*').to_string();
        let n = nt.len();
        assert!(nt.insert(l, n).is_none(), "{text}");
    }
    let mut nts = vec![];
    for r in &rules {
        let (l, rhs) = r.split_once(':').unwrap();
        let public = l.trim().starts_with('*');
        let mut prods = vec![];
        for alt in rhs.split('|') {
            let mut p = vec![];
            for w in alt.split_whitespace() {
                if w.chars().next().unwrap().is_uppercase() {
                    p.push(Sym::N(*nt.get(w).unwrap_or_else(|| panic!("{w} in {text}"))))
                } else {
                    let n = te.len();
                    p.push(Sym::T(*te.entry(w.to_string()).or_insert(n)))
                }
            }
            prods.push(p);
        }
        nts.push((public, prods));
    }
    Bnf { n_t: te.len(), nts, origin: format!("curated {text}") }
}

impl Bnf {
    pub fn g(&self) -> G {
        let mut prods = vec![];
        for (i, (_, ps)) in self.nts.iter().enumerate() {
            for p in ps {
                prods.push((i, p.clone()))
            }
        }
        G::new(self.n_t, self.nts.len(), prods)
    }

    fn entries(&self) -> Vec<usize> {
        (0..self.nts.len()).filter(|&i| self.nts[i].0).collect()
    }

    fn has_dup(&self) -> bool {
        self.nts.iter().any(|(_, ps)| (0..ps.len()).any(|i| ps[..i].contains(&ps[i])))
    }
}

/// (number of states over all entries, conflicts)
pub fn classify(b: &Bnf, cap: usize) -> Option<(usize, Conflicts)> {
    let g = b.g();
    if !g.all_productive() {
        return None;
    }
    let mut n = 0;
    let mut c = Conflicts::default();
    for e in b.entries() {
        let t = lr::build(&g, e, cap)?;
        n += t.act.len();
        c.sr += t.conflicts.sr;
        c.rr += t.conflicts.rr;
        c.acc += t.conflicts.acc;
    }
    (n <= cap).then_some((n, c))
}

// ---------------------------------------------------------------------------------------------
// random grammars

fn random_cfg(rng: &mut Rng) -> Bnf {
    let n_n = rng.range(1, 6);
    let n_t = rng.range(1, 5);
    let maxp = rng.range(1, 4);
    let eps = rng.range(0, 4);
    let nt_w = rng.range(1, 5);
    let mut nts = vec![];
    for _ in 0..n_n {
        let mut ps = vec![];
        for _ in 0..rng.range(1, maxp) {
            let mut p = vec![];
            if !rng.chance(eps, 10) {
                for _ in 0..rng.range(1, 4) {
                    p.push(if rng.chance(nt_w, 8) { Sym::N(rng.below(n_n)) } else { Sym::T(rng.below(n_t)) });
                }
            }
            if !ps.contains(&p) {
                ps.push(p)
            }
        }
        nts.push((rng.chance(1, 4), ps));
    }
    nts[0].0 = true;
    Bnf { n_t, nts, origin: "random".into() }
}

/// Grammar put together from constructs, mostly LR(1).
struct B<'a> {
    rng: &'a mut Rng,
    n_t: usize,
    nts: Vec<(bool, Vec<Vec<Sym>>)>,
    stack: Vec<usize>,
}

impl B<'_> {
    fn t(&mut self) -> Sym {
        if self.n_t > 0 && self.rng.chance(1, 4) {
            return Sym::T(self.rng.below(self.n_t));
        }
        self.n_t += 1;
        Sym::T(self.n_t - 1)
    }
    fn nt(&mut self) -> usize {
        self.nts.push((false, vec![]));
        self.nts.len() - 1
    }
    fn sub(&mut self, d: usize) -> Sym {
        if d == 0 || self.rng.chance(1, 4) {
            self.t()
        } else {
            Sym::N(self.make(d - 1))
        }
    }
    fn make(&mut self, d: usize) -> usize {
        let n = self.nt();
        self.stack.push(n);
        let me = Sym::N(n);
        let ps = match self.rng.below(13) {
            0 => {
                let k = self.rng.range(1, 4);
                vec![(0..k).map(|_| self.sub(d)).collect()]
            }
            1 | 2 => {
                let k = self.rng.range(2, 4);
                (0..k)
                    .map(|_| {
                        let mut p = vec![self.t()];
                        for _ in 0..self.rng.below(3) {
                            p.push(self.sub(d))
                        }
                        p
                    })
                    .collect()
            }
            3 => vec![vec![], vec![self.sub(d)]],
            4 => vec![vec![], vec![me, self.sub(d)]],
            5 => vec![vec![], vec![self.sub(d), me]],
            6 => {
                let x = self.sub(d);
                vec![vec![x], vec![me, self.t(), x]]
            }
            7 => {
                let x = self.sub(d);
                vec![vec![x], vec![x, self.t(), me]]
            }
            8 => {
                // parenthesised ancestor
                let a = *self.rng.pick(&self.stack.clone());
                vec![vec![self.t(), Sym::N(a), self.t()], vec![self.sub(d)]]
            }
            9 => {
                // unit chain to something possibly nullable
                let x = self.sub(d);
                let mut last = x;
                for _ in 0..self.rng.range(1, 3) {
                    let c = self.nt();
                    self.nts[c].1 = vec![vec![last]];
                    last = Sym::N(c);
                }
                if self.rng.chance(1, 2) { vec![vec![last], vec![]] } else { vec![vec![last]] }
            }
            10 => {
                // empty marker
                let m = self.nt();
                self.nts[m].1 = vec![vec![]];
                let mut p = vec![self.sub(d), self.sub(d)];
                let at = self.rng.below(3);
                p.insert(at, Sym::N(m));
                vec![p]
            }
            11 => {
                // binary operators
                let x = self.sub(d);
                let l = self.nt();
                self.nts[l].1 = vec![vec![Sym::N(l), self.t(), x], vec![x]];
                vec![vec![me, self.t(), Sym::N(l)], vec![Sym::N(l)]]
            }
            _ => {
                // nullable sequence
                let k = self.rng.range(2, 3);
                let mut p = vec![];
                for _ in 0..k {
                    let o = self.nt();
                    let x = self.sub(d);
                    self.nts[o].1 = if self.rng.chance(1, 2) { vec![vec![x], vec![]] } else { vec![vec![], vec![x]] };
                    p.push(Sym::N(o));
                }
                if self.rng.chance(1, 2) {
                    p.push(self.t())
                }
                vec![p]
            }
        };
        self.nts[n].1 = ps;
        self.stack.pop();
        n
    }
}

fn composed(rng: &mut Rng) -> Bnf {
    let d = rng.range(1, 3);
    let mut b = B { rng, n_t: 0, nts: vec![], stack: vec![] };
    let n = b.make(d);
    b.nts[n].0 = true;
    if b.rng.chance(1, 3) {
        let k = b.rng.below(b.nts.len());
        b.nts[k].0 = true;
    }
    if b.n_t == 0 {
        b.n_t = 1;
    }
    let (n_t, mut nts) = (b.n_t, b.nts);
    for n in nts.iter_mut() {
        let mut ps: Vec<Vec<Sym>> = vec![];
        for p in n.1.drain(..) {
            if !ps.contains(&p) {
                ps.push(p)
            }
        }
        n.1 = ps;
    }
    Bnf { n_t, nts, origin: "composed".into() }
}

/// Lookahead contexts crossed with like-shaped bodies: LR(1) but hardly anything less.
fn contexts(rng: &mut Rng) -> Bnf {
    let k = rng.range(2, 3);
    let bodies = rng.range(2, 3);
    // terminals: prefixes 0..k, suffixes k..k+max, body terminal
    let ns = rng.range(2, 3).max(bodies);
    let x = k + ns;
    let mut nts: Vec<(bool, Vec<Vec<Sym>>)> = vec![(true, vec![])];
    for _ in 0..bodies {
        nts.push((false, vec![]));
    }
    let style = rng.below(4);
    for b in 1..=bodies {
        nts[b].1 = match style {
            0 => vec![vec![Sym::T(x)]],
            1 => vec![vec![Sym::T(x)], vec![Sym::T(x), Sym::N(b)]],
            2 => vec![vec![], vec![Sym::N(b), Sym::T(x)]],
            _ => vec![vec![Sym::T(x), Sym::T(x)]],
        };
    }
    for c in 0..k {
        let mut suf: Vec<usize> = (0..ns).collect();
        rng.shuffle(&mut suf);
        for b in 0..bodies {
            if rng.chance(1, 8) && b > 0 {
                continue;
            }
            nts[0].1.push(vec![Sym::T(c), Sym::N(1 + b), Sym::T(k + suf[b])]);
        }
    }
    if rng.chance(1, 2) {
        // recursion through a context
        nts[0].1.push(vec![Sym::T(0), Sym::N(0), Sym::T(x)]);
    }
    Bnf { n_t: x + 1, nts, origin: "contexts".into() }
}

/// Levels upon levels: what starts, ends or vanishes at the bottom shows at the top.
fn tower(rng: &mut Rng) -> Bnf {
    let n = rng.range(4, 11);
    let mut n_t = 0;
    let mut t = |rng: &mut Rng| {
        if n_t > 2 && rng.chance(1, 8) {
            return Sym::T(rng.below(n_t));
        }
        n_t += 1;
        Sym::T(n_t - 1)
    };
    let unit = rng.range(1, 9);
    let null = rng.chance(1, 4);
    let mut nts: Vec<(bool, Vec<Vec<Sym>>)> = vec![(true, vec![])];
    for i in 1..n {
        let (me, down) = (Sym::N(i), Sym::N(i + 1));
        nts.push((
            false,
            if rng.chance(unit, 10) {
                match rng.below(3) {
                    0 if null => vec![vec![down, down]],
                    1 => vec![vec![down], vec![t(rng)]],
                    _ => vec![vec![down]],
                }
            } else {
                match rng.below(7) {
                    0 => vec![vec![me, t(rng), down], vec![down]],
                    1 => vec![vec![down], vec![down, t(rng), me]],
                    2 => vec![vec![t(rng), me], vec![down]],
                    3 => vec![vec![me, t(rng)], vec![down]],
                    4 => vec![vec![down, t(rng), down], vec![down]],
                    5 => vec![vec![down], vec![t(rng), Sym::N(1), t(rng)]],
                    _ => vec![vec![down], vec![t(rng), down, down]],
                }
            },
        ));
    }
    let mut last = vec![vec![t(rng)]];
    if rng.chance(1, 2) {
        last.push(vec![t(rng), Sym::N(1), t(rng)])
    }
    if null {
        last = if rng.chance(1, 2) { vec![vec![]] } else { vec![vec![], vec![t(rng)]] }
    }
    nts.push((false, last));
    // the top looks down
    let (me, e) = (Sym::N(0), Sym::N(1));
    nts[0].1 = match rng.below(8) {
        0 => vec![vec![], vec![me, e]],
        1 => vec![vec![], vec![me, e, t(rng)]],
        2 => vec![vec![], vec![me, t(rng), e]],
        3 => {
            nts.push((false, vec![vec![], vec![t(rng)]]));
            vec![vec![Sym::N(nts.len() - 1), e, t(rng)]]
        }
        4 => {
            nts.push((false, vec![vec![t(rng)], vec![Sym::N(nts.len()), t(rng)]]));
            vec![vec![Sym::N(nts.len() - 1), e], vec![t(rng), e]]
        }
        5 => vec![vec![e, t(rng)], vec![t(rng), e, e]],
        6 => {
            // also reached from the middle
            let k = 1 + rng.below(n - 1);
            nts[k].0 = true;
            vec![vec![t(rng), e, t(rng)], vec![t(rng), Sym::N(k), t(rng)]]
        }
        _ => vec![vec![e, e]],
    };
    Bnf { n_t: n_t.max(1), nts, origin: "tower".into() }
}

/// Many terminals, and states in which many of them may follow.
fn wide(rng: &mut Rng) -> Bnf {
    let n = rng.range(14, 29);
    let mut item = vec![];
    let mut nts: Vec<(bool, Vec<Vec<Sym>>)> = vec![(true, vec![]), (false, vec![])];
    let first = rng.range(4, n - 1);
    for i in 0..first {
        match rng.below(4) {
            0 => item.push(vec![Sym::T(i)]),
            1 => item.push(vec![Sym::T(i), Sym::T(rng.below(n))]),
            2 => item.push(vec![Sym::T(i), Sym::N(1), Sym::T(rng.below(n))]),
            _ => {
                // a choice of its own
                nts.push((false, vec![]));
                let me = nts.len() - 1;
                let (a, b) = (rng.below(n), rng.below(n));
                let mut ps: Vec<Vec<Sym>> = (a.min(b)..=a.max(b)).map(|t| vec![Sym::T(t)]).collect();
                if rng.chance(1, 3) {
                    ps.push(vec![])
                }
                nts[me].1 = ps;
                item.push(vec![Sym::T(i), Sym::N(me)])
            }
        }
        if nts.len() > 6 {
            break;
        }
    }
    nts[1].1 = item;
    nts[0].1 = match rng.below(4) {
        0 => vec![vec![], vec![Sym::N(0), Sym::N(1)]],
        1 => vec![vec![Sym::N(1)], vec![Sym::N(1), Sym::N(0)]],
        2 => vec![vec![Sym::N(1)], vec![Sym::N(0), Sym::T(n - 1), Sym::N(1)]],
        _ => vec![vec![Sym::N(1), Sym::T(n - 1)]],
    };
    Bnf { n_t: n, nts, origin: "wide".into() }
}

fn mutate(b: &Bnf, rng: &mut Rng) -> Bnf {
    let mut b = b.clone();
    b.origin = format!("mutated {}", b.origin);
    for _ in 0..rng.range(1, 3) {
        let n = rng.below(b.nts.len());
        let nn = b.nts.len();
        let sym = |rng: &mut Rng, n_t: usize| if n_t == 0 || rng.chance(1, 2) { Sym::N(rng.below(nn)) } else { Sym::T(rng.below(n_t)) };
        let ps = &mut b.nts[n].1;
        let p = rng.below(ps.len());
        match rng.below(8) {
            0 => {
                if !ps[p].is_empty() {
                    let i = rng.below(ps[p].len());
                    ps[p].remove(i);
                }
            }
            1 | 2 => {
                let i = rng.below(ps[p].len() + 1);
                let s = sym(rng, b.n_t);
                ps[p].insert(i, s)
            }
            3 => {
                if !ps[p].is_empty() {
                    let i = rng.below(ps[p].len());
                    ps[p][i] = sym(rng, b.n_t)
                }
            }
            4 => ps.push(vec![]),
            5 => {
                let mut q = ps[p].clone();
                if !q.is_empty() {
                    let i = rng.below(q.len());
                    q[i] = sym(rng, b.n_t)
                }
                ps.push(q)
            }
            6 => b.nts[n].0 = true,
            _ => {
                b.n_t += 1;
                let t = Sym::T(b.n_t - 1);
                let i = rng.below(ps[p].len() + 1);
                ps[p].insert(i, t)
            }
        }
        let ps = &mut b.nts[n].1;
        let mut u: Vec<Vec<Sym>> = vec![];
        for p in ps.drain(..) {
            if !u.contains(&p) {
                u.push(p)
            }
        }
        *ps = u;
    }
    b
}

/// Makes a production or two long.
fn stretch(b: &Bnf, rng: &mut Rng) -> Bnf {
    let mut b = b.clone();
    b.origin = format!("stretched {}", b.origin);
    for _ in 0..rng.range(1, 2) {
        let n = rng.below(b.nts.len());
        let p = rng.below(b.nts[n].1.len());
        let to = rng.range(5, 12);
        while b.nts[n].1[p].len() < to {
            let mut chunk = vec![];
            if rng.chance(1, 2) || b.n_t == 0 {
                b.n_t += 1;
                chunk.push(Sym::T(b.n_t - 1));
            } else {
                chunk.push(Sym::T(rng.below(b.n_t)));
            }
            if rng.chance(2, 3) {
                chunk.push(Sym::N(rng.below(b.nts.len())))
            }
            let q = &mut b.nts[n].1[p];
            let at = rng.below(q.len() + 1);
            q.splice(at..at, chunk);
        }
    }
    b
}

/// Runs of symbols most of which can be empty, as modifiers and clauses are.
fn optionals(rng: &mut Rng) -> Bnf {
    let mut n_t = 0;
    let mut fresh = || {
        n_t += 1;
        Sym::T(n_t - 1)
    };
    let mut nts: Vec<(bool, Vec<Vec<Sym>>)> = vec![(true, vec![]), (false, vec![])];
    let n = rng.range(3, 9);
    let mut run = vec![];
    for i in 0..n {
        let me = nts.len();
        let ps = match rng.below(8) {
            0 | 1 | 2 => vec![vec![], vec![fresh()]],
            3 => vec![vec![], vec![fresh(), fresh()]],
            4 => vec![vec![], vec![Sym::N(me), fresh()]],
            5 => vec![vec![], vec![fresh()], vec![fresh()]],
            // can be empty only through another one
            6 if i > 0 => vec![vec![Sym::N(rng.range(2, me - 1)), fresh()], vec![]],
            _ => vec![vec![fresh()]],
        };
        nts.push((false, ps));
        run.push(Sym::N(me));
    }
    let x = nts.len();
    nts.push((false, if rng.chance(1, 2) { vec![vec![fresh()]] } else { vec![vec![fresh()], vec![Sym::N(x), fresh()]] }));
    // something complete before the run, within it, or after it
    for _ in 0..rng.range(1, 2) {
        let at = rng.below(run.len() + 1);
        run.insert(at, if rng.chance(1, 4) { fresh() } else { Sym::N(x) });
    }
    let mut item = vec![run];
    if rng.chance(1, 2) {
        item.push(vec![fresh()])
    }
    nts[1].1 = item;
    let i = Sym::N(1);
    nts[0].1 = match rng.below(5) {
        0 => vec![vec![], vec![Sym::N(0), i]],
        1 => vec![vec![i], vec![Sym::N(0), fresh(), i]],
        2 => vec![vec![i]],
        3 => vec![vec![], vec![i, fresh(), Sym::N(0)]],
        _ => vec![vec![fresh(), i, fresh()], vec![i, i]],
    };
    Bnf { n_t, nts, origin: "optionals".into() }
}

/// Larger than what `bnf` makes, quickly expanded all the same.
pub fn middling(rng: &mut Rng) -> Bnf {
    let (s, x) = (Sym::N(0), Sym::N(1));
    match rng.below(4) {
        0 => {
            let n = rng.range(31, 80);
            let ps = (0..n).map(|i| vec![Sym::T(i)]).collect();
            Bnf { n_t: n, nts: vec![(true, vec![vec![], vec![s, x]]), (false, ps)], origin: "many terminals".into() }
        }
        1 => {
            let n = rng.range(25, 70);
            let mut nts = vec![(true, vec![vec![], vec![s, x]])];
            for i in 1..n {
                nts.push((rng.chance(1, 12), vec![vec![Sym::T(i % 9), Sym::N(i + 1)], vec![Sym::T(9 + i % 9)]]));
            }
            nts.push((false, vec![vec![Sym::T(0)]]));
            Bnf { n_t: 18, nts, origin: "many non-terminals".into() }
        }
        2 => {
            let n = rng.range(20, 70);
            let mut p = vec![];
            for i in 0..n {
                p.push(if i % 11 == 3 { x } else { Sym::T(i % 3) })
            }
            Bnf { n_t: 4, nts: vec![(true, vec![p, vec![Sym::T(3)]]), (false, vec![vec![Sym::T(3)]])], origin: "long production".into() }
        }
        _ => big(5, rng),
    }
}

/// Grammars whose tables exceed what small integers hold. `k` picks the dimension.
pub fn big(k: usize, rng: &mut Rng) -> Bnf {
    match k {
        0 => {
            // more than 256 terminals, states and productions
            let n = rng.range(258, 270);
            let mut ps = vec![];
            for i in 0..n {
                ps.push(vec![Sym::T(i)])
            }
            // after one of the two further terminals few of them fit; the other fits nowhere
            let few = (0..n).filter(|i| i % 6 == 1).map(|i| vec![Sym::T(i)]).collect();
            let (s, x, y) = (Sym::N(0), Sym::N(1), Sym::N(2));
            Bnf {
                n_t: n + 2,
                nts: vec![(true, vec![vec![], vec![s, x], vec![s, Sym::T(n), y]]), (false, ps), (true, few)],
                origin: "big terminals".into(),
            }
        }
        1 => {
            // more than 256 symbols in a production
            let n = rng.range(257, 262);
            let mut p = vec![];
            for i in 0..n {
                p.push(if i % 40 == 7 { Sym::N(1) } else { Sym::T(i % 2) })
            }
            Bnf {
                n_t: 3,
                nts: vec![(true, vec![p, vec![Sym::T(2)]]), (false, vec![vec![Sym::T(2)]])],
                origin: "big production".into(),
            }
        }
        2 => {
            // more than 128 non-terminals, sharing few terminals
            let n = rng.range(130, 140);
            let mut nts = vec![(true, vec![])];
            for i in 0..n {
                nts[0].1.push(vec![Sym::T(i % 12), Sym::T(12 + i / 12), Sym::N(i + 1)]);
            }
            for i in 0..n {
                nts.push((false, vec![vec![Sym::T(i % 7)]]));
            }
            Bnf { n_t: 12 + n / 12 + 1, nts, origin: "big non-terminals".into() }
        }
        3 => {
            // more than 256 non-terminals in a unit/sequence chain
            let n = rng.range(262, 268);
            let mut nts: Vec<(bool, Vec<Vec<Sym>>)> = vec![];
            for i in 0..n {
                let mut ps = vec![];
                if i + 1 < n {
                    ps.push(vec![Sym::T(0), Sym::N(i + 1)]);
                    if i % 3 == 0 {
                        ps.push(vec![Sym::T(1)]);
                    }
                } else {
                    ps.push(vec![Sym::T(2)]);
                }
                nts.push((i == 0, ps));
            }
            Bnf { n_t: 3, nts, origin: "big chain".into() }
        }
        4 => {
            // more than 64 terminals and several hundred states
            let n = rng.range(66, 72);
            let mut ps = vec![];
            for i in 0..n {
                ps.push(vec![Sym::T(i), Sym::T((i * 7 + 1) % n), Sym::N(2)])
            }
            Bnf {
                n_t: n + 1,
                nts: vec![
                    (true, vec![vec![Sym::N(1)], vec![Sym::N(0), Sym::T(n), Sym::N(1)]]),
                    (false, ps),
                    (true, vec![vec![], vec![Sym::N(2), Sym::T(3)]]),
                ],
                origin: "big table".into(),
            }
        }
        6 => {
            // a conflict in each of many states
            let n = rng.range(24, 27);
            let mut ps = vec![vec![Sym::T(n)]];
            for i in 0..n {
                ps.push(vec![Sym::T(i), Sym::N(0)]);
                ps.push(vec![Sym::T(i), Sym::N(0), Sym::T(n + 1 + i % 3), Sym::N(0)]);
            }
            Bnf { n_t: n + 4, nts: vec![(true, ps)], origin: "many conflicts".into() }
        }
        7 => {
            // many patterns
            let n = rng.range(258, 270);
            let ps = (0..n).map(|i| vec![Sym::T(i)]).collect();
            Bnf { n_t: n, nts: vec![(true, vec![vec![], vec![Sym::N(0), Sym::N(1)]]), (false, ps)], origin: "big patterns".into() }
        }
        _ => {
            // many entry points
            let n = rng.range(20, 40);
            let mut nts = vec![];
            for i in 0..n {
                nts.push((true, vec![vec![Sym::T(i % 5)], vec![Sym::T(5), Sym::N((i + 1) % n), Sym::T(6)]]));
            }
            Bnf { n_t: 7, nts, origin: "many entries".into() }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Want {
    /// conflict-free
    Free,
    /// shift/reduce conflicts only (the macro may accept it)
    Sr,
    /// many terminals over shared variants
    Patterns,
}

/// The `i`th grammar of a batch.
pub fn bnf(i: usize, want: Want, cap: usize, rng: &mut Rng) -> Bnf {
    let mut tries = 0;
    loop {
        tries += 1;
        let b = match want {
            Want::Patterns => patterns_bnf(rng),
            Want::Free if tries == 1 && i < CURATED.len() => parse_bnf(CURATED[i]),
            Want::Sr if tries == 1 && i < AMBIGUOUS.len() => parse_bnf(AMBIGUOUS[i]),
            Want::Sr => match rng.below(6) {
                0 | 1 => mutate(&parse_bnf(rng.pick(AMBIGUOUS)), rng),
                2 => mutate(&parse_bnf(rng.pick(CURATED)), rng),
                3 => composed(rng),
                4 => tower(rng),
                _ => random_cfg(rng),
            },
            Want::Free => match rng.below(16) {
                14 | 15 => optionals(rng),
                12 => stretch(&parse_bnf(rng.pick(CURATED)), rng),
                13 => {
                    let c = if rng.chance(1, 2) { composed(rng) } else { random_cfg(rng) };
                    stretch(&c, rng)
                }
                10 | 11 => tower(rng),
                9 => wide(rng),
                0 | 1 => mutate(&parse_bnf(rng.pick(CURATED)), rng),
                2 => parse_bnf(rng.pick(CURATED)),
                3 => contexts(rng),
                4 | 5 => composed(rng),
                6 => {
                    let c = composed(rng);
                    mutate(&c, rng)
                }
                _ => random_cfg(rng),
            },
        };
        if b.nts.len() > 24 || b.n_t > 30 || b.has_dup() {
            continue;
        }
        // trivial grammars teach little; keep few
        let n_prods: usize = b.nts.iter().map(|n| n.1.len()).sum();
        if n_prods < 3 && tries > 1 && !rng.chance(1, 6) {
            continue;
        }
        let g = b.g();
        let unreachable = g.reachable(&b.entries()).iter().filter(|r| !**r).count();
        if unreachable > 0 && tries > 1 && !rng.chance(1, 5) {
            continue;
        }
        match classify(&b, cap) {
            Some((_, c)) if (want != Want::Sr && c.none()) || (want == Want::Sr && c.only_sr()) => return b,
            _ => {}
        }
    }
}

/// Lists of tokens where every terminal is bound: what is being tested is the token patterns.
fn patterns_bnf(rng: &mut Rng) -> Bnf {
    let n = rng.range(2, 9);
    let mut nts: Vec<(bool, Vec<Vec<Sym>>)> = vec![(true, vec![]), (false, vec![])];
    nts[0].1 = if rng.chance(1, 2) { vec![vec![], vec![Sym::N(0), Sym::N(1)]] } else { vec![vec![], vec![Sym::N(1), Sym::N(0)]] };
    let mut t = 0;
    while t < n {
        let k = rng.range(1, 3).min(n - t);
        nts[1].1.push((t..t + k).map(Sym::T).collect());
        t += k;
    }
    Bnf { n_t: n, nts, origin: "patterns".into() }
}

// ---------------------------------------------------------------------------------------------
// decoration: from BNF to what `parser!` is given

const T_NAMES: &[&str] = &[
    "a", "b", "c", "id", "num", "+", "-", "*", "/", "(", ")", "[", "]", "{", "}", ",", ";", "if", "then", "else", "==", "=>",
    "->", "<", ">", "<x:A>", "'", "\"", "\\", "é", "two words", "a, b", "{}", "{:?}", "%s", "x1", "Id", "true", "end", "λ", "\n",
    "_", "..", "A", "S", "#", "$", "end of input", "", "{0}", "{x}", "\0", "\t\t", "$x", "'a",
    "a name that is a good deal longer than the name of any token has a right to be, and then some more of it",
];

const NT_STYLES: &[&[&str]] = &[
    &["S", "A", "B", "C", "D", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "T", "U", "X", "Y", "Z", "E"],
    &["S", "S1", "S11", "S2", "S12", "S111", "S0", "S10", "T", "T1", "T11", "T2", "U1", "U", "U11", "S21", "S3", "S13", "S31", "T3", "T13", "X", "X1", "X11"],
    &["expr", "term", "factor", "Stmt", "Block", "list", "item", "opt", "Program", "name", "value", "pair", "args", "args1", "arg", "body", "head", "tail", "rest", "More", "node", "leaf", "top", "élan"],
    &["E", "R", "T0", "Tok1", "Errs", "Token", "Parser", "Input", "State", "E1", "R1", "A", "A1", "B", "B1", "Zz", "zz", "Zz1", "Entry", "Main", "X", "Y", "Z", "W0"],
];

fn rand_ty(rng: &mut Rng, depth: usize) -> Ty {
    match rng.below(if depth == 0 { 7 } else { 10 }) {
        0 | 1 | 2 => Ty::Pay,
        3 => Ty::U32,
        4 => Ty::Str,
        5 => Ty::Char,
        6 => Ty::Bool,
        7 => {
            let n = rng.range(1, 3);
            Ty::Tup((0..n).map(|_| rand_ty(rng, depth - 1)).collect())
        }
        8 => Ty::Opt(Box::new(rand_ty(rng, 0))),
        _ => Ty::In,
    }
}

fn lit_for(ty: &Ty, rng: &mut Rng) -> Option<Pat> {
    Some(Pat::Lit(match ty {
        Ty::U32 => rng.below(N_U32 as usize) as u32,
        Ty::Str => rng.below(STRS.len()) as u32,
        Ty::Char => rng.below(CHARS.len()) as u32,
        Ty::Bool => rng.below(2) as u32,
        _ => return None,
    }))
}

/// Pattern for a position; `refut`: how likely it may fail to match (of 10).
fn rand_pat(ty: &Ty, rng: &mut Rng, refut: usize, caps: &mut usize) -> Pat {
    if rng.chance(refut, 10) {
        if let Some(p) = lit_for(ty, rng) {
            return p;
        }
        match ty {
            Ty::Opt(t) => {
                return if rng.chance(1, 2) { Pat::Some(Box::new(rand_pat(t, rng, refut / 2, caps))) } else { Pat::None };
            }
            Ty::In => {
                return match rng.below(3) {
                    0 => Pat::InA(Box::new(rand_pat(&Ty::Pay, rng, 0, caps))),
                    1 => {
                        let q = rng.chance(3, 4).then(|| Box::new(rand_pat(&Ty::Pay, rng, 0, caps)));
                        let r = rng.chance(3, 4).then(|| Box::new(rand_pat(&Ty::U32, rng, refut / 2, caps)));
                        let dots = q.is_none() || r.is_none() || rng.chance(1, 3);
                        Pat::InB(q, r, dots)
                    }
                    _ => Pat::InC,
                };
            }
            _ => {}
        }
    }
    match ty {
        Ty::Tup(ts) if rng.chance(2, 3) => Pat::Tup(rand_pats(ts, rng, refut, caps)),
        _ => {
            if *caps < 7 && rng.chance(3, 5) {
                *caps += 1;
                Pat::Cap
            } else {
                Pat::Wild
            }
        }
    }
}

fn rand_pats(ts: &[Ty], rng: &mut Rng, refut: usize, caps: &mut usize) -> Vec<Pat> {
    // positions [a, b) are left to `..`
    let (a, b) = if rng.chance(1, 6) {
        let a = rng.below(ts.len() + 1);
        (a, rng.range(a, ts.len()))
    } else {
        (usize::MAX, 0)
    };
    let mut v = vec![];
    for (i, t) in ts.iter().enumerate() {
        if i == a {
            v.push(Pat::Rest);
        }
        if a == usize::MAX || i < a || i >= b {
            v.push(rand_pat(t, rng, refut, caps));
        }
    }
    if a == ts.len() {
        v.push(Pat::Rest);
    }
    v
}

fn has_str(t: &Ty) -> bool {
    match t {
        Ty::Str => true,
        Ty::Tup(v) => v.iter().any(has_str),
        Ty::Opt(t) => has_str(t),
        _ => false,
    }
}

fn irrefutable(p: &Pat) -> bool {
    match p {
        Pat::Wild | Pat::Cap | Pat::Rest => true,
        Pat::Tup(v) => v.iter().all(irrefutable),
        _ => false,
    }
}

fn rand_shape(rng: &mut Rng) -> Shape {
    match rng.below(10) {
        0 | 1 => Shape::Unit,
        2..=7 => {
            let n = rng.range(1, 3);
            Shape::Tuple((0..n).map(|_| rand_ty(rng, 2)).collect())
        }
        _ => {
            let n = rng.range(1, 3);
            Shape::Struct((0..n).map(|_| rand_ty(rng, 1)).collect())
        }
    }
}

fn term_pat(var: usize, sh: &Shape, rng: &mut Rng, refut: usize) -> TermPat {
    let mut caps = 0;
    TermPat::Var(
        var,
        match sh {
            Shape::Unit => vec![],
            Shape::Tuple(ts) => rand_pats(ts, rng, refut, &mut caps).into_iter().map(Some).collect(),
            Shape::Struct(ts) => ts
                .iter()
                .map(|t| if rng.chance(1, 4) { None } else { Some(rand_pat(t, rng, refut, &mut caps)) })
                .collect(),
        },
    )
}

fn pat_total(p: &TermPat) -> bool {
    match p {
        TermPat::Any => true,
        TermPat::Var(_, ps) => ps.iter().flatten().all(irrefutable),
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Style {
    Mixed,
    /// every terminal bound, more sharing and literals
    Patterns,
    /// small payloads, for big grammars
    Plain,
}

pub fn decorate(id: String, b: &Bnf, style: Style, rng: &mut Rng) -> Spec {
    // a token enum without any token is no sensible definition
    let b = &Bnf { n_t: b.n_t.max(1), nts: b.nts.clone(), origin: b.origin.clone() };
    let n_n = b.nts.len();
    // declaration orders
    let mut norder: Vec<usize> = (0..n_n).collect();
    match rng.below(6) {
        0 | 1 => {}
        2 => norder.reverse(),
        _ => rng.shuffle(&mut norder),
    }
    let mut npos = vec![0; n_n];
    for (i, &n) in norder.iter().enumerate() {
        npos[n] = i
    }

    // token variants and terminals
    let lifetime = rng.chance(1, 3);
    let share = match style {
        Style::Patterns => rng.range(2, 6),
        Style::Plain => 0,
        Style::Mixed => *rng.pick(&[0, 0, 1, 3]),
    };
    let mut variants: Vec<(String, Shape)> = vec![];
    // terminal of the BNF -> pattern
    let mut pats: Vec<TermPat> = vec![];
    let mut groups: Vec<Vec<usize>> = vec![]; // variant -> terminals
    for t in 0..b.n_t {
        let use_old = !variants.is_empty() && rng.chance(share, 8);
        let v = if use_old {
            let v = rng.below(variants.len());
            if variants[v].1 == Shape::Unit { usize::MAX } else { v }
        } else {
            usize::MAX
        };
        let v = if v == usize::MAX {
            let sh = if style == Style::Plain {
                if rng.chance(1, 2) { Shape::Unit } else { Shape::Tuple(vec![Ty::Pay]) }
            } else {
                rand_shape(rng)
            };
            variants.push((format!("V{}", variants.len()), sh));
            groups.push(vec![]);
            variants.len() - 1
        } else {
            v
        };
        groups[v].push(t);
        pats.push(term_pat(v, &variants[v].1, rng, 0));
    }
    // sharing variants need refutable patterns, except for the last of the group
    let mut order: Vec<usize> = (0..b.n_t).collect();
    if rng.chance(3, 4) {
        rng.shuffle(&mut order);
    }
    for (v, ts) in groups.iter().enumerate() {
        if ts.len() > 1 {
            let mut by_pos = ts.clone();
            by_pos.sort_by_key(|t| order.iter().position(|o| o == t));
            let n = by_pos.len();
            for (i, t) in by_pos.into_iter().enumerate() {
                let refut = if i + 1 == n { *rng.pick(&[0, 0, 5]) } else { 8 };
                for _ in 0..6 {
                    pats[t] = term_pat(v, &variants[v].1, rng, refut);
                    if refut == 0 || !pat_total(&pats[t]) {
                        break;
                    }
                }
            }
        } else if style == Style::Patterns && rng.chance(1, 3) {
            pats[ts[0]] = term_pat(v, &variants[v].1, rng, 6);
        }
    }
    let mut all: Vec<(Option<usize>, TermPat)> = order.iter().map(|&t| (Some(t), pats[t].clone())).collect();
    // make the pattern list exhaustive
    let mut uncovered: Vec<usize> =
        (0..variants.len()).filter(|&v| !groups[v].iter().any(|t| pat_total(&pats[*t]))).collect();
    if rng.chance(1, 6) && style != Style::Plain {
        let sh = rand_shape(rng);
        variants.push((format!("V{}", variants.len()), sh));
        uncovered.push(variants.len() - 1);
    }
    if !uncovered.is_empty() && rng.chance(1, 2) {
        all.push((None, TermPat::Any));
        uncovered.clear();
    }
    for v in uncovered {
        all.push((None, term_pat(v, &variants[v].1, rng, 0)));
    }
    if rng.chance(1, 12) && style != Style::Plain && !all.iter().any(|x| x.1 == TermPat::Any) {
        all.push((None, TermPat::Any));
    }
    if rng.chance(1, 20) && style != Style::Plain && all.len() > 2 {
        // what comes after `_` never matches
        all.retain(|x| x.1 != TermPat::Any);
        let at = rng.range(all.len() / 2, all.len());
        all.insert(at, (None, TermPat::Any));
    }
    let mut names: Vec<String> = T_NAMES.iter().map(|s| s.to_string()).collect();
    if rng.chance(2, 3) {
        rng.shuffle(&mut names);
    }
    while names.len() < all.len() {
        names.push(format!("tok{}", names.len()))
    }
    let mut tpos = vec![0; b.n_t];
    for (i, (t, _)) in all.iter().enumerate() {
        if let Some(t) = t {
            tpos[*t] = i
        }
    }
    let terms: Vec<Term> =
        all.into_iter().enumerate().map(|(i, (_, pat))| Term { name: names[i].clone(), pat }).collect();
    if rng.chance(1, 2) && variants.len() > 1 {
        // order of the enum's variants need not be that of the terminals
        let mut vo: Vec<usize> = (0..variants.len()).collect();
        rng.shuffle(&mut vo);
        let mut inv = vec![0; vo.len()];
        for (i, v) in vo.iter().enumerate() {
            inv[*v] = i
        }
        variants = vo.iter().map(|v| variants[*v].clone()).collect();
        return finish(id, b, style, rng, lifetime, norder, npos, variants, terms, tpos, Some(inv));
    }
    finish(id, b, style, rng, lifetime, norder, npos, variants, terms, tpos, None)
}

#[allow(clippy::too_many_arguments)]
fn finish(
    id: String,
    b: &Bnf,
    style: Style,
    rng: &mut Rng,
    lifetime: bool,
    norder: Vec<usize>,
    npos: Vec<usize>,
    variants: Vec<(String, Shape)>,
    mut terms: Vec<Term>,
    tpos: Vec<usize>,
    inv: Option<Vec<usize>>,
) -> Spec {
    if let Some(inv) = inv {
        for t in terms.iter_mut() {
            if let TermPat::Var(v, _) = &mut t.pat {
                *v = inv[*v]
            }
        }
    }
    let st = if b.nts.len() > 24 { 99 } else { rng.below(NT_STYLES.len()) };
    let mut nn: Vec<String> = if st == 99 {
        (0..b.nts.len()).map(|i| format!("Nt{i}")).collect()
    } else {
        NT_STYLES[st].iter().map(|s| s.to_string()).collect()
    };
    if rng.chance(1, 2) {
        rng.shuffle(&mut nn);
    }
    let bind_w: [usize; 3] = *rng.pick(&[[3, 5, 2], [0, 4, 1], [8, 1, 1], [1, 1, 0]]);
    let one_ty = rng.chance(1, 4);
    let ty0 = *rng.pick(&NT_TYS[..8]);
    let lifetime = lifetime
        && variants.iter().any(|(_, sh)| match sh {
            Shape::Unit => false,
            Shape::Tuple(ts) | Shape::Struct(ts) => ts.iter().any(has_str),
        });
    let mut nts = vec![];
    for (i, &n) in norder.iter().enumerate() {
        let (public, ps) = &b.nts[n];
        let mut prods: Vec<Prod> = ps
            .iter()
            .map(|p| {
                let rhs = p
                    .iter()
                    .map(|s| {
                        let bd = match style {
                            Style::Patterns if matches!(s, Sym::T(_)) => *rng.pick(&[Bind::Name, Bind::Mut, Bind::Name]),
                            _ => [Bind::No, Bind::Name, Bind::Mut][rng.weighted(&bind_w)],
                        };
                        let s = match s {
                            Sym::T(t) => Sym::T(tpos[*t]),
                            Sym::N(m) => Sym::N(npos[*m]),
                        };
                        (s, bd)
                    })
                    .collect();
                Prod::new(rhs)
            })
            .collect();
        if rng.chance(1, 2) {
            rng.shuffle(&mut prods);
        }
        let ty = if one_ty {
            ty0
        } else {
            *rng.pick(if lifetime { &NT_TYS } else { &NT_TYS[..8] })
        };
        nts.push(Nt { name: nn[i].clone(), public: *public, ty, prods });
    }
    // actions that say nothing, or the same
    let (quiet, anon) = (rng.chance(1, 4), rng.chance(1, 6));
    if quiet && rng.chance(1, 2) {
        let ty = *rng.pick(&[NtTy::Opt, NtTy::Opt, NtTy::VecN]);
        nts.iter_mut().for_each(|n| n.ty = ty)
    }
    let tys: Vec<NtTy> = nts.iter().map(|n| n.ty).collect();
    for n in nts.iter_mut() {
        for p in n.prods.iter_mut() {
            let ids: Vec<usize> = (0..p.rhs.len())
                .filter(|&i| matches!(p.rhs[i], (Sym::N(m), b) if tys[m] == n.ty && b != Bind::No))
                .collect();
            if quiet && !ids.is_empty() && rng.chance(2, 5) {
                p.kind = PKind::Id(*rng.pick(&ids))
            } else if quiet && has_konst(n.ty) && rng.chance(1, 3) {
                p.kind = PKind::Konst
            } else if anon && rng.chance(1, 2) {
                p.kind = PKind::Anon
            }
        }
    }
    let str_in = |odd: usize| {
        variants.iter().enumerate().any(|(i, (_, sh))| match sh {
            Shape::Unit => false,
            Shape::Tuple(ts) | Shape::Struct(ts) => i % 2 == odd && ts.iter().any(has_str),
        })
    };
    let lt2 = lifetime && str_in(0) && str_in(1) && rng.chance(1, 2);
    Spec {
        id,
        origin: b.origin.clone(),
        flags: Flags {
            lifetime,
            lent: rng.chance(1, 2),
            bare: rng.chance(1, 5),
            enum_last: rng.chance(1, 4),
            state_item: rng.chance(1, 10),
            names: rng.below(3),
            lt2,
            style: if rng.chance(1, 2) { 0 } else { rng.range(1, 1 << 20) },
        },
        variants,
        terms,
        nts,
    }
}

fn late(sp: &Spec) -> bool {
    let g = G::of(sp);
    sp.entries().iter().any(|&e| lr::build(&g, e, 1000).map_or(true, |t| t.conflicts.late > 0))
}

/// Batch of grammars for a check.
pub fn batch(prop: &str, seed: u64, from: usize, n: usize, thorough: bool) -> Vec<Spec> {
    let cap = if thorough { 220 } else { 120 };
    let mut v = vec![];
    for i in from..from + n {
        let mut rng = Rng::new(crate::prng::mix(seed, crate::prng::mix(crate::prng::hash_str(prop), i as u64)));
        let (want, style) = match prop {
            "C11" => {
                if rng.chance(3, 4) {
                    (Want::Patterns, Style::Patterns)
                } else {
                    (Want::Free, Style::Patterns)
                }
            }
            "C12" => (Want::Sr, Style::Mixed),
            "C09" if rng.chance(1, 4) => (Want::Sr, Style::Mixed),
            _ => (Want::Free, Style::Mixed),
        };
        let b = bnf(i, want, cap, &mut rng);
        let mut sp = decorate(format!("g{i}"), &b, style, &mut rng);
        // the macro takes a shift/reduce conflict only if the complete production is declared first
        if want == Want::Sr && rng.chance(5, 6) {
            let mut tries = 0;
            let mut b = b;
            while late(&sp) {
                tries += 1;
                if tries % 12 == 0 {
                    b = bnf(usize::MAX, want, cap, &mut rng)
                }
                sp = decorate(format!("g{i}"), &b, style, &mut rng);
            }
        }
        v.push(sp);
    }
    v
}

pub fn big_batch(seed: u64, kinds: &[usize]) -> Vec<Spec> {
    kinds
        .iter()
        .map(|&k| {
            let mut rng = Rng::new(crate::prng::mix(seed, 0xB16 + k as u64));
            let b = big(k, &mut rng);
            if k == 6 {
                // the macro takes a conflict only if the complete production comes first
                let mut sp = decorate(format!("big{k}"), &b, Style::Plain, &mut rng);
                for nt in sp.nts.iter_mut() {
                    nt.prods.sort_by_key(|p| p.rhs.len())
                }
                return sp;
            }
            decorate(format!("big{k}"), &b, if k == 7 { Style::Patterns } else { Style::Plain }, &mut rng)
        })
        .collect()
}

/// A grammar with the same names but another meaning. Need not be well-formed.
pub fn twin(sp: &Spec, rng: &mut Rng) -> Spec {
    let mut t = sp.clone();
    t.origin = format!("twin of {}", sp.origin);
    for _ in 0..rng.range(1, 2) {
        let n = rng.below(t.nts.len());
        let np = t.nts[n].prods.len();
        match rng.below(9) {
            0 if np > 1 => {
                t.nts[n].prods.remove(rng.below(np));
            }
            1 if np > 1 => t.nts[n].prods.swap(0, np - 1),
            2 if np > 0 => {
                let p = rng.below(np);
                let l = t.nts[n].prods[p].rhs.len();
                if l > 0 {
                    let k = rng.below(l);
                    t.nts[n].prods[p].rhs.remove(k);
                }
            }
            3 if np > 0 => {
                let s = Sym::T(rng.below(t.terms.len()));
                let p = rng.below(np);
                t.nts[n].prods[p].rhs.push((s, Bind::No))
            }
            4 => {
                let (i, j) = (rng.below(t.terms.len()), rng.below(t.terms.len()));
                let p = t.terms[i].pat.clone();
                t.terms[i].pat = t.terms[j].pat.clone();
                t.terms[j].pat = p;
            }
            5 => {
                let (i, j) = (rng.below(t.nts.len()), rng.below(t.nts.len()));
                let p = t.nts[i].prods.clone();
                t.nts[i].prods = t.nts[j].prods.clone();
                t.nts[j].prods = p;
            }
            6 => t.nts[n].ty = *rng.pick(&NT_TYS[..8]),
            7 => t.nts[n].public = !t.nts[n].public,
            _ => t.flags.names = (t.flags.names + 1) % 3,
        }
    }
    t
}

/// Damages a macro input.
pub fn damage(text: &str, rng: &mut Rng) -> String {
    let lines: Vec<&str> = text.lines().collect();
    let mut out: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
    let k = rng.below(lines.len());
    match rng.below(5) {
        0 => {
            out.remove(k);
        }
        1 => out.insert(k, lines[k].to_string()),
        2 => out[k] = out[k].replacen(|c: char| "=>{};,:".contains(c), "", 1),
        3 => out[k] = out[k].replace("=> ", "=> undefined_terminal \"zzz\" "),
        _ => {
            let j = rng.below(lines.len());
            out.swap(j, k)
        }
    }
    out.join("\n") + "\n"
}

// ---------------------------------------------------------------------------------------------
// definitions that must be rejected, and ones that must not

/// Whether the macro must accept a grammar; None when that is left open (shift/reduce conflicts).
pub fn verdict(sp: &Spec, cap: usize) -> Option<bool> {
    let g = G::of(sp);
    if !g.all_productive() || sp.entries().is_empty() {
        return None;
    }
    let mut c = Conflicts::default();
    for e in sp.entries() {
        let t = lr::build(&g, e, cap)?.conflicts;
        c.sr += t.sr;
        c.rr += t.rr;
        c.acc += t.acc;
    }
    if c.none() {
        Some(true)
    } else if c.rr + c.acc > 0 {
        Some(false)
    } else {
        None
    }
}

/// Unresolvable conflicts of many kinds.
const UNRESOLVABLE: &[&str] = &[
    "*S: A | B; A: a; B: a",
    "*S: A x | B x; A: a; B: a",
    "*S: A x | B y x | B x; A: a; B: a",
    "*S: A | B x; A: ; B: ",
    "*S: A b | B b; A: ; B: ",
    "*S: A O | B O; A: a; B: a; O: | o",
    "*S: l S r | A | B; A: a A | a; B: b | a",
    "*S: S | a",
    "*S: A; A: S | a",
    "*S: A | a; A: S O; O: ",
    "*S: O S | a; O: | o",
    "*S: S O | a; O: | o",
    "*S: S S | a | ",
    "*S: x A y | x B y; A: a O; B: a P; O: ; P: ",
    "*S: A A; A: B | C; B: a; C: a b | a",
    "*S: A x A y | B x B z; A: a; B: a",
    "*S: i; *U: A | B; A: a; B: a",
    "*S: l L r; L: A | L A; A: B | C; B: a | b; C: c | b",
    "*S: E; E: E p E | T; T: a | E",
    "*S: A B C | D; A: ; B: ; C: ; D: ",
    "*S: X | Y; X: a b c d e; Y: a b c d Z; Z: e",
    "*S: a S a | b S b | A | B; A: c; B: c",
    "*S: A t | a B t; A: a b; B: b",
    "*S: A t | a B u | a B t; A: a b; B: b",
    "*S: N N; N: x | x O; O: ",
];

/// A grammar with an unresolvable conflict, made from one without.
fn conflicted(b: &Bnf, rng: &mut Rng) -> Bnf {
    let mut c = b.clone();
    let n = rng.below(c.nts.len());
    let np = c.nts[n].1.len();
    if np == 0 {
        return c;
    }
    let p = rng.below(np);
    match rng.below(7) {
        // the same production under another name, in the same place
        0 | 1 | 2 => {
            let rhs = c.nts[n].1[p].clone();
            let m = c.nts.len();
            let mut ps = vec![rhs];
            if rng.chance(1, 3) {
                ps.push(vec![Sym::T(c.n_t)]);
                c.n_t += 1
            }
            c.nts.push((false, ps));
            let at: Vec<(usize, usize, usize)> = (0..c.nts.len() - 1)
                .flat_map(|i| {
                    let ps = &c.nts[i].1;
                    (0..ps.len()).flat_map(move |j| (0..ps[j].len()).map(move |k| (i, j, k)))
                })
                .filter(|&(i, j, k)| c.nts[i].1[j][k] == Sym::N(n))
                .collect();
            if at.is_empty() {
                c.nts[n].1.push(vec![Sym::N(m)])
            } else {
                let (i, j, k) = *rng.pick(&at);
                let mut q = c.nts[i].1[j].clone();
                q[k] = Sym::N(m);
                let x = rng.below(c.nts[i].1.len() + 1);
                c.nts[i].1.insert(x, q);
            }
        }
        // nothing, in two ways
        3 => {
            let m = c.nts.len();
            c.nts.push((false, vec![vec![]]));
            let k = rng.below(c.nts[n].1[p].len() + 1);
            let mut q = c.nts[n].1[p].clone();
            q.insert(k, Sym::N(m));
            c.nts[n].1.push(q)
        }
        // itself
        4 => c.nts[n].1.push(vec![Sym::N(n)]),
        // a terminal, also by another way
        5 => {
            let m = c.nts.len();
            let k = c.nts[n].1[p].iter().position(|s| matches!(s, Sym::T(_)));
            if let Some(k) = k {
                let s = c.nts[n].1[p][k];
                let mut q = c.nts[n].1[p].clone();
                q[k] = Sym::N(m);
                c.nts.push((false, vec![vec![s]]));
                let (mut r, l) = (q.clone(), c.nts.len());
                r[k] = Sym::N(l);
                c.nts.push((false, vec![vec![s]]));
                c.nts[n].1[p] = q;
                c.nts[n].1.push(r)
            }
        }
        _ => {
            let q = c.nts[n].1[p].clone();
            c.nts[n].1.push(q)
        }
    }
    c.origin = format!("conflicted {}", c.origin);
    c
}

/// `want`: with an unresolvable conflict, or without any.
pub fn definite(want: bool, cap: usize, rng: &mut Rng) -> Bnf {
    loop {
        let b = if want {
            bnf(usize::MAX, Want::Free, cap, rng)
        } else {
            match rng.below(8) {
                0 => parse_bnf(rng.pick(UNRESOLVABLE)),
                1 => mutate(&parse_bnf(rng.pick(UNRESOLVABLE)), rng),
                2 => random_cfg(rng),
                3 => stretch(&conflicted(&bnf(usize::MAX, Want::Free, cap, rng), rng), rng),
                4 => {
                    let b = bnf(usize::MAX, Want::Sr, cap, rng);
                    conflicted(&b, rng)
                }
                _ => conflicted(&bnf(usize::MAX, Want::Free, cap, rng), rng),
            }
        };
        if b.n_t > 60 || b.nts.len() > 60 {
            continue;
        }
        match classify(&b, cap) {
            Some((_, c)) if want && c.none() || !want && c.rr + c.acc > 0 => return b,
            _ => {}
        }
    }
}

/// The same with `n` further terminals, declared first, and where they fit in without any conflict.
fn padded(b: &Bnf, n: usize, rng: &mut Rng) -> Bnf {
    let shift = |s: &Sym| if let Sym::T(t) = s { Sym::T(t + n) } else { *s };
    let mut c = Bnf {
        n_t: b.n_t + n,
        nts: b.nts.iter().map(|(e, ps)| (*e, ps.iter().map(|p| p.iter().map(shift).collect()).collect())).collect(),
        origin: format!("padded {}", b.origin),
    };
    let entry = b.nts.iter().position(|x| x.0).unwrap();
    let mut at = 0;
    // many states, many productions, or many non-terminals with them
    let kind = rng.below(3);
    while at < n {
        let k = if kind == 0 { rng.range(1, 12).min(n - at) } else { 1 };
        let mut p: Vec<Sym> = (at..at + k).map(Sym::T).collect();
        if kind == 2 {
            let m = c.nts.len();
            c.nts.push((false, vec![p.clone()]));
            p = vec![Sym::N(m)]
        }
        let x = if rng.chance(1, 2) { 0 } else { c.nts[entry].1.len() };
        c.nts[entry].1.insert(x, p);
        at += k
    }
    c
}

/// Grammars for C13, in families of four, each with its verdict.
pub fn conflict_family(i: usize, rng: &mut Rng) -> Vec<(String, Option<bool>)> {
    let cap = *rng.pick(&[30, 60, 90]);
    let mut v = vec![];
    let bad = match i % 10 {
        3 => {
            // a conflict somewhere in a large one
            let b = middling(rng);
            conflicted(&b, rng)
        }
        _ if i < UNRESOLVABLE.len() => parse_bnf(UNRESOLVABLE[i]),
        _ => definite(false, cap, rng),
    };
    let good = if i % 10 == 3 { middling(rng) } else { definite(true, cap, rng) };
    let pad = if i % 100 == 57 {
        rng.range(255, 275)
    } else if i % 10 != 3 && i >= UNRESOLVABLE.len() && rng.chance(1, 3) {
        let most = *rng.pick(&[40, 40, 40, 40, 140]);
        rng.range(4, most)
    } else {
        0
    };
    for b in [bad, good] {
        let b = &if pad > 0 { padded(&b, pad, rng) } else { b };
        let sp = decorate(format!("v{i}"), b, Style::Mixed, rng);
        let t = twin(&sp, rng);
        for s in [sp, t] {
            v.push((crate::emit::macro_input(&s), verdict(&s, 700)))
        }
    }
    v
}

/// Definitions for C14, in families of four: a sound one (or its twin) and three with a flaw.
pub fn flaw_family(i: usize, rng: &mut Rng) -> Vec<(String, Option<bool>)> {
    use crate::emit::{flawed_input, macro_input, Flaws};
    let b = if i % 9 == 4 { middling(rng) } else { bnf(usize::MAX, if rng.chance(1, 6) { Want::Sr } else { Want::Free }, 50, rng) };
    let sp = decorate(format!("d{i}"), &b, Style::Mixed, rng);
    let mut v = vec![(macro_input(&sp), verdict(&sp, 700))];
    for k in 0..3 {
        let mut s = if rng.chance(1, 2) { sp.clone() } else { twin(&sp, rng) };
        let mut f = Flaws::default();
        // an occurrence of a symbol
        let at: Vec<(usize, usize, usize)> = (0..s.nts.len())
            .flat_map(|i| {
                let ps = &s.nts[i].prods;
                (0..ps.len()).flat_map(move |j| (0..ps[j].rhs.len()).map(move |k| (i, j, k)))
            })
            .collect();
        match (i + k) % 6 {
            0 if !at.is_empty() => {
                // a terminal that is not declared
                let (i, j, k) = *rng.pick(&at);
                let used: Vec<usize> = at.iter().filter_map(|&(i, j, k)| if let Sym::T(t) = s.nts[i].prods[j].rhs[k].0 { Some(t) } else { None }).collect();
                if rng.chance(1, 4) && !used.is_empty() {
                    f.no_term = Some(*rng.pick(&used))
                } else {
                    let near = rng.pick(&s.terms).clone();
                    let name = match rng.below(9) {
                        0 => near.name.clone() + " ",
                        1 => format!(" {}", near.name),
                        2 => near.name.clone() + &near.name,
                        3 => near.name.to_uppercase(),
                        4 => near.name.to_lowercase(),
                        5 => near.name.chars().skip(1).collect(),
                        6 => near.name.clone() + "1",
                        7 => rng.pick(&s.nts).name.clone(),
                        _ => "undeclared".into(),
                    };
                    if s.terms.iter().any(|t| t.name == name) {
                        f.no_enum = true
                    } else {
                        f.no_term = Some(s.terms.len());
                        s.nts[i].prods[j].rhs[k].0 = Sym::T(s.terms.len());
                        s.terms.push(crate::spec::Term { name, ..near });
                    }
                }
            }
            1 if !at.is_empty() => {
                // a non-terminal that is not defined
                let (i, j, k) = *rng.pick(&at);
                let near = rng.pick(&s.nts).clone();
                let name = match rng.below(7) {
                    0 | 1 => near.name.clone() + "1",
                    2 => near.name.clone() + "0",
                    3 => near.name.clone() + "_",
                    4 => near.name.to_uppercase(),
                    5 => near.name.to_lowercase(),
                    _ => "Undefined".into(),
                };
                if s.nts.iter().any(|t| t.name == name) {
                    f.no_enum = true
                } else {
                    f.no_nt = Some(s.nts.len());
                    s.nts[i].prods[j].rhs[k].0 = Sym::N(s.nts.len());
                    s.nts.push(crate::spec::Nt { name, public: false, ..near });
                }
            }
            2 | 3 => {
                // a terminal twice
                let n = s.terms.len();
                let t = rng.below(n);
                let at = match rng.below(4) {
                    0 => t,
                    1 => t + 1,
                    2 => n,
                    _ => rng.below(n + 1),
                };
                f.twice = Some((t, at, if rng.chance(1, 3) { t } else { rng.below(n) }))
            }
            4 => {
                // the enum twice
                let lt = if s.flags.lifetime { "<'i>" } else { "" };
                let item = match rng.below(4) {
                    0 => macro_input(&Spec { nts: vec![], flags: crate::spec::Flags { state_item: false, ..s.flags.clone() }, ..s.clone() }),
                    1 => format!("        enum Tok{lt} {{ }}\n"),
                    2 => "        enum Other { \"z\" => Other::Z }\n".into(),
                    _ => format!("        enum Tok{lt} {{ \"another one\" => _, }}\n"),
                };
                f.extra = Some((rng.below(s.nts.len() + 3), item))
            }
            5 if rng.chance(1, 2) => {
                // the state twice
                s.flags.state_item = true;
                let ty = *rng.pick(&["u32", "()", "(u8, String)"]);
                f.extra = Some((rng.below(s.nts.len() + 3), format!("        type State = {ty};\n")))
            }
            _ => f.no_enum = true,
        }
        v.push((flawed_input(&s, &f), Some(false)))
    }
    v
}
