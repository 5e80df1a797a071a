//! Grammar specifications: what is handed to `parser!`, in a form the model understands.
use crate::prng::Rng;
use crate::sexp::{a, parse, pretty, S};
use crate::sx;

/// Type of a payload position of a token variant.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    U32,
    Str,
    Char,
    Bool,
    Pay,
    Tup(Vec<Ty>),
    Opt(Box<Ty>),
    /// `rt::In { A(Pay), B { q: Pay, r: u32 }, C }`
    In,
}

/// Token patterns, as the macro's pattern language has them.
#[derive(Clone, Debug, PartialEq)]
pub enum Pat {
    Wild,
    Cap,
    Lit(u32),
    Tup(Vec<Pat>),
    /// `Some(p)` / `None`
    Some(Box<Pat>),
    None,
    InA(Box<Pat>),
    /// fields q, r; rest
    InB(Option<Box<Pat>>, Option<Box<Pat>>, bool),
    InC,
    /// `..` in tuple position
    Rest,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Unit,
    Tuple(Vec<Ty>),
    Struct(Vec<Ty>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum TermPat {
    /// `_`
    Any,
    /// variant with sub-patterns (for Struct: one per field, None = field not mentioned)
    Var(usize, Vec<Option<Pat>>),
}

#[derive(Clone, Debug)]
pub struct Term {
    pub name: String,
    pub pat: TermPat,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum NtTy {
    Node,
    W1,
    W2,
    Boxed,
    VecN,
    Tup,
    Opt,
    Unit,
    Ref,
}

pub const NT_TYS: [NtTy; 9] =
    [NtTy::Node, NtTy::W1, NtTy::W2, NtTy::Boxed, NtTy::VecN, NtTy::Tup, NtTy::Opt, NtTy::Unit, NtTy::Ref];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    T(usize),
    N(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bind {
    No,
    Name,
    Mut,
}

/// What the semantic action of a production does.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum PKind {
    /// reports itself and makes a value
    #[default]
    Normal,
    /// nothing but the value bound at that position, unreported
    Id(usize),
    /// a constant without a value instance, unreported
    Konst,
    /// reports, but as every other of its kind does: the text of the action is shared
    Anon,
}

/// Production number that actions of kind `Anon` report.
pub const ANON: u32 = 9999;

#[derive(Clone, Debug)]
pub struct Prod {
    pub rhs: Vec<(Sym, Bind)>,
    pub kind: PKind,
}

impl Prod {
    pub fn new(rhs: Vec<(Sym, Bind)>) -> Prod {
        Prod { rhs, kind: PKind::Normal }
    }
}

#[derive(Clone, Debug)]
pub struct Nt {
    pub name: String,
    pub public: bool,
    pub ty: NtTy,
    pub prods: Vec<Prod>,
}

#[derive(Clone, Debug, Default)]
pub struct Flags {
    /// the token type has a lifetime and its strings borrow from the caller's buffer
    pub lifetime: bool,
    /// parse is given `&mut source` instead of the source
    pub lent: bool,
    /// token paths written without `Tok::`
    pub bare: bool,
    /// the token enum comes last in the macro input
    pub enum_last: bool,
    /// a `type State` item is present
    pub state_item: bool,
    /// style of binder names
    pub names: usize,
    /// the token type has two lifetimes
    pub lt2: bool,
    /// how actions, literals and paths are written
    pub style: usize,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub id: String,
    /// where it comes from (template, random...)
    pub origin: String,
    pub flags: Flags,
    pub variants: Vec<(String, Shape)>,
    pub terms: Vec<Term>,
    pub nts: Vec<Nt>,
}

/// A token value: variant index and flattened leaves. Pay leaves hold 0.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TokVal {
    pub variant: usize,
    pub leaves: Vec<u32>,
}

/// One value as seen by an action.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    /// payload `slot` of the `item`th delivered item
    Pay(u32, u32),
    /// value made by the nth action of the parse session
    Node(u32),
    U32(u32),
    Str(String),
    Char(char),
    Bool(bool),
    /// an enum/option tag
    Tag(u32),
    Unit,
}

pub const STRS: [&str; 4] = ["a", "b", "kw", "é\"\\"];
pub const CHARS: [char; 3] = ['x', '\'', '\n'];
pub const N_U32: u32 = 4;

impl Spec {
    pub fn n_t(&self) -> usize {
        self.terms.len()
    }
    pub fn entries(&self) -> Vec<usize> {
        (0..self.nts.len()).filter(|&i| self.nts[i].public).collect()
    }
    /// Productions in order, as (non-terminal, index within it).
    pub fn prods(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (i, n) in self.nts.iter().enumerate() {
            for j in 0..n.prods.len() {
                v.push((i, j));
            }
        }
        v
    }
}

// ---------------------------------------------------------------------------------------------
// values, matching

/// Number of leaves is value-dependent (options, enums): leaves carry tags.
pub fn random_value(ty: &Ty, rng: &mut Rng, out: &mut Vec<u32>) {
    match ty {
        Ty::U32 => out.push(rng.below(N_U32 as usize) as u32),
        Ty::Str => out.push(rng.below(STRS.len()) as u32),
        Ty::Char => out.push(rng.below(CHARS.len()) as u32),
        Ty::Bool => out.push(rng.below(2) as u32),
        Ty::Pay => out.push(0),
        Ty::Tup(v) => {
            for t in v {
                random_value(t, rng, out)
            }
        }
        Ty::Opt(t) => {
            if rng.chance(2, 3) {
                out.push(1);
                random_value(t, rng, out)
            } else {
                out.push(0)
            }
        }
        Ty::In => {
            let k = rng.below(3) as u32;
            out.push(k);
            match k {
                0 => out.push(0),
                1 => {
                    out.push(0);
                    out.push(rng.below(N_U32 as usize) as u32)
                }
                _ => {}
            }
        }
    }
}

/// Reads the value at `pos`, pushing what flattening it would show. Pay leaves take the next slot.
fn skip_value(ty: &Ty, v: &[u32], pos: &mut usize, slot: &mut u32, item: u32, out: &mut Option<&mut Vec<Val>>) {
    let mut push = |x: Val| {
        if let Some(o) = out {
            o.push(x)
        }
    };
    match ty {
        Ty::U32 => {
            push(Val::U32(v[*pos]));
            *pos += 1
        }
        Ty::Str => {
            push(Val::Str(STRS[v[*pos] as usize].to_string()));
            *pos += 1
        }
        Ty::Char => {
            push(Val::Char(CHARS[v[*pos] as usize]));
            *pos += 1
        }
        Ty::Bool => {
            push(Val::Bool(v[*pos] != 0));
            *pos += 1
        }
        Ty::Pay => {
            push(Val::Pay(item, *slot));
            *slot += 1;
            *pos += 1
        }
        Ty::Tup(ts) => {
            for t in ts {
                skip_value(t, v, pos, slot, item, out)
            }
        }
        Ty::Opt(t) => {
            let k = v[*pos];
            push(Val::Tag(k));
            *pos += 1;
            if k == 1 {
                skip_value(t, v, pos, slot, item, out)
            }
        }
        Ty::In => {
            let k = v[*pos];
            push(Val::Tag(k));
            *pos += 1;
            match k {
                0 => skip_value(&Ty::Pay, v, pos, slot, item, out),
                1 => {
                    skip_value(&Ty::Pay, v, pos, slot, item, out);
                    skip_value(&Ty::U32, v, pos, slot, item, out)
                }
                _ => {}
            }
        }
    }
}

struct M<'a> {
    v: &'a [u32],
    pos: usize,
    slot: u32,
    item: u32,
    caps: Vec<Val>,
}

impl<'a> M<'a> {
    fn skip(&mut self, ty: &Ty) {
        skip_value(ty, self.v, &mut self.pos, &mut self.slot, self.item, &mut None)
    }
    /// Matches and always consumes the whole value.
    fn m(&mut self, ty: &Ty, p: &Pat) -> bool {
        match (p, ty) {
            (Pat::Wild, _) => {
                self.skip(ty);
                true
            }
            (Pat::Cap, _) => {
                let mut o = Some(&mut self.caps);
                skip_value(ty, self.v, &mut self.pos, &mut self.slot, self.item, &mut o);
                true
            }
            (Pat::Lit(n), _) => {
                let r = self.v[self.pos] == *n;
                self.skip(ty);
                r
            }
            (Pat::Tup(ps), Ty::Tup(ts)) => self.seq(ts, ps),
            (Pat::Some(p), Ty::Opt(t)) => {
                if self.v[self.pos] == 1 {
                    self.pos += 1;
                    self.m(t, p)
                } else {
                    self.skip(ty);
                    false
                }
            }
            (Pat::None, Ty::Opt(_)) => {
                let r = self.v[self.pos] == 0;
                self.skip(ty);
                r
            }
            (Pat::InA(p), Ty::In) => {
                if self.v[self.pos] == 0 {
                    self.pos += 1;
                    self.m(&Ty::Pay, p)
                } else {
                    self.skip(ty);
                    false
                }
            }
            (Pat::InB(q, r, _), Ty::In) => {
                if self.v[self.pos] == 1 {
                    self.pos += 1;
                    let a = self.m(&Ty::Pay, q.as_deref().unwrap_or(&Pat::Wild));
                    let b = self.m(&Ty::U32, r.as_deref().unwrap_or(&Pat::Wild));
                    a && b
                } else {
                    self.skip(ty);
                    false
                }
            }
            (Pat::InC, Ty::In) => {
                let r = self.v[self.pos] == 2;
                self.skip(ty);
                r
            }
            _ => panic!("pattern {p:?} against type {ty:?}"),
        }
    }
    /// `..` stands for as many positions as the other patterns leave.
    fn seq(&mut self, ts: &[Ty], ps: &[Pat]) -> bool {
        let mut ok = true;
        let rest = ps.iter().position(|p| *p == Pat::Rest);
        for (i, t) in ts.iter().enumerate() {
            let p = match rest {
                None => ps.get(i),
                Some(r) => {
                    let tail = ps.len() - r - 1;
                    if i < r {
                        ps.get(i)
                    } else if i + tail >= ts.len() {
                        ps.get(r + 1 + i + tail - ts.len())
                    } else {
                        self.skip(t);
                        continue;
                    }
                }
            };
            ok &= self.m(t, p.expect("sim: pattern too short"));
        }
        ok
    }
}

impl Spec {
    /// Captures of terminal `t` matched against `v`, or None.
    pub fn match_term(&self, t: usize, v: &TokVal, item: u32) -> Option<Vec<Val>> {
        match &self.terms[t].pat {
            TermPat::Any => Some(vec![]),
            TermPat::Var(var, ps) => {
                if *var != v.variant {
                    return None;
                }
                let mut m = M { v: &v.leaves, pos: 0, slot: 0, item, caps: vec![] };
                let ok = match &self.variants[*var].1 {
                    Shape::Unit => true,
                    Shape::Tuple(ts) => {
                        let ps: Vec<Pat> = ps.iter().map(|p| p.clone().unwrap()).collect();
                        m.seq(ts, &ps)
                    }
                    Shape::Struct(ts) => {
                        // captures come in the order in which the pattern mentions the fields
                        let mut ok = true;
                        let mut per_field = vec![];
                        for (t, p) in ts.iter().zip(ps) {
                            ok &= m.m(t, p.as_ref().unwrap_or(&Pat::Wild));
                            per_field.push(std::mem::take(&mut m.caps));
                        }
                        for f in Spec::field_order(t, ts.len()) {
                            m.caps.append(&mut per_field[f]);
                        }
                        ok
                    }
                };
                ok.then_some(m.caps)
            }
        }
    }

    /// Order in which the struct pattern of terminal `t` mentions the fields.
    pub fn field_order(t: usize, n: usize) -> Vec<usize> {
        (0..n).map(|i| (i + t) % n).collect()
    }

    /// First matching terminal and its captures.
    pub fn classify(&self, v: &TokVal, item: u32) -> (usize, Vec<Val>) {
        for t in 0..self.terms.len() {
            if let Some(c) = self.match_term(t, v, item) {
                return (t, c);
            }
        }
        panic!("no pattern of {} matches {:?}", self.id, v)
    }

    pub fn random_tok(&self, variant: usize, rng: &mut Rng) -> TokVal {
        let mut leaves = vec![];
        match &self.variants[variant].1 {
            Shape::Unit => {}
            Shape::Tuple(ts) | Shape::Struct(ts) => {
                for t in ts {
                    random_value(t, rng, &mut leaves)
                }
            }
        }
        TokVal { variant, leaves }
    }

    /// A token that is classified as `t`, if one is found.
    pub fn tok_of(&self, t: usize, rng: &mut Rng) -> Option<TokVal> {
        for _ in 0..40 {
            let variant = match &self.terms[t].pat {
                TermPat::Any => rng.below(self.variants.len()),
                TermPat::Var(v, _) => *v,
            };
            let v = self.random_tok(variant, rng);
            if self.classify(&v, 0).0 == t {
                return Some(v);
            }
        }
        None
    }

    /// Number of payload instances in a token value.
    pub fn n_pays(&self, v: &TokVal) -> u32 {
        let mut pos = 0;
        let mut slot = 0;
        match &self.variants[v.variant].1 {
            Shape::Unit => {}
            Shape::Tuple(ts) | Shape::Struct(ts) => {
                for t in ts {
                    skip_value(t, &v.leaves, &mut pos, &mut slot, 0, &mut None)
                }
            }
        }
        slot
    }
}

/// Stands for the number of the action that made a value, where none did.
pub const NO_ACT: u32 = u32::MAX;

/// Types that have a constant without a value instance.
pub fn has_konst(ty: NtTy) -> bool {
    matches!(ty, NtTy::VecN | NtTy::Opt | NtTy::Unit)
}

/// What the value made by action `k` looks like through a non-terminal of type `ty`.
pub fn nt_vals(ty: NtTy, k: u32, out: &mut Vec<Val>) {
    if k == NO_ACT {
        out.push(if ty == NtTy::Unit { Val::Unit } else { Val::Tag(0) });
        return;
    }
    match ty {
        NtTy::Node | NtTy::Boxed | NtTy::Ref => out.push(Val::Node(k)),
        NtTy::W1 => out.extend([Val::Tag(101), Val::Node(k)]),
        NtTy::W2 => out.extend([Val::Tag(102), Val::Node(k)]),
        NtTy::VecN => out.extend([Val::Tag(1), Val::Node(k)]),
        NtTy::Tup => out.extend([Val::Node(k), Val::U32(77)]),
        NtTy::Opt => out.extend([Val::Tag(1), Val::Node(k)]),
        NtTy::Unit => out.push(Val::Unit),
    }
}

// ---------------------------------------------------------------------------------------------
// text form

fn ty_s(t: &Ty) -> S {
    match t {
        Ty::U32 => a("u32"),
        Ty::Str => a("str"),
        Ty::Char => a("char"),
        Ty::Bool => a("bool"),
        Ty::Pay => a("pay"),
        Ty::In => a("in"),
        Ty::Tup(v) => {
            let mut r = vec![a("tup")];
            r.extend(v.iter().map(ty_s));
            S::L(r)
        }
        Ty::Opt(t) => sx!["opt", ty_s(t)],
    }
}

fn s_ty(s: &S) -> Ty {
    match s.head() {
        "u32" => Ty::U32,
        "str" => Ty::Str,
        "char" => Ty::Char,
        "bool" => Ty::Bool,
        "pay" => Ty::Pay,
        "in" => Ty::In,
        "tup" => Ty::Tup(s.list()[1..].iter().map(s_ty).collect()),
        "opt" => Ty::Opt(Box::new(s_ty(&s.list()[1]))),
        x => panic!("type {x}"),
    }
}

fn pat_s(p: &Pat) -> S {
    let o = |x: &Option<Box<Pat>>| x.as_ref().map_or(a("-"), |p| pat_s(p));
    match p {
        Pat::Wild => a("_"),
        Pat::Cap => a("cap"),
        Pat::Lit(n) => sx!["lit", *n],
        Pat::Tup(v) => {
            let mut r = vec![a("tup")];
            r.extend(v.iter().map(pat_s));
            S::L(r)
        }
        Pat::Some(p) => sx!["some", pat_s(p)],
        Pat::None => a("none"),
        Pat::InA(p) => sx!["ina", pat_s(p)],
        Pat::InB(q, r, d) => sx!["inb", o(q), o(r), *d],
        Pat::InC => a("inc"),
        Pat::Rest => a(".."),
    }
}

fn s_pat(s: &S) -> Pat {
    let o = |x: &S| if matches!(x, S::A(y) if y == "-") { None } else { Some(Box::new(s_pat(x))) };
    match s.head() {
        "_" => Pat::Wild,
        "cap" => Pat::Cap,
        "lit" => Pat::Lit(s.list()[1].num() as u32),
        "tup" => Pat::Tup(s.list()[1..].iter().map(s_pat).collect()),
        "some" => Pat::Some(Box::new(s_pat(&s.list()[1]))),
        "none" => Pat::None,
        "ina" => Pat::InA(Box::new(s_pat(&s.list()[1]))),
        "inb" => Pat::InB(o(&s.list()[1]), o(&s.list()[2]), s.list()[3].bool()),
        "inc" => Pat::InC,
        ".." => Pat::Rest,
        x => panic!("pattern {x}"),
    }
}

impl Spec {
    pub fn to_s(&self) -> S {
        let f = &self.flags;
        let mut r = vec![
            a("grammar"),
            sx!["id", &self.id],
            sx!["origin", &self.origin],
            sx!["flags", f.lifetime, f.lent, f.bare, f.enum_last, f.state_item, f.names, f.lt2, f.style],
        ];
        for (name, sh) in &self.variants {
            let mut v = vec![a("variant"), a(name)];
            match sh {
                Shape::Unit => v.push(a("unit")),
                Shape::Tuple(ts) => {
                    v.push(a("tuple"));
                    v.extend(ts.iter().map(ty_s))
                }
                Shape::Struct(ts) => {
                    v.push(a("struct"));
                    v.extend(ts.iter().map(ty_s))
                }
            }
            r.push(S::L(v));
        }
        for t in &self.terms {
            let mut v = vec![a("term"), a(&t.name)];
            match &t.pat {
                TermPat::Any => v.push(a("any")),
                TermPat::Var(i, ps) => {
                    v.push(a(i));
                    v.extend(ps.iter().map(|p| p.as_ref().map_or(a("-"), pat_s)))
                }
            }
            r.push(S::L(v));
        }
        for n in &self.nts {
            let mut v = vec![a("nt"), a(&n.name), a(if n.public { "pub" } else { "priv" }), a(format!("{:?}", n.ty))];
            for p in &n.prods {
                let mut q = vec![];
                match p.kind {
                    PKind::Normal => {}
                    PKind::Id(i) => q.push(a(format!("id{i}"))),
                    PKind::Konst => q.push(a("konst")),
                    PKind::Anon => q.push(a("anon")),
                }
                for (s, b) in &p.rhs {
                    let b = match b {
                        Bind::No => "",
                        Bind::Name => "=",
                        Bind::Mut => "%",
                    };
                    q.push(match s {
                        Sym::T(i) => a(format!("t{i}{b}")),
                        Sym::N(i) => a(format!("n{i}{b}")),
                    });
                }
                v.push(S::L(q));
            }
            r.push(S::L(v));
        }
        S::L(r)
    }

    pub fn to_text(&self) -> String {
        pretty(&self.to_s())
    }

    pub fn from_text(s: &str) -> Spec {
        Spec::from_s(&parse(s))
    }

    pub fn from_s(s: &S) -> Spec {
        let fl = s.get("flags").unwrap().list();
        let mut sp = Spec {
            id: s.get1("id").unwrap().atom().to_string(),
            origin: s.get1("origin").unwrap().atom().to_string(),
            flags: Flags {
                lifetime: fl[1].bool(),
                lent: fl[2].bool(),
                bare: fl[3].bool(),
                enum_last: fl[4].bool(),
                state_item: fl[5].bool(),
                names: fl[6].num(),
                lt2: fl[7].bool(),
                style: fl[8].num(),
            },
            variants: vec![],
            terms: vec![],
            nts: vec![],
        };
        for v in s.all("variant") {
            let v = v.list();
            let ts: Vec<Ty> = v[3..].iter().map(s_ty).collect();
            let sh = match v[2].atom() {
                "unit" => Shape::Unit,
                "tuple" => Shape::Tuple(ts),
                _ => Shape::Struct(ts),
            };
            sp.variants.push((v[1].atom().to_string(), sh));
        }
        for t in s.all("term") {
            let t = t.list();
            let pat = if matches!(&t[2], S::A(x) if x == "any") {
                TermPat::Any
            } else {
                TermPat::Var(
                    t[2].num(),
                    t[3..].iter().map(|p| if matches!(p, S::A(y) if y == "-") { None } else { Some(s_pat(p)) }).collect(),
                )
            };
            sp.terms.push(Term { name: t[1].atom().to_string(), pat });
        }
        for n in s.all("nt") {
            let n = n.list();
            let ty = *NT_TYS.iter().find(|t| format!("{t:?}") == n[3].atom()).unwrap();
            let prods = n[4..]
                .iter()
                .map(|p| {
                    let mut pr = Prod::new(vec![]);
                    for x in p.list() {
                        let x = x.atom();
                        match x {
                            "konst" => pr.kind = PKind::Konst,
                            "anon" => pr.kind = PKind::Anon,
                            _ if x.starts_with("id") => pr.kind = PKind::Id(x[2..].parse().unwrap()),
                            _ => {
                                let b = match x.chars().last().unwrap() {
                                    '=' => Bind::Name,
                                    '%' => Bind::Mut,
                                    _ => Bind::No,
                                };
                                let i: usize = x[1..].trim_end_matches(['=', '%']).parse().unwrap();
                                pr.rhs.push((if x.starts_with('t') { Sym::T(i) } else { Sym::N(i) }, b))
                            }
                        }
                    }
                    pr
                })
                .collect();
            sp.nts.push(Nt { name: n[1].atom().to_string(), public: n[2].atom() == "pub", ty, prods });
        }
        sp
    }
}
