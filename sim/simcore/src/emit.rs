//! Writes grammars as Rust modules that invoke the real `parser!` macro.
use crate::prng::mix;
use crate::spec::*;
use std::fmt::Write;

fn ty(t: &Ty, lt: &str) -> String {
    match t {
        Ty::U32 => "u32".into(),
        Ty::Str => format!("&{lt} str"),
        Ty::Char => "char".into(),
        Ty::Bool => "bool".into(),
        Ty::Pay => "sim::Pay".into(),
        Ty::In => "sim::In".into(),
        Ty::Opt(t) => format!("Option<{}>", ty(t, lt)),
        Ty::Tup(v) => {
            let mut s = String::from("(");
            for t in v {
                write!(s, "{}, ", ty(t, lt)).unwrap();
            }
            s + ")"
        }
    }
}

fn make(t: &Ty) -> String {
    match t {
        Ty::U32 => "c.raw()".into(),
        Ty::Str => "c.str()".into(),
        Ty::Char => "c.char()".into(),
        Ty::Bool => "c.bool()".into(),
        Ty::Pay => "c.pay()".into(),
        Ty::In => "c.inn()".into(),
        Ty::Opt(t) => format!("if c.raw() == 1 {{ Some({}) }} else {{ None }}", make(t)),
        Ty::Tup(v) => {
            let mut s = String::from("(");
            for t in v {
                write!(s, "{}, ", make(t)).unwrap();
            }
            s + ")"
        }
    }
}

/// How the `k`th thing of style `st` is written: 0 is the plain way.
fn pick(st: usize, k: usize, n: usize) -> usize {
    if st == 0 {
        0
    } else {
        (mix(st as u64, k as u64) % n as u64) as usize
    }
}

/// Style of a pattern: (style of the grammar, terminal)
type Ps<'a> = (&'a str, usize, usize);

fn lit(t: &Ty, n: u32, c: Ps) -> String {
    let k = pick(c.1, c.2 * 7 + n as usize, 6);
    let i = n as usize;
    match t {
        Ty::U32 => match k {
            1 => format!("{n:#x}"),
            2 => format!("{n}u32"),
            3 => format!("sim::KU{n}"),
            4 => format!("0b{n:b}"),
            _ => n.to_string(),
        },
        Ty::Str => match k {
            1 => format!("sim::KS{n}"),
            2 => format!("r#####\"{}\"#####", STRS[i]),
            3 => {
                let esc: String = STRS[i].chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect();
                format!("\"{esc}\"")
            }
            _ => format!("{:?}", STRS[i]),
        },
        Ty::Char => match k {
            1 => format!("sim::KC{n}"),
            2 => format!("'\\u{{{:x}}}'", CHARS[i] as u32),
            _ => format!("{:?}", CHARS[i]),
        },
        Ty::Bool => (n != 0).to_string(),
        _ => panic!("literal of {t:?}"),
    }
}

fn pat(p: &Pat, t: &Ty, c: Ps) -> String {
    let lt = c.0;
    match (p, t) {
        (Pat::Wild, _) => "_".into(),
        (Pat::Cap, Ty::Pay) if pick(c.1, c.2, 5) == 1 => "<simcore::rt::Pay>".into(),
        (Pat::Cap, _) => format!("<{}>", ty(t, lt)),
        (Pat::Lit(n), _) => lit(t, *n, c),
        (Pat::Rest, _) => "..".into(),
        (Pat::Tup(ps), Ty::Tup(ts)) => format!("({}{})", pats(ps, ts, c), if ps.len() == 1 { "," } else { "" }),
        (Pat::Some(p), Ty::Opt(t)) => {
            let path = ["Some", "Option::Some", "std::option::Option::Some"][pick(c.1, c.2, 3)];
            format!("{path}({})", pat(p, t, c))
        }
        (Pat::None, _) => ["None", "Option::None", "std::option::Option::None"][pick(c.1, c.2, 3)].into(),
        (Pat::InA(p), _) => format!("sim::In::A({})", pat(p, &Ty::Pay, c)),
        (Pat::InB(q, r, d), _) => {
            let mut v = vec![];
            if let Some(q) = q {
                v.push(format!("q: {}", pat(q, &Ty::Pay, c)))
            }
            if let Some(r) = r {
                v.push(format!("r: {}", pat(r, &Ty::U32, c)))
            }
            if *d {
                v.push("..".into())
            }
            format!("sim::In::B {{ {} }}", v.join(", "))
        }
        (Pat::InC, _) => "sim::In::C".into(),
        _ => panic!("pattern {p:?} of {t:?}"),
    }
}

fn pats(ps: &[Pat], ts: &[Ty], c: Ps) -> String {
    let rest = ps.iter().position(|p| *p == Pat::Rest);
    let v: Vec<String> = ps
        .iter()
        .enumerate()
        .map(|(i, p)| match rest {
            Some(r) if i == r => "..".to_string(),
            Some(r) if i > r => pat(p, &ts[ts.len() - (ps.len() - i)], c),
            _ => pat(p, &ts[i], c),
        })
        .collect();
    v.join(", ")
}

fn nt_ty(t: NtTy, lt: &str, st: usize, i: usize) -> String {
    if pick(st, i + 1000, 8) == 1 {
        match t {
            NtTy::Node => return "simcore::rt::Node".into(),
            NtTy::VecN => return "std::vec::Vec<sim::Node>".into(),
            NtTy::Boxed => return "Box<simcore::rt::Node>".into(),
            _ => {}
        }
    }
    match t {
        NtTy::Node => "sim::Node".into(),
        NtTy::W1 => "sim::W<1>".into(),
        NtTy::W2 => "sim::W<2>".into(),
        NtTy::Boxed => "Box<sim::Node>".into(),
        NtTy::VecN => "Vec<sim::Node>".into(),
        NtTy::Tup => "(sim::Node, u32)".into(),
        NtTy::Opt => "Option<sim::Node>".into(),
        NtTy::Unit => "()".into(),
        NtTy::Ref => format!("sim::Ref<{lt}>"),
    }
}

fn binder(style: usize, i: usize) -> String {
    const A: [&str; 12] = ["x", "y", "z", "f0", "f1", "token", "state", "input", "found", "n", "self_", "r"];
    match style {
        0 => format!("v{i}"),
        1 => A.get(i).map_or(format!("w{i}"), |s| s.to_string()),
        _ => format!("x{}", i + 1),
    }
}

/// The action of production `k` (of all), as written.
fn action(sp: &Spec, ty: NtTy, p: &Prod, k: usize) -> String {
    let name = |i: usize| binder(sp.flags.names, i);
    match p.kind {
        PKind::Id(i) => return name(i),
        PKind::Konst => {
            return match ty {
                NtTy::VecN => "Vec::new()",
                NtTy::Opt => ["None", "Option::None"][k % 2],
                _ => ["()", "sim::UNIT"][k % 2],
            }
            .into()
        }
        _ => {}
    }
    let mut muts = String::new();
    let id = if p.kind == PKind::Anon { ANON } else { k as u32 };
    let mut call = format!("sim::act({id}, sim::V::new()");
    for (i, (_, b)) in p.rhs.iter().enumerate() {
        if *b == Bind::Mut {
            write!(muts, "sim::touch(&mut {}); ", name(i)).unwrap()
        }
        if *b != Bind::No {
            write!(call, ".a({})", name(i)).unwrap()
        }
    }
    call.push(')');
    let e = match if p.kind == PKind::Anon { 0 } else { pick(sp.flags.style, k + 2000, 16) } {
        1 => format!("{{ {call} }}"),
        2 => format!("{{ let r = {call}; r }}"),
        3 => format!("if true {{ {call} }} else {{ unreachable!() }}"),
        4 => format!("match () {{ () => {call} }}"),
        5 => format!("({call})"),
        6 => format!("(move || {call})()"),
        7 => format!("std::convert::identity({call})"),
        8 => format!("loop {{ break {call} }}"),
        9 => format!("{{ fn one() -> u32 {{ 1 }} let _ = one(); {call} }}"),
        10 => format!("'out: {{ break 'out {call} }}"),
        11 => format!("unsafe {{ {call} }}"),
        12 => format!("vec![{call}].pop().unwrap()"),
        13 => format!("{{ let t = std::time::Duration::from_secs(1) < std::time::Duration::from_secs(2); assert!(t, \"=> {{{{}}}}, \"); {call} }}"),
        _ => call,
    };
    if muts.is_empty() {
        e
    } else {
        format!("{{ {muts}{e} }}")
    }
}

/// What is wrong with a definition.
#[derive(Clone, Debug, Default)]
pub struct Flaws {
    /// used, but not declared
    pub no_term: Option<usize>,
    pub no_nt: Option<usize>,
    /// a terminal declared again, right before the declaration of another one (or at the end), with the pattern of a third
    pub twice: Option<(usize, usize, usize)>,
    /// without token enum
    pub no_enum: bool,
    /// a further item, at this place among the items
    pub extra: Option<(usize, String)>,
}

/// The invocation itself.
pub fn macro_input(sp: &Spec) -> String {
    flawed_input(sp, &Flaws::default())
}

pub fn flawed_input(sp: &Spec, flaws: &Flaws) -> String {
    let f = &sp.flags;
    let lt = if f.lifetime { "'i" } else { "'static" };
    let path = |v: usize| {
        if f.bare {
            sp.variants[v].0.clone()
        } else {
            format!("Tok::{}", sp.variants[v].0)
        }
    };
    let mut en = String::new();
    write!(en, "        enum Tok{} {{\n", lts(f)).unwrap();
    let mut lines = vec![];
    for (i, t) in sp.terms.iter().enumerate() {
        let p = match &t.pat {
            TermPat::Any => "_".to_string(),
            TermPat::Var(v, ps) => match &sp.variants[*v].1 {
                Shape::Unit => path(*v),
                Shape::Tuple(ts) => {
                    let q: Vec<Pat> = ps.iter().map(|p| p.clone().unwrap()).collect();
                    format!("{}({})", path(*v), pats(&q, ts, (var_lt(f, *v), f.style, i)))
                }
                Shape::Struct(ts) => {
                    let mut q = vec![];
                    for k in Spec::field_order(i, ts.len()) {
                        if let Some(p) = &ps[k] {
                            q.push(format!("f{k}: {}", pat(p, &ts[k], (var_lt(f, *v), f.style, i))))
                        }
                    }
                    let mut q = q.join(", ");
                    match (ps.iter().filter(|p| p.is_some()).count() < ts.len(), pick(f.style, i + 4000, 4)) {
                        (true, k) => q = [q.clone() + ", ..", q.clone() + " .."][(k == 1) as usize].trim_start_matches(", ").into(),
                        (false, 2) if !q.is_empty() => q.push(','),
                        _ => {}
                    }
                    format!("{} {{ {q} }}", path(*v))
                }
            },
        };
        let comma = if i + 1 == sp.terms.len() && pick(f.style, 3000, 3) == 1 { "" } else { "," };
        let name = if pick(f.style, i + 3001, 8) == 1 { format!("r#####\"{}\"#####", t.name) } else { format!("{:?}", t.name) };
        lines.push((name, p, comma));
    }
    let mut order: Vec<(usize, usize)> = (0..lines.len()).filter(|&i| Some(i) != flaws.no_term).map(|i| (i, i)).collect();
    if let Some((t, at, p)) = flaws.twice {
        order.insert(at.min(order.len()), (t, p))
    }
    for (k, &(i, p)) in order.iter().enumerate() {
        let comma = if k + 1 < order.len() { "," } else { lines[i].2 };
        writeln!(en, "            {} => {}{comma}", lines[i].0, lines[p].1).unwrap();
    }
    en.push_str("        }\n");
    if flaws.no_enum {
        en.clear()
    }

    let mut all = vec![];
    if !f.enum_last {
        all.push(en.clone())
    }
    if f.state_item {
        all.push("        type State = u32;\n".into());
    }
    let mut k = 0;
    for (ni, n) in sp.nts.iter().enumerate() {
        if flaws.no_nt == Some(ni) {
            continue;
        }
        let mut o = String::new();
        let single = n.prods.len() == 1 && f.names == 1;
        write!(o, "        {}{}: {} = ", if n.public { "pub " } else { "" }, n.name, nt_ty(n.ty, lt, f.style, ni)).unwrap();
        if !single {
            o.push_str("{\n");
        }
        for (pi, p) in n.prods.iter().enumerate() {
            if !single {
                o.push_str("            ");
            }
            for (i, (s, b)) in p.rhs.iter().enumerate() {
                let s = match s {
                    Sym::T(t) if pick(f.style, k * 9 + i + 5000, 8) == 1 => format!("r####\"{}\"####", sp.terms[*t].name),
                    Sym::T(t) => format!("{:?}", sp.terms[*t].name),
                    Sym::N(n) => sp.nts[*n].name.clone(),
                };
                match b {
                    Bind::No => write!(o, "{s} ").unwrap(),
                    // the innermost name counts
                    Bind::Name if pick(f.style, k * 9 + i + 6000, 16) == 1 => write!(o, "<outer: <{}: {s}>> ", binder(f.names, i)).unwrap(),
                    Bind::Name => write!(o, "<{}:{s}> ", binder(f.names, i)).unwrap(),
                    Bind::Mut => write!(o, "<mut {}: {s}> ", binder(f.names, i)).unwrap(),
                }
            }
            o.push_str("=> ");
            o.push_str(&action(sp, n.ty, p, k));
            let last = !single && pi + 1 == n.prods.len() && pick(f.style, k + 7000, 3) == 1;
            o.push_str(if last { "\n" } else { ",\n" });
            k += 1;
        }
        if !single {
            o.push_str("        };\n");
        }
        all.push(o)
    }
    if f.enum_last {
        all.push(en)
    }
    if let Some((at, item)) = &flaws.extra {
        all.insert((*at).min(all.len()), item.clone())
    }
    all.concat()
}

/// Lifetime parameters of the token type.
fn lts(f: &Flags) -> &'static str {
    match (f.lifetime, f.lt2) {
        (false, _) => "",
        (true, false) => "<'i>",
        (true, true) => "<'i, 'j>",
    }
}

/// Lifetime of the strings of variant `v`.
fn var_lt(f: &Flags, v: usize) -> &'static str {
    match (f.lifetime, f.lt2 && v % 2 == 1) {
        (false, _) => "'static",
        (true, false) => "'i",
        (true, true) => "'j",
    }
}

/// The whole module of a grammar.
pub fn module(sp: &Spec) -> String {
    let f = &sp.flags;
    let mut o = String::new();
    o.push_str("use simcore::rt as sim;\n#[derive(Debug)]\n");
    write!(o, "pub enum Tok{} {{\n", lts(f)).unwrap();
    for (vi, (name, sh)) in sp.variants.iter().enumerate() {
        let lt = var_lt(f, vi);
        match sh {
            Shape::Unit => writeln!(o, "    {name},").unwrap(),
            Shape::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| ty(t, lt)).collect();
                writeln!(o, "    {name}({}),", v.join(", ")).unwrap()
            }
            Shape::Struct(ts) => {
                let v: Vec<String> = ts.iter().enumerate().map(|(i, t)| format!("f{i}: {}", ty(t, lt))).collect();
                writeln!(o, "    {name} {{ {} }},", v.join(", ")).unwrap()
            }
        }
    }
    o.push_str("}\n");
    write!(o, "fn make(c: &mut sim::Cur) -> Tok{} {{\n    match c.variant() {{\n", ["", "<'static>", "<'static, 'static>"][f.lifetime as usize + (f.lifetime && f.lt2) as usize]).unwrap();
    for (i, (name, sh)) in sp.variants.iter().enumerate() {
        let k = if i + 1 == sp.variants.len() { "_".to_string() } else { i.to_string() };
        match sh {
            Shape::Unit => writeln!(o, "        {k} => Tok::{name},").unwrap(),
            Shape::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(make).collect();
                writeln!(o, "        {k} => Tok::{name}({}),", v.join(", ")).unwrap()
            }
            Shape::Struct(ts) => {
                let v: Vec<String> = ts.iter().enumerate().map(|(i, t)| format!("f{i}: {}", make(t))).collect();
                writeln!(o, "        {k} => Tok::{name} {{ {} }},", v.join(", ")).unwrap()
            }
        }
    }
    o.push_str("    }\n}\n");
    o.push_str("pub mod p {\n    use super::*;\n");
    if f.bare {
        o.push_str("    use super::Tok::*;\n");
    }
    o.push_str("    parsegen::parser! {\n");
    o.push_str(&macro_input(sp));
    o.push_str("    }\n}\n");
    o.push_str("pub fn run(entry: usize, docs: usize) {\n    match entry {\n");
    for e in sp.entries() {
        let n = &sp.nts[e].name;
        if f.lent {
            writeln!(o, "        {e} => {{ let mut s = sim::Src::new(make, true); for _ in 0..docs {{ simcore::sim_ret!(p, p::{n}::parse(&mut s)); }} }}").unwrap();
        } else {
            writeln!(o, "        {e} => {{ let _ = docs; simcore::sim_ret!(p, p::{n}::parse(sim::Src::new(make, false))); }}").unwrap();
        }
    }
    o.push_str("        _ => panic!(\"sim: entry\"),\n    }\n}\n");
    writeln!(o, "pub const SPEC: &str = {:?};", sp.to_text()).unwrap();
    o
}

/// The crate root of a shard.
pub fn root(files: &[String]) -> String {
    let mut o = String::from("#![allow(warnings)]\n#[global_allocator]\nstatic ALLOC: simcore::mem::Marked = simcore::mem::Marked;\n");
    for f in files {
        writeln!(o, "#[path = \"{f}.rs\"] mod {f};").unwrap();
    }
    o.push_str("static REG: &[simcore::rt::GEntry] = &[\n");
    for f in files {
        writeln!(o, "    simcore::rt::GEntry {{ spec: {f}::SPEC, run: {f}::run }},").unwrap();
    }
    o.push_str("];\nfn main() { simcore::shard::main(REG) }\n");
    o
}
