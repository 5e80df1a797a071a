//! S-expressions: the format of grammar files and replay files.

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    A(String),
    L(Vec<S>),
}

pub fn a(s: impl ToString) -> S {
    S::A(s.to_string())
}

pub fn l(v: Vec<S>) -> S {
    S::L(v)
}

#[macro_export]
macro_rules! sx {
    ($($e:expr),* $(,)?) => { $crate::sexp::S::L(vec![$($crate::sexp::S::from($e)),*]) };
}

impl From<&str> for S {
    fn from(s: &str) -> S {
        S::A(s.to_string())
    }
}
impl From<String> for S {
    fn from(s: String) -> S {
        S::A(s)
    }
}
impl From<&String> for S {
    fn from(s: &String) -> S {
        S::A(s.clone())
    }
}
impl From<usize> for S {
    fn from(s: usize) -> S {
        S::A(s.to_string())
    }
}
impl From<u32> for S {
    fn from(s: u32) -> S {
        S::A(s.to_string())
    }
}
impl From<u64> for S {
    fn from(s: u64) -> S {
        S::A(s.to_string())
    }
}
impl From<bool> for S {
    fn from(s: bool) -> S {
        S::A(if s { "yes" } else { "no" }.to_string())
    }
}
impl From<Vec<S>> for S {
    fn from(s: Vec<S>) -> S {
        S::L(s)
    }
}

impl S {
    pub fn list(&self) -> &[S] {
        match self {
            S::L(v) => v,
            S::A(x) => panic!("expected a list, found {x:?}"),
        }
    }
    pub fn atom(&self) -> &str {
        match self {
            S::A(v) => v,
            S::L(_) => panic!("expected an atom, found {self}"),
        }
    }
    pub fn num(&self) -> usize {
        self.atom().parse().unwrap_or_else(|_| panic!("expected a number, found {self}"))
    }
    pub fn u64(&self) -> u64 {
        self.atom().parse().unwrap_or_else(|_| panic!("expected a number, found {self}"))
    }
    pub fn bool(&self) -> bool {
        self.atom() == "yes"
    }
    pub fn head(&self) -> &str {
        match self {
            S::A(x) => x,
            S::L(v) => v[0].atom(),
        }
    }
    /// The first sub-list with this head.
    pub fn get(&self, head: &str) -> Option<&S> {
        self.list().iter().find(|x| matches!(x, S::L(v) if !v.is_empty() && matches!(&v[0], S::A(h) if h == head)))
    }
    pub fn all<'a>(&'a self, head: &'a str) -> impl Iterator<Item = &'a S> + 'a {
        self.list().iter().filter(move |x| matches!(x, S::L(v) if !v.is_empty() && matches!(&v[0], S::A(h) if h == head)))
    }
    pub fn get1(&self, head: &str) -> Option<&S> {
        self.get(head).map(|x| &x.list()[1])
    }
}

fn plain(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "_+-*/<>=.:'&,[]%".contains(c))
}

impl std::fmt::Display for S {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            S::A(s) if plain(s) => write!(f, "{s}"),
            S::A(s) => {
                write!(f, "\"")?;
                for c in s.chars() {
                    match c {
                        '"' => write!(f, "\\\"")?,
                        '\\' => write!(f, "\\\\")?,
                        '\n' => write!(f, "\\n")?,
                        c => write!(f, "{c}")?,
                    }
                }
                write!(f, "\"")
            }
            S::L(v) => {
                write!(f, "(")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, " ")?;
                    }
                    write!(f, "{x}")?;
                }
                write!(f, ")")
            }
        }
    }
}

/// Like Display, but puts long sub-lists on lines of their own.
pub fn pretty(s: &S) -> String {
    fn go(s: &S, ind: usize, out: &mut String) {
        let flat = s.to_string();
        match s {
            S::L(v) if flat.len() + ind > 100 && !v.is_empty() => {
                out.push('(');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 2));
                    }
                    go(x, ind + 2, out);
                }
                out.push(')');
            }
            _ => out.push_str(&flat),
        }
    }
    let mut o = String::new();
    go(s, 0, &mut o);
    o.push('\n');
    o
}

pub fn parse(src: &str) -> S {
    let cs: Vec<char> = src.chars().collect();
    let mut p = 0;
    let r = parse_at(&cs, &mut p);
    r
}

fn ws(cs: &[char], p: &mut usize) {
    while *p < cs.len() && (cs[*p].is_whitespace() || cs[*p] == ';') {
        if cs[*p] == ';' {
            while *p < cs.len() && cs[*p] != '\n' {
                *p += 1;
            }
        } else {
            *p += 1;
        }
    }
}

fn parse_at(cs: &[char], p: &mut usize) -> S {
    ws(cs, p);
    match cs[*p] {
        '(' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(cs, p);
                if cs[*p] == ')' {
                    *p += 1;
                    return S::L(v);
                }
                v.push(parse_at(cs, p));
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            while cs[*p] != '"' {
                if cs[*p] == '\\' {
                    *p += 1;
                    s.push(if cs[*p] == 'n' { '\n' } else { cs[*p] });
                } else {
                    s.push(cs[*p]);
                }
                *p += 1;
            }
            *p += 1;
            S::A(s)
        }
        _ => {
            let st = *p;
            while *p < cs.len() && !cs[*p].is_whitespace() && cs[*p] != '(' && cs[*p] != ')' {
                *p += 1;
            }
            S::A(cs[st..*p].iter().collect())
        }
    }
}
