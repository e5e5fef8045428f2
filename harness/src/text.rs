//! Writers of the tool's input files, independent of the tool's own ones, with random layout.
use crate::engine::Src;
use crate::term::*;
use std::collections::BTreeSet;

/// names of the elements of a signature
#[derive(Clone, Debug)]
pub struct Names {
    pub lf: Vec<String>,
    pub ms: Vec<String>,
    pub gt: Vec<String>,
}

const TRICKY: [&str; 40] = [
    "l1", "o", "o1", "order", "seq", "seq1", "strict", "strictly", "alt", "par", "party", "and", "coreg", "sync", "synch", "asynch", "loop", "loopS", "loopW1", "loopHH", "S", "a", "b", "m", "m1",
    "A_b", "x_", "Z9_9", "é", "lifeline", "any", "all", "message", "none", "true", "Ünï", "q", "r", "t_1", "l",
];

impl Names {
    pub fn plain(n_lf: usize, n_ms: usize, n_gt: usize) -> Names {
        Names {
            lf: (0..n_lf).map(|i| format!("l{}", i)).collect(),
            ms: (0..n_ms).map(|i| format!("m{}", i)).collect(),
            gt: (0..n_gt).map(|i| format!("g{}", i)).collect(),
        }
    }
    /// distinct names; lifelines and gates share a name space, messages have their own
    pub fn gen(s: &mut Src, n_lf: usize, n_ms: usize, n_gt: usize) -> Names {
        let mut pool: Vec<&str> = TRICKY.to_vec();
        let mut take = |s: &mut Src, n: usize| -> Vec<String> {
            (0..n)
                .map(|i| {
                    if pool.is_empty() {
                        return format!("other{}", i);
                    }
                    let k = s.below(pool.len());
                    pool.remove(k).to_string()
                })
                .collect()
        };
        let lf = take(s, n_lf);
        let mut pool = TRICKY.iter().copied().filter(|x| !lf.iter().any(|y| x == y)).collect::<Vec<_>>();
        let gt = (0..n_gt)
            .map(|i| {
                if pool.is_empty() {
                    return format!("gate{}", i);
                }
                let k = s.below(pool.len());
                pool.remove(k).to_string()
            })
            .collect();
        let mut pool2: Vec<&str> = TRICKY.to_vec();
        let ms = (0..n_ms)
            .map(|i| {
                if pool2.is_empty() {
                    return format!("another{}", i);
                }
                let k = s.below(pool2.len());
                pool2.remove(k).to_string()
            })
            .collect();
        Names { lf, ms, gt }
    }
    pub fn ctx(&self) -> hibou_label::core::general_context::GeneralContext {
        let mut g = hibou_label::core::general_context::GeneralContext::new();
        for x in &self.lf {
            g.add_lf(x.clone());
        }
        for x in &self.ms {
            g.add_msg(x.clone());
        }
        for x in &self.gt {
            g.add_gt(x.clone());
        }
        g
    }
}

/// tokens, joined with random white space
pub struct Toks {
    pub v: Vec<String>,
}

impl Toks {
    pub fn new() -> Toks {
        Toks { v: vec![] }
    }
    pub fn p<S: Into<String>>(&mut self, x: S) {
        self.v.push(x.into())
    }
    pub fn list(&mut self, open: &str, xs: &[String], close: &str) {
        self.p(open);
        for (k, x) in xs.iter().enumerate() {
            if k > 0 {
                self.p(",")
            }
            self.p(x.clone())
        }
        self.p(close)
    }
    /// plain: single spaces
    pub fn text(&self, s: &mut Src, plain: bool) -> String {
        let mut o = String::new();
        for (k, x) in self.v.iter().enumerate() {
            if plain {
                if k > 0 {
                    o.push(' ')
                }
            } else {
                let n = s.below(12);
                o.push_str(["", " ", "", " ", "", " ", "\n", "\t", "\r\n", "/* c */", " /* ) ; */ \n", "  "][n]);
                // two adjacent words have to be separated
                let w = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric() || c == '_');
                if w(o.chars().last()) && w(x.chars().next()) {
                    o.push(' ')
                }
            }
            o.push_str(x);
        }
        if !plain && s.chance(1, 3) {
            o.push('\n')
        }
        o
    }
}

pub fn act_text(n: &Names, a: &Act) -> Vec<String> {
    vec![n.lf[a.lf].clone(), if a.emit { "!" } else { "?" }.to_string(), n.ms[a.ms].clone()]
}

fn flat<'a>(t: &'a T, same: &dyn Fn(&'a T) -> Option<(&'a T, &'a T)>, out: &mut Vec<&'a T>) {
    match same(t) {
        Some((x, y)) => {
            out.push(x);
            flat(y, same, out)
        }
        None => out.push(t),
    }
}

/// `nary`: write right-nested operators in their n-ary form when the draws say so
pub fn hif(s: &mut Src, t: &T, n: &Names, k: &mut Toks) {
    let fancy = |s: &mut Src| s.chance(1, 2);
    match t {
        T::Empty => k.p(if fancy(s) { "∅" } else { "o" }),
        T::Em { lf, ms, sync, tgts } => {
            k.p(n.lf[*lf].clone());
            k.p("--");
            content(s, *ms, *sync, n, k);
            k.p("->");
            let v: Vec<String> = tgts
                .iter()
                .map(|t| match t {
                    Tgt::Lf(l) => n.lf[*l].clone(),
                    Tgt::Gt(g) => n.gt[*g].clone(),
                })
                .collect();
            if v.is_empty() {
                k.p("|")
            } else if v.len() == 1 && !fancy(s) {
                k.p(v[0].clone())
            } else {
                k.list("(", &v, ")")
            }
        }
        T::Re { gt, ms, sync, lfs } => {
            if let Some(g) = gt {
                k.p(n.gt[*g].clone());
                k.p("--");
            }
            content(s, *ms, *sync, n, k);
            k.p("->");
            let v: Vec<String> = lfs.iter().map(|l| n.lf[*l].clone()).collect();
            if v.len() == 1 && !fancy(s) {
                k.p(v[0].clone())
            } else {
                k.list("(", &v, ")")
            }
        }
        T::Loop(kind, x) => {
            k.p(match kind {
                LK::S => "loopS",
                LK::H => "loopH",
                LK::W => "loopW",
                LK::P => "loopP",
            });
            k.p("(");
            hif(s, x, n, k);
            k.p(")");
        }
        _ => {
            let (name, x, y) = match t {
                T::Strict(x, y) => ("strict", x, y),
                T::Seq(x, y) => ("seq", x, y),
                T::CoReg(_, x, y) => ("coreg", x, y),
                T::Alt(x, y) => ("alt", x, y),
                T::Par(x, y) => ("par", x, y),
                T::Sync(_, x, y) => ("sync", x, y),
                _ => unreachable!(),
            };
            k.p(name);
            match t {
                T::CoReg(c, ..) => {
                    let v: Vec<String> = c.iter().map(|l| n.lf[*l].clone()).collect();
                    k.list("(", &v, ")")
                }
                T::Sync(a, ..) => {
                    let (o, c) = if a.len() == 1 { ("(", ")") } else { ("{", "}") };
                    k.p(o);
                    for (i, a) in a.iter().enumerate() {
                        if i > 0 {
                            k.p(",")
                        }
                        for w in act_text(n, a) {
                            k.p(w)
                        }
                    }
                    k.p(c)
                }
                _ => {}
            }
            k.p("(");
            let mut ops: Vec<&T> = vec![x];
            if fancy(s) {
                flat(y, &|u| same_op(t, u), &mut ops);
            } else {
                ops.push(y);
            }
            for (i, o) in ops.iter().enumerate() {
                if i > 0 {
                    k.p(",")
                }
                hif(s, o, n, k);
            }
            k.p(")");
        }
    }
}

pub fn same_op<'a>(t: &T, u: &'a T) -> Option<(&'a T, &'a T)> {
    match (t, u) {
        (T::Strict(..), T::Strict(a, b)) | (T::Seq(..), T::Seq(a, b)) | (T::Alt(..), T::Alt(a, b)) | (T::Par(..), T::Par(a, b)) => Some((a, b)),
        (T::CoReg(c, ..), T::CoReg(d, a, b)) if c == d => Some((a, b)),
        (T::Sync(c, ..), T::Sync(d, a, b)) if c == d => Some((a, b)),
        _ => None,
    }
}

fn content(s: &mut Src, ms: usize, sync: bool, n: &Names, k: &mut Toks) {
    if sync {
        k.p("<");
        k.p("synch");
        k.p(">");
    } else if s.chance(1, 4) {
        k.p("<");
        k.p("asynch");
        k.p(">");
    }
    k.p(n.ms[ms].clone());
}

pub fn hif_text(s: &mut Src, t: &T, n: &Names, plain: bool) -> String {
    let mut k = Toks::new();
    hif(s, t, n, &mut k);
    k.text(s, plain)
}

pub fn hsf_text(s: &mut Src, n: &Names, plain: bool) -> String {
    let mut secs: Vec<(&str, &Vec<String>)> = vec![("@message", &n.ms), ("@lifeline", &n.lf), ("@gate", &n.gt)];
    secs.retain(|x| !x.1.is_empty());
    let mut k = Toks::new();
    while !secs.is_empty() {
        let j = if plain { 0 } else { s.below(secs.len()) };
        let (h, v) = secs.remove(j);
        k.p(h);
        k.p("{");
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                k.p(";")
            }
            k.p(x.clone())
        }
        if !plain && s.chance(1, 3) {
            k.p(";")
        }
        k.p("}");
    }
    k.text(s, plain)
}

/// associates nested operators to the right
pub fn right(t: &T) -> T {
    match t {
        T::Empty | T::Em { .. } | T::Re { .. } => t.clone(),
        T::Loop(k, x) => T::Loop(*k, b(right(x))),
        _ => {
            fn leaves(t: &T, u: &T, out: &mut Vec<T>) {
                match same_op(t, u) {
                    Some((x, y)) => {
                        leaves(t, x, out);
                        leaves(t, y, out)
                    }
                    None => out.push(right(u)),
                }
            }
            let mut v = vec![];
            leaves(t, t, &mut v);
            let mut r = v.pop().unwrap();
            while let Some(x) = v.pop() {
                r = match t {
                    T::Strict(..) => T::Strict(b(x), b(r)),
                    T::Seq(..) => T::Seq(b(x), b(r)),
                    T::Alt(..) => T::Alt(b(x), b(r)),
                    T::Par(..) => T::Par(b(x), b(r)),
                    T::CoReg(c, ..) => T::CoReg(c.clone(), b(x), b(r)),
                    T::Sync(c, ..) => T::Sync(c.clone(), b(x), b(r)),
                    _ => unreachable!(),
                };
            }
            r
        }
    }
}

/// sorted synchronization sets
pub fn norm(t: &T) -> T {
    match t {
        T::Empty | T::Em { .. } | T::Re { .. } => t.clone(),
        T::Loop(k, x) => T::Loop(*k, b(norm(x))),
        T::Strict(x, y) => T::Strict(b(norm(x)), b(norm(y))),
        T::Seq(x, y) => T::Seq(b(norm(x)), b(norm(y))),
        T::Alt(x, y) => T::Alt(b(norm(x)), b(norm(y))),
        T::Par(x, y) => T::Par(b(norm(x)), b(norm(y))),
        T::CoReg(c, x, y) => T::CoReg(c.clone(), b(norm(x)), b(norm(y))),
        T::Sync(c, x, y) => {
            let mut c = c.clone();
            c.sort();
            c.dedup();
            T::Sync(c, b(norm(x)), b(norm(y)))
        }
    }
}

/// the text of one component's actions
pub fn trace_toks(n: &Names, tr: &[BTreeSet<Act>], k: &mut Toks) {
    for (i, a) in tr.iter().enumerate() {
        if i > 0 {
            k.p(".")
        }
        if a.len() == 1 {
            for w in act_text(n, a.iter().next().unwrap()) {
                k.p(w)
            }
        } else {
            k.p("{");
            for (j, x) in a.iter().enumerate() {
                if j > 0 {
                    k.p(",")
                }
                for w in act_text(n, x) {
                    k.p(w)
                }
            }
            k.p("}");
        }
    }
}
