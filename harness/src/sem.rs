//! Reference semantics: the bounded denotational trace language of a term, written from the published
//! definitions of the operators (sets of words closed under the operators), not from the tool's small-step rules.
use crate::term::*;
use std::collections::{BTreeSet, HashMap, HashSet};

pub type Tr = Vec<u16>;
pub type Lang = HashSet<Tr>;

pub struct Al {
    map: HashMap<BTreeSet<Act>, u16>,
    pub list: Vec<(BTreeSet<Act>, u128)>,
}

pub struct Overflow;
pub type R<X> = Result<X, Overflow>;

thread_local! {
    static FUEL: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
const FUEL_PER_CASE: u64 = 3_000_000;
/// what the reference computations of one case may cost
pub fn refuel() {
    FUEL.with(|f| f.set(FUEL_PER_CASE));
}
fn burn(n: u64) -> R<()> {
    FUEL.with(|f| {
        let v = f.get();
        f.set(v.saturating_sub(n));
        if v < n {
            Err(Overflow)
        } else {
            Ok(())
        }
    })
}

impl Al {
    pub fn new() -> Al {
        Al { map: HashMap::new(), list: vec![] }
    }
    pub fn id(&mut self, a: BTreeSet<Act>) -> u16 {
        if let Some(i) = self.map.get(&a) {
            return *i;
        }
        let i = self.list.len() as u16;
        let mask = a.iter().fold(0u128, |m, x| m | (1 << x.lf));
        self.list.push((a.clone(), mask));
        self.map.insert(a, i);
        i
    }
    pub fn one(&mut self, a: Act) -> u16 {
        self.id([a].into_iter().collect())
    }
    pub fn mask(&self, i: u16) -> u128 {
        self.list[i as usize].1
    }
    pub fn acts(&self, i: u16) -> &BTreeSet<Act> {
        &self.list[i as usize].0
    }
    pub fn show(&self, t: &Tr) -> String {
        let v: Vec<String> = t
            .iter()
            .map(|l| {
                let a: Vec<String> = self.acts(*l).iter().map(|x| format!("{:?}", x)).collect();
                if a.len() == 1 {
                    a[0].clone()
                } else {
                    format!("{{{}}}", a.join(","))
                }
            })
            .collect();
        format!("[{}]", v.join(" "))
    }
}

pub struct Lim<'a> {
    pub n: usize,
    pub cap: usize,
    /// keeps only traces that can be part of an explanation of a given observation (monotone filter)
    pub keep: Option<&'a dyn Fn(&Al, &Tr) -> bool>,
}

enum Op<'a> {
    Strict,
    Weak(u128),
    Par,
    Sync(&'a BTreeSet<Act>),
    Head,
}

fn merge(t1: &[u16], t2: &[u16], op: &Op, al: &mut Al, lim: &Lim, out: &mut Lang) -> R<()> {
    let mut pre: Tr = vec![];
    fn rec(t1: &[u16], t2: &[u16], op: &Op, al: &mut Al, lim: &Lim, pre: &mut Tr, out: &mut Lang, started: bool) -> R<()> {
        burn(1)?;
        if out.len() > lim.cap {
            return Err(Overflow);
        }
        if t1.is_empty() && t2.is_empty() {
            if lim.keep.map(|k| k(al, pre)).unwrap_or(true) {
                out.insert(pre.clone());
            }
            return Ok(());
        }
        if pre.len() >= lim.n {
            return Ok(());
        }
        let sync = if let Op::Sync(s) = op { Some(*s) } else { None };
        if let Some(s) = sync {
            let i1: Option<BTreeSet<Act>> = t1.first().map(|a| al.acts(*a).intersection(s).cloned().collect());
            let i2: Option<BTreeSet<Act>> = t2.first().map(|a| al.acts(*a).intersection(s).cloned().collect());
            if let Some(x) = &i1 {
                if x.is_empty() {
                    pre.push(t1[0]);
                    rec(&t1[1..], t2, op, al, lim, pre, out, true)?;
                    pre.pop();
                }
            }
            if let Some(x) = &i2 {
                if x.is_empty() {
                    pre.push(t2[0]);
                    rec(t1, &t2[1..], op, al, lim, pre, out, true)?;
                    pre.pop();
                }
            }
            if let (Some(x), Some(y)) = (&i1, &i2) {
                if !x.is_empty() && x == y {
                    let u: BTreeSet<Act> = al.acts(t1[0]).union(al.acts(t2[0])).cloned().collect();
                    let u = al.id(u);
                    pre.push(u);
                    rec(&t1[1..], &t2[1..], op, al, lim, pre, out, true)?;
                    pre.pop();
                }
            }
            return Ok(());
        }
        if let Some(a) = t1.first() {
            pre.push(*a);
            rec(&t1[1..], t2, op, al, lim, pre, out, true)?;
            pre.pop();
        }
        if let Some(a) = t2.first() {
            let ok = match op {
                Op::Par => true,
                Op::Strict => t1.is_empty(),
                Op::Weak(cr) => {
                    let m = al.mask(*a) & !cr;
                    t1.iter().all(|x| al.mask(*x) & m == 0)
                }
                Op::Head => {
                    let m = al.mask(*a);
                    started && t1.iter().all(|x| al.mask(*x) & m == 0)
                }
                Op::Sync(_) => unreachable!(),
            };
            if ok {
                pre.push(*a);
                rec(t1, &t2[1..], op, al, lim, pre, out, started)?;
                pre.pop();
            }
        }
        Ok(())
    }
    rec(t1, t2, op, al, lim, &mut pre, out, t1.is_empty())
}

fn product(l1: &Lang, l2: &Lang, op: &Op, al: &mut Al, lim: &Lim) -> R<Lang> {
    let mut out = Lang::new();
    for t1 in l1 {
        burn(l2.len() as u64 / 8)?;
        for t2 in l2 {
            let sync = matches!(op, Op::Sync(_));
            if !sync && t1.len() + t2.len() > lim.n {
                continue;
            }
            merge(t1, t2, op, al, lim, &mut out)?;
        }
    }
    Ok(out)
}

fn closure(base: &Lang, op: &Op, al: &mut Al, lim: &Lim) -> R<Lang> {
    let eps: Tr = vec![];
    let base: Lang = base.iter().filter(|t| !t.is_empty()).cloned().collect();
    let mut acc: Lang = [eps.clone()].into_iter().collect();
    let mut fresh = acc.clone();
    while !fresh.is_empty() {
        let next = product(&base, &fresh, op, al, lim)?;
        fresh = next.into_iter().filter(|t| !acc.contains(t)).collect();
        acc.extend(fresh.iter().cloned());
        if acc.len() > lim.cap {
            return Err(Overflow);
        }
    }
    Ok(acc)
}

fn single(al: &mut Al, lim: &Lim, t: Tr) -> Lang {
    if t.len() <= lim.n && lim.keep.map(|k| k(al, &t)).unwrap_or(true) {
        [t].into_iter().collect()
    } else {
        Lang::new()
    }
}

/// all traces of length <= lim.n
pub fn lang(t: &T, al: &mut Al, lim: &Lim) -> R<Lang> {
    Ok(match t {
        T::Empty => [vec![]].into_iter().collect(),
        T::Em { lf, ms, sync, tgts } => {
            let e = act(*lf, true, *ms);
            let rs: Vec<Act> = tgts
                .iter()
                .filter_map(|t| match t {
                    Tgt::Lf(l) => Some(act(*l, false, *ms)),
                    Tgt::Gt(_) => None,
                })
                .collect();
            if *sync {
                let mut s: BTreeSet<Act> = rs.into_iter().collect();
                s.insert(e);
                let i = al.id(s);
                single(al, lim, vec![i])
            } else {
                let ei = al.one(e);
                let first = single(al, lim, vec![ei]);
                let mut rec: Lang = [vec![]].into_iter().collect();
                for r in rs {
                    let ri = al.one(r);
                    let one = single(al, lim, vec![ri]);
                    rec = product(&rec, &one, &Op::Par, al, lim)?;
                }
                product(&first, &rec, &Op::Strict, al, lim)?
            }
        }
        T::Re { ms, sync, lfs, .. } => {
            if *sync {
                let i = al.id(lfs.iter().map(|l| act(*l, false, *ms)).collect());
                single(al, lim, vec![i])
            } else {
                let mut rec: Lang = [vec![]].into_iter().collect();
                for l in lfs {
                    let ri = al.one(act(*l, false, *ms));
                    let one = single(al, lim, vec![ri]);
                    rec = product(&rec, &one, &Op::Par, al, lim)?;
                }
                rec
            }
        }
        T::Strict(a, b) => {
            let (x, y) = (lang(a, al, lim)?, lang(b, al, lim)?);
            product(&x, &y, &Op::Strict, al, lim)?
        }
        T::Seq(a, b) => {
            let (x, y) = (lang(a, al, lim)?, lang(b, al, lim)?);
            product(&x, &y, &Op::Weak(0), al, lim)?
        }
        T::CoReg(c, a, b) => {
            let cr = c.iter().fold(0u128, |m, l| m | (1 << l));
            let (x, y) = (lang(a, al, lim)?, lang(b, al, lim)?);
            product(&x, &y, &Op::Weak(cr), al, lim)?
        }
        T::Par(a, b) => {
            let (x, y) = (lang(a, al, lim)?, lang(b, al, lim)?);
            product(&x, &y, &Op::Par, al, lim)?
        }
        T::Alt(a, b) => {
            let mut x = lang(a, al, lim)?;
            x.extend(lang(b, al, lim)?);
            x
        }
        T::Sync(s, a, b) => {
            let s: BTreeSet<Act> = s.iter().cloned().collect();
            let (x, y) = (lang(a, al, lim)?, lang(b, al, lim)?);
            product(&x, &y, &Op::Sync(&s), al, lim)?
        }
        T::Loop(k, a) => {
            let base = lang(a, al, lim)?;
            let op = match k {
                LK::P => Op::Par,
                LK::W => Op::Weak(0),
                LK::H => Op::Head,
                LK::S => Op::Strict,
            };
            closure(&base, &op, al, lim)?
        }
    })
}

/// a multi-trace: for every co-localization the word of (non empty) projected multi-actions
pub type Mu = Vec<Vec<BTreeSet<Act>>>;

pub fn project(al: &Al, t: &Tr, colocs: &[BTreeSet<usize>]) -> Mu {
    colocs
        .iter()
        .map(|c| {
            t.iter()
                .filter_map(|l| {
                    let s: BTreeSet<Act> = al.acts(*l).iter().filter(|a| c.contains(&a.lf)).cloned().collect();
                    if s.is_empty() {
                        None
                    } else {
                        Some(s)
                    }
                })
                .collect()
        })
        .collect()
}

pub fn diff(al: &Al, a: &Lang, b: &Lang) -> Option<String> {
    let mut only_a: Vec<&Tr> = a.difference(b).collect();
    let mut only_b: Vec<&Tr> = b.difference(a).collect();
    if only_a.is_empty() && only_b.is_empty() {
        return None;
    }
    only_a.sort_by_key(|t| (t.len(), (*t).clone()));
    only_b.sort_by_key(|t| (t.len(), (*t).clone()));
    Some(match (only_a.first(), only_b.first()) {
        (Some(t), _) => format!("left accepts {}, right does not", al.show(t)),
        (_, Some(t)) => format!("right accepts {}, left does not", al.show(t)),
        _ => unreachable!(),
    })
}

/// leaf-wise projection of a term: actions on lifelines outside `keep` disappear, the structure stays
pub fn ref_project(t: &T, keep: &dyn Fn(usize) -> bool) -> T {
    let r = |x: &T| b(ref_project(x, keep));
    match t {
        T::Empty => T::Empty,
        T::Em { lf, ms, sync, tgts } => {
            let rem: Vec<Tgt> = tgts
                .iter()
                .filter(|t| match t {
                    Tgt::Lf(l) => keep(*l),
                    Tgt::Gt(_) => true,
                })
                .cloned()
                .collect();
            if keep(*lf) {
                T::Em { lf: *lf, ms: *ms, sync: *sync, tgts: rem }
            } else {
                let lfs: Vec<usize> = rem
                    .iter()
                    .filter_map(|t| match t {
                        Tgt::Lf(l) => Some(*l),
                        _ => None,
                    })
                    .collect();
                if lfs.is_empty() {
                    T::Empty
                } else {
                    T::Re { gt: None, ms: *ms, sync: *sync, lfs }
                }
            }
        }
        T::Re { gt, ms, sync, lfs } => {
            let lfs: Vec<usize> = lfs.iter().cloned().filter(|l| keep(*l)).collect();
            if lfs.is_empty() {
                T::Empty
            } else {
                T::Re { gt: *gt, ms: *ms, sync: *sync, lfs }
            }
        }
        T::Strict(x, y) => T::Strict(r(x), r(y)),
        T::Seq(x, y) => T::Seq(r(x), r(y)),
        T::CoReg(c, x, y) => T::CoReg(c.clone(), r(x), r(y)),
        T::Alt(x, y) => T::Alt(r(x), r(y)),
        T::Par(x, y) => T::Par(r(x), r(y)),
        T::Loop(k, x) => T::Loop(*k, r(x)),
        T::Sync(a, x, y) => T::Sync(a.clone(), r(x), r(y)),
    }
}

/// trace-level projection of a language
pub fn proj_lang(al: &mut Al, l: &Lang, keep: &dyn Fn(usize) -> bool) -> Lang {
    let mut out = Lang::new();
    for t in l {
        let mut u = vec![];
        for x in t {
            let s: BTreeSet<Act> = al.acts(*x).iter().filter(|a| keep(a.lf)).cloned().collect();
            if !s.is_empty() {
                u.push(al.id(s));
            }
        }
        out.insert(u);
    }
    out
}

pub type MuSet = HashSet<Vec<Vec<u16>>>;

/// Multi-trace language over singleton co-localizations, computed component by component. Only for terms without
/// co-regions, sync operators and multi-actions: there, every operator acts on the components independently.
pub fn mu_lang(t: &T, n_lf: usize, n: usize, cap: usize, al: &mut Al) -> R<MuSet> {
    fn total(m: &Vec<Vec<u16>>) -> usize {
        m.iter().map(|c| c.len()).sum()
    }
    fn cat(x: &MuSet, y: &MuSet, n: usize, cap: usize) -> R<MuSet> {
        let mut out = MuSet::new();
        for u in x {
            burn(y.len() as u64)?;
            for v in y {
                if total(u) + total(v) <= n {
                    out.insert(u.iter().zip(v.iter()).map(|(p, q)| [p.as_slice(), q.as_slice()].concat()).collect());
                    if out.len() > cap {
                        return Err(Overflow);
                    }
                }
            }
        }
        Ok(out)
    }
    fn shuffles(x: &[u16], y: &[u16]) -> Vec<Vec<u16>> {
        if x.is_empty() {
            return vec![y.to_vec()];
        }
        if y.is_empty() {
            return vec![x.to_vec()];
        }
        let mut v = vec![];
        for mut r in shuffles(&x[1..], y) {
            r.insert(0, x[0]);
            v.push(r);
        }
        for mut r in shuffles(x, &y[1..]) {
            r.insert(0, y[0]);
            v.push(r);
        }
        v
    }
    fn shuf(x: &MuSet, y: &MuSet, n: usize, cap: usize) -> R<MuSet> {
        let mut out = MuSet::new();
        for u in x {
            burn(y.len() as u64)?;
            for v in y {
                if total(u) + total(v) > n {
                    continue;
                }
                let mut acc: Vec<Vec<Vec<u16>>> = vec![vec![]];
                for (p, q) in u.iter().zip(v.iter()) {
                    let sh = shuffles(p, q);
                    let mut next = vec![];
                    for a in &acc {
                        for w in &sh {
                            let mut a2 = a.clone();
                            a2.push(w.clone());
                            next.push(a2);
                        }
                    }
                    acc = next;
                    if acc.len() > cap {
                        return Err(Overflow);
                    }
                }
                out.extend(acc);
                if out.len() > cap {
                    return Err(Overflow);
                }
            }
        }
        Ok(out)
    }
    let eps: Vec<Vec<u16>> = vec![vec![]; n_lf];
    let clos = |base: MuSet, par: bool| -> R<MuSet> {
        let base: MuSet = base.into_iter().filter(|m| total(m) > 0).collect();
        let mut acc: MuSet = [eps.clone()].into_iter().collect();
        let mut fresh = acc.clone();
        while !fresh.is_empty() {
            let next = if par { shuf(&base, &fresh, n, cap)? } else { cat(&base, &fresh, n, cap)? };
            fresh = next.into_iter().filter(|m| !acc.contains(m)).collect();
            acc.extend(fresh.iter().cloned());
            if acc.len() > cap {
                return Err(Overflow);
            }
        }
        Ok(acc)
    };
    Ok(match t {
        T::Empty => [eps.clone()].into_iter().collect(),
        T::Em { .. } | T::Re { .. } => {
            let l = lang(t, al, &Lim { n, cap, keep: None })?;
            l.iter()
                .map(|tr| {
                    let mut m = eps.clone();
                    for x in tr {
                        let lf = al.acts(*x).iter().next().unwrap().lf;
                        m[lf].push(*x);
                    }
                    m
                })
                .collect()
        }
        T::Strict(x, y) | T::Seq(x, y) => cat(&mu_lang(x, n_lf, n, cap, al)?, &mu_lang(y, n_lf, n, cap, al)?, n, cap)?,
        T::Alt(x, y) => {
            let mut m = mu_lang(x, n_lf, n, cap, al)?;
            m.extend(mu_lang(y, n_lf, n, cap, al)?);
            m
        }
        T::Par(x, y) => shuf(&mu_lang(x, n_lf, n, cap, al)?, &mu_lang(y, n_lf, n, cap, al)?, n, cap)?,
        T::Loop(k, x) => {
            let base = mu_lang(x, n_lf, n, cap, al)?;
            clos(base, *k == LK::P)?
        }
        T::CoReg(..) | T::Sync(..) => panic!("mu_lang: outside of its domain"),
    })
}

pub fn mu_of(al: &Al, t: &Tr, n_lf: usize) -> Vec<Vec<u16>> {
    let mut m = vec![vec![]; n_lf];
    for x in t {
        let lf = al.acts(*x).iter().next().unwrap().lf;
        m[lf].push(*x);
    }
    m
}

pub fn show_mu(al: &Al, m: &Vec<Vec<u16>>) -> String {
    m.iter().enumerate().map(|(i, c)| format!("l{}:{}", i, al.show(c))).collect::<Vec<_>>().join(" ")
}

/// Prefixes of executions: pairs (u, m) such that some complete trace u.v exists, where m is the set of lifelines of v
/// (m = 0 iff v is empty). Exact for any bound on |u|, because the operators constrain v only through m.
/// Not defined for the sync operator.
pub type PLang = HashSet<(Tr, u128)>;

pub fn plang(t: &T, al: &mut Al, lim: &Lim) -> R<PLang> {
    fn ins(out: &mut PLang, u: Tr, m: u128, lim: &Lim, al: &Al) -> R<()> {
        if u.len() <= lim.n && lim.keep.map(|k| k(al, &u)).unwrap_or(true) {
            out.insert((u, m));
            if out.len() > lim.cap {
                return Err(Overflow);
            }
        }
        Ok(())
    }
    fn weave(t1: &[u16], m1: u128, t2: &[u16], m2: u128, op: &Op, al: &Al, lim: &Lim, pre: &mut Tr, started: bool, out: &mut PLang) -> R<()> {
        burn(1)?;
        if t1.is_empty() && t2.is_empty() {
            return ins(out, pre.clone(), m1 | m2, lim, al);
        }
        if pre.len() >= lim.n {
            return Ok(());
        }
        if let Some(a) = t1.first() {
            pre.push(*a);
            weave(&t1[1..], m1, t2, m2, op, al, lim, pre, true, out)?;
            pre.pop();
        }
        if let Some(a) = t2.first() {
            let ok = match op {
                Op::Par => true,
                Op::Strict => t1.is_empty() && m1 == 0,
                Op::Weak(cr) => {
                    let m = al.mask(*a) & !cr;
                    m & m1 == 0 && t1.iter().all(|x| al.mask(*x) & m == 0)
                }
                Op::Head => {
                    let m = al.mask(*a);
                    started && m & m1 == 0 && t1.iter().all(|x| al.mask(*x) & m == 0)
                }
                Op::Sync(_) => unreachable!(),
            };
            if ok {
                pre.push(*a);
                weave(t1, m1, &t2[1..], m2, op, al, lim, pre, started, out)?;
                pre.pop();
            }
        }
        Ok(())
    }
    fn prod(x: &PLang, y: &PLang, op: &Op, al: &Al, lim: &Lim) -> R<PLang> {
        let mut out = PLang::new();
        for (u1, m1) in x {
            burn(y.len() as u64 / 8)?;
            for (u2, m2) in y {
                if u1.len() + u2.len() <= lim.n {
                    weave(u1, *m1, u2, *m2, op, al, lim, &mut vec![], false, &mut out)?;
                }
            }
        }
        Ok(out)
    }
    Ok(match t {
        T::Empty | T::Em { .. } | T::Re { .. } => {
            let full = lang(t, al, &Lim { n: 8, cap: lim.cap, keep: None })?;
            let mut out = PLang::new();
            for t in full {
                for k in 0..=t.len() {
                    let m = t[k..].iter().fold(0, |m, x| m | al.mask(*x));
                    ins(&mut out, t[..k].to_vec(), m, lim, al)?;
                }
            }
            out
        }
        T::Strict(x, y) => {
            let (x, y) = (plang(x, al, lim)?, plang(y, al, lim)?);
            prod(&x, &y, &Op::Strict, al, lim)?
        }
        T::Seq(x, y) => {
            let (x, y) = (plang(x, al, lim)?, plang(y, al, lim)?);
            prod(&x, &y, &Op::Weak(0), al, lim)?
        }
        T::CoReg(c, x, y) => {
            let cr = c.iter().fold(0u128, |m, l| m | (1 << l));
            let (x, y) = (plang(x, al, lim)?, plang(y, al, lim)?);
            prod(&x, &y, &Op::Weak(cr), al, lim)?
        }
        T::Par(x, y) => {
            let (x, y) = (plang(x, al, lim)?, plang(y, al, lim)?);
            prod(&x, &y, &Op::Par, al, lim)?
        }
        T::Alt(x, y) => {
            let mut r = plang(x, al, lim)?;
            r.extend(plang(y, al, lim)?);
            r
        }
        T::Loop(k, x) => {
            // an iteration that lies entirely in v only adds constraints: dropping it gives a smaller m
            let base: PLang = plang(x, al, lim)?.into_iter().filter(|(u, _)| !u.is_empty()).collect();
            let op = match k {
                LK::P => Op::Par,
                LK::W => Op::Weak(0),
                LK::H => Op::Head,
                LK::S => Op::Strict,
            };
            let mut acc: PLang = [(vec![], 0)].into_iter().collect();
            let mut fresh = acc.clone();
            while !fresh.is_empty() {
                let next = prod(&base, &fresh, &op, al, lim)?;
                fresh = next.into_iter().filter(|t| !acc.contains(t)).collect();
                acc.extend(fresh.iter().cloned());
                if acc.len() > lim.cap {
                    return Err(Overflow);
                }
            }
            acc
        }
        T::Sync(..) => panic!("plang: outside of its domain"),
    })
}

/// one random trace of the denotation (None: a synchronised product that does not succeed)
pub fn sample(s: &mut crate::engine::Src, t: &T, al: &mut Al, budget: &mut usize) -> Option<Tr> {
    fn weave(s: &mut crate::engine::Src, t1: &[u16], t2: &[u16], op: &Op, al: &mut Al) -> Option<Tr> {
        let (mut i, mut j) = (0, 0);
        let mut out: Tr = vec![];
        while i < t1.len() || j < t2.len() {
            let left = i < t1.len();
            let right = j < t2.len();
            if let Op::Sync(set) = op {
                let i1: Option<BTreeSet<Act>> = t1.get(i).map(|a| al.acts(*a).intersection(set).cloned().collect());
                let i2: Option<BTreeSet<Act>> = t2.get(j).map(|a| al.acts(*a).intersection(set).cloned().collect());
                let l = i1.as_ref().map(|x| x.is_empty()).unwrap_or(false);
                let r = i2.as_ref().map(|x| x.is_empty()).unwrap_or(false);
                if l && (!r || s.chance(1, 2)) {
                    out.push(t1[i]);
                    i += 1;
                } else if r {
                    out.push(t2[j]);
                    j += 1;
                } else if i1.is_some() && i1 == i2 {
                    let u: BTreeSet<Act> = al.acts(t1[i]).union(al.acts(t2[j])).cloned().collect();
                    out.push(al.id(u));
                    i += 1;
                    j += 1;
                } else {
                    return None;
                }
                continue;
            }
            let ok = right
                && match op {
                    Op::Par => true,
                    Op::Strict => !left,
                    Op::Weak(cr) => {
                        let m = al.mask(t2[j]) & !cr;
                        t1[i..].iter().all(|x| al.mask(*x) & m == 0)
                    }
                    Op::Head => {
                        let m = al.mask(t2[j]);
                        i > 0 && t1[i..].iter().all(|x| al.mask(*x) & m == 0)
                    }
                    Op::Sync(_) => unreachable!(),
                };
            if ok && (!left || s.chance(1, 2)) {
                out.push(t2[j]);
                j += 1;
            } else {
                out.push(t1[i]);
                i += 1;
            }
        }
        Some(out)
    }
    let bin = |s: &mut crate::engine::Src, x: &T, y: &T, op: Op, al: &mut Al, budget: &mut usize| -> Option<Tr> {
        let u = sample(s, x, al, budget)?;
        let v = sample(s, y, al, budget)?;
        weave(s, &u, &v, &op, al)
    };
    match t {
        T::Empty | T::Em { .. } | T::Re { .. } => {
            let l = lang(t, al, &Lim { n: 8, cap: 10000, keep: None }).ok()?;
            let mut v: Vec<Tr> = l.into_iter().collect();
            v.sort();
            Some(s.pick(&v).clone())
        }
        T::Strict(x, y) => bin(s, x, y, Op::Strict, al, budget),
        T::Seq(x, y) => bin(s, x, y, Op::Weak(0), al, budget),
        T::Par(x, y) => bin(s, x, y, Op::Par, al, budget),
        T::CoReg(c, x, y) => {
            let cr = c.iter().fold(0u128, |m, l| m | (1 << l));
            bin(s, x, y, Op::Weak(cr), al, budget)
        }
        T::Sync(a, x, y) => {
            let set: BTreeSet<Act> = a.iter().cloned().collect();
            bin(s, x, y, Op::Sync(&set), al, budget)
        }
        T::Alt(x, y) => {
            if s.chance(1, 2) {
                sample(s, x, al, budget)
            } else {
                sample(s, y, al, budget)
            }
        }
        T::Loop(k, x) => {
            let mut acc: Tr = vec![];
            while *budget > 0 && s.chance(2, 3) {
                *budget -= 1;
                let u = sample(s, x, al, budget)?;
                let op = match k {
                    LK::P => Op::Par,
                    LK::W => Op::Weak(0),
                    LK::H => Op::Head,
                    LK::S => Op::Strict,
                };
                if u.is_empty() {
                    continue;
                }
                acc = weave(s, &u, &acc, &op, al)?;
            }
            Some(acc)
        }
    }
}
