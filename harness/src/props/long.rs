//! Long observations: independent regular components, decided letter by letter by derivatives.
use super::{analyze, Opt, Setting};
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::sem::*;
use crate::term::*;
use hibou_label::core::colocalizations::CoLocalizations;
use hibou_label::process::ana::handling::local_analysis::perform_local_analysis;
use hibou_label::process::ana::node::flags::MultiTraceAnalysisFlags;
use hibou_label::process::ana::param::anakind::{AnalysisKind, SimulationActionCriterion, SimulationConfiguration, SimulationLoopCriterion};
use hibou_label::process::ana::verdict::global::AnalysisGlobalVerdict as V;
use std::collections::BTreeSet;

fn seq(a: T, y: &T) -> T {
    if a == T::Empty {
        y.clone()
    } else if *y == T::Empty {
        a
    } else {
        T::Strict(b(a), b(y.clone()))
    }
}

fn par(a: T, y: T) -> T {
    if a == T::Empty {
        y
    } else if y == T::Empty {
        a
    } else {
        T::Par(b(a), b(y))
    }
}

fn nullable(t: &T) -> bool {
    match t {
        T::Empty | T::Loop(..) => true,
        T::Em { .. } | T::Re { .. } => false,
        T::Alt(x, y) => nullable(x) || nullable(y),
        T::Strict(x, y) | T::Seq(x, y) | T::Par(x, y) | T::CoReg(_, x, y) | T::Sync(_, x, y) => nullable(x) && nullable(y),
    }
}

/// what may follow each first letter, on terms whose sequences are all concatenations
fn steps(t: &T) -> Vec<(Act, T)> {
    match t {
        T::Empty => vec![],
        T::Em { lf, ms, tgts, .. } => {
            let lfs: Vec<usize> = tgts.iter().filter_map(|x| if let Tgt::Lf(l) = x { Some(*l) } else { None }).collect();
            vec![(act(*lf, true, *ms), if lfs.is_empty() { T::Empty } else { T::Re { gt: None, ms: *ms, sync: false, lfs } })]
        }
        T::Re { ms, lfs, .. } => vec![(act(lfs[0], false, *ms), T::Empty)],
        T::Strict(x, y) | T::Seq(x, y) => {
            let mut o: Vec<(Act, T)> = steps(x).into_iter().map(|(a, r)| (a, seq(r, y))).collect();
            if nullable(x) {
                o.extend(steps(y));
            }
            o
        }
        T::Alt(x, y) => steps(x).into_iter().chain(steps(y)).collect(),
        T::Par(x, y) | T::CoReg(_, x, y) => {
            let l = steps(x).into_iter().map(|(a, r)| (a, par(r, (**y).clone())));
            l.chain(steps(y).into_iter().map(|(a, r)| (a, par((**x).clone(), r)))).collect()
        }
        T::Loop(LK::P, x) => steps(x).into_iter().map(|(a, r)| (a, par(r, t.clone()))).collect(),
        T::Loop(_, x) => steps(x).into_iter().map(|(a, r)| (a, seq(r, t))).collect(),
        T::Sync(..) => unreachable!(),
    }
}

fn run(from: BTreeSet<T>, word: &[BTreeSet<Act>]) -> BTreeSet<T> {
    let mut cur = from;
    for a in word {
        cur = cur.iter().flat_map(|t| steps(t)).filter(|(x, _)| a.len() == 1 && a.contains(x)).map(|(_, r)| r).collect();
    }
    cur
}

fn reachable(t: &T) -> BTreeSet<T> {
    let mut all: BTreeSet<T> = [t.clone()].into_iter().collect();
    let mut todo = vec![t.clone()];
    while let Some(x) = todo.pop() {
        for (_, r) in steps(&x) {
            if all.insert(r.clone()) {
                todo.push(r)
            }
        }
    }
    all
}

fn letters(t: &T) -> usize {
    match t {
        T::Empty => 0,
        T::Em { tgts, .. } => 1 + tgts.iter().filter(|x| matches!(x, Tgt::Lf(_))).count(),
        T::Re { lfs, .. } => lfs.len(),
        T::Strict(x, y) | T::Seq(x, y) | T::Alt(x, y) | T::Par(x, y) | T::CoReg(_, x, y) | T::Sync(_, x, y) => letters(x) + letters(y),
        T::Loop(_, x) => letters(x),
    }
}

fn leaf(s: &mut Src, lfs: &[usize], n_ms: usize) -> T {
    let (lf, ms) = (*s.pick(lfs), s.below(n_ms));
    match s.below(3) {
        0 => T::Re { gt: None, ms, sync: false, lfs: vec![lf] },
        1 if lfs.len() > 1 => {
            let to = *s.pick(lfs);
            T::Em { lf, ms, sync: false, tgts: if to == lf { vec![] } else { vec![Tgt::Lf(to)] } }
        }
        _ => T::Em { lf, ms, sync: false, tgts: vec![] },
    }
}

fn regular(s: &mut Src, lfs: &[usize], n_ms: usize, n: usize, inter: bool, loops: usize) -> T {
    let one = lfs.len() == 1;
    if n <= 1 {
        return leaf(s, lfs, n_ms);
    }
    match s.below(if loops > 0 { 8 } else { 6 }) {
        0 | 1 => {
            let k = s.range(1, n - 1);
            T::Alt(b(regular(s, lfs, n_ms, k, inter, loops)), b(regular(s, lfs, n_ms, n - k, inter, loops)))
        }
        2 if inter && n <= 3 => {
            let k = s.range(1, n - 1);
            let (x, y) = (regular(s, lfs, n_ms, k, false, 0), regular(s, lfs, n_ms, n - k, false, 0));
            if one && s.chance(1, 2) {
                T::CoReg(lfs.to_vec(), b(x), b(y))
            } else {
                T::Par(b(x), b(y))
            }
        }
        2..=5 => {
            let k = s.range(1, n - 1);
            let (x, y) = (regular(s, lfs, n_ms, k, inter, loops), regular(s, lfs, n_ms, n - k, inter, loops));
            if one && s.chance(1, 2) {
                T::Seq(b(x), b(y))
            } else {
                T::Strict(b(x), b(y))
            }
        }
        _ => {
            let x = regular(s, lfs, n_ms, n - 1, inter, loops - 1);
            repeat(s, one, inter, x)
        }
    }
}

fn repeat(s: &mut Src, one: bool, inter: bool, x: T) -> T {
    let k = match s.below(4) {
        0 if one => LK::H,
        1 if one => LK::W,
        // of single actions: the open iterations would have to be counted otherwise
        2 if one && inter && steps(&x).iter().all(|(_, r)| *r == T::Empty) => LK::P,
        _ => LK::S,
    };
    T::Loop(k, b(x))
}

struct Long {
    x: Setting,
    parts: Vec<T>,
    inter: bool,
}

/// one to three independent components, each of them regular and long
fn gen_long(s: &mut Src, max_len: usize, max_parts: usize) -> Option<Long> {
    let n_parts = if s.chance(2, 3) { 1 } else { s.range(1, max_parts) };
    let mut cfg = Cfg::full();
    cfg.n_ms = s.range(1, 3);
    let inter = s.chance(1, 3);
    let top = match n_parts {
        1 => max_len,
        2 => 24.min(max_len),
        _ => 8,
    };
    let (mut colocs, mut parts, mut mu, mut n_lf): (Colocs, Vec<T>, Mu, usize) = (vec![], vec![], vec![], 0);
    let how = ["complete", "prefix", "slice", "edited"][s.weighted(&[4, 3, 2, 4])];
    for _ in 0..n_parts {
        let w = if s.chance(2, 3) { 1 } else { s.range(1, 3) };
        let lfs: Vec<usize> = (n_lf..n_lf + w).collect();
        n_lf += w;
        let size = s.range(1, 6);
        let x = regular(s, &lfs, cfg.n_ms, size, inter, 1);
        let mut t = repeat(s, w == 1, inter, x);
        if s.chance(1, 2) {
            t = T::Strict(b(t), b(leaf(s, &lfs, cfg.n_ms)));
        }
        if s.chance(1, 3) {
            t = T::Strict(b(leaf(s, &lfs, cfg.n_ms)), b(t));
        }
        let len = s.range(1, top);
        let mut word: Vec<BTreeSet<Act>> = vec![];
        let mut cur = t.clone();
        loop {
            if word.len() >= len && (nullable(&cur) || how != "complete") {
                break;
            }
            let next = steps(&cur);
            if next.is_empty() {
                if nullable(&cur) {
                    break;
                }
                return None;
            }
            if word.len() > len + 12 {
                return None;
            }
            let (a, r) = s.pick(&next).clone();
            word.push([a].into_iter().collect());
            cur = r;
        }
        if how == "slice" {
            let k = s.below(word.len().min(4) + 1);
            word.drain(..k);
        }
        if how == "edited" && !word.is_empty() {
            // rather at the end
            let n = word.len();
            let p = if s.chance(1, 2) { n - 1 - s.below(n.min(4)) } else { s.below(n) };
            let set = |a: Act| -> BTreeSet<Act> { [a].into_iter().collect() };
            match s.below(4) {
                0 => {
                    word.remove(p);
                }
                1 => {
                    let y = word[s.below(n)].clone();
                    word.insert(p, y);
                }
                2 => {
                    let q = s.below(n);
                    word.swap(p, q);
                }
                _ => word[p] = set(act(*s.pick(&lfs), s.chance(1, 2), s.below(cfg.n_ms))),
            }
        }
        colocs.push(lfs.into_iter().collect());
        parts.push(t);
        mu.push(word);
    }
    cfg.n_lf = n_lf;
    let mut t = parts[0].clone();
    for y in &parts[1..] {
        t = if inter && s.chance(1, 2) { T::Par(b(t), b(y.clone())) } else { T::Seq(b(t), b(y.clone())) };
    }
    let inter = t.any(&mut |y| matches!(y, T::Par(..) | T::CoReg(..) | T::Loop(LK::P, _)));
    Some(Long { x: Setting { cfg, t, colocs, mu, how }, parts, inter })
}

impl Long {
    /// complete, prefix
    fn facts(&self) -> (bool, bool) {
        let (mut full, mut pre) = (true, true);
        for (t, w) in self.parts.iter().zip(&self.x.mu) {
            let e = run([t.clone()].into_iter().collect(), w);
            pre = pre && !e.is_empty();
            full = full && e.iter().any(nullable);
        }
        (full, pre)
    }
    fn slice(&self) -> bool {
        self.parts.iter().zip(&self.x.mu).all(|(t, w)| !run(reachable(t), w).is_empty())
    }
    fn len(&self) -> usize {
        mu_len(&self.x.mu)
    }
}

fn options(s: &mut Src, g: &Long) -> Opt {
    let mut o = Opt::draw(s, true);
    o.memo = true;
    if g.len() > 60 {
        if let Some((_, la, _)) = &mut o.locana {
            if la.is_none() {
                *la = Some(s.below(4) as u32)
            }
        }
    }
    o
}

fn describe(g: &Long, o: &Opt, c: &mut Case) {
    c.say(format!("{} | {} ({}) | {}", g.x.t, show_mtr(&g.x.mu, &g.x.colocs), g.x.how, o));
    classes(&g.x.t, c);
    c.label(g.x.how);
    c.label(match g.len() {
        0..=15 => "up to 15 actions",
        16..=63 => "16 to 63 actions",
        _ => "at least 64 actions",
    });
    c.nontrivial = g.len() >= 16;
}

macro_rules! long {
    ($s:expr, $c:expr, $len:expr, $parts:expr) => {
        match gen_long($s, $len, $parts) {
            Some(g) => g,
            None => {
                $c.discard = true;
                return Ok(());
            }
        }
    };
}

pub fn accept(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let g = long!(s, c, 160, 3);
    let o = options(s, &g);
    describe(&g, &o, c);
    let (full, _) = g.facts();
    let (_, v) = or_discard!(analyze(&g.x, &AnalysisKind::Accept, &o), c);
    c.label(if full { "member" } else { "not a member" });
    let want = if full { V::Pass } else { V::Fail };
    ensure!(v == want, "long observation", "the multi-trace is {}one of the model's, the verdict is {:?}", if full { "" } else { "not " }, v);
    Ok(())
}

pub fn prefix(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let g = long!(s, c, 160, 3);
    let o = options(s, &g);
    describe(&g, &o, c);
    let (full, pre) = g.facts();
    let (_, v) = or_discard!(analyze(&g.x, &AnalysisKind::Prefix, &o), c);
    c.label(if full { "complete" } else if pre { "prefix of an execution" } else { "neither" });
    if full || pre {
        let ok = v == V::WeakPass && (!full || o.goal == 2) || full && v == V::Pass;
        ensure!(ok, "long observation", "the multi-trace is {}, the verdict is {:?}", if full { "complete" } else { "that of a prefix of an execution" }, v);
    } else {
        ensure!(v != V::Pass && v != V::WeakPass, "long observation", "the multi-trace is not that of a prefix of an execution, the verdict is {:?}", v);
    }
    Ok(())
}

pub fn eliminate(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let g = long!(s, c, 160, 3);
    let o = options(s, &g);
    describe(&g, &o, c);
    let (full, pre) = g.facts();
    let (_, v) = or_discard!(analyze(&g.x, &AnalysisKind::Eliminate, &o), c);
    let single = g.x.colocs.iter().all(|l| l.len() == 1);
    c.label(if full { "complete" } else if pre { "multi-prefix" } else { "neither" });
    if pre {
        let ok = if single { matches!(v, V::Pass | V::WeakPass) } else { !matches!(v, V::Fail | V::WeakFail) };
        ensure!(ok, "long observation", "every component is a prefix, the verdict is {:?}", v);
        ensure!(full || v != V::Pass, "long observation", "the multi-trace is not complete, the verdict is Pass");
    } else if single && !g.inter {
        ensure!(v == V::Fail, "long observation", "some component is not a prefix, the verdict is {:?}", v);
    } else {
        ensure!(v != V::Pass, "long observation", "the multi-trace is not complete, the verdict is Pass");
    }
    Ok(())
}

pub fn simulate(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let g = long!(s, c, 60, 2);
    let mut o = options(s, &g);
    o.strategy = s.below(2);
    let before = g.parts.len() == 1 && s.chance(1, 2);
    // enough to reach any point of the model
    let n = if before { letters(&g.x.t).min(8) } else { s.below(3) };
    let sc = SimulationConfiguration::new(before, s.chance(1, 2), s.chance(1, 2), SimulationLoopCriterion::None, SimulationActionCriterion::SpecificNum(n as u32));
    describe(&g, &o, c);
    c.say(format!("{}", sc));
    let (full, pre) = g.facts();
    let sli = before && g.slice();
    let (_, v) = or_discard!(analyze(&g.x, &AnalysisKind::Simulate(sc.clone()), &o), c);
    c.label(if full { "complete" } else if pre { "multi-prefix" } else if sli { "slice" } else { "neither" });
    if full {
        ensure!(v == V::Pass || o.goal == 2 && v == V::WeakPass, "long observation", "the multi-trace is complete, the verdict is {:?}", v);
    } else if pre || sli && letters(&g.x.t) <= n {
        ensure!(v == V::WeakPass, "long observation", "the multi-trace is a {}, the verdict is {:?}", if pre { "multi-prefix" } else { "slice" }, v);
    } else if !sli {
        ensure!(matches!(v, V::Fail | V::WeakFail), "long observation", "no behaviour has these components, the verdict is {:?}", v);
    }
    Ok(())
}

/// a bound on the depth, on either side of the length of the observation
pub fn depth(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let g = long!(s, c, 120, 1);
    let mut o = options(s, &g);
    o.locana = None;
    let n = g.len();
    let bound = (n + s.below(6)).saturating_sub(3);
    o.max_depth = Some(bound as u32);
    describe(&g, &o, c);
    let kind = if s.chance(1, 2) { AnalysisKind::Accept } else { AnalysisKind::Prefix };
    c.say(format!("{:?}", kind));
    let (full, pre) = g.facts();
    let (_, v) = or_discard!(analyze(&g.x, &kind, &o), c);
    let accept = matches!(kind, AnalysisKind::Accept);
    let explained = if accept { full } else { pre };
    if bound >= n && explained {
        let ok = v == V::Pass && full || v == V::WeakPass && (!full || o.goal == 2);
        ensure!(ok, "deep enough", "{} steps explain the multi-trace and {} are allowed, the verdict is {:?}", n, bound, v);
        c.label("deep enough");
    } else {
        ensure!(!matches!(v, V::Pass | V::WeakPass), "not deep enough", "the multi-trace has {} actions, {} steps are allowed, {}, the verdict is {:?}", n, bound, if explained { "they explain it" } else { "it is unexplained" }, v);
        if explained {
            ensure!(!matches!(v, V::Fail | V::WeakFail), "not deep enough", "the search is cut at {} steps, {} explain the multi-trace, the verdict is {:?}", bound, n, v);
            c.label("not deep enough");
        }
    }
    Ok(())
}

/// the local analysis of a long trace
pub fn look_ahead(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let g = long!(s, c, 160, 1);
    if g.len() == 0 {
        c.discard = true;
        return Ok(());
    }
    let d = if s.chance(1, 2) { None } else { Some((g.len() + s.below(5)).saturating_sub(s.below(40)) as u32) };
    let n = g.len();
    describe(&g, &Opt::plain(), c);
    c.say(format!("look-ahead {:?}", d));
    let x = &g.x;
    if n > 24 {
        // the local analysis has no bound of its own on the nodes: one way at a time
        let mut cur = Some(x.t.clone());
        for a in &x.mu[0] {
            let Some(t) = cur else { break };
            let mut next: Vec<T> = steps(&t).into_iter().filter(|(y, _)| a.contains(y)).map(|(_, r)| r).collect();
            if next.len() > 1 {
                c.discard = true;
                return Ok(());
            }
            cur = next.pop();
        }
    }
    let v = perform_local_analysis(&x.cfg.ctx(), CoLocalizations::new(x.colocs.clone()), &AnalysisKind::Prefix, false, &d, x.t.to_i(), to_mtr(&x.mu), MultiTraceAnalysisFlags::new_init(1, 0, 0), vec![]);
    // the longest prefix that some execution starts with
    let mut k = 0;
    let mut cur: BTreeSet<T> = [x.t.clone()].into_iter().collect();
    while k < n {
        cur = run(cur, &x.mu[0][k..k + 1]);
        if cur.is_empty() {
            break;
        }
        k += 1;
    }
    let dead = k < n && d.map_or(true, |d| k as u32 <= d);
    c.label(if dead { "dead" } else if k < n { "out of reach of the look-ahead" } else { "alive" });
    ensure!((v == V::Fail) == dead, "local analysis of a long trace", "{} of {} actions can be executed, the local verdict, within {:?} steps, is {:?}", k, n, d, v);
    Ok(())
}
