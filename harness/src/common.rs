//! Helpers shared by the property modules.
use crate::engine::*;
use crate::sem::*;
use crate::term::*;
use hibou_label::core::execution::trace::multitrace::MultiTrace;
use hibou_label::core::language::position::position::Position;
use hibou_label::core::language::syntax::interaction::Interaction;
use std::collections::BTreeSet;

#[macro_export]
macro_rules! or_discard {
    ($e:expr, $c:expr) => {
        match $e {
            Ok(x) => x,
            Err(_) => {
                $c.discard = true;
                return Ok(());
            }
        }
    };
}

/// a number of lifelines, more of them now and then
pub fn lifelines(s: &mut Src, lo: usize, hi: usize) -> usize {
    if s.chance(1, 16) {
        s.range(5, 6)
    } else {
        s.range(lo, hi)
    }
}

pub fn pick_cfg(s: &mut Src) -> Cfg {
    let mut c = Cfg::full();
    c.n_lf = lifelines(s, 1, 4);
    c.n_ms = s.range(1, 3);
    c.max_size = s.range(3, 13);
    c.n_gt = s.range(1, 2);
    c.self_comm = s.chance(1, 10);
    match s.below(4) {
        0 => {
            c.sync_op = false;
            c.sync_comm = false;
        }
        1 => c.sync_op = false,
        2 => c.sync_comm = false,
        _ => {}
    }
    c
}

/// now and then, the same term over lifelines and messages picked among many
pub fn widen(s: &mut Src, cfg: &mut Cfg, t: T) -> T {
    if !s.chance(1, 16) {
        return t;
    }
    let spread = |s: &mut Src, n: usize, max: usize| -> Vec<usize> {
        let m = if s.chance(1, 2) { s.range(9, 13) } else { max };
        let mut v: Vec<usize> = vec![];
        while v.len() < n {
            let k = s.below(m);
            match v.iter().position(|x| *x == k) {
                None => v.push(k),
                // exhausted sources repeat themselves
                Some(_) => v.push((0..m).find(|x| !v.contains(x)).unwrap()),
            }
        }
        v.push(m);
        v
    };
    let mut lf = spread(s, cfg.n_lf, 70);
    let mut ms = spread(s, cfg.n_ms, 40);
    cfg.n_lf = lf.pop().unwrap();
    cfg.n_ms = ms.pop().unwrap();
    rename(&t, &lf, &ms)
}

pub fn rename(t: &T, lf: &[usize], ms: &[usize]) -> T {
    let go = |x: &T| b(rename(x, lf, ms));
    match t {
        T::Empty => T::Empty,
        T::Em { lf: l, ms: m, sync, tgts } => T::Em {
            lf: lf[*l],
            ms: ms[*m],
            sync: *sync,
            tgts: tgts
                .iter()
                .map(|x| match x {
                    Tgt::Lf(l) => Tgt::Lf(lf[*l]),
                    g => *g,
                })
                .collect(),
        },
        T::Re { gt, ms: m, sync, lfs } => T::Re { gt: *gt, ms: ms[*m], sync: *sync, lfs: lfs.iter().map(|l| lf[*l]).collect() },
        T::Strict(x, y) => T::Strict(go(x), go(y)),
        T::Seq(x, y) => T::Seq(go(x), go(y)),
        T::CoReg(r, x, y) => T::CoReg(r.iter().map(|l| lf[*l]).collect(), go(x), go(y)),
        T::Alt(x, y) => T::Alt(go(x), go(y)),
        T::Par(x, y) => T::Par(go(x), go(y)),
        T::Loop(k, x) => T::Loop(*k, go(x)),
        T::Sync(a, x, y) => T::Sync(a.iter().map(|a| act(lf[a.lf], a.emit, ms[a.ms])).collect(), go(x), go(y)),
    }
}

pub fn classes(t: &T, c: &mut Case) {
    c.label_if(t.has_loop_kind(LK::S), "loopS");
    c.label_if(t.has_loop_kind(LK::H), "loopH");
    c.label_if(t.has_loop_kind(LK::W), "loopW");
    c.label_if(t.has_loop_kind(LK::P), "loopP");
    c.label_if(t.has_coreg(), "coreg");
    c.label_if(t.has_sync_op(), "sync operator");
    c.label_if(t.has_sync_comm(), "synchronous action");
    c.label_if(t.has_gate(), "gate");
    c.label_if(t.has_loop_kind(LK::S) && t.has_loop_kind(LK::W), "mixed loops");
}

pub fn bound_for(t: &T) -> usize {
    if t.has_loop() {
        6
    } else {
        9
    }
}

pub type Colocs = Vec<BTreeSet<usize>>;

pub fn show_mtr(mu: &Mu, colocs: &Colocs) -> String {
    mu.iter()
        .zip(colocs)
        .map(|(c, l)| {
            let w: Vec<String> = c
                .iter()
                .map(|a| {
                    let v: Vec<String> = a.iter().map(|x| format!("{:?}", x)).collect();
                    if v.len() == 1 {
                        v[0].clone()
                    } else {
                        format!("{{{}}}", v.join(","))
                    }
                })
                .collect();
            format!("{:?}[{}]", l, w.join("."))
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn to_mtr(mu: &Mu) -> MultiTrace {
    mu.iter().map(|c| c.iter().map(|a| a.iter().map(|x| x.to_ta()).collect()).collect()).collect()
}

pub fn gen_colocs(s: &mut Src, n_lf: usize) -> Colocs {
    match s.below(5) {
        0 => vec![(0..n_lf).collect()],
        1 | 2 => (0..n_lf).map(|l| [l].into_iter().collect()).collect(),
        _ => {
            let mut v: Colocs = vec![];
            for l in 0..n_lf {
                let k = s.below(v.len() + 1);
                if k == v.len() {
                    v.push(BTreeSet::new());
                }
                v[k].insert(l);
            }
            v
        }
    }
}

pub fn mu_len(mu: &Mu) -> usize {
    mu.iter().map(|c| c.len()).sum()
}


/// terms assembled from a small pool of shared subterms, so that equal fragments are common
pub fn gen_shared(s: &mut Src, cfg: &Cfg) -> T {
    let k = s.range(1, 4);
    let mut sub = cfg.clone();
    sub.max_size = 3;
    sub.max_loops = 1;
    if s.chance(1, 3) {
        return gen_variants(s, cfg);
    }
    if s.chance(1, 4) {
        return gen_retold(s, cfg);
    }
    let pool: Vec<T> = (0..k).map(|_| gen_term(s, &sub)).collect();
    let mut loops = cfg.max_loops;
    let n = s.range(2, 5);
    build(s, cfg, &pool, n, &mut loops)
}

/// an alternative between a term and the same with small changes that keep most actions
/// (synchronous or not, the operators, the order of the operands, what is sent by an action)
pub fn gen_retold(s: &mut Src, cfg: &Cfg) -> T {
    let mut sub = cfg.clone();
    sub.max_size = s.range(1, cfg.max_size.clamp(1, 7));
    let x = gen_term(s, &sub);
    let n = x.size();
    let k = s.below(n);
    let k2 = if s.chance(1, 2) { s.below(n) } else { n };
    let mut at = 0;
    let y = retell(s, cfg, &x, &mut at, &[k, k2]);
    let (x, y) = if s.chance(1, 2) { (x, y) } else { (y, x) };
    let t = T::Alt(b(x), b(y));
    if cfg.max_loops > 0 && s.chance(1, 10) {
        return T::Loop(*s.pick(&cfg.loop_kinds), b(t));
    }
    if s.chance(1, 3) {
        sub.max_size = 2;
        let z = gen_term(s, &sub);
        return match s.below(3) {
            0 => T::Seq(b(z), b(t)),
            1 => T::Seq(b(t), b(z)),
            _ => T::Par(b(t), b(z)),
        };
    }
    t
}

fn retell(s: &mut Src, cfg: &Cfg, t: &T, at: &mut usize, where_: &[usize]) -> T {
    let here = where_.contains(at);
    *at += 1;
    let mut go = |s: &mut Src, x: &T| b(retell(s, cfg, x, at, where_));
    match t {
        T::Empty => T::Empty,
        T::Em { lf, ms, sync, tgts } => {
            let mut t = t.clone();
            if here {
                let lfs: Vec<usize> = tgts.iter().filter_map(|x| if let Tgt::Lf(l) = x { Some(*l) } else { None }).collect();
                match s.below(4) {
                    // the same actions, one after the other or at once
                    0 | 1 if cfg.sync_comm && !lfs.is_empty() => t = T::Em { lf: *lf, ms: *ms, sync: !sync, tgts: tgts.clone() },
                    2 if lfs.len() == tgts.len() && !lfs.is_empty() && !sync => {
                        let e = T::Em { lf: *lf, ms: *ms, sync: false, tgts: vec![] };
                        let r = T::Re { gt: None, ms: *ms, sync: false, lfs };
                        t = if cfg.strict && s.chance(1, 2) { T::Strict(b(e), b(r)) } else { T::Seq(b(e), b(r)) };
                    }
                    _ => t = T::Em { lf: *lf, ms: s.below(cfg.n_ms), sync: *sync, tgts: tgts.clone() },
                }
            }
            t
        }
        T::Re { gt, ms, sync, lfs } => {
            let ms = if here && s.chance(1, 2) { s.below(cfg.n_ms) } else { *ms };
            let sync = if here && cfg.sync_comm && s.chance(1, 2) { !sync } else { *sync };
            T::Re { gt: *gt, ms, sync, lfs: lfs.clone() }
        }
        T::Strict(x, y) | T::Seq(x, y) | T::Par(x, y) => {
            let (mut x, mut y) = (go(s, x), go(s, y));
            let mut op = match t {
                T::Strict(..) => 0,
                T::Seq(..) => 1,
                _ => 2,
            };
            if here {
                match s.below(3) {
                    0 => std::mem::swap(&mut x, &mut y),
                    1 => return if s.chance(1, 2) { *x } else { *y },
                    _ => op = s.below(3),
                }
                if op == 0 && !cfg.strict || op == 2 && !cfg.par {
                    op = 1;
                }
            }
            match op {
                0 => T::Strict(x, y),
                1 => T::Seq(x, y),
                _ => T::Par(x, y),
            }
        }
        T::CoReg(cr, x, y) => {
            let (x, y) = (go(s, x), go(s, y));
            if here {
                T::Seq(x, y)
            } else {
                T::CoReg(cr.clone(), x, y)
            }
        }
        T::Alt(x, y) => {
            let (x, y) = (go(s, x), go(s, y));
            if here {
                if s.chance(1, 2) { *x } else { *y }
            } else {
                T::Alt(x, y)
            }
        }
        T::Loop(k, x) => {
            let x = go(s, x);
            let k = if here { *s.pick(&cfg.loop_kinds) } else { *k };
            if here && s.chance(1, 3) { *x } else { T::Loop(k, x) }
        }
        T::Sync(a, x, y) => {
            let (x, y) = (go(s, x), go(s, y));
            T::Sync(a.clone(), x, y)
        }
    }
}

/// alternatives between variants of the same composition (operands moved, left out, repeated, replaced)
pub fn gen_variants(s: &mut Src, cfg: &Cfg) -> T {
    let mut sub = cfg.clone();
    sub.max_loops = 0;
    sub.coreg = false;
    sub.sync_op = false;
    let pool: Vec<T> = (0..s.range(2, 4))
        .map(|_| {
            sub.max_size = if s.chance(3, 4) { 1 } else { 3 };
            gen_term(s, &sub)
        })
        .collect();
    let op = s.weighted(&[3, 5, 2, if cfg.coreg { 2 } else { 0 }]);
    let cr = vec![s.below(cfg.n_lf)];
    let mk = |x: T, y: T, op: usize| match op {
        0 => T::Strict(b(x), b(y)),
        1 => T::Seq(b(x), b(y)),
        2 => T::Par(b(x), b(y)),
        _ => T::CoReg(cr.clone(), b(x), b(y)),
    };
    let base: Vec<usize> = (0..s.range(2, 3)).map(|_| s.below(pool.len())).collect();
    let n = s.range(2, 3);
    let mut alts: Vec<T> = vec![];
    for k in 0..n {
        let mut v = base.clone();
        if k > 0 {
            for _ in 0..s.range(1, 2) {
                let i = s.below(v.len());
                match s.below(4) {
                    0 => {
                        let x = v.remove(i);
                        let j = s.below(v.len() + 1);
                        v.insert(j, x);
                    }
                    1 if v.len() > 1 => {
                        v.remove(i);
                    }
                    2 => v[i] = s.below(pool.len()),
                    _ => v.insert(i, s.below(pool.len())),
                }
            }
        }
        let other = if s.chance(1, 10) { s.below(3) } else { op };
        let mut items: Vec<T> = v.iter().map(|i| pool[*i].clone()).collect();
        // to the right mostly
        let mut t = if s.chance(3, 4) { items.pop().unwrap() } else { items.remove(0) };
        let right = items.len() < v.len() && s.chance(7, 8);
        while !items.is_empty() {
            t = if right {
                let x = items.pop().unwrap();
                mk(x, t, other)
            } else {
                let x = items.remove(0);
                mk(t, x, other)
            };
        }
        if cfg.max_loops > 0 && s.chance(1, 10) {
            t = T::Loop(*s.pick(&cfg.loop_kinds), b(t));
        }
        alts.push(t);
    }
    let mut t = alts.pop().unwrap();
    while let Some(x) = alts.pop() {
        t = T::Alt(b(x), b(t));
    }
    match s.below(8) {
        0 if cfg.max_loops > 0 => T::Loop(*s.pick(&cfg.loop_kinds), b(t)),
        1 => {
            let x = s.pick(&pool).clone();
            mk(x, t, op)
        }
        2 => {
            let x = s.pick(&pool).clone();
            mk(t, x, op)
        }
        _ => t,
    }
}

fn build(s: &mut Src, cfg: &Cfg, pool: &[T], leaves: usize, loops: &mut usize) -> T {
    if leaves <= 1 {
        let x = s.pick(pool).clone();
        if *loops > 0 && s.chance(1, 6) {
            *loops -= 1;
            let k = *s.pick(&cfg.loop_kinds);
            return T::Loop(k, b(x));
        }
        return x;
    }
    if *loops > 0 && s.chance(1, 8) {
        *loops -= 1;
        let k = *s.pick(&cfg.loop_kinds);
        return T::Loop(k, b(build(s, cfg, pool, leaves, loops)));
    }
    let l = s.range(1, leaves - 1);
    let x = build(s, cfg, pool, l, loops);
    let y = build(s, cfg, pool, leaves - l, loops);
    match s.weighted(&[3, 3, 4, 3, if cfg.coreg { 2 } else { 0 }, if cfg.sync_op { 1 } else { 0 }]) {
        0 => T::Strict(b(x), b(y)),
        1 => T::Seq(b(x), b(y)),
        2 => T::Alt(b(x), b(y)),
        3 => T::Par(b(x), b(y)),
        4 => {
            let l = s.below(cfg.n_lf);
            T::CoReg(vec![l], b(x), b(y))
        }
        _ => {
            let all: Vec<Act> = x.acts().into_iter().collect();
            let set = if all.is_empty() { vec![] } else { vec![*s.pick(&all)] };
            T::Sync(set, b(x), b(y))
        }
    }
}

/// the empty execution is accepted
pub fn nullable(t: &T) -> bool {
    match t {
        T::Empty | T::Loop(..) => true,
        T::Em { .. } => false,
        T::Re { lfs, .. } => lfs.is_empty(),
        T::Alt(x, y) => nullable(x) || nullable(y),
        T::Strict(x, y) | T::Seq(x, y) | T::Par(x, y) | T::CoReg(_, x, y) | T::Sync(_, x, y) => nullable(x) && nullable(y),
    }
}

/// the number of loops above the executed action(s)
pub fn loops_above(t: &Interaction, p: &Position) -> u32 {
    match (t, p) {
        (_, Position::Epsilon(_)) => 0,
        (Interaction::Loop(_, x), Position::Left(p)) => 1 + loops_above(x, p),
        (Interaction::Strict(x, y), _)
        | (Interaction::Seq(x, y), _)
        | (Interaction::CoReg(_, x, y), _)
        | (Interaction::Alt(x, y), _)
        | (Interaction::Par(x, y), _)
        | (Interaction::Sync(_, x, y), _) => match p {
            Position::Left(p) => loops_above(x, p),
            Position::Right(p) => loops_above(y, p),
            Position::Both(p, q) => loops_above(x, p).max(loops_above(y, q)),
            Position::Epsilon(_) => 0,
        },
        _ => panic!("position"),
    }
}

