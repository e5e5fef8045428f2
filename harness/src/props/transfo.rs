use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::sem::*;
use crate::term::*;
use hibou_label::core::language::position::position::Position;
use hibou_label::core::language::syntax::interaction::Interaction;
use hibou_label::core::transformation::transfokind::InteractionTransformationKind as K;
use hibou_label::core::transformation::transfophase::InteractionTransformationPhase;
use std::cmp::Ordering;

pub const KINDS: [(K, &str); 18] = [
    (K::Simpl, "Simpl"),
    (K::FlushRight, "FlushRight"),
    (K::InvertAlt, "InvertAlt"),
    (K::InvertPar, "InvertPar"),
    (K::Deduplicate, "Deduplicate"),
    (K::FactorizePrefixStrict, "FactorizePrefixStrict"),
    (K::FactorizePrefixSeq, "FactorizePrefixSeq"),
    (K::FactorizeCommutativePar, "FactorizeCommutativePar"),
    (K::FactorizeSuffixStrict, "FactorizeSuffixStrict"),
    (K::FactorizeSuffixSeq, "FactorizeSuffixSeq"),
    (K::DeFactorizeLeft, "DeFactorizeLeft"),
    (K::DeFactorizeRight, "DeFactorizeRight"),
    (K::LoopSimpl, "LoopSimpl"),
    (K::LoopUnNest, "LoopUnNest"),
    (K::SortActionContent, "SortActionContent"),
    (K::StrictToSeq, "StrictToSeq"),
    (K::ParToSeq, "ParToSeq"),
    (K::UnfoldActions, "UnfoldActions"),
];


fn sub_at<'a>(i: &'a Interaction, p: &Position) -> Option<&'a Interaction> {
    match (p, i) {
        (Position::Epsilon(_), _) => Some(i),
        (Position::Left(p), Interaction::Loop(_, a)) => sub_at(a, p),
        (Position::Left(p), Interaction::Strict(a, _) | Interaction::Seq(a, _) | Interaction::Par(a, _) | Interaction::Alt(a, _) | Interaction::CoReg(_, a, _) | Interaction::Sync(_, a, _)) => sub_at(a, p),
        (Position::Right(p), Interaction::Strict(_, a) | Interaction::Seq(_, a) | Interaction::Par(_, a) | Interaction::Alt(_, a) | Interaction::CoReg(_, _, a) | Interaction::Sync(_, _, a)) => sub_at(a, p),
        _ => None,
    }
}

fn replace_at(i: &Interaction, p: &Position, by: &Interaction) -> Interaction {
    let l = |a: &Box<Interaction>, p: &Position| Box::new(replace_at(a, p, by));
    match (p, i) {
        (Position::Left(p), Interaction::Loop(k, a)) => Interaction::Loop(k.clone(), l(a, p)),
        (Position::Left(p), Interaction::Strict(a, d)) => Interaction::Strict(l(a, p), d.clone()),
        (Position::Left(p), Interaction::Seq(a, d)) => Interaction::Seq(l(a, p), d.clone()),
        (Position::Left(p), Interaction::Par(a, d)) => Interaction::Par(l(a, p), d.clone()),
        (Position::Left(p), Interaction::Alt(a, d)) => Interaction::Alt(l(a, p), d.clone()),
        (Position::Left(p), Interaction::CoReg(c, a, d)) => Interaction::CoReg(c.clone(), l(a, p), d.clone()),
        (Position::Left(p), Interaction::Sync(c, a, d)) => Interaction::Sync(c.clone(), l(a, p), d.clone()),
        (Position::Right(p), Interaction::Strict(a, d)) => Interaction::Strict(a.clone(), l(d, p)),
        (Position::Right(p), Interaction::Seq(a, d)) => Interaction::Seq(a.clone(), l(d, p)),
        (Position::Right(p), Interaction::Par(a, d)) => Interaction::Par(a.clone(), l(d, p)),
        (Position::Right(p), Interaction::Alt(a, d)) => Interaction::Alt(a.clone(), l(d, p)),
        (Position::Right(p), Interaction::CoReg(c, a, d)) => Interaction::CoReg(c.clone(), a.clone(), l(d, p)),
        (Position::Right(p), Interaction::Sync(c, a, d)) => Interaction::Sync(c.clone(), a.clone(), l(d, p)),
        _ => by.clone(),
    }
}

/// which lifelines exchange which messages with which gates
fn exchanges(t: &T) -> std::collections::BTreeSet<String> {
    let mut v = std::collections::BTreeSet::new();
    t.any(&mut |x| {
        match x {
            T::Em { lf, ms, tgts, .. } => v.extend(tgts.iter().filter_map(|t| match t {
                Tgt::Gt(g) => Some(format!("l{} m{} -> g{}", lf, ms, g)),
                _ => None,
            })),
            T::Re { gt: Some(g), ms, lfs, .. } => v.extend(lfs.iter().map(|l| format!("g{} -> m{} l{}", g, ms, l))),
            _ => {}
        }
        false
    });
    v
}

// C05
fn transfo_preserves(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.max_size = cfg.max_size.min(11);
    let (kind, name) = &KINDS[s.below(KINDS.len())];
    // terms to which the transformation has a chance to apply
    let root = s.below(3);
    let t = match (name, root) {
        (_, 0) => gen_term(s, &cfg),
        (&"LoopUnNest", _) => {
            let (k1, k2) = (*s.pick(&cfg.loop_kinds), *s.pick(&cfg.loop_kinds));
            cfg.max_loops = 1;
            cfg.max_size = cfg.max_size.min(6);
            let x = gen_term(s, &cfg);
            T::Loop(k1, b(T::Loop(k2, b(x))))
        }
        (&"StrictToSeq", _) => {
            cfg.max_size = s.range(1, 5);
            let x = gen_term(s, &cfg);
            let y = gen_term(s, &cfg);
            T::Strict(b(x), b(y))
        }
        (&"ParToSeq", _) => {
            cfg.max_size = s.range(1, 5);
            cfg.n_lf = cfg.n_lf.max(3);
            let x = gen_term(s, &cfg);
            let y = gen_term(s, &cfg);
            T::Par(b(x), b(y))
        }
        (&"SortActionContent" | &"UnfoldActions", _) => {
            cfg.n_lf = cfg.n_lf.max(3);
            cfg.broadcast = true;
            gen_term(s, &cfg)
        }
        _ => gen_shared(s, &cfg),
    };
    let t = widen(s, &mut cfg, t);
    let i = t.to_i();
    let phase = InteractionTransformationPhase::new(vec![kind.clone()]);
    let all = phase.get_transfos(&i, true);
    c.say(format!("{} on {}", name, t));
    let direct = (kind.get_transformation())(&i);
    for d in &direct {
        ensure!(all.iter().any(|r| &r.result == d), "a root transformation is not collected", "{} at the root gives {} but it is not among the collected ones", name, T::from_i(d));
    }
    let one = phase.get_transfos(&i, false);
    ensure!(one.len() <= 1 && one.is_empty() == all.is_empty(), "get_one and get_all disagree", "get_one finds {} transformation(s), get_all {}", one.len(), all.len());
    if let Some(o) = one.first() {
        ensure!(all.iter().any(|r| r.result == o.result && r.position == o.position), "get_one is not among get_all", "{} at {:?}", T::from_i(&o.result), o.position);
    }
    if all.is_empty() {
        return Ok(());
    }
    c.label(name);
    classes(&t, c);
    let n = bound_for(&t) + if env.thorough { 1 } else { 0 };
    let mut al = Al::new();
    let lim = Lim { n, cap: 6000, keep: None };
    let want = or_discard!(lang(&t, &mut al, &lim), c);
    for r in all.iter().take(12) {
        ensure!(&r.kind == kind, "wrong kind reported", "asked {}, got {:?}", name, r.kind);
        let got = or_discard!(lang(&T::from_i(&r.result), &mut al, &lim), c);
        if let Some(d) = diff(&al, &got, &want) {
            return fail(format!("{} changes the language", name), format!("{} gives {} (left) against {} (right): {}", name, T::from_i(&r.result), t, d));
        }
        let (g, g0) = (exchanges(&T::from_i(&r.result)), exchanges(&t));
        ensure!(g == g0, format!("{} changes the exchanges with gates", name), "{} gives {} which exchanges {:?} instead of {:?}", name, T::from_i(&r.result), g, g0);
        c.label_if(!g0.is_empty(), "with gates");
        // only the subterm at the reported position is rewritten
        match (sub_at(&i, &r.position), sub_at(&r.result, &r.position)) {
            (Some(old), Some(new)) => {
                ensure!(replace_at(&i, &r.position, new) == r.result, "rewriting elsewhere than at the reported position", "{} at {:?} gives {}", name, r.position, T::from_i(&r.result));
                c.label_if(old == new, "rewriting to itself");
            }
            _ => return fail("position outside of the term", format!("{} at {:?}", name, r.position)),
        }
    }
    c.nontrivial = want.len() >= 2 || matches!(*name, "Simpl" | "SortActionContent" | "UnfoldActions");
    Ok(())
}

// C05: where the pattern of a rewriting occurs, the rewriting is offered, with the result that this pattern defines
#[derive(Clone, PartialEq)]
enum Op {
    Strict,
    Seq,
    Par,
    Alt,
    CoReg(Vec<usize>),
}

impl Op {
    fn mk(&self, x: T, y: T) -> T {
        match self {
            Op::Strict => T::Strict(b(x), b(y)),
            Op::Seq => T::Seq(b(x), b(y)),
            Op::Par => T::Par(b(x), b(y)),
            Op::Alt => T::Alt(b(x), b(y)),
            Op::CoReg(r) => T::CoReg(r.clone(), b(x), b(y)),
        }
    }
    fn of(t: &T) -> Option<(Op, &T, &T)> {
        match t {
            T::Strict(x, y) => Some((Op::Strict, x, y)),
            T::Seq(x, y) => Some((Op::Seq, x, y)),
            T::Par(x, y) => Some((Op::Par, x, y)),
            T::Alt(x, y) => Some((Op::Alt, x, y)),
            T::CoReg(r, x, y) => Some((Op::CoReg(r.clone()), x, y)),
            _ => None,
        }
    }
    fn roots(&self, t: &T) -> bool {
        Op::of(t).map_or(false, |(o, _, _)| &o == self)
    }
    fn frags(&self, t: &T) -> Vec<T> {
        match Op::of(t) {
            Some((o, x, y)) if &o == self => {
                let mut v = self.frags(x);
                v.extend(self.frags(y));
                v
            }
            _ => vec![t.clone()],
        }
    }
    fn nest(&self, s: &mut Src, v: &[T]) -> T {
        match v.len() {
            0 => T::Empty,
            1 => v[0].clone(),
            n => {
                let k = s.range(1, n - 1);
                let x = self.nest(s, &v[..k]);
                let y = self.nest(s, &v[k..]);
                self.mk(x, y)
            }
        }
    }
}

fn gen_op(s: &mut Src, cfg: &Cfg, among: &[usize]) -> Op {
    match *s.pick(among) {
        0 => Op::Strict,
        1 => Op::Seq,
        2 => Op::Par,
        3 => {
            let l = s.below(cfg.n_lf);
            Op::CoReg(if cfg.n_lf > 1 && s.chance(1, 4) { vec![l, (l + 1) % cfg.n_lf] } else { vec![l] })
        }
        _ => Op::Alt,
    }
}

/// all the parallel or alternative operands in order
fn sorted(v: &[T]) -> bool {
    v.windows(2).all(|w| w[0].to_i().cmp(&w[1].to_i()) != Ordering::Greater)
}

fn multiset(v: &[T]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|x| format!("{:?}", x)).collect();
    v.sort();
    v
}

fn redexes(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.max_size = s.range(1, 4);
    let (kind, name) = &KINDS[s.below(KINDS.len())];
    let name: &str = name;
    // an operand that is neither empty nor built with the operator (nor an alternative)
    let solid = |s: &mut Src, op: &Op| -> Option<T> {
        for _ in 0..8 {
            let x = gen_term(s, &cfg);
            if x != T::Empty && !op.roots(&x) && !Op::Alt.roots(&x) {
                return Some(x);
            }
        }
        None
    };
    let mut kinds = vec![kind.clone()];
    // the subterm to rewrite, and whether a term is what it has to be rewritten into
    let (redex, good): (T, Box<dyn Fn(&T) -> bool>) = match name {
        "Simpl" => {
            let op = gen_op(s, &cfg, &[0, 1, 2, 3]);
            let n = s.range(2, 4);
            let mut v: Vec<T> = (0..n).map(|_| if s.chance(1, 3) { T::Empty } else { gen_term(s, &cfg) }).collect();
            let k = s.below(n);
            v[k] = T::Empty;
            let t = op.nest(s, &v);
            let want: Vec<T> = op.frags(&t).into_iter().filter(|x| x != &T::Empty).collect();
            (t, Box::new(move |r| if want.is_empty() { r == &T::Empty } else { op.frags(r) == want }))
        }
        "FlushRight" => {
            let op = gen_op(s, &cfg, &[0, 1, 2, 3, 4]);
            let (x, y, z) = (gen_term(s, &cfg), gen_term(s, &cfg), gen_term(s, &cfg));
            let t = op.mk(op.mk(x, y), z);
            let want = op.frags(&t);
            let size = |t: &T, op: &Op| match Op::of(t) {
                Some((o, x, _)) if &o == op => op.frags(x).len(),
                _ => 1,
            };
            let before = size(&t, &op);
            (t, Box::new(move |r| op.frags(r) == want && size(r, &op) < before))
        }
        "InvertAlt" | "InvertPar" => {
            let op = if name == "InvertAlt" { Op::Alt } else { Op::Par };
            let n = s.range(2, 4);
            let v: Vec<T> = (0..n).map(|_| gen_term(s, &cfg)).collect();
            let t = op.nest(s, &v);
            let all = op.frags(&t);
            if sorted(&all) {
                c.discard = true;
                return Ok(());
            }
            let want = multiset(&all);
            (t, Box::new(move |r| multiset(&op.frags(r)) == want && sorted(&op.frags(r))))
        }
        "Deduplicate" => {
            let n = s.range(1, 3);
            let mut v: Vec<T> = (0..n).map(|_| gen_term(s, &cfg)).collect();
            let d = s.pick(&v).clone();
            let k = s.below(n + 1);
            v.insert(k, d);
            let t = Op::Alt.nest(s, &v);
            let mut want = multiset(&Op::Alt.frags(&t));
            want.dedup();
            (t, Box::new(move |r| multiset(&Op::Alt.frags(r)) == want))
        }
        "FactorizePrefixStrict" | "FactorizePrefixSeq" | "FactorizeSuffixStrict" | "FactorizeSuffixSeq" => {
            let op = if name.ends_with("Seq") { Op::Seq } else { Op::Strict };
            let first = name.contains("Prefix");
            if !first {
                // whichever of the two kinds the rewriting of suffixes of this operator is registered under
                kinds = vec![K::FactorizeSuffixStrict, K::FactorizeSuffixSeq];
            }
            let Some(common) = solid(s, &op) else {
                c.discard = true;
                return Ok(());
            };
            let branch = |s: &mut Src| {
                let mut v: Vec<T> = (0..s.range(0, 2)).map(|_| gen_term(s, &cfg)).collect();
                v.insert(if first { 0 } else { v.len() }, common.clone());
                op.nest(s, &v)
            };
            let (x, y) = (branch(s), branch(s));
            let more = first && s.chance(1, 3);
            let z = gen_term(s, &cfg);
            let t = T::Alt(b(x), b(if more { T::Alt(b(y), b(z.clone())) } else { y }));
            let good = move |r: &T| {
                let r = match r {
                    T::Alt(x, y) if more => {
                        if **y != z {
                            return false;
                        }
                        x
                    }
                    r => r,
                };
                let v = op.frags(r);
                // the other operand may have been left out when it can only be empty
                if first { v[0] == common } else { v[v.len() - 1] == common }
            };
            (t, Box::new(good))
        }
        "FactorizeCommutativePar" => {
            let Some(common) = solid(s, &Op::Par) else {
                c.discard = true;
                return Ok(());
            };
            let branch = |s: &mut Src| {
                let mut v: Vec<T> = (0..s.range(0, 2)).map(|_| gen_term(s, &cfg)).collect();
                let k = s.below(v.len() + 1);
                v.insert(k, common.clone());
                Op::Par.nest(s, &v)
            };
            let (x, y) = (branch(s), branch(s));
            (T::Alt(b(x), b(y)), Box::new(move |r| Op::Par.frags(r).contains(&common)))
        }
        "DeFactorizeLeft" | "DeFactorizeRight" => {
            let op = gen_op(s, &cfg, &[0, 1, 2, 3]);
            let (x, y, z) = (gen_term(s, &cfg), gen_term(s, &cfg), gen_term(s, &cfg));
            if name == "DeFactorizeLeft" {
                let want = [op.mk(x.clone(), y.clone()), op.mk(x.clone(), z.clone())];
                (op.mk(x, T::Alt(b(y), b(z))), Box::new(move |r| r == &T::Alt(b(want[0].clone()), b(want[1].clone()))))
            } else {
                let want = [op.mk(x.clone(), z.clone()), op.mk(y.clone(), z.clone())];
                (op.mk(T::Alt(b(x), b(y)), z), Box::new(move |r| r == &T::Alt(b(want[0].clone()), b(want[1].clone()))))
            }
        }
        "LoopSimpl" => (T::Loop(*s.pick(&cfg.loop_kinds), b(T::Empty)), Box::new(|r| r == &T::Empty)),
        "LoopUnNest" => {
            let (k1, k2) = (*s.pick(&cfg.loop_kinds), *s.pick(&cfg.loop_kinds));
            if k1 == LK::H && (k2 == LK::H || k2 == LK::S) {
                // no single loop is equivalent
                c.discard = true;
                return Ok(());
            }
            let x = gen_term(s, &cfg);
            (T::Loop(k1, b(T::Loop(k2, b(x.clone())))), Box::new(move |r| matches!(r, T::Loop(_, y) if **y == x)))
        }
        "SortActionContent" => {
            // at least two different recipients (or gates), out of order
            let n = s.range(2, 4);
            let v: Vec<usize> = (0..n).map(|_| s.below(4)).collect();
            if v.windows(2).all(|w| w[0] <= w[1]) {
                c.discard = true;
                return Ok(());
            }
            let sync = s.chance(1, 4);
            let t = match s.below(3) {
                0 => T::Em { lf: 0, ms: 0, sync, tgts: v.iter().map(|x| Tgt::Lf(*x)).collect() },
                1 => T::Em { lf: 0, ms: 0, sync, tgts: v.iter().map(|x| Tgt::Gt(*x)).collect() },
                _ => T::Re { gt: if s.chance(1, 2) { Some(0) } else { None }, ms: 0, sync, lfs: v.clone() },
            };
            let mut w = v.clone();
            w.sort();
            let want = match &t {
                T::Em { tgts, .. } => T::Em { lf: 0, ms: 0, sync, tgts: w.iter().map(|x| if matches!(tgts[0], Tgt::Lf(_)) { Tgt::Lf(*x) } else { Tgt::Gt(*x) }).collect() },
                T::Re { gt, .. } => T::Re { gt: *gt, ms: 0, sync, lfs: w },
                _ => unreachable!(),
            };
            (t, Box::new(move |r| r == &want))
        }
        "StrictToSeq" => {
            // operands over the same lifeline
            let mut one = cfg.clone();
            one.n_lf = 1;
            one.sync_op = false;
            let (x, y) = (gen_term(s, &one), gen_term(s, &one));
            if x.acts().is_empty() || y.acts().is_empty() {
                c.discard = true;
                return Ok(());
            }
            (T::Strict(b(x.clone()), b(y.clone())), Box::new(move |r| r == &T::Seq(b(x.clone()), b(y.clone()))))
        }
        "ParToSeq" => {
            let (x, y) = (gen_term(s, &cfg), gen_term(s, &cfg));
            let lfs = |t: &T| t.acts().into_iter().map(|a| a.lf).collect::<std::collections::BTreeSet<_>>();
            let shift = lfs(&x).into_iter().max().map_or(0, |m| m + 1);
            let y = shifted(&y, shift);
            (T::Par(b(x.clone()), b(y.clone())), Box::new(move |r| r == &T::Seq(b(x.clone()), b(y.clone()))))
        }
        _ => {
            let t = if s.chance(1, 2) {
                let mut tgts: Vec<Tgt> = (0..s.range(1, 3)).map(|_| if s.chance(1, 4) { Tgt::Gt(s.below(2)) } else { Tgt::Lf(s.below(4)) }).collect();
                tgts.push(Tgt::Lf(s.below(4)));
                T::Em { lf: s.below(3), ms: 0, sync: false, tgts }
            } else {
                T::Re { gt: if s.chance(1, 2) { Some(0) } else { None }, ms: 0, sync: false, lfs: (0..s.range(2, 4)).map(|_| s.below(4)).collect() }
            };
            let acts = multiset_acts(&t);
            (t, Box::new(move |r| multiset_acts(r) == acts && !r.any(&mut |x| matches!(x, T::Em { tgts, .. } if tgts.iter().any(|y| matches!(y, Tgt::Lf(_)))) || matches!(x, T::Re { lfs, .. } if lfs.len() > 1))))
        }
    };
    // anywhere in a larger term
    let mut t = redex.clone();
    let mut path = Position::Epsilon(None);
    for _ in 0..s.below(4) {
        let other = gen_term(s, &cfg);
        let left = s.chance(1, 2);
        let op = s.weighted(&[5, 1, 1]);
        t = match op {
            0 => {
                let op = gen_op(s, &cfg, &[0, 1, 2, 3, 4]);
                if left {
                    op.mk(t, other)
                } else {
                    op.mk(other, t)
                }
            }
            1 => T::Loop(*s.pick(&cfg.loop_kinds), b(t)),
            _ => {
                let set: Vec<Act> = t.acts().into_iter().take(1).collect();
                if left {
                    T::Sync(set, b(t), b(other))
                } else {
                    T::Sync(set, b(other), b(t))
                }
            }
        };
        path = if left || op == 1 { Position::Left(Box::new(path)) } else { Position::Right(Box::new(path)) };
    }
    c.say(format!("{} at {:?} of {}", name, path, t));
    c.label(name);
    let i = t.to_i();
    let all = InteractionTransformationPhase::new(kinds.clone()).get_transfos(&i, true);
    let here: Vec<T> = all.iter().filter(|r| r.position == path).filter_map(|r| sub_at(&r.result, &path).map(T::from_i)).collect();
    ensure!(!here.is_empty(), format!("{} is not offered where its pattern occurs", name), "nothing is offered for {} at {:?}", redex, path);
    ensure!(here.iter().any(|r| good(r)), format!("{} does not give what its pattern defines", name), "{} is rewritten into {}", redex, here.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" or "));
    let one = InteractionTransformationPhase::new(kinds).get_transfos(&i, false);
    ensure!(one.len() == 1, format!("{} is not found", name), "get_one finds {} rewriting(s)", one.len());
    c.nontrivial = true;
    Ok(())
}

fn shifted(t: &T, k: usize) -> T {
    let r = |x: &T| b(shifted(x, k));
    match t {
        T::Empty => T::Empty,
        T::Em { lf, ms, sync, tgts } => T::Em { lf: lf + k, ms: *ms, sync: *sync, tgts: tgts.iter().map(|x| match x { Tgt::Lf(l) => Tgt::Lf(l + k), g => g.clone() }).collect() },
        T::Re { gt, ms, sync, lfs } => T::Re { gt: *gt, ms: *ms, sync: *sync, lfs: lfs.iter().map(|l| l + k).collect() },
        T::Strict(x, y) => T::Strict(r(x), r(y)),
        T::Seq(x, y) => T::Seq(r(x), r(y)),
        T::Alt(x, y) => T::Alt(r(x), r(y)),
        T::Par(x, y) => T::Par(r(x), r(y)),
        T::CoReg(l, x, y) => T::CoReg(l.iter().map(|l| l + k).collect(), r(x), r(y)),
        T::Loop(l, x) => T::Loop(*l, r(x)),
        T::Sync(v, x, y) => T::Sync(v.iter().map(|a| { let mut a = *a; a.lf += k; a }).collect(), r(x), r(y)),
    }
}

/// the actions of the leaves
fn multiset_acts(t: &T) -> Vec<String> {
    let mut v = vec![];
    t.any(&mut |x| {
        match x {
            T::Em { lf, ms, tgts, .. } => {
                v.push(format!("{}!{}", lf, ms));
                for t in tgts {
                    v.push(match t {
                        Tgt::Lf(l) => format!("{}?{}", l, ms),
                        Tgt::Gt(g) => format!("|{}", g),
                    });
                }
            }
            T::Re { ms, lfs, gt, .. } => v.extend(lfs.iter().map(|l| format!("{}?{}{}", l, ms, gt.map_or(String::new(), |g| format!("|{}", g))))),
            _ => {}
        }
        false
    });
    v.sort();
    v
}

/// what cannot occur in the canonical forms of any process
fn not_canonical(t: &T) -> Option<&'static str> {
    let mut why = None;
    t.any(&mut |x| {
        if let Some((op, l, r)) = Op::of(x) {
            if op != Op::Alt && (*l == T::Empty || *r == T::Empty) {
                why = Some("an empty operand");
            }
            if op.roots(l) {
                why = Some("an operand nested on the left");
            }
            if matches!(op, Op::Alt | Op::Par) && !sorted(&op.frags(x)) {
                why = Some("operands out of order");
            }
            if op == Op::Alt {
                let m = multiset(&op.frags(x));
                if m.windows(2).any(|w| w[0] == w[1]) {
                    why = Some("an alternative twice");
                }
            }
        }
        if let T::Loop(k, y) = x {
            match &**y {
                T::Empty => why = Some("an empty loop"),
                T::Loop(k2, _) if !(*k == LK::H && (*k2 == LK::H || *k2 == LK::S)) => why = Some("nested loops"),
                _ => {}
            }
        }
        false
    });
    why
}

// C06
use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
use graph_process_manager_core::manager::manager::GenericProcessManager;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
use hibou_label::nfa_translation::canonize::canonize_interaction;
use hibou_label::process::canon::conf::CanonizationConfig;
use hibou_label::process::canon::context::CanonizationContext;
use hibou_label::process::canon::node::CanonizationNodeKind;
use hibou_label::process::canon::param::default::DefaultCanonizationProcess as D;
use hibou_label::process::canon::param::phase::CanonizationParameterization;
use hibou_label::process::canon::priorities::CanonizationPriorities;
use hibou_label::process::canon::step::CanonizationStepKind;

fn process(k: usize) -> (D, &'static str) {
    match k {
        0 => (D::FivePhases, "FivePhases"),
        1 => (D::Basic, "Basic"),
        2 => (D::BasicWithUnfoldActions, "BasicWithUnfoldActions"),
        _ => (D::BasicWithToSeq, "BasicWithToSeq"),
    }
}

fn canon_preserves(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.max_size = cfg.max_size.min(10);
    let t = if s.chance(2, 3) { gen_shared(s, &cfg) } else { gen_term(s, &cfg) };
    let t = widen(s, &mut cfg, t);
    let k = s.below(4);
    let name = process(k).1;
    c.say(format!("{} of {}", name, t));
    let i = t.to_i();
    let ctx = cfg.ctx();
    // every phase of a process applies its rewritings until none applies: this must come to an end. The rewritings
    // never make more than 2^size fragments, and each phase is run here step by step under a large bound.
    let mut cur = i.clone();
    let mut big = t.size();
    for (pi, phase) in process(k).0.get_phases().iter().enumerate() {
        let mut steps = 0;
        loop {
            match phase.get_transfos(&cur, false).into_iter().next() {
                None => break,
                Some(r) => {
                    cur = r.result;
                    steps += 1;
                    ensure!(steps < 3000, "a phase does not terminate", "phase {} of {} still rewrites after 3000 steps", pi, name);
                    big = big.max(T::from_i(&cur).size());
                    if big > 3000 {
                        c.discard = true;
                        return Ok(());
                    }
                }
            }
        }
        if phase.get_transfos(&cur, false).is_empty() && steps > 0 {
            c.label("phase with rewriting");
        }
    }
    let by_phases = cur;
    let res = canonize_interaction(&ctx, &i, process(k).0);
    let n = bound_for(&t);
    let mut al = Al::new();
    let lim = Lim { n, cap: 6000, keep: None };
    let want = or_discard!(lang(&t, &mut al, &lim), c);
    classes(&t, c);
    for (how, r) in [("canonize_interaction", &res), ("applying the phases one step at a time", &by_phases)] {
        let got = or_discard!(lang(&T::from_i(r), &mut al, &lim), c);
        if let Some(d) = diff(&al, &got, &want) {
            return fail("canonization changes the language", format!("{} gives {} (left): {}", how, T::from_i(r), d));
        }
        let (g, g0) = (exchanges(&T::from_i(r)), exchanges(&t));
        ensure!(g == g0, "canonization changes the exchanges with gates", "{} gives {} which exchanges {:?} instead of {:?}", how, T::from_i(r), g, g0);
        // the result is a normal form of the last phase
        let last = process(k).0.get_phases().pop().unwrap();
        if let Some(x) = last.get_transfos(r, false).first() {
            return fail("canonization stops before its normal form", format!("{} stops at {} although {} still applies", how, T::from_i(r), x.kind));
        }
    }
    if let Some(w) = not_canonical(&T::from_i(&res)) {
        return fail("not canonical", format!("the canonical form {} has {}", T::from_i(&res), w));
    }
    // all alternatives of an exhaustive search denote the same language
    // (their number is exponential in the number of fragments that can be rearranged)
    let all = s.chance(1, 3) && t.size() <= 9 && big <= 20;
    if all {
        let mut m: GenericProcessManager<CanonizationConfig> = GenericProcessManager::new(
            CanonizationContext::new(ctx),
            CanonizationParameterization::from_default(process(k).0, true),
            {
                let d: GenericProcessDelegate<CanonizationStepKind, CanonizationNodeKind, CanonizationPriorities> =
                    GenericProcessDelegate::new(QueueSearchStrategy::BFS, GenericProcessPriorities::new(CanonizationPriorities::new(), false));
                d
            },
            vec![],
            vec![],
            None,
            true,
        );
        let (_, v) = m.start_process(CanonizationNodeKind::new(i.clone(), 0));
        ensure!(!v.canonized_ints.is_empty(), "no canonical form", "exhaustive search ends without any canonical form");
        for r in v.canonized_ints.iter().take(10) {
            if let Some(w) = not_canonical(&T::from_i(r)) {
                return fail("not canonical", format!("the canonical form {} of the exhaustive search has {}", T::from_i(r), w));
            }
            let got = or_discard!(lang(&T::from_i(r), &mut al, &lim), c);
            if let Some(d) = diff(&al, &got, &want) {
                return fail("canonization changes the language", format!("the exhaustive search reaches {} (left): {}", T::from_i(r), d));
            }
        }
        c.label("all transformation paths");
        c.label_if(v.canonized_ints.len() > 1, "several canonical forms");
    }
    c.nontrivial = res != i && want.len() >= 2;
    let _ = env;
    Ok(())
}

/// rearranges alternatives and parallel compositions, which does not change the canonical form
fn rearrange(s: &mut Src, t: &T, alt: bool) -> T {
    fn flat(t: &T, alt: bool, out: &mut Vec<T>) {
        match (t, alt) {
            (T::Alt(x, y), true) | (T::Par(x, y), false) => {
                flat(x, alt, out);
                flat(y, alt, out);
            }
            _ => out.push(t.clone()),
        }
    }
    fn assemble(s: &mut Src, v: &[T], alt: bool) -> T {
        if v.len() == 1 {
            return v[0].clone();
        }
        let k = s.range(1, v.len() - 1);
        let x = assemble(s, &v[..k], alt);
        let y = assemble(s, &v[k..], alt);
        if alt {
            T::Alt(b(x), b(y))
        } else {
            T::Par(b(x), b(y))
        }
    }
    let r = |s: &mut Src, x: &T| b(rearrange(s, x, alt));
    match t {
        T::Alt(..) if alt => {
            let mut v = vec![];
            flat(t, true, &mut v);
            let mut v: Vec<T> = v.iter().map(|x| rearrange(s, x, alt)).collect();
            for i in (1..v.len()).rev() {
                let j = s.below(i + 1);
                v.swap(i, j);
            }
            if s.chance(1, 3) {
                let d = s.pick(&v).clone();
                v.push(d);
            }
            assemble(s, &v, true)
        }
        T::Par(..) if !alt => {
            let mut v = vec![];
            flat(t, false, &mut v);
            let mut v: Vec<T> = v.iter().map(|x| rearrange(s, x, alt)).collect();
            for i in (1..v.len()).rev() {
                let j = s.below(i + 1);
                v.swap(i, j);
            }
            assemble(s, &v, false)
        }
        T::Strict(x, y) => T::Strict(r(s, x), r(s, y)),
        T::Seq(x, y) => T::Seq(r(s, x), r(s, y)),
        T::Alt(x, y) => T::Alt(r(s, x), r(s, y)),
        T::Par(x, y) => T::Par(r(s, x), r(s, y)),
        T::CoReg(c, x, y) => T::CoReg(c.clone(), r(s, x), r(s, y)),
        T::Sync(c, x, y) => T::Sync(c.clone(), r(s, x), r(s, y)),
        T::Loop(k, x) => T::Loop(*k, r(s, x)),
        x => x.clone(),
    }
}

fn canon_unique(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.max_size = cfg.max_size.min(11);
    let wide = s.chance(1, 100);
    let t = if wide {
        // many operands
        cfg.n_lf = s.range(2, 6);
        cfg.n_ms = s.range(2, 6);
        let alt = s.chance(1, 2);
        let mut t = gen_leaf(s, &cfg);
        for _ in 0..s.range(4, 24) {
            let x = if s.chance(1, 6) { gen_term(s, &Cfg { max_size: 3, ..cfg.clone() }) } else { gen_leaf(s, &cfg) };
            t = if alt { T::Alt(b(x), b(t)) } else { T::Par(b(x), b(t)) };
        }
        t
    } else if s.chance(2, 3) { gen_shared(s, &cfg) } else { gen_term(s, &cfg) };
    c.label_if(wide, "many operands");
    let u = rearrange(s, &t, true);
    let u = rearrange(s, &u, false);
    let ctx = cfg.ctx();
    c.say(format!("{} and {}", t, u));
    let x = canonize_interaction(&ctx, &t.to_i(), D::Basic);
    let y = canonize_interaction(&ctx, &u.to_i(), D::Basic);
    ensure!(x == y, "canonical form depends on the arrangement", "the Basic canonical forms are {} and {}", T::from_i(&x), T::from_i(&y));
    c.nontrivial = t != u;
    Ok(())
}

// C24
fn order_laws(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.max_size = if s.chance(1, 30) { 30 } else { 5 };
    cfg.n_lf = if s.chance(1, 10) { 6 } else { 2 };
    cfg.n_ms = if s.chance(1, 10) { 12 } else { 2 };
    // small pools make equal and nearly equal terms common
    let mutate = |s: &mut Src, t: &T, cfg: &Cfg| -> T {
        match s.below(3) {
            0 => t.clone(),
            1 => gen_term(s, cfg),
            _ => tweak(s, t, cfg),
        }
    };
    let x = gen_term(s, &cfg);
    let y = mutate(s, &x, &cfg);
    let z = mutate(s, &y, &cfg);
    c.say(format!("{} | {} | {}", x, y, z));
    let (i, j, k) = (x.to_i(), y.to_i(), z.to_i());
    for (p, q) in [(&i, &j), (&j, &k), (&i, &k), (&i, &i)] {
        ensure!((p.cmp(q) == Ordering::Equal) == (p == q), "order and equality disagree", "{} and {}: cmp {:?}, == {}", T::from_i(p), T::from_i(q), p.cmp(q), p == q);
        ensure!(p.partial_cmp(q) == Some(p.cmp(q)) && (p < q) == (p.cmp(q) == Ordering::Less), "the two comparisons disagree", "{} and {}: cmp {:?}, partial_cmp {:?}", T::from_i(p), T::from_i(q), p.cmp(q), p.partial_cmp(q));
        ensure!(p.cmp(q) == q.cmp(p).reverse(), "order is not antisymmetric", "{} and {}: {:?} and {:?}", T::from_i(p), T::from_i(q), p.cmp(q), q.cmp(p));
    }
    let v = [&i, &j, &k];
    for a in 0..3 {
        for bq in 0..3 {
            for d in 0..3 {
                if v[a].cmp(v[bq]) == Ordering::Less && v[bq].cmp(v[d]) == Ordering::Less {
                    ensure!(v[a].cmp(v[d]) == Ordering::Less, "order is not transitive", "{} < {} < {}", T::from_i(v[a]), T::from_i(v[bq]), T::from_i(v[d]));
                }
            }
        }
    }
    c.nontrivial = i != j && std::mem::discriminant(&i) == std::mem::discriminant(&j);
    c.label_if(i == j, "equal terms");
    c.label_if(c.nontrivial, "same operator at the root");
    Ok(())
}

fn tweak(s: &mut Src, t: &T, cfg: &Cfg) -> T {
    match t {
        T::Strict(x, y) => {
            if s.chance(1, 2) {
                T::Strict(b(tweak(s, x, cfg)), y.clone())
            } else {
                T::Strict(x.clone(), b(tweak(s, y, cfg)))
            }
        }
        T::Seq(x, y) => {
            if s.chance(1, 2) {
                T::Seq(b(tweak(s, x, cfg)), y.clone())
            } else {
                T::Seq(x.clone(), b(tweak(s, y, cfg)))
            }
        }
        T::Alt(x, y) => {
            if s.chance(1, 2) {
                T::Alt(b(tweak(s, x, cfg)), y.clone())
            } else {
                T::Alt(x.clone(), b(tweak(s, y, cfg)))
            }
        }
        T::Par(x, y) => {
            if s.chance(1, 2) {
                T::Par(b(tweak(s, x, cfg)), y.clone())
            } else {
                T::Par(x.clone(), b(tweak(s, y, cfg)))
            }
        }
        T::CoReg(r, x, y) => match s.below(3) {
            0 => T::CoReg(vec![s.below(cfg.n_lf)], x.clone(), y.clone()),
            1 => T::CoReg(r.clone(), b(tweak(s, x, cfg)), y.clone()),
            _ => T::CoReg(r.clone(), x.clone(), b(tweak(s, y, cfg))),
        },
        T::Sync(r, x, y) => match s.below(3) {
            0 => {
                let mut r = r.clone();
                r.pop();
                T::Sync(r, x.clone(), y.clone())
            }
            1 => T::Sync(r.clone(), b(tweak(s, x, cfg)), y.clone()),
            _ => T::Sync(r.clone(), x.clone(), b(tweak(s, y, cfg))),
        },
        T::Loop(k, x) => {
            if s.chance(1, 2) {
                T::Loop(*s.pick(&cfg.loop_kinds), x.clone())
            } else {
                T::Loop(*k, b(tweak(s, x, cfg)))
            }
        }
        T::Em { lf, ms, sync, tgts } => match s.below(4) {
            0 => T::Em { lf: *lf, ms: *ms, sync: !*sync, tgts: tgts.clone() },
            1 => T::Em { lf: *lf, ms: s.below(cfg.n_ms), sync: *sync, tgts: tgts.clone() },
            2 => {
                let mut v = tgts.clone();
                v.reverse();
                T::Em { lf: *lf, ms: *ms, sync: *sync, tgts: v }
            }
            _ => {
                let mut v = tgts.clone();
                if s.chance(1, 2) {
                    v.pop();
                } else {
                    v.push(Tgt::Gt(0));
                }
                T::Em { lf: *lf, ms: *ms, sync: *sync, tgts: v }
            }
        },
        T::Re { gt, ms, sync, lfs } => match s.below(3) {
            0 => T::Re { gt: *gt, ms: *ms, sync: !*sync, lfs: lfs.clone() },
            1 => T::Re { gt: if gt.is_some() { None } else { Some(0) }, ms: *ms, sync: *sync, lfs: lfs.clone() },
            _ => {
                let mut v = lfs.clone();
                v.reverse();
                T::Re { gt: *gt, ms: s.below(cfg.n_ms), sync: *sync, lfs: v }
            }
        },
        T::Empty => T::Empty,
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "A case is one of the 18 rewritings and a random term shaped so that it may apply (nested loops, shared fragments, broadcasts ...). Every application found anywhere in the term is compared, as a language up to a length bound, with the original term. Non-trivial: the rewriting applies and the term has at least two traces.",
            assumptions: &["trace length bounded"],
            suites: vec![Suite { name: "transfo", quick: 800000, thorough: 8000000, run: transfo_preserves }, Suite { name: "redexes", quick: 400000, thorough: 4000000, run: redexes }],
        },
        Prop {
            id: "C06",
            rule: "A case is a random term (mostly assembled from shared fragments) and one of the four canonization processes; the canonical form, and one obtained by applying the phases step by step, must denote the same language and be normal forms, and (Basic) must not depend on how alternatives and parallel operands are arranged or repeated. Non-trivial: the canonical form differs from the term and the term has at least two traces (unique: the two arrangements differ).",
            assumptions: &["trace length bounded", "terms up to 15 nodes"],
            suites: vec![
                Suite { name: "canon", quick: 250000, thorough: 2500000, run: canon_preserves },
                Suite { name: "unique", quick: 250000, thorough: 2500000, run: canon_unique },
            ],
        },
        Prop {
            id: "C24",
            rule: "A case is a triple of small terms, each equal to, a one-place tweak of, or independent of the previous one; antisymmetry, transitivity and agreement with equality are checked. Non-trivial: two different terms with the same root operator.",
            assumptions: &[],
            suites: vec![Suite { name: "order", quick: 2000000, thorough: 20000000, run: order_laws }],
        },
    ]
}
