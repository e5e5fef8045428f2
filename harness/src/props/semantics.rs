use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::imp::*;
use crate::sem::*;
use crate::term::*;
use hibou_label::core::execution::semantics::execute::execute_interaction;
use hibou_label::core::execution::semantics::frontier::global_frontier;
use hibou_label::core::language::avoid::avoids::AvoidsLifelines;
use hibou_label::core::language::eliminate_lf::eliminable::LifelineEliminable;
use hibou_label::core::language::involve::involves::InvolvesLifelines;
use hibou_label::core::language::prune::prunable::LifelinePrunable;
use std::collections::BTreeSet;

// C01
fn exec_vs_denot(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    let t = gen_term(s, &cfg);
    let t = widen(s, &mut cfg, t);
    check_exec(&t, c, env)
}

/// synchronised products over synchronous communications: multi-actions that overlap
fn exec_sync(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = Cfg::full();
    cfg.n_lf = s.range(2, 3);
    cfg.n_ms = 1;
    cfg.n_gt = 0;
    cfg.max_size = s.range(1, 6);
    cfg.max_loops = 1;
    cfg.sync_op = false;
    let x = gen_term(s, &cfg);
    let y = gen_term(s, &cfg);
    let all: Vec<Act> = x.acts().intersection(&y.acts()).cloned().collect();
    let mut set = BTreeSet::new();
    if !all.is_empty() {
        for _ in 0..s.range(1, 2) {
            set.insert(*s.pick(&all));
        }
    }
    let mut t = T::Sync(set.into_iter().collect(), b(x), b(y));
    if s.chance(1, 2) {
        cfg.max_size = 3;
        let z = gen_term(s, &cfg);
        t = if s.chance(1, 2) { T::Seq(b(z), b(t)) } else { T::Seq(b(t), b(z)) };
    }
    check_exec(&t, c, env)
}

/// loops whose iterations partly move over the next ones: alternatives of short sequences, over few lifelines
fn exec_loops(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = Cfg::full();
    cfg.n_lf = lifelines(s, 2, 4);
    cfg.n_ms = s.range(1, 2);
    cfg.n_gt = 0;
    cfg.max_loops = 0;
    cfg.sync_op = false;
    let seq = |s: &mut Src| {
        let mut leaf = |s: &mut Src| {
            cfg.max_size = 1;
            match s.below(3) {
                0 => {
                    let (lf, to) = (s.below(cfg.n_lf), s.below(cfg.n_lf - 1));
                    T::Em { lf, ms: s.below(cfg.n_ms), sync: true, tgts: vec![Tgt::Lf(if to < lf { to } else { cfg.n_lf - 1 })] }
                }
                1 => T::Em { lf: s.below(cfg.n_lf), ms: s.below(cfg.n_ms), sync: false, tgts: vec![] },
                _ => gen_term(s, &cfg),
            }
        };
        let x = leaf(s);
        if s.chance(1, 3) {
            return x;
        }
        let y = leaf(s);
        match s.below(6) {
            0 => T::Strict(b(x), b(y)),
            1 => T::Par(b(x), b(y)),
            _ => T::Seq(b(x), b(y)),
        }
    };
    let mut seq = seq;
    let mut body = seq(s);
    for _ in 0..s.below(3) {
        let y = seq(s);
        body = if s.chance(5, 6) { T::Alt(b(body), b(y)) } else { T::Seq(b(body), b(y)) };
    }
    let k = *s.pick(&[LK::W, LK::W, LK::H, LK::S, LK::P]);
    let mut t = T::Loop(k, b(body));
    if s.chance(1, 3) {
        let z = seq(s);
        t = match s.below(4) {
            0 => T::Seq(b(z), b(t)),
            1 => T::Seq(b(t), b(z)),
            2 => T::CoReg((0..4).filter(|_| s.chance(1, 2)).collect(), b(t), b(z)),
            _ => T::Alt(b(t), b(z)),
        };
    }
    check_exec(&t, c, env)
}

fn check_exec(t: &T, c: &mut Case, env: &Env) -> Res {
    c.say(format!("{}", t));
    let n = bound_for(t) + if env.thorough { 1 } else { 0 };
    let mut al = Al::new();
    let lim = Lim { n, cap: 6000, keep: None };
    let want = match lang(t, &mut al, &lim) {
        Ok(l) => l,
        Err(_) => {
            c.discard = true;
            return Ok(());
        }
    };
    let i = t.to_i();
    classes(t, c);
    for (delayed, affected) in [(true, false), (false, false), (true, true), (false, true)] {
        let got = match Stepper::new(delayed, affected, 40000).lang(&i, n, &mut al) {
            Ok(l) => l,
            Err(_) => {
                c.discard = true;
                return Ok(());
            }
        };
        if let Some(d) = diff(&al, &got, &want) {
            return fail(
                if affected { "language differs (affected lifelines requested)" } else { "language differs" },
                format!("executing the term (left) against its denotation (right), delayed_alt={} get_affected={} length<={}: {}", delayed, affected, n, d),
            );
        }
    }
    ensure!(i.express_empty() == want.contains(&vec![]), "express_empty", "express_empty()={} ", i.express_empty());
    c.nontrivial = want.len() >= 3;
    c.label_if(want.len() >= 20, "at least 20 traces");
    Ok(())
}


fn draw_lfs(s: &mut Src, n_lf: usize, at_least_one_kept: bool) -> BTreeSet<usize> {
    let mut v = BTreeSet::new();
    let of = *s.pick(&[2, 2, 4]);
    for l in 0..n_lf {
        if s.chance(1, of) {
            v.insert(l);
        }
    }
    if v.is_empty() {
        v.insert(s.below(n_lf));
    }
    if at_least_one_kept && v.len() == n_lf {
        let k = s.below(n_lf);
        v.remove(&k);
    }
    v
}

macro_rules! or_discard {
    ($e:expr, $c:expr) => {
        match $e {
            Ok(x) => x,
            Err(_) => {
                $c.discard = true;
                return Ok(());
            }
        }
    };
}

fn without_loops(t: &T) -> T {
    match t {
        T::Loop(..) => T::Empty,
        T::Strict(x, y) => T::Strict(b(without_loops(x)), b(without_loops(y))),
        T::Seq(x, y) => T::Seq(b(without_loops(x)), b(without_loops(y))),
        T::CoReg(r, x, y) => T::CoReg(r.clone(), b(without_loops(x)), b(without_loops(y))),
        T::Alt(x, y) => T::Alt(b(without_loops(x)), b(without_loops(y))),
        T::Par(x, y) => T::Par(b(without_loops(x)), b(without_loops(y))),
        T::Sync(r, x, y) => T::Sync(r.clone(), b(without_loops(x)), b(without_loops(y))),
        x => x.clone(),
    }
}

// C02
fn prune_vs_denot(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.max_size = cfg.max_size.min(12);
    let t = gen_term(s, &cfg);
    let t = widen(s, &mut cfg, t);
    let lfs = draw_lfs(s, cfg.n_lf, false);
    c.say(format!("{} pruned on {:?}", t, lfs));
    let n = bound_for(&t) + if env.thorough { 1 } else { 0 };
    let mask = lfs.iter().fold(0u128, |m, l| m | (1 << l));
    let mut al = Al::new();
    let i = t.to_i();
    // a term can avoid lifelines iff one of its loop-free behaviors does
    let flat = or_discard!(lang(&without_loops(&t), &mut al, &Lim { n: 40, cap: 6000, keep: None }), c);
    let exists = flat.iter().any(|tr| tr.iter().all(|x| al.mask(*x) & mask == 0));
    let avoids = i.avoids_all_of(&lfs);
    if t.has_sync_op() {
        ensure!(avoids || !exists, "avoids_all_of", "the term has a behavior without {:?} but avoids_all_of is false", lfs);
    } else {
        ensure!(avoids == exists, "avoids_all_of", "avoids_all_of({:?})={} but a behavior without these lifelines {}", lfs, avoids, if exists { "exists" } else { "does not exist" });
    }
    c.label(if avoids { "avoids" } else { "does not avoid" });
    if !avoids {
        return Ok(());
    }
    classes(&t, c);
    let all = or_discard!(lang(&t, &mut al, &Lim { n, cap: 6000, keep: None }), c);
    let want: Lang = all.iter().filter(|tr| tr.iter().all(|x| al.mask(*x) & mask == 0)).cloned().collect();
    let p1 = i.prune(&lfs);
    let (p2, aff) = i.prune_with_affected(&lfs);
    for (name, p) in [("prune", &p1), ("prune_with_affected", &p2)] {
        let got = or_discard!(lang(&T::from_i(p), &mut al, &Lim { n, cap: 6000, keep: None }), c);
        if let Some(d) = diff(&al, &got, &want) {
            return fail(format!("{} language", name), format!("{} gives {} (left) against the behaviors of the term that avoid {:?} (right): {}", name, T::from_i(p), lfs, d));
        }
        let inv = p.involved_lifelines();
        ensure!(inv.is_disjoint(&lfs), format!("{} keeps a pruned lifeline", name), "{} gives {} which still involves one of {:?}", name, T::from_i(p), lfs);
    }
    if !t.has_sync_op() {
        // a lifeline that pruning did not affect keeps its local behaviors
        for l in 0..cfg.n_lf {
            if !aff.contains(&l) && !lfs.contains(&l) {
                check_local_same(&t, &T::from_i(&p2), l, n, &mut al, c, "prune_with_affected")?;
            }
        }
    }
    c.nontrivial = want.len() != all.len() && want.len() > 1;
    c.label_if(c.nontrivial, "pruning removes behaviors and keeps some");
    Ok(())
}

fn check_local_same(before: &T, after: &T, l: usize, n: usize, al: &mut Al, c: &mut Case, what: &str) -> Res {
    let x = or_discard!(lang(&ref_project(before, &|k| k == l), al, &Lim { n, cap: 6000, keep: None }), c);
    let y = or_discard!(lang(&ref_project(after, &|k| k == l), al, &Lim { n, cap: 6000, keep: None }), c);
    if let Some(d) = diff(al, &x, &y) {
        return fail(format!("{}: unreported affected lifeline", what), format!("lifeline l{} is not reported as affected but its local behaviors change, before (left) {} after (right) {}: {}", l, before, after, d));
    }
    Ok(())
}

// C03
fn elim(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.sync_op = false;
    cfg.n_lf = lifelines(s, 2, 4);
    let mut t = gen_term(s, &cfg);
    if s.chance(1, 4) {
        let k = *s.pick(&cfg.loop_kinds);
        t = T::Loop(k, b(t));
    }
    let t = widen(s, &mut cfg, t);
    check_elim(s, c, env, t, &cfg)
}

/// nested loops that elimination makes adjacent
fn elim_nest(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = Cfg::plain();
    cfg.n_lf = s.range(2, 3);
    cfg.n_ms = 2;
    cfg.n_gt = 0;
    cfg.max_size = 6;
    cfg.max_loops = 0;
    let (k1, k2) = (*s.pick(&cfg.loop_kinds), *s.pick(&cfg.loop_kinds));
    let x = gen_term(s, &cfg);
    cfg.max_size = 2;
    let y = gen_term(s, &cfg);
    let inner = T::Loop(k2, b(x));
    let mid = match s.below(5) {
        0 => inner,
        1 => T::Seq(b(y), b(inner)),
        2 => T::Strict(b(inner), b(y)),
        3 => T::Par(b(inner), b(y)),
        _ => T::Alt(b(inner), b(y)),
    };
    check_elim(s, c, env, T::Loop(k1, b(mid)), &cfg)
}

fn check_elim(s: &mut Src, c: &mut Case, env: &Env, t: T, cfg: &Cfg) -> Res {
    let lfs = draw_lfs(s, cfg.n_lf, true);
    c.say(format!("{} without lifelines {:?}", t, lfs));
    let n = bound_for(&t) + if env.thorough { 1 } else { 0 };
    let mut al = Al::new();
    let ei = t.to_i().eliminate_lifelines(&lfs);
    let e = T::from_i(&ei);
    ensure!(ei.involved_lifelines().is_disjoint(&lfs), "eliminated lifeline still involved", "{}", e);
    classes(&t, c);
    c.label_if(t.loop_nest() >= 2, "nested loops");
    let keep = |l: usize| !lfs.contains(&l);
    let got = or_discard!(lang(&e, &mut al, &Lim { n, cap: 20000, keep: None }), c);
    // the term with the actions on these lifelines taken out, and nothing else changed
    let want = or_discard!(lang(&ref_project(&t, &keep), &mut al, &Lim { n, cap: 20000, keep: None }), c);
    if let Some(d) = diff(&al, &got, &want) {
        return fail("language of the eliminated term", format!("the eliminated term {} (left) against the term with these actions taken out (right): {}", e, d));
    }
    let all = or_discard!(lang(&t, &mut al, &Lim { n, cap: 6000, keep: None }), c);
    let proj = proj_lang(&mut al, &all, &keep);
    // head-first loops may be headed by an eliminated action: their projections are compared as multi-traces
    if !t.has_loop_kind(LK::H) {
        let mut missing: Vec<&Tr> = proj.difference(&got).collect();
        missing.sort_by_key(|t| (t.len(), (*t).clone()));
        if let Some(m) = missing.first() {
            return fail("projection lost a behavior", format!("{} is the projection of a behavior of the term but the eliminated term {} does not accept it", al.show(m), e));
        }
    }
    let par_like = t.any(&mut |x| matches!(x, T::Par(..) | T::CoReg(..) | T::Sync(..) | T::Loop(LK::P, _)));
    if !par_like && !t.has_multi() {
        let m = or_discard!(mu_lang(&ref_project(&t, &keep), cfg.n_lf, n, 6000, &mut al), c);
        let g: MuSet = got.iter().map(|t| mu_of(&al, t, cfg.n_lf)).collect();
        if let Some(x) = m.symmetric_difference(&g).min() {
            return fail("multi-traces of the eliminated term", format!("multi-trace {} : in the projection {}, in the eliminated term {} {}", show_mu(&al, x), m.contains(x), e, g.contains(x)));
        }
        c.label("multi-trace comparison");
    }
    c.nontrivial = want.len() >= 2 && !lfs.is_disjoint(&t.lfs());
    Ok(())
}

// C04
fn affected(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.sync_op = false;
    cfg.n_lf = lifelines(s, 2, 4);
    cfg.max_size = cfg.max_size.max(5);
    let t = gen_term(s, &cfg);
    let mut t = widen(s, &mut cfg, t);
    let all = t.lfs();
    let steps = s.range(1, 3);
    c.say(format!("{} after {} step(s)", t, steps));
    classes(&t, c);
    let n = 5 + if env.thorough { 1 } else { 0 };
    let mut al = Al::new();
    for k in 0..steps {
        let i = t.to_i();
        let f = global_frontier(&i, true);
        if f.is_empty() {
            break;
        }
        let e = s.pick(&f).clone();
        let occupied: BTreeSet<usize> = e.target_actions.iter().map(|a| a.lf_id).collect();
        ensure!(occupied == e.target_lf_ids, "frontier target lifelines", "frontier element with actions {:?} has target lifelines {:?}", e.target_actions, e.target_lf_ids);
        let r1 = execute_interaction(&i, &e.position, &e.target_lf_ids, true);
        let r2 = execute_interaction(&i, &e.position, &e.target_lf_ids, false);
        let after = T::from_i(&r1.interaction);
        c.say(format!("{} (step {}) executing {:?} gives {} affecting {:?}", t, k, e.target_actions.iter().map(Act::from_ta).collect::<Vec<_>>(), after, r1.affected_lifelines));
        ensure!(e.target_lf_ids.is_subset(&r1.affected_lifelines), "executed lifeline not affected", "affected {:?}", r1.affected_lifelines);
        let (x, y) = (or_discard!(lang(&after, &mut al, &Lim { n, cap: 6000, keep: None }), c), or_discard!(lang(&T::from_i(&r2.interaction), &mut al, &Lim { n, cap: 6000, keep: None }), c));
        if let Some(d) = diff(&al, &x, &y) {
            return fail("result depends on get_affected", format!("with (left) {} without (right) {}: {}", after, T::from_i(&r2.interaction), d));
        }
        for l in (0..cfg.n_lf).filter(|l| *l < 5 || all.contains(l)) {
            if !r1.affected_lifelines.contains(&l) {
                check_local_same(&t, &after, l, n, &mut al, c, "execute_interaction")?;
                if c.discard {
                    return Ok(());
                }
                if t.lfs().contains(&l) {
                    c.label("an unaffected involved lifeline");
                    c.nontrivial = true;
                }
            }
        }
        t = after;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "A case is a random interaction term (1-4 lifelines, all operators and all four loops, coregions, sync operators, synchronous/asynchronous broadcasts, gates). All traces up to a length bound obtained by repeatedly firing the frontier (4 modes: delayed alt on/off, affected lifelines requested or not) are compared with the term's denotation. Non-trivial: the term has at least 3 traces within the bound.",
            assumptions: &["trace length bounded (6 for terms with loops, 9 otherwise, one more in the thorough tier)", "terms up to 15 nodes"],
            suites: vec![
                Suite { name: "exec", quick: 16000, thorough: 200000, run: exec_vs_denot },
                Suite { name: "exec_loops", quick: 12000, thorough: 150000, run: exec_loops },
                Suite { name: "exec_sync", quick: 12000, thorough: 150000, run: exec_sync },
            ],
        },
        Prop {
            id: "C02",
            rule: "A case is a random term and a random set of lifelines; avoidance and the language of the pruned term are compared with the denotation. Non-trivial: the term has behaviors with and without the lifelines, so pruning has to remove some and keep at least two.",
            assumptions: &["trace length bounded", "avoidance of terms with a sync operator is only checked in one direction"],
            suites: vec![Suite { name: "prune", quick: 400000, thorough: 8000000, run: prune_vs_denot }],
        },
        Prop {
            id: "C03",
            rule: "A case is a random term and a set of lifelines to eliminate, leaving at least one; the (multi-)traces of the eliminated term are compared with the projections of the denotation of the term. Non-trivial: an eliminated lifeline occurs in the term and at least two projected behaviors remain.",
            assumptions: &["trace length bounded", "coregions and multi-actions: inclusion only", "no sync operator"],
            suites: vec![
                Suite { name: "elim", quick: 300000, thorough: 6000000, run: elim },
                Suite { name: "elim_nest", quick: 80000, thorough: 2000000, run: elim_nest },
            ],
        },
        Prop {
            id: "C04",
            rule: "A case is a random term and up to 3 random execution steps. After each step the lifelines not reported as affected must keep exactly their local behaviors, and the follow-up term must not depend on whether affected lifelines were requested. Non-trivial: a lifeline involved in the term is not affected.",
            assumptions: &["no sync operator", "local trace length bounded by 5"],
            suites: vec![Suite { name: "affected", quick: 300000, thorough: 6000000, run: affected }],
        },
    ]
}
