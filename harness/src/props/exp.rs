//! The experiments on automata: the two translations of an interaction, and the families of interactions.
use crate::cli::*;
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::explore::{nfa_words, succs, to_lang};
use crate::or_discard;
use crate::out::minimal;
use crate::sem::*;
use crate::term::*;
use crate::text::*;
use autour_core::nfa::nfa::AutNFA;
use hibou_label::core::language::syntax::interaction::Interaction;
use hibou_label::experiments::doors_interactions_generation::generate_doors_interactions;
use hibou_label::experiments::loopalt_interaction_generation::generate_loop_alt_interactions;
use hibou_label::experiments::next_action::NextActionSpec;
use hibou_label::experiments::parstrict_interaction_generation::generate_par_strict_interaction;
use hibou_label::nfa_translation::alphabet::{get_alphabet_from_gen_ctx, get_alphabet_from_gen_ctx_and_interaction};
use hibou_label::nfa_translation::experiments::run_nfa_generation_experiment;
use hibou_label::nfa_translation::experiments2::get_nfa_metrics;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// do the automata accept the same words? None: larger than the cap
fn equivalent(a: &AutNFA<usize>, b: &AutNFA<usize>, cap: usize) -> Option<bool> {
    type S = BTreeSet<usize>;
    let start: (S, S) = (a.initials.iter().cloned().collect(), b.initials.iter().cloned().collect());
    let mut seen: BTreeSet<(S, S)> = [start.clone()].into_iter().collect();
    let mut todo = vec![start];
    while let Some((x, y)) = todo.pop() {
        if x.iter().any(|q| a.finals.contains(q)) != y.iter().any(|q| b.finals.contains(q)) {
            return Some(false);
        }
        let step = |n: &AutNFA<usize>, q: &S| {
            let mut m: BTreeMap<usize, S> = BTreeMap::new();
            for q in q {
                for (l, t) in &n.transitions[*q] {
                    m.entry(*l).or_default().extend(t.iter());
                }
            }
            m
        };
        let (mx, my) = (step(a, &x), step(b, &y));
        let letters: BTreeSet<usize> = mx.keys().chain(my.keys()).cloned().collect();
        for l in letters {
            let n = (mx.get(&l).cloned().unwrap_or_default(), my.get(&l).cloned().unwrap_or_default());
            if seen.insert(n.clone()) {
                if seen.len() > cap {
                    return None;
                }
                todo.push(n);
            }
        }
    }
    Some(true)
}

fn shape(a: &AutNFA<usize>) -> (usize, usize) {
    (a.transitions.len(), a.transitions.iter().map(|m| m.values().map(|x| x.len()).sum::<usize>()).sum())
}

fn least(a: &AutNFA<usize>) -> Option<usize> {
    let d: Vec<Vec<(usize, usize)>> = a.transitions.iter().map(|m| m.iter().flat_map(|(l, q)| q.iter().map(|x| (*l, *x)).collect::<Vec<_>>()).collect()).collect();
    minimal(d.len(), &a.initials.iter().cloned().collect(), &|q| a.finals.contains(&q), &d, 2000).map(|x| x.0)
}

/// the number at the end of the line that starts with a key
fn states(lines: &[String], key: &str) -> Result<usize, Fail> {
    lines
        .iter()
        .find(|l| l.trim_start().starts_with(key))
        .and_then(|l| l.rsplit(' ').next().and_then(|x| x.parse().ok()))
        .ok_or(Fail { sig: "missing line".into(), msg: format!("no number for '{}' in {:?}", key, lines) })
}

fn experiment(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let single = s.chance(1, 2);
    let cfg = Cfg {
        n_lf: if single { 1 } else { s.range(2, 3) },
        coreg: false,
        sync_op: false,
        loop_kinds: vec![LK::S],
        max_loops: 2,
        max_size: s.range(2, 10),
        sync_comm: s.chance(1, 3),
        ..pick_cfg(s)
    };
    let t = gen_term(s, &cfg);
    let tries = s.range(1, 2);
    let lim = s.below(9);
    c.say(format!("{} | {} tries, minimization below {} states", t, tries, lim));
    classes(&t, c);
    let i = t.to_i();
    // strict loops only : the exploration meets all the interactions, several times when with fewer instances of loops
    // than before; the order of the steps of a node is not fixed, hence which ones of a level it meets first
    let mut met: Vec<(Interaction, u32)> = vec![(i.clone(), 0)];
    let (mut from, mut upto) = (0, 1);
    while from < upto {
        for k in from..upto {
            let (cur, l) = met[k].clone();
            for x in succs(&cur) {
                let y = (x.to, l + x.loops);
                if !met[..upto].iter().any(|(j, m)| *j == y.0 && *m <= y.1) && !met[upto..].contains(&y) {
                    met.push(y);
                }
            }
            if met.len() > 120 {
                c.discard = true;
                return Ok(());
            }
        }
        (from, upto) = (upto, met.len());
    }
    c.label_if(2 * t.loops() < met.iter().map(|x| x.1 as usize).max().unwrap_or(0), "many instances of loops");
    let kept: HashSet<&Interaction> = met.iter().map(|x| &x.0).collect();
    let once = kept.len() == met.len();
    let g = cfg.ctx();
    let r = run_nfa_generation_experiment(i.clone(), cfg.ctx(), tries as u32, lim);
    ensure!(r.int == i, "interaction", "the result is about another interaction: {}", T::from_i(&r.int));
    let (op, co) = (&r.nfa_operational, &r.nfa_compositional);
    // languages
    let letters: Vec<BTreeSet<Act>> = get_alphabet_from_gen_ctx_and_interaction(&g, &i).iter().map(|x| x.iter().map(Act::from_ta).collect()).collect();
    let mut al = Al::new();
    let n = if t.has_loop() { 4 } else { 8 };
    let want = or_discard!(lang(&t, &mut al, &Lim { n, cap: 4000, keep: None }), c);
    {
        let ws = match nfa_words(op, n, 40000) {
            Some(w) => w,
            None => {
                c.discard = true;
                return Ok(());
            }
        };
        let got = match to_lang(ws, &letters, &mut al) {
            Ok(x) => x,
            Err(l) => return fail("alphabet", format!("letter {} out of the alphabet", l)),
        };
        if let Some(d) = diff(&al, &got, &want) {
            return fail("automaton of the exploration", format!("automaton / expected: {}", d));
        }
        if once {
            ensure!(op.transitions.len() == kept.len(), "states", "{} states for {} interactions", op.transitions.len(), kept.len());
        }
    }
    // minimizations
    for (name, a, kw, dfa) in [("exploration", op, &r.nfa_minimized_kw_from_opera, &r.dfa_minimized_from_opera), ("composition", co, &r.nfa_minimized_kw_from_compo, &r.dfa_minimized_from_compo)] {
        if a.transitions.len() < lim {
            ensure!(kw.transitions.len() <= a.transitions.len(), "minimized automaton", "{}: {} states from {}", name, kw.transitions.len(), a.transitions.len());
            if let Some(e) = equivalent(a, kw, 3000) {
                ensure!(e, "minimized automaton", "{}: the minimized automaton has another language", name);
            }
            c.label("minimized");
        } else {
            ensure!(kw.transitions.is_empty(), "minimized automaton", "{}: {} states of {}, with limit {}", name, kw.transitions.len(), a.transitions.len(), lim);
            c.label("too large to minimize");
        }
        if let Some(m) = least(a) {
            ensure!(dfa.transitions.len() == m, "minimal deterministic automaton", "{}: {} states instead of {}", name, dfa.transitions.len(), m);
        }
    }
    // the command
    let names = Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt);
    let files = model_files(s, env, &t, &names);
    let (ta, la) = (tries.to_string(), lim.to_string());
    let out = cli(&["nfa_experiment", &files.hsf, &files.hif, "-n", &ta, "-k", &la]).map_err(|e| Fail { sig: "command".into(), msg: e })?;
    let correct = out.iter().any(|l| l.trim() == "compositional NFA is a correct translation");
    let incorrect = out.iter().any(|l| l.trim() == "compositional NFA is not a correct translation");
    ensure!(correct != incorrect, "conclusion", "the command prints {:?}", out);
    ensure!(states(&out, "NFA via compositional method")? == co.transitions.len(), "printed states", "{:?} for {} states by composition", out, co.transitions.len());
    if let Some(m) = least(co) {
        ensure!(states(&out, "minimized DFA after compositional")? == m, "printed states", "{:?} for {} states of the minimal automaton by composition", out, m);
    }
    let kwc = states(&out, "minimized NFA after compositional")?;
    ensure!((kwc == 0) == (co.transitions.len() >= lim) && kwc <= co.transitions.len(), "printed states", "{:?}, limit {}, {} states by composition", out, lim, co.transitions.len());
    if once {
        ensure!(states(&out, "NFA via operational method")? == op.transitions.len(), "printed states", "{:?} for {} states by exploration", out, op.transitions.len());
        let kwo = states(&out, "minimized NFA after operational")?;
        ensure!((kwo == 0) == (op.transitions.len() >= lim) && kwo <= op.transitions.len(), "printed states", "{:?}, limit {}, {} states by exploration", out, lim, op.transitions.len());
        if let Some(m) = least(op) {
            ensure!(states(&out, "minimized DFA after operational")? == m, "printed states", "{:?} for {} states of the minimal automaton by exploration", out, m);
        }
        if let Some(e) = equivalent(op, co, 3000) {
            ensure!(e == correct, "conclusion", "the automata {} the same words, the command prints {:?}", if e { "accept" } else { "do not accept" }, out);
            c.label(if e { "correct composition" } else { "incorrect composition" });
        }
    }
    c.nontrivial = op.transitions.len() >= 4;
    Ok(())
}

/// operands of a chain of a binary operator that nests to the right
fn leaf_count(t: &T) -> usize {
    match t {
        T::Par(x, y) | T::Strict(x, y) | T::Alt(x, y) => leaf_count(x) + leaf_count(y),
        T::Loop(_, x) => leaf_count(x),
        _ => 1,
    }
}

fn comb(t: &T, out: &mut Vec<T>, ops: &mut Vec<char>) {
    match t {
        T::Par(x, y) | T::Strict(x, y) | T::Alt(x, y) => {
            out.push((**x).clone());
            ops.push(match t {
                T::Par(..) => 'p',
                T::Strict(..) => 's',
                _ => 'a',
            });
            comb(y, out, ops);
        }
        _ => out.push(t.clone()),
    }
}

fn families(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let (n_lf, n_ms) = (s.range(1, 3), s.range(1, 4));
    let cfg = Cfg { n_lf, n_ms, n_gt: 0, ..Cfg::full() };
    let g = cfg.ctx();
    let (lf0, ms0) = (s.below(n_lf), s.below(n_ms));
    let mut nas = NextActionSpec::new(lf0, ms0);
    let mut next = (lf0, ms0);
    // actions are taken in turn, message by message, then lifeline by lifeline
    let mut turn = |k: usize| -> Vec<T> {
        (0..k)
            .map(|_| {
                let a = T::Em { lf: next.0, ms: next.1, sync: false, tgts: vec![] };
                next.1 += 1;
                if next.1 == n_ms {
                    next = ((next.0 + 1) % n_lf, 0);
                }
                a
            })
            .collect()
    };
    match s.below(3) {
        0 => {
            let (p, a) = (s.below(7), s.range(1, 12));
            c.say(format!("{} parallel operators, {} actions from l{} m{} of {}x{}", p, a, lf0, ms0, n_lf, n_ms));
            let t = T::from_i(&generate_par_strict_interaction(&g, &mut nas, p as u32, a as u32));
            let (mut acts, mut ops) = (vec![], vec![]);
            comb(&t, &mut acts, &mut ops);
            ensure!(acts == turn(a), "actions", "{} is not made of {} actions in turn", t, a);
            let want: Vec<char> = (0..a - 1).map(|k| if k < p { 'p' } else { 's' }).collect();
            ensure!(ops == want, "operators", "{} has operators {:?}", t, ops);
            c.label("parallel and strict");
            c.nontrivial = a >= 3;
            // its metrics
            if a <= 7 && p <= 3 && s.chance(1, 3) {
                metrics(&g, &t, c, s)?;
            }
        }
        1 => {
            let a = s.range(1, 12);
            c.say(format!("loops of {} alternative actions from l{} m{} of {}x{}", a, lf0, ms0, n_lf, n_ms));
            let all: Vec<T> = generate_loop_alt_interactions(&g, &mut nas, a as u32).iter().map(T::from_i).collect();
            let is_loop = |t: &T, k: usize, turn: &mut dyn FnMut(usize) -> Vec<T>| -> Res {
                match t {
                    T::Loop(LK::S, x) => {
                        let (mut acts, mut ops) = (vec![], vec![]);
                        comb(x, &mut acts, &mut ops);
                        ensure!(acts == turn(k) && ops.iter().all(|o| *o == 'a'), "loop of alternatives", "{} is not a strict loop over {} actions", t, k);
                        Ok(())
                    }
                    _ => fail("loop of alternatives", format!("{}", t)),
                }
            };
            ensure!(all.len() == 1 + if a >= 3 { a / 2 } else { 0 }, "number of interactions", "{} interactions for {} actions", all.len(), a);
            is_loop(&all[0], a, &mut turn)?;
            for (k, t) in all.iter().enumerate().skip(1) {
                match t {
                    T::Par(x, y) => {
                        is_loop(x, k, &mut turn)?;
                        is_loop(y, a - k, &mut turn)?;
                    }
                    _ => return fail("loop of alternatives", format!("{}", t)),
                }
            }
            c.label("loops of alternatives");
            c.nontrivial = a >= 3;
            if a <= 6 && s.chance(1, 3) {
                let t = s.pick(&all).clone();
                metrics(&g, &t, c, s)?;
            }
        }
        _ => {
            let (d, p, l, m) = (s.range(1, 5), s.range(2, 3), s.range(0, 4), s.range(0, 4));
            c.say(format!("{} doors of {} letters, codes of {} then {} letters", d, p, l, m));
            let all: Vec<T> = generate_doors_interactions(d as u32, p as u32, l as u32, m as u32).iter().map(T::from_i).collect();
            let set: HashSet<String> = all.iter().map(|t| format!("{}", t)).collect();
            ensure!(set.len() == all.len(), "doors", "an interaction occurs twice among {}", all.len());
            fn shapes(d: usize) -> BTreeSet<String> {
                if d == 1 {
                    return ["D".to_string()].into_iter().collect();
                }
                let mut out = BTreeSet::new();
                for left in 1..=d / 2 {
                    for x in shapes(left) {
                        for y in shapes(d - left) {
                            out.insert(format!("s({},{})", x, y));
                            out.insert(format!("p({},{})", x, y));
                        }
                    }
                }
                out
            }
            let rec = |k: usize| T::Re { gt: None, lfs: vec![0], ms: k, sync: false };
            let letter = if p == 2 { T::Alt(Box::new(rec(0)), Box::new(rec(1))) } else { T::Alt(Box::new(rec(0)), Box::new(T::Alt(Box::new(rec(1)), Box::new(rec(2))))) };
            let mut al = Al::new();
            let door: Lang = {
                let mut parts = vec![T::Loop(LK::S, Box::new(letter.clone()))];
                parts.extend((0..l).map(|_| rec(0)));
                parts.extend((0..m).map(|_| letter.clone()));
                let t = parts.into_iter().rev().reduce(|y, x| T::Strict(Box::new(x), Box::new(y))).unwrap();
                or_discard!(lang(&t, &mut al, &Lim { n: l + m + 1, cap: 4000, keep: None }), c)
            };
            let mut doors: Vec<T> = vec![];
            fn shape_of(t: &T, d: usize, doors: &mut Vec<T>, size: usize) -> String {
                if d == 1 || t.size() <= size {
                    doors.push(t.clone());
                    return "D".into();
                }
                match t {
                    T::Strict(x, y) | T::Par(x, y) => {
                        let k = if matches!(t, T::Strict(..)) { "s" } else { "p" };
                        let a = shape_of(x, d, doors, size);
                        format!("{}({},{})", k, a, shape_of(y, d, doors, size))
                    }
                    _ => "?".into(),
                }
            }
            let one = generate_doors_interactions(1, p as u32, l as u32, m as u32);
            ensure!(one.len() == 1, "doors", "{} doors for one", one.len());
            let size = T::from_i(&one[0]).size();
            let got: BTreeSet<String> = all.iter().map(|t| shape_of(t, d, &mut doors, size)).collect();
            ensure!(got == shapes(d), "combinations of doors", "{:?}", got);
            doors.dedup();
            for t in doors.iter().take(3) {
                let w = or_discard!(lang(t, &mut al, &Lim { n: l + m + 1, cap: 4000, keep: None }), c);
                if let Some(x) = diff(&al, &w, &door) {
                    return fail("door", format!("{}: door / expected: {}", t, x));
                }
            }
            ensure!(all.iter().all(|t| leaf_count(t) % d == 0), "doors", "not made of {} doors", d);
            c.label("doors");
            c.nontrivial = d >= 2;
        }
    }
    Ok(())
}

/// number of states and transitions of both automata, and the limit beyond which nothing is given
fn metrics(g: &hibou_label::core::general_context::GeneralContext, t: &T, c: &mut Case, s: &mut Src) -> Res {
    let i = t.to_i();
    let alph = get_alphabet_from_gen_ctx(g);
    let (op, _) = hibou_label::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration(g, &i, alph.clone());
    let (co, _) = hibou_label::nfa_translation::compositional::get_nfa_from_interaction_via_composition(g, &i, alph.clone());
    let k = op.transitions.len();
    let lim = *s.pick(&[None, Some(k as u32), Some((k as u32).saturating_sub(1)), Some(k as u32 + 1)]);
    let r = get_nfa_metrics(g, &i, &alph, 1, lim);
    match (r, lim) {
        (None, Some(x)) => ensure!(k > x as usize, "limit of the metrics", "no metrics for {} states with limit {}", k, x),
        (None, None) => return fail("limit of the metrics", "no metrics".to_string()),
        (Some((a, b)), lim) => {
            ensure!(lim.map_or(true, |x| k <= x as usize), "limit of the metrics", "metrics for {} states with limit {:?}", k, lim);
            ensure!((a.num_states as usize, a.num_edges as usize) == shape(&op), "metrics", "{} states and {} edges instead of {:?}", a.num_states, a.num_edges, shape(&op));
            ensure!((b.num_states as usize, b.num_edges as usize) == shape(&co), "metrics", "{} states and {} edges instead of {:?}", b.num_states, b.num_edges, shape(&co));
        }
    }
    c.label("metrics");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "experiment: a random interaction (alternatives, parallel and strict or weak sequences, strict loops; up to 10 nodes), number of tries and limit; families: random sizes of the generated families. Non-trivial: at least 4 states, 3 actions or 2 doors.",
        assumptions: &["where the exploration is cut by its limit on loops, the states that it keeps may depend on the run: its automaton is then not compared", "deterministic automata up to 2000 states"],
        suites: vec![
            Suite { name: "experiment", quick: 40000, thorough: 300000, run: experiment },
            Suite { name: "families", quick: 15000, thorough: 100000, run: families },
        ],
    }]
}
