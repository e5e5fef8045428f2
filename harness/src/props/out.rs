//! What the tool computes or writes about an interaction besides its executions: metrics, random interactions and
//! PlantUML translations.
use crate::cli::*;
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::or_discard;
use crate::sem::*;
use crate::term::*;
use crate::text::*;
use autour_core::nfa::nfa::AutNFA;
use hibou_label::core::execution::semantics::execute::execute_interaction;
use hibou_label::core::execution::semantics::frontier::global_frontier;
use hibou_label::core::language::syntax::interaction::Interaction;
use hibou_label::core::language::syntax::metrics::{InteractionMetrics, SymbolKind};
use hibou_label::experiments::interaction_random_gen::interface::generate_canonical_random_interaction;
use hibou_label::experiments::interaction_random_gen::probas::InteractionSymbolsProbabilities;
use hibou_label::io::input::hif::interface::parse_hif_file;
use hibou_label::nfa_translation::alphabet::get_alphabet_from_gen_ctx_and_interaction;
use hibou_label::nfa_translation::canonize::canonize_interaction;
use hibou_label::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
use hibou_label::process::canon::param::default::DefaultCanonizationProcess as Dcp;
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

// C25 -------------------------------------------------------------------------------------------

fn depth(t: &T) -> u32 {
    match t {
        T::Empty | T::Em { .. } | T::Re { .. } => 0,
        T::Loop(_, x) => 1 + depth(x),
        T::Strict(x, y) | T::Seq(x, y) | T::CoReg(_, x, y) | T::Alt(x, y) | T::Par(x, y) | T::Sync(_, x, y) => 1 + depth(x).max(depth(y)),
    }
}

fn count(t: &T, f: &dyn Fn(&T) -> bool) -> u32 {
    let mut n = 0;
    t.any(&mut |x| {
        if f(x) {
            n += 1
        }
        false
    });
    n
}

/// lifelines of the actions of a term
pub fn lfs_of(t: &T) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    t.any(&mut |x| {
        match x {
            T::Em { lf, tgts, .. } => {
                out.insert(*lf);
                for g in tgts {
                    if let Tgt::Lf(l) = g {
                        out.insert(*l);
                    }
                }
            }
            T::Re { lfs, .. } => out.extend(lfs.iter()),
            _ => {}
        }
        false
    });
    out
}

/// states and edges of the minimal automaton without useless states (one state if nothing is accepted)
pub fn minimal<L: Ord + Clone>(n: usize, init: &BTreeSet<usize>, fin: &dyn Fn(usize) -> bool, delta: &[Vec<(L, usize)>], cap: usize) -> Option<(usize, usize)> {
    let _ = n;
    let mut ids: BTreeMap<BTreeSet<usize>, usize> = BTreeMap::new();
    let mut sets = vec![init.clone()];
    ids.insert(init.clone(), 0);
    let mut trans: Vec<BTreeMap<L, usize>> = vec![];
    let mut k = 0;
    while k < sets.len() {
        if sets.len() > cap {
            return None;
        }
        let mut m: BTreeMap<L, BTreeSet<usize>> = BTreeMap::new();
        for q in &sets[k] {
            for (l, r) in &delta[*q] {
                m.entry(l.clone()).or_default().insert(*r);
            }
        }
        let mut row = BTreeMap::new();
        for (l, set) in m {
            let id = *ids.entry(set.clone()).or_insert_with(|| {
                sets.push(set);
                sets.len() - 1
            });
            row.insert(l, id);
        }
        trans.push(row);
        k += 1;
    }
    let accept: Vec<bool> = sets.iter().map(|s| s.iter().any(|q| fin(*q))).collect();
    // co-accessible states
    let mut useful = accept.clone();
    loop {
        let mut more = false;
        for q in 0..sets.len() {
            if !useful[q] && trans[q].values().any(|r| useful[*r]) {
                useful[q] = true;
                more = true;
            }
        }
        if !more {
            break;
        }
    }
    if !useful[0] {
        return Some((1, 0));
    }
    // Moore's refinement over the useful states
    let mut class: Vec<usize> = accept.iter().map(|a| *a as usize).collect();
    loop {
        let mut sig: BTreeMap<(usize, Vec<(L, usize)>), usize> = BTreeMap::new();
        let mut next = vec![0; sets.len()];
        for q in 0..sets.len() {
            if useful[q] {
                let v: Vec<(L, usize)> = trans[q].iter().filter(|(_, r)| useful[**r]).map(|(l, r)| (l.clone(), class[*r])).collect();
                let k = sig.len();
                next[q] = *sig.entry((class[q], v)).or_insert(k);
            }
        }
        let before: HashSet<usize> = (0..sets.len()).filter(|q| useful[*q]).map(|q| class[q]).collect();
        class = next;
        if before.len() == sig.len() {
            let edges = sig.keys().map(|(_, v)| v.len()).sum();
            return Some((sig.len(), edges));
        }
    }
}

pub fn number(lines: &[String], key: &str) -> Result<usize, Fail> {
    value(lines, key).and_then(|v| v.parse().ok()).ok_or(Fail { sig: "missing line".into(), msg: format!("no number for '{}' in {:?}", key, lines) })
}

fn metrics_raw(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    let large = s.chance(1, 100);
    if large {
        cfg.max_size = s.range(20, 700);
        cfg.max_loops = 40;
    }
    let t = if s.chance(1, 3) && !large { gen_shared(s, &cfg) } else { gen_term(s, &cfg) };
    let t = widen(s, &mut cfg, t);
    c.label_if(t.size() > 256, "more than 256 symbols");
    c.say(format!("{}", t));
    c.nontrivial = t.size() >= 4;
    let i = t.to_i();
    let m = InteractionMetrics::extract_from_interaction(&i);
    let want: Vec<(SymbolKind, u32)> = vec![
        (SymbolKind::Empty, count(&t, &|x| matches!(x, T::Empty))),
        (SymbolKind::Action, count(&t, &|x| matches!(x, T::Em { .. } | T::Re { .. }))),
        (SymbolKind::Strict, count(&t, &|x| matches!(x, T::Strict(..)))),
        (SymbolKind::Seq, count(&t, &|x| matches!(x, T::Seq(..)))),
        (SymbolKind::Par, count(&t, &|x| matches!(x, T::Par(..)))),
        (SymbolKind::LoopS, count(&t, &|x| matches!(x, T::Loop(LK::S, _)))),
        (SymbolKind::LoopOther, count(&t, &|x| matches!(x, T::Loop(LK::H | LK::W | LK::P, _)))),
        (SymbolKind::CoReg, count(&t, &|x| matches!(x, T::CoReg(..)))),
        (SymbolKind::Alt, count(&t, &|x| matches!(x, T::Alt(..)))),
        (SymbolKind::Sync, count(&t, &|x| matches!(x, T::Sync(..)))),
    ];
    for (k, n) in want {
        ensure!(m.symbols.get(&k) == Some(&n), "symbols", "{:?}: {:?} instead of {}", k, m.symbols.get(&k), n);
    }
    ensure!(m.get_num_symbols() as usize == t.size(), "symbols", "{} symbols instead of {}", m.get_num_symbols(), t.size());
    ensure!(m.depth == depth(&t), "depth", "{} instead of {}", m.depth, depth(&t));
    ensure!(m.max_nested_loop_depth as usize == t.loop_nest(), "loop depth", "{} instead of {}", m.max_nested_loop_depth, t.loop_nest());
    let l: BTreeSet<usize> = m.lifelines.iter().cloned().collect();
    ensure!(l == lfs_of(&t), "lifelines", "{:?} instead of {:?}", l, lfs_of(&t));
    ensure!(i.max_nested_loop_depth() as usize == t.loop_nest(), "loop depth", "{} instead of {}", i.max_nested_loop_depth(), t.loop_nest());
    ensure!(i.total_loop_num() as usize == t.loops(), "number of loops", "{} instead of {}", i.total_loop_num(), t.loops());
    Ok(())
}

fn metrics_cli(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.max_size = cfg.max_size.min(9);
    cfg.max_loops = s.range(0, 2);
    let t = right(&if s.chance(1, 3) { gen_shared(s, &cfg) } else { gen_term(s, &cfg) });
    if t.loops() > 2 || t.any(&mut |x| matches!(x, T::Sync(l, ..) if l.is_empty())) {
        c.discard = true;
        return Ok(());
    }
    c.say(format!("{}", t));
    classes(&t, c);
    let n = Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt);
    let g = n.ctx();
    let i = canonize_interaction(&g, &t.to_i(), Dcp::BasicWithUnfoldActions);
    let u = T::from_i(&i);
    // the graph of the interactions that are reached, within the limit of the translation
    let lim = 2 * u.loops() as u32;
    let mut ids: HashMap<Interaction, usize> = HashMap::new();
    let mut nodes = vec![i.clone()];
    ids.insert(i.clone(), 0);
    let mut delta: Vec<Vec<(BTreeSet<Act>, usize)>> = vec![];
    {
        // (with loops, just to bound the size)
        let mut best: HashSet<(Interaction, u32)> = HashSet::new();
        let mut todo = vec![(i.clone(), 0u32)];
        while let Some((i, l)) = todo.pop() {
            if best.insert((i.clone(), l)) {
                if best.len() > 800 {
                    c.discard = true;
                    return Ok(());
                }
                for x in crate::explore::succs(&i) {
                    if l + x.loops <= lim {
                        todo.push((x.to, l + x.loops));
                    }
                }
            }
        }
    }
    if u.loops() == 0 {
        let mut k = 0;
        while k < nodes.len() {
            let mut v = vec![];
            let cur = nodes[k].clone();
            for f in global_frontier(&cur, true) {
                let r = execute_interaction(&cur, &f.position, &f.target_lf_ids, false).interaction;
                let id = *ids.entry(r.clone()).or_insert_with(|| {
                    nodes.push(r);
                    nodes.len() - 1
                });
                let a: BTreeSet<Act> = f.target_actions.iter().map(Act::from_ta).collect();
                v.push((a, id));
            }
            v.sort();
            v.dedup();
            delta.push(v);
            k += 1;
        }
    }
    let files = model_files(s, env, &t, &n);
    let cmd = |e: String| Fail { sig: "command".into(), msg: e };
    let out = cli(&["get_metrics", &files.hsf, &files.hif, "INT"]).map_err(cmd)?;
    for (key, want) in [("depth ", depth(&u) as usize), ("loop depth", u.loop_nest()), ("number of lifelines", lfs_of(&u).len()), ("number of actions", count(&u, &|x| matches!(x, T::Em { .. } | T::Re { .. })) as usize)] {
        let got = number(&out, key)?;
        ensure!(got == want, "metrics of the interaction", "{}: {} instead of {} for {}", key, got, want, u);
    }
    // with its limit on loops, the translation may meet an interaction several times, with fewer and fewer
    // loops : which of these nodes a later step leads to is not determined
    let mut met: Vec<(Interaction, u32)> = vec![(i.clone(), 0)];
    let mut k = 0;
    while k < met.len() {
        let (cur, l) = met[k].clone();
        for x in crate::explore::succs(&cur).into_iter().rev() {
            let l = l + x.loops;
            if l <= lim && !met.iter().any(|(j, m)| j == &x.to && *m <= l) {
                met.push((x.to, l));
            }
        }
        k += 1;
    }
    let once = met.iter().map(|x| &x.0).collect::<HashSet<_>>().len() == met.len();
    c.label_if(!once, "interaction met with fewer loops");
    let alph = get_alphabet_from_gen_ctx_and_interaction(&g, &i);
    let (nfa, _): (AutNFA<usize>, _) = get_nfa_from_interaction_exploration(&g, &i, alph);
    let edges: usize = nfa.transitions.iter().map(|m| m.values().map(|x| x.len()).sum::<usize>()).sum();
    let out = cli(&["get_metrics", &files.hsf, &files.hif, "operatNFA"]).map_err(cmd)?;
    let got = (number(&out, "number of states")?, number(&out, "number of edges")?);
    ensure!(got.0 == nfa.transitions.len() && (!once || got.1 == edges), "metrics of the automaton", "{:?} instead of {:?} states and edges", got, (nfa.transitions.len(), edges));
    if u.loops() == 0 {
        let want = (nodes.len(), delta.iter().map(|v| v.len()).sum::<usize>());
        ensure!(got == want, "metrics of the automaton", "{:?} states and edges, {:?} interactions and steps", got, want);
    }
    let min = if u.loops() == 0 {
        let fin: Vec<bool> = nodes.iter().map(|x| nullable(&T::from_i(x))).collect();
        minimal(nodes.len(), &[0].into_iter().collect(), &|q| fin[q], &delta, 5000)
    } else {
        let d: Vec<Vec<(usize, usize)>> = nfa.transitions.iter().map(|m| m.iter().flat_map(|(l, q)| q.iter().map(|x| (*l, *x)).collect::<Vec<_>>()).collect()).collect();
        minimal(d.len(), &nfa.initials.iter().cloned().collect(), &|q| nfa.finals.contains(&q), &d, 3000)
    };
    if let (true, Some(want)) = (once && met.len() == nfa.transitions.len(), min) {
        let out = cli(&["get_metrics", &files.hsf, &files.hif, "minDFA"]).map_err(cmd)?;
        let got = (number(&out, "number of states")?, number(&out, "number of edges")?);
        ensure!(got == want, "metrics of the minimal automaton", "{:?} instead of {:?} states and edges", got, want);
        c.label("minimal automaton");
        c.label_if(want.0 < nfa.transitions.len(), "smaller minimal automaton");
    }
    c.nontrivial = got.0 >= 4;
    Ok(())
}

// C26 -------------------------------------------------------------------------------------------

fn read_folder(p: &std::path::Path) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(d) = std::fs::read_dir(p) {
        for e in d {
            let e = e.unwrap();
            m.insert(e.file_name().to_str().unwrap().to_string(), std::fs::read_to_string(e.path()).unwrap_or_default());
        }
    }
    m
}

fn random_interactions(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let n_lf = s.range(1, 4);
    let n_ms = s.range(1, 3);
    let n = if s.chance(1, 4) { Names::gen(s, n_lf, n_ms, 0) } else { Names::plain(n_lf, n_ms, 0) };
    let g = n.ctx();
    let num = s.range(1, 12);
    let d = s.range(0, 5);
    let min = s.range(1, 1 + 3 * d);
    let seed = s.below(100000);
    let p = *s.pick(&["default", "conservative", "protocols_with_coreg", ""]);
    let show = format!("{} interactions over {:?} of depth {} with at least {} symbols, '{}' probabilities, seed {}", num, n, d, min, p, seed);
    c.say(show);
    let hsf = put(env, ".hsf", &hsf_text(s, &n, true));
    let gen = |folder: &str, num: usize, seed: usize| -> Result<Vec<String>, Fail> {
        let (num, d, min, seed) = (num.to_string(), d.to_string(), min.to_string(), seed.to_string());
        let mut a = vec!["rng_gen_interactions", &hsf, "-f", folder, "-i", &num, "-d", &d, "-x", &min, "-s", &seed];
        if !p.is_empty() {
            a.extend_from_slice(&["-p", p]);
        }
        cli(&a).map_err(|e| Fail { sig: "command".into(), msg: e })
    };
    let (f1, p1) = fresh_dir(env, "g1");
    let (f2, p2) = fresh_dir(env, "g2");
    let out = gen(&f1, num, seed)?;
    let shown = if p.is_empty() { "default" } else { p };
    ensure!(out.iter().any(|l| l.trim() == format!("with {} interaction symbols selection probabilities", shown)), "name of the probabilities", "the command prints {:?} with {} probabilities", out, shown);
    ensure!(out.iter().any(|l| l.contains(&format!("'{}'", f1))), "name of the folder", "the command prints {:?}", out);
    ensure!(p1.is_dir(), "folder", "no folder is created");
    gen(&f2, num, seed)?;
    let a = read_folder(&p1);
    let b = read_folder(&p2);
    ensure!(a == b, "same seed, other interactions", "twice the same command gives {:?} and then {:?}", a, b);
    ensure!(a.len() <= num, "too many interactions", "{} files", a.len());
    // what is generated, from the generator of single interactions
    let pr = match p {
        "conservative" => InteractionSymbolsProbabilities::conservative(),
        "protocols_with_coreg" => InteractionSymbolsProbabilities::protocols_with_coreg(),
        _ => InteractionSymbolsProbabilities::default_non_regular(),
    };
    let mut rng = StdRng::seed_from_u64(seed as u64);
    let mut want: Vec<T> = vec![];
    let mut tries = 3 * num;
    while want.len() < num && tries > 0 {
        match generate_canonical_random_interaction(&g, &mut rng, d as u32, min as u32, &pr) {
            Some(i) if !want.contains(&T::from_i(&i)) => want.push(T::from_i(&i)),
            _ => tries -= 1,
        }
    }
    let mut got: Vec<T> = vec![];
    for k in 0..a.len() {
        let f = format!("i{}.hif", k);
        ensure!(a.contains_key(&f), "names of the files", "{} files without {}: {:?}", a.len(), f, a.keys().collect::<Vec<_>>());
        let i = match parse_hif_file(&g, p1.join(&f).to_str().unwrap()) {
            Ok(i) => i,
            Err(e) => return fail("unreadable interaction", format!("{}: {}", a[&f], e)),
        };
        let t = T::from_i(&i);
        ensure!(!got.contains(&t), "duplicate interaction", "{}: {}", f, t);
        let size = t.size();
        ensure!(size >= min, "too small", "{} symbols: {}", size, t);
        ensure!(size < 1 << (d + 1), "deeper than requested", "{} symbols: {}", size, t);
        let ok = !t.any(&mut |x| {
            !match (shown, x) {
                (_, T::Empty | T::Seq(..) | T::Alt(..) | T::Par(..) | T::Loop(LK::W, _)) => true,
                ("default", T::Loop(LK::P, _)) => true,
                ("default" | "conservative", T::Strict(..)) => true,
                ("default" | "conservative", T::Em { tgts, sync, .. }) => tgts.is_empty() && !sync,
                ("protocols_with_coreg", T::Em { lf, tgts, sync, .. }) => {
                    let set: BTreeSet<&Tgt> = tgts.iter().collect();
                    !sync && set.len() == tgts.len() && tgts.iter().all(|g| matches!(g, Tgt::Lf(l) if l != lf))
                }
                // the deepest symbols are actions, whatever the probabilities
                (_, T::Re { lfs, sync, gt, .. }) => lfs.len() == 1 && !sync && gt.is_none(),
                ("protocols_with_coreg", T::CoReg(l, ..)) => l.len() == 1,
                _ => false,
            }
        });
        ensure!(ok, "unexpected symbol", "with {} probabilities: {}", shown, t);
        ensure!(canonize_interaction(&g, &i, Dcp::BasicWithToSeq) == i, "not canonical", "{}", t);
        c.label_if(t.any(&mut |x| matches!(x, T::Par(..))), "par");
        c.label_if(t.any(&mut |x| matches!(x, T::Alt(..))), "alt");
        c.label_if(t.any(&mut |x| matches!(x, T::Seq(..))), "seq");
        c.label_if(t.any(&mut |x| matches!(x, T::Strict(..))), "strict");
        c.label_if(t.has_coreg(), "coreg");
        c.label_if(t.has_loop_kind(LK::W), "loopW");
        c.label_if(t.has_loop_kind(LK::P), "loopP");
        c.label_if(t.any(&mut |x| matches!(x, T::Em { tgts, .. } if tgts.len() > 1)), "broadcast");
        got.push(t);
    }
    let want: Vec<T> = want.iter().map(right).collect();
    ensure!(got == want, "other interactions than generated", "{:?} instead of {:?}", got.iter().map(|t| t.to_string()).collect::<Vec<_>>(), want.iter().map(|t| t.to_string()).collect::<Vec<_>>());
    // fewer of them are the first ones, another seed gives other ones
    if num > 1 {
        let m = s.range(1, num - 1);
        let (f3, p3) = fresh_dir(env, "g3");
        gen(&f3, m, seed)?;
        let b = read_folder(&p3);
        ensure!(b.len() <= m && b.iter().all(|(k, v)| a.get(k) == Some(v)), "number of interactions", "{:?} for {} instead of {}: {:?}", b, m, num, a);
    }
    if a.len() >= 6 && min >= 5 {
        let (f4, p4) = fresh_dir(env, "g4");
        gen(&f4, num, seed + 1 + s.below(1000))?;
        let b = read_folder(&p4);
        ensure!(a != b, "other seed, same interactions", "{:?}", a);
        c.label("two seeds");
    }
    c.label_if(a.len() < num, "fewer than requested");
    c.label_if(n_lf == 1, "one lifeline");
    c.nontrivial = a.len() >= 2;
    Ok(())
}

// C27 -------------------------------------------------------------------------------------------

#[derive(Clone, PartialEq, Debug)]
enum Ir {
    Msg(String),
    Grp(String, Vec<Vec<Ir>>),
}

fn sd_ir(t: &T, n: &Names, out: &mut Vec<Ir>) {
    let frags = |t: &T| -> Vec<Vec<Ir>> {
        fn leaves<'a>(t: &T, u: &'a T, out: &mut Vec<&'a T>) {
            match same_op(t, u) {
                Some((x, y)) => {
                    leaves(t, x, out);
                    leaves(t, y, out)
                }
                None => out.push(u),
            }
        }
        let mut v = vec![];
        leaves(t, t, &mut v);
        v.into_iter()
            .map(|x| {
                let mut o = vec![];
                sd_ir(x, n, &mut o);
                o
            })
            .collect()
    };
    match t {
        T::Empty => {}
        T::Em { lf, ms, tgts, .. } => {
            let to = match tgts.first() {
                None => "".to_string(),
                Some(Tgt::Gt(_)) => "]".to_string(),
                Some(Tgt::Lf(l)) => n.lf[*l].clone(),
            };
            out.push(Ir::Msg(format!("{}->{} : {}", n.lf[*lf], to, n.ms[*ms])))
        }
        T::Re { ms, lfs, .. } => out.push(Ir::Msg(format!("->{} : {}", n.lf[lfs[0]], n.ms[*ms]))),
        T::Seq(x, y) => {
            sd_ir(x, n, out);
            sd_ir(y, n, out)
        }
        T::Strict(..) => out.push(Ir::Grp("group strict".into(), frags(t))),
        T::Par(..) => out.push(Ir::Grp("group par".into(), frags(t))),
        T::Alt(..) => out.push(Ir::Grp("alt".into(), frags(t))),
        T::Loop(k, x) => {
            let mut o = vec![];
            sd_ir(x, n, &mut o);
            out.push(Ir::Grp(format!("group loop{:?}", k), vec![o]))
        }
        _ => unreachable!(),
    }
}

fn sd_parse(text: &str) -> Result<Vec<Ir>, String> {
    let mut lines: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    if lines.first() != Some(&"@startuml") || lines.last() != Some(&"@enduml") {
        return Err("no @startuml or no @enduml".into());
    }
    lines.pop();
    lines.remove(0);
    let mut stack: Vec<(String, Vec<Vec<Ir>>)> = vec![("".into(), vec![vec![]])];
    for l in lines {
        if l.contains("->") {
            stack.last_mut().unwrap().1.last_mut().unwrap().push(Ir::Msg(l.to_string()));
        } else if l == "else" {
            if stack.len() < 2 {
                return Err("'else' outside of a group".into());
            }
            stack.last_mut().unwrap().1.push(vec![]);
        } else if l == "end" {
            let (k, v) = stack.pop().unwrap();
            if stack.is_empty() {
                return Err("'end' outside of a group".into());
            }
            stack.last_mut().unwrap().1.last_mut().unwrap().push(Ir::Grp(k, v));
        } else if l == "alt" || l.starts_with("group ") {
            stack.push((l.to_string(), vec![vec![]]));
        } else {
            return Err(format!("line '{}'", l));
        }
    }
    if stack.len() != 1 {
        return Err("a group without end".into());
    }
    Ok(stack.pop().unwrap().1.pop().unwrap())
}

fn puml_sd(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.coreg = false;
    cfg.sync_op = false;
    cfg.broadcast = false;
    cfg.max_size = s.range(3, 20);
    cfg.max_loops = 4;
    let t = gen_term(s, &cfg);
    let n = if s.chance(1, 2) { Names::gen(s, cfg.n_lf, cfg.n_ms, cfg.n_gt) } else { Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt) };
    c.say(format!("{} with {:?}", t, n));
    classes(&t, c);
    c.nontrivial = t.size() >= 5;
    let f = model_files(s, env, &t, &n);
    let name = format!("f{}_sd.puml", tid());
    let path = env.scratch.join(&name);
    let _ = std::fs::write(&path, "something else\n");
    let out = cli(&["puml_sd", &f.hsf, &f.hif]).map_err(|e| Fail { sig: "command".into(), msg: e })?;
    ensure!(out.iter().any(|l| l.contains(&name)), "name of the file", "the command prints {:?}", out);
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let got = sd_parse(&text).map_err(|e| Fail { sig: "not a sequence diagram".into(), msg: format!("{} in\n{}", e, text) })?;
    let mut want = vec![];
    sd_ir(&t, &n, &mut want);
    ensure!(got == want, "sequence diagram", "{:?} instead of {:?}", got, want);
    Ok(())
}

// C28 -------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Plain,
    Fork,
    Join,
    Choice,
    Composite,
}

#[derive(Default, Debug)]
struct Chart {
    /// places: initial and final ones of each block are named "<block>[" and "<block>]"
    kinds: BTreeMap<String, Kind>,
    edges: Vec<(String, String, Option<String>)>,
    block_of: BTreeMap<String, String>,
    used_before_declaration: Vec<String>,
}

/// the lifelines' charts
fn ap_parse(text: &str) -> Result<BTreeMap<String, Chart>, String> {
    let mut lines: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    if lines.first() != Some(&"@startuml") || lines.last() != Some(&"@enduml") {
        return Err("no @startuml or no @enduml".into());
    }
    lines.pop();
    lines.remove(0);
    let mut out: BTreeMap<String, Chart> = BTreeMap::new();
    let mut blocks: Vec<String> = vec![];
    for l in lines {
        if l == "}" {
            if blocks.pop().is_none() {
                return Err("'}' outside of a state".into());
            }
            continue;
        }
        let toks: Vec<&str> = l.split_whitespace().collect();
        if toks.len() == 3 && toks[0] == "state" && toks[2] == "{" && blocks.is_empty() {
            if out.insert(toks[1].to_string(), Chart::default()).is_some() {
                return Err(format!("two states {}", toks[1]));
            }
            blocks.push(toks[1].to_string());
            continue;
        }
        if blocks.is_empty() {
            return Err(format!("'{}' outside of a state", l));
        }
        let block = blocks.last().unwrap().clone();
        let ch = out.get_mut(&blocks[0]).unwrap();
        fn see(ch: &mut Chart, block: &str, x: &str) -> Result<(), String> {
            let b = ch.block_of.entry(x.to_string()).or_insert_with(|| block.to_string());
            if b != block {
                return Err(format!("state {} is used in {} and in {}", x, b, block));
            }
            Ok(())
        }
        if toks.len() == 3 && toks[0] == "state" {
            see(ch, &block, toks[1])?;
            let k = match toks[2] {
                "{" => {
                    blocks.push(toks[1].to_string());
                    Kind::Composite
                }
                "<<fork>>" => Kind::Fork,
                "<<join>>" => Kind::Join,
                "<<choice>>" => Kind::Choice,
                _ => return Err(format!("line '{}'", l)),
            };
            if ch.kinds.insert(toks[1].to_string(), k).is_some() {
                return Err(format!("two states {}", toks[1]));
            }
            if ch.edges.iter().any(|e| e.0 == toks[1] || e.1 == toks[1]) {
                ch.used_before_declaration.push(toks[1].to_string());
            }
            continue;
        }
        if (toks.len() == 3 || toks.len() == 5 && toks[3] == ":") && toks[1] == "-->" {
            let mut ends = vec![];
            for (x, p) in [(toks[0], "["), (toks[2], "]")] {
                if x == "[*]" {
                    ends.push(format!("{}{}", block, p));
                } else {
                    see(ch, &block, x)?;
                    ends.push(x.to_string());
                }
            }
            ch.edges.push((ends[0].clone(), ends[1].clone(), toks.get(4).map(|x| x.to_string())));
            continue;
        }
        return Err(format!("line '{}'", l));
    }
    if !blocks.is_empty() {
        return Err("a state without end".into());
    }
    Ok(out)
}

/// the words of labels along the runs of a chart from its initial to its final state
fn ap_words(top: &str, ch: &Chart, n: usize, cap: usize) -> Result<Option<BTreeSet<Vec<String>>>, String> {
    let kind = |x: &str| *ch.kinds.get(x).unwrap_or(&Kind::Plain);
    // transitions of a net: consumed places, produced places, label
    let mut net: Vec<(Vec<String>, Vec<String>, Option<String>)> = vec![];
    let mut arrive: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, (a, b, l)) in ch.edges.iter().enumerate() {
        let from = match kind(a) {
            Kind::Fork => format!("fork edge {}", k),
            Kind::Composite => format!("{} done", a),
            _ => a.clone(),
        };
        let to = match kind(b) {
            Kind::Join => {
                let p = format!("join edge {}", k);
                arrive.entry(b.clone()).or_default().push(p.clone());
                p
            }
            _ => b.clone(),
        };
        net.push((vec![from], vec![to], l.clone()));
    }
    let mut places: BTreeSet<String> = ch.block_of.keys().cloned().collect();
    for (x, k) in &ch.kinds {
        places.insert(x.clone());
        match k {
            Kind::Fork => {
                let outs: Vec<String> = ch.edges.iter().enumerate().filter(|(_, e)| e.0 == *x).map(|(k, _)| format!("fork edge {}", k)).collect();
                if outs.len() < 2 {
                    return Err(format!("fork {} with {} branches", x, outs.len()));
                }
                net.push((vec![x.clone()], outs, None));
            }
            Kind::Join => {
                let ins = arrive.get(x).cloned().unwrap_or_default();
                if ins.len() < 2 {
                    return Err(format!("join {} with {} branches", x, ins.len()));
                }
                net.push((ins, vec![x.clone()], None));
            }
            Kind::Composite => {
                net.push((vec![x.clone()], vec![format!("{}[", x)], None));
                net.push((vec![format!("{}]", x)], vec![format!("{} done", x)], None));
                // no iteration at all
                net.push((vec![x.clone()], vec![format!("{} done", x)], None));
                if !ch.edges.iter().any(|e| e.0 == *x && e.1 == *x) {
                    return Err(format!("{} is not repeated", x));
                }
            }
            _ => {}
        }
    }
    // every state can be entered, every state but the final ones can be left
    for x in &places {
        if !ch.edges.iter().any(|e| e.1 == *x) {
            return Err(format!("nothing leads to state {}", x));
        }
        if !ch.edges.iter().any(|e| e.0 == *x) {
            return Err(format!("state {} leads nowhere", x));
        }
    }
    for b in ch.kinds.iter().filter(|(_, k)| **k == Kind::Composite).map(|(x, _)| x.as_str()).chain([top]) {
        let i = ch.edges.iter().filter(|e| e.0 == format!("{}[", b)).count();
        let o = ch.edges.iter().filter(|e| e.1 == format!("{}]", b)).count();
        if i != 1 || o != 1 {
            return Err(format!("{} has {} initial and {} final transitions", b, i, o));
        }
    }
    type M = BTreeMap<String, u32>;
    let closure = |start: BTreeSet<M>| -> Option<BTreeSet<M>> {
        let mut out = start.clone();
        let mut todo: Vec<M> = start.into_iter().collect();
        while let Some(m) = todo.pop() {
            for (a, b, l) in &net {
                if l.is_none() {
                    if let Some(m2) = fire(&m, a, b) {
                        if out.insert(m2.clone()) {
                            todo.push(m2);
                        }
                    }
                }
            }
            if out.len() > cap {
                return None;
            }
        }
        Some(out)
    };
    fn fire(m: &M, a: &[String], b: &[String]) -> Option<M> {
        let mut m = m.clone();
        for x in a {
            let k = m.get_mut(x)?;
            *k -= 1;
            if *k == 0 {
                m.remove(x);
            }
        }
        for x in b {
            *m.entry(x.clone()).or_insert(0) += 1;
        }
        Some(m)
    }
    let end: M = [(format!("{}]", top), 1)].into_iter().collect();
    let mut out = BTreeSet::new();
    let start: M = [(format!("{}[", top), 1)].into_iter().collect();
    let first = match closure([start].into_iter().collect()) {
        Some(x) => x,
        None => return Ok(None),
    };
    let mut todo = vec![(first, vec![])];
    let mut seen = 0;
    while let Some((ms, w)) = todo.pop() {
        seen += ms.len();
        if seen > cap * 4 {
            return Ok(None);
        }
        if ms.contains(&end) {
            out.insert(w.clone());
        }
        if w.len() < n {
            let mut next: BTreeMap<&String, BTreeSet<M>> = BTreeMap::new();
            for m in &ms {
                for (a, b, l) in &net {
                    if let Some(l) = l {
                        if let Some(m2) = fire(m, a, b) {
                            next.entry(l).or_default().insert(m2);
                        }
                    }
                }
            }
            for (l, x) in next {
                let mut w2: Vec<String> = w.clone();
                w2.push(l.clone());
                match closure(x) {
                    Some(x) => todo.push((x, w2)),
                    None => return Ok(None),
                }
            }
        }
    }
    Ok(Some(out))
}

fn puml_ap(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.coreg = false;
    cfg.sync_op = false;
    cfg.self_comm = false;
    cfg.loop_kinds = vec![LK::S, LK::H, LK::W];
    cfg.max_size = s.range(3, 12);
    let t = if s.chance(1, 3) { gen_shared(s, &cfg) } else { gen_term(s, &cfg) };
    let n = if s.chance(1, 3) { Names::gen(s, cfg.n_lf, cfg.n_ms, cfg.n_gt) } else { Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt) };
    c.say(format!("{} with {:?}", t, n));
    classes(&t, c);
    let f = model_files(s, env, &t, &n);
    let name = format!("f{}_ap.puml", tid());
    let path = env.scratch.join(&name);
    let _ = std::fs::write(&path, "something else\n");
    let out = cli(&["puml_ap", &f.hsf, &f.hif]).map_err(|e| Fail { sig: "command".into(), msg: e })?;
    ensure!(out.iter().any(|l| l.contains(&name)), "name of the file", "the command prints {:?}", out);
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let charts = ap_parse(&text).map_err(|e| Fail { sig: "not a product of state machines".into(), msg: format!("{} in\n{}", e, text) })?;
    let names: BTreeSet<String> = n.lf.iter().map(|x| format!("lf_{}", x)).collect();
    ensure!(charts.keys().cloned().collect::<BTreeSet<_>>() == names, "lifelines", "state machines {:?} for lifelines {:?}", charts.keys(), n.lf);
    let mut all: BTreeSet<&String> = BTreeSet::new();
    for ch in charts.values() {
        for x in ch.block_of.keys() {
            ensure!(all.insert(x), "state shared by two lifelines", "{} in\n{}", x, text);
        }
    }
    let len = if t.has_loop() { 5 } else { 8 };
    let mut al = Al::new();
    for l in 0..cfg.n_lf {
        let top = format!("lf_{}", n.lf[l]);
        let u = ref_project(&t, &|x| x == l);
        let want = or_discard!(lang(&u, &mut al, &Lim { n: len, cap: 4000, keep: None }), c);
        let want: BTreeSet<Vec<String>> = want
            .iter()
            .map(|w| {
                w.iter()
                    .map(|a| {
                        let a = al.acts(*a).iter().next().unwrap();
                        format!("{}{}", if a.emit { "!" } else { "?" }, n.ms[a.ms])
                    })
                    .collect()
            })
            .collect();
        let got = match ap_words(&top, &charts[&top], len, 3000) {
            Err(e) => return fail("ill-formed state machine", format!("lifeline {}: {} in\n{}", n.lf[l], e, text)),
            Ok(None) => {
                c.discard = true;
                return Ok(());
            }
            Ok(Some(x)) => x,
        };
        if got != want {
            let x = got.symmetric_difference(&want).min_by_key(|w| w.len()).unwrap();
            return fail("state machine of a lifeline", format!("lifeline {}: {:?} is {} in\n{}", n.lf[l], x, if got.contains(x) { "accepted and no behaviour" } else { "a behaviour and not accepted" }, text));
        }
        if want.len() >= 2 {
            c.nontrivial = true;
        }
        c.label_if(want.len() == 1 && want.iter().all(|w| w.is_empty()), "lifeline without action");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "a term of at least 4 symbols, resp. an automaton of at least 4 states",
            assumptions: &["with loops, the automaton itself is the one that C15 checks"],
            suites: vec![
                Suite { name: "terms", quick: 60000, thorough: 3000000, run: metrics_raw },
                Suite { name: "command", quick: 12000, thorough: 400000, run: metrics_cli },
            ],
        },
        Prop {
            id: "C26",
            rule: "at least two interactions",
            assumptions: &["the random generator of the rand crate", "up to 12 interactions of depth at most 5"],
            suites: vec![Suite { name: "command", quick: 3000, thorough: 150000, run: random_interactions }],
        },
        Prop {
            id: "C27",
            rule: "a term of at least 5 symbols",
            assumptions: &["no broadcast, co-region or synchronization operator (documented as not translated)"],
            suites: vec![Suite { name: "command", quick: 30000, thorough: 1000000, run: puml_sd }],
        },
        Prop {
            id: "C28",
            rule: "a lifeline with at least two behaviours",
            assumptions: &["a composite state stands for any number of runs of its content", "no co-region, synchronization operator, loopP or communication of a lifeline with itself", "words up to length 8 (5 with loops)"],
            suites: vec![Suite { name: "command", quick: 30000, thorough: 1000000, run: puml_ap }],
        },
    ]
}
