//! Reading and writing of the tool's files.
use crate::cli::{run_dir, run_tool};
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::sem::Mu;
use crate::term::*;
use crate::text::*;
use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy as Q;
use hibou_label::core::colocalizations::CoLocalizations;
use hibou_label::core::general_context::GeneralContext;
use hibou_label::io::input::error::HibouParsingError;
use hibou_label::io::input::hcf::ana::interface::parse_hcf_file_for_ana;
use hibou_label::io::input::hcf::canon::interface::parse_hcf_file_for_canonize;
use hibou_label::io::input::hcf::explo::interface::parse_hcf_file_for_explore;
use hibou_label::io::input::hif::interface::parse_hif_file;
use hibou_label::io::input::hsf::interface::parse_hsf_file;
use hibou_label::io::input::htf::interface::{multi_action_from_text, parse_htf_file};
use hibou_label::io::output::to_hfiles::interaction::to_hif::interaction_to_hif;
use hibou_label::io::output::to_hfiles::trace::to_htf::write_multi_trace_into_file;
use hibou_label::process::ana::filter::filter::AnalysisFilterCriterion;
use hibou_label::process::ana::param::anakind::{AnalysisKind, SimulationActionCriterion, SimulationConfiguration, SimulationLoopCriterion};
use hibou_label::process::ana::param::param::LocalAnalysisLifelineSelectionPolicy as Pol;
use hibou_label::process::ana::priorities::AnalysisPriorities;
use hibou_label::process::ana::verdict::global::AnalysisGlobalVerdict as V;
use hibou_label::process::explo::filter::filter::ExplorationFilterCriterion;
use std::collections::BTreeSet;
use std::path::PathBuf;

fn file(env: &Env, ext: &str) -> PathBuf {
    let id = format!("{:?}", std::thread::current().id());
    let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
    env.scratch.join(format!("f{}.{}", id, ext))
}

fn put(env: &Env, ext: &str, text: &str) -> String {
    let p = file(env, ext);
    std::fs::write(&p, text).expect("write");
    p.to_str().unwrap().to_string()
}

/// now and then, many names, long traces and wide or deep terms
fn large(s: &mut Src) -> bool {
    s.chance(1, 400)
}

fn gen_large_model(s: &mut Src) -> (Cfg, T, Names) {
    let cfg = Cfg { n_lf: s.range(5, 300), n_ms: s.range(3, 300), n_gt: s.range(2, 40), max_size: s.range(15, 300), self_comm: s.chance(1, 3), max_loops: 12, ..Cfg::full() };
    let t = if s.chance(1, 2) {
        // one operator of many operands, or a deep nest
        let n = s.range(10, 280);
        let mut t = gen_leaf(s, &cfg);
        let op = s.below(5);
        let deep = s.chance(1, 3);
        for _ in 0..if deep { n.min(60) } else { n } {
            let x = if s.chance(1, 8) { gen_term(s, &Cfg { max_size: 4, ..cfg.clone() }) } else { gen_leaf(s, &cfg) };
            let (x, y) = if deep && s.chance(1, 2) { (t, x) } else { (x, t) };
            t = match if deep { s.below(7) } else { op } {
                0 => T::Strict(b(x), b(y)),
                1 => T::Seq(b(x), b(y)),
                2 => T::Alt(b(x), b(y)),
                3 => T::Par(b(x), b(y)),
                4 => T::CoReg(vec![cfg.n_lf - 1], b(x), b(y)),
                5 => T::Loop([LK::S, LK::H, LK::W, LK::P][s.below(4)], b(T::Seq(b(x), b(y)))),
                _ => T::Alt(b(T::Empty), b(T::Strict(b(x), b(y)))),
            };
        }
        t
    } else {
        gen_term(s, &cfg)
    };
    let n = Names::gen(s, cfg.n_lf, cfg.n_ms, cfg.n_gt);
    (cfg, t, n)
}

fn gen_model(s: &mut Src) -> (Cfg, T, Names) {
    if large(s) {
        return gen_large_model(s);
    }
    let mut cfg = Cfg { n_lf: s.range(1, 4), n_ms: s.range(1, 3), n_gt: 2, max_size: s.range(1, 15), self_comm: s.chance(1, 3), max_loops: 4, ..Cfg::full() };
    let t = gen_term(s, &cfg);
    let t = widen(s, &mut cfg, t);
    let n = Names::gen(s, cfg.n_lf, cfg.n_ms, cfg.n_gt);
    (cfg, t, n)
}

// C18 -------------------------------------------------------------------------------------------

/// a synchronization set that is empty cannot be written
fn no_empty_sync(t: &T) -> bool {
    !t.any(&mut |x| matches!(x, T::Sync(c,..) if c.is_empty()))
}

fn hif_parse(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let (_, t, n) = gen_model(s);
    if !no_empty_sync(&t) {
        c.discard = true;
        return Ok(());
    }
    let txt = hif_text(s, &t, &n, false);
    c.nontrivial = t.size() >= 4;
    classes(&t, c);
    c.say(format!("signature {:?}\nhif {:?}\nterm {}", n, txt, t));
    let p = put(env, "hif", &txt);
    match parse_hif_file(&n.ctx(), &p) {
        Err(e) => fail("hif parse", format!("a well-formed interaction is rejected: {}", e)),
        Ok(i) => {
            let u = norm(&T::from_i(&i));
            ensure!(u == norm(&t), "hif parse", "parsed as {}", u);
            Ok(())
        }
    }
}

fn hif_write(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let (cfg, _, n) = gen_model(s);
    let t = gen_term(s, &Cfg { sync_op: false, ..cfg });
    c.nontrivial = t.size() >= 4;
    classes(&t, c);
    c.say(format!("signature {:?}\nterm {}", n, t));
    let p = file(env, "hif");
    interaction_to_hif(&p, &n.ctx(), &t.to_i());
    let txt = std::fs::read_to_string(&p).unwrap_or_default();
    match parse_hif_file(&n.ctx(), p.to_str().unwrap()) {
        Err(e) => fail("hif write", format!("the written interaction is rejected: {}\n{}", e, txt)),
        Ok(i) => {
            let u = right(&T::from_i(&i));
            ensure!(u == right(&t), "hif write", "read back as {}\n{}", u, txt);
            Ok(())
        }
    }
}

fn hsf(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let n = {
        let most = if large(s) { 300 } else { 5 };
        let a = s.range(0, most);
        let b = s.range(0, most);
        let d = s.range(0, most - 1);
        Names::gen(s, a, b, d)
    };
    c.label_if(n.lf.len() > 255 || n.ms.len() > 255, "more than 255 names");
    let txt = hsf_text(s, &n, false);
    c.nontrivial = n.lf.len() + n.ms.len() + n.gt.len() >= 4;
    c.say(format!("signature {:?}\nhsf {:?}", n, txt));
    let p = put(env, "hsf", &txt);
    let g = match parse_hsf_file(&p) {
        Err(e) => return fail("hsf parse", format!("a well-formed signature is rejected: {}", e)),
        Ok(g) => g,
    };
    ensure!(g.get_lf_num() == n.lf.len() && g.get_ms_num() == n.ms.len(), "hsf parse", "{} lifelines and {} messages", g.get_lf_num(), g.get_ms_num());
    let all: BTreeSet<usize> = (0..n.lf.len()).collect();
    ensure!(g.get_all_lfs_ids() == all, "hsf parse", "lifelines {:?}", g.get_all_lfs_ids());
    for (i, x) in n.lf.iter().enumerate() {
        ensure!(g.get_lf_id(x) == Some(i) && g.get_lf_name(i).ok().as_ref() == Some(x), "hsf parse", "lifeline {} is number {:?}", x, g.get_lf_id(x));
        ensure!(g.get_gt_id(x) == None, "hsf parse", "lifeline {} is a gate", x);
    }
    for (i, x) in n.ms.iter().enumerate() {
        ensure!(g.get_ms_id(x) == Some(i) && g.get_ms_name(i).ok().as_ref() == Some(x), "hsf parse", "message {} is number {:?}", x, g.get_ms_id(x));
    }
    for (i, x) in n.gt.iter().enumerate() {
        ensure!(g.get_gt_id(x) == Some(i) && g.get_gt_name(i).ok().as_ref() == Some(x), "hsf parse", "gate {} is number {:?}", x, g.get_gt_id(x));
        ensure!(g.get_lf_id(x) == None, "hsf parse", "gate {} is a lifeline", x);
    }
    Ok(())
}

// C19 -------------------------------------------------------------------------------------------

fn gen_mu(s: &mut Src, colocs: &Colocs, n_ms: usize) -> Mu {
    let mut mu: Mu = colocs
        .iter()
        .map(|l| {
            let l: Vec<usize> = l.iter().cloned().collect();
            if l.is_empty() {
                return vec![];
            }
            let k = if s.chance(1, 4) { 0 } else { if large(s) { s.below(400) } else { s.below(5) } };
            (0..k)
                .map(|_| {
                    let mut a: BTreeSet<Act> = BTreeSet::new();
                    let m = if s.chance(1, 4) { 3 } else { 1 };
                    for _ in 0..m {
                        a.insert(act(*s.pick(&l), s.chance(1, 2), s.below(n_ms)));
                    }
                    a
                })
                .collect()
        })
        .collect();
    for x in &mut mu {
        x.shrink_to_fit()
    }
    mu
}

fn htf_parse(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let big = large(s);
    let n_lf = if big { s.range(5, 300) } else { lifelines(s, 1, 4) };
    let n_ms = if big { s.range(3, 300) } else { s.range(1, 3) };
    let n = Names::gen(s, n_lf, n_ms, 0);
    let mut colocs = gen_colocs(s, n_lf);
    for i in (1..colocs.len()).rev() {
        let j = s.below(i + 1);
        colocs.swap(i, j)
    }
    let mu = gen_mu(s, &colocs, n_ms);
    let mut k = Toks::new();
    let mut want_c: Colocs = vec![];
    let mut want_m: Mu = vec![];
    if colocs.len() == 1 && s.chance(1, 3) {
        c.label("without braces");
        trace_toks(&n, &mu[0], &mut k);
        want_c = colocs.clone();
        want_m = mu.clone();
    } else {
        k.p("{");
        let mut used: BTreeSet<usize> = BTreeSet::new();
        let mut late: Vec<usize> = vec![];
        let mut first = true;
        for (l, m) in colocs.iter().zip(&mu) {
            if l.len() == 1 && m.is_empty() && s.chance(1, 2) {
                c.label("component left out");
                late.push(*l.iter().next().unwrap());
                continue;
            }
            if !first {
                k.p(";")
            }
            first = false;
            let occ: BTreeSet<usize> = m.iter().flatten().map(|a| a.lf).collect();
            let rest: BTreeSet<usize> = (0..n_lf).filter(|x| !used.contains(x)).collect();
            k.p("[");
            let form = s.below(3);
            if form == 1 && occ == *l {
                c.label("#any");
                k.p("#any")
            } else if form == 2 && rest == *l {
                c.label("#all");
                k.p("#all")
            } else {
                let mut v: Vec<usize> = l.iter().cloned().collect();
                for i in (1..v.len()).rev() {
                    let j = s.below(i + 1);
                    v.swap(i, j)
                }
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        k.p(",")
                    }
                    k.p(n.lf[*x].clone())
                }
            }
            k.p("]");
            trace_toks(&n, m, &mut k);
            used.extend(l.iter().cloned());
            want_c.push(l.clone());
            want_m.push(m.clone());
        }
        if s.chance(1, 3) {
            k.p(";")
        }
        k.p("}");
        late.sort();
        for l in late {
            want_c.push([l].into_iter().collect());
            want_m.push(vec![]);
        }
    }
    let txt = k.text(s, false);
    c.nontrivial = mu_len(&mu) >= 2;
    c.label_if(big, "many lifelines");
    c.label_if(mu.iter().any(|x| x.len() > 255), "more than 255 actions on a component");
    c.say(format!("signature {:?}\nhtf {:?}\nmeans {}", n, txt, show_mtr(&want_m, &want_c)));
    let p = put(env, "htf", &txt);
    match parse_htf_file(&n.ctx(), &p) {
        Err(e) => fail("htf parse", format!("a well-formed multi-trace is rejected: {}", e)),
        Ok((cl, m)) => {
            ensure!(cl.locs_lf_ids == want_c, "htf parse", "co-localizations {:?}", cl.locs_lf_ids);
            ensure!(m == to_mtr(&want_m), "htf parse", "parsed as {:?}", m);
            Ok(())
        }
    }
}

fn htf_write(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let big = large(s);
    let n_lf = if big { s.range(5, 300) } else { s.range(1, 5) };
    let n_ms = if big { s.range(3, 300) } else { s.range(1, 3) };
    let n = Names::gen(s, n_lf, n_ms, 0);
    let mut colocs = gen_colocs(s, n_lf);
    if s.chance(1, 8) {
        colocs.push(BTreeSet::new());
        c.label("empty co-localization");
    }
    for i in (1..colocs.len()).rev() {
        let j = s.below(i + 1);
        colocs.swap(i, j)
    }
    let mu = gen_mu(s, &colocs, n_ms);
    c.nontrivial = mu_len(&mu) >= 2;
    c.label_if(mu.iter().flatten().any(|a| a.len() > 1), "multi-action");
    c.say(format!("signature {:?}\nmulti-trace {}", n, show_mtr(&mu, &colocs)));
    let p = file(env, "htf");
    write_multi_trace_into_file(&p, &n.ctx(), &CoLocalizations::new(colocs.clone()), &to_mtr(&mu));
    let txt = std::fs::read_to_string(&p).unwrap_or_default();
    match parse_htf_file(&n.ctx(), p.to_str().unwrap()) {
        Err(e) => fail("htf write", format!("the written multi-trace is rejected: {}\n{}", e, txt)),
        Ok((cl, m)) => {
            ensure!(cl.locs_lf_ids == colocs, "htf write", "co-localizations read back {:?}\n{}", cl.locs_lf_ids, txt);
            ensure!(m == to_mtr(&mu), "htf write", "read back as {:?}\n{}", m, txt);
            Ok(())
        }
    }
}

fn htf_multi_action(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let n_lf = lifelines(s, 1, 4);
    let n_ms = s.range(1, 3);
    let n = Names::gen(s, n_lf, n_ms, 0);
    let mut a: BTreeSet<Act> = BTreeSet::new();
    for _ in 0..s.range(1, 4) {
        a.insert(act(s.below(n_lf), s.chance(1, 2), s.below(n_ms)));
    }
    let mut k = Toks::new();
    trace_toks(&n, &[a.clone()], &mut k);
    // the multi-action is not preceded by blanks: it is a rule of the grammar used on its own
    let txt = k.text(s, false);
    let txt = txt.trim_start().to_string();
    if txt.starts_with("/*") {
        c.discard = true;
        return Ok(());
    }
    c.nontrivial = a.len() >= 2;
    c.say(format!("signature {:?}\ntext {:?}", n, txt));
    match multi_action_from_text(&n.ctx(), &txt) {
        Err(e) => fail("multi-action parse", format!("rejected: {}", e)),
        Ok(x) => {
            ensure!(x == a.iter().map(|x| x.to_ta()).collect(), "multi-action parse", "parsed as {:?}", x);
            Ok(())
        }
    }
}

// C20 -------------------------------------------------------------------------------------------

fn distinct<X: Ord>(v: &[X]) -> bool {
    v.iter().collect::<BTreeSet<_>>().len() == v.len()
}

/// what every accepted interaction satisfies
fn well_formed(t: &T, n: &Names) -> Result<(), String> {
    let (l, m, g) = (n.lf.len(), n.ms.len(), n.gt.len());
    let mut bad = None;
    t.any(&mut |x| {
        let ok = match x {
            T::Em { lf, ms, tgts, .. } => {
                *lf < l
                    && *ms < m
                    && distinct(tgts)
                    && tgts.iter().all(|t| match t {
                        Tgt::Lf(x) => *x < l,
                        Tgt::Gt(x) => *x < g,
                    })
            }
            T::Re { gt, ms, lfs, .. } => gt.map_or(true, |x| x < g) && *ms < m && !lfs.is_empty() && distinct(lfs) && lfs.iter().all(|x| *x < l),
            T::CoReg(c, ..) => !c.is_empty() && distinct(c) && c.iter().all(|x| *x < l),
            T::Sync(c, ..) => !c.is_empty() && distinct(c) && c.iter().all(|a| a.lf < l && a.ms < m),
            _ => true,
        };
        if !ok {
            bad = Some(format!("{}", x));
        }
        !ok
    });
    match bad {
        None => Ok(()),
        Some(x) => Err(x),
    }
}

/// random edits of a text
fn corrupt(s: &mut Src, txt: &str, words: &[&str]) -> String {
    let mut v: Vec<String> = vec![];
    // tokens: words or single characters
    let mut cur = String::new();
    for ch in txt.chars() {
        if ch.is_alphanumeric() || ch == '_' {
            cur.push(ch)
        } else {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur))
            }
            v.push(ch.to_string())
        }
    }
    if !cur.is_empty() {
        v.push(cur)
    }
    for _ in 0..s.range(1, 3) {
        let n = v.len();
        match s.below(6) {
            0 if n > 0 => {
                v.remove(s.below(n));
            }
            1 if n > 0 => {
                let k = s.below(n);
                let x = v[k].clone();
                v.insert(k, x)
            }
            2 if n > 1 => {
                let k = s.below(n);
                let j = s.below(n);
                v.swap(k, j)
            }
            3 => {
                let k = s.below(n + 1);
                v.insert(k, s.pick(words).to_string())
            }
            4 if n > 0 => {
                let k = s.below(n);
                v[k] = s.pick(words).to_string()
            }
            _ => {
                let k = s.below(n + 1);
                v.truncate(k)
            }
        }
    }
    v.concat()
}

fn soup(s: &mut Src, words: &[&str]) -> String {
    let n = s.range(0, 25);
    let mut o = String::new();
    for _ in 0..n {
        if s.chance(1, 3) {
            o.push(' ')
        }
        o.push_str(*s.pick(words));
    }
    o
}

const HIF_WORDS: [&str; 44] = [
    "(", ")", ",", "->", "--", "|", "<synch>", "<asynch>", "strict", "seq", "coreg", "alt", "par", "and", "loopS", "loopH", "loopW", "loopP", "loop", "sync", "{", "}", "!", "?", "o", "∅", "l0", "l1", "m0", "m1", "g0",
    "zz", "seq(", "alt(", "l0 -- m0 -> l1", "m0 -> l0", "l1 -- m1 -> |", "l0!m0", "/*", "*/", ";", "@", "\u{0}", "coreg(l0)(",
];
const HTF_WORDS: [&str; 26] =
    ["{", "}", "[", "]", ".", ",", ";", "#any", "#all", "#", "!", "?", "l0", "l1", "l2", "m0", "m1", "zz", "l0!m0", "l1?m1", "[l0]", "[l1,l0]", "{l0!m0,l1?m0}", "/*", "*/", "\u{0}"];
const HSF_WORDS: [&str; 16] = ["@message", "@lifeline", "@gate", "@", "{", "}", ";", "l0", "l1", "m0", "g0", "@message{m0}", "@lifeline{l0;l1}", "/*", "*/", "1"];
const HCF_WORDS: [&str; 96] = [
    "@analyze_option", "@explore_option", "@canonize_option", "{", "}", "[", "]", ";", "=", ",", "(", ")", "loggers", "graphic", "tracegen", "nfait", "nfa", "strategy", "BFS", "DFS", "HCS", "BreadthFS", "filters", "max_depth",
    "max_loop_depth", "max_node_number", "max depth", "priorities", "randomize", "emission", "reception", "loop", "multi_rdv", "elim", "simu", "simpl", "flush", "invert", "deduplicate", "factorize", "defactorize", "memoize", "true",
    "false", "None", "none", "0", "1", "7", "-", "-1", "99999999999", "analysis_kind", "accept", "prefix", "eliminate", "simulate", "slice", "before", "multiply", "reset", "act", "num", "max_num", "goal", "Pass", "WeakPass",
    "local_analysis", "max_look_ahead_depth", "modulo", "modulo_each_X_steps", "select", "all", "dirty", "por", "partial_order_reduction", "search_all", "generation", "accepted", "exact depth", "modulo depth", "partition", "discrete",
    "trivial", "(l0)", "(l1,l0)", "(zz)", "parent", "parent_folder", "folder", "name", "prefix", "no_duplicates", "svg", "png", "/*",
];

fn src_text(s: &mut Src, valid: String, words: &[&str]) -> String {
    match s.below(4) {
        0 => soup(s, words),
        _ => corrupt(s, &valid, words),
    }
}

fn total_hif(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let n = Names::plain(3, 2, 1);
    let t = gen_term(s, &Cfg { n_lf: 3, n_ms: 2, n_gt: 1, max_size: 9, ..Cfg::full() });
    let valid = hif_text(s, &t, &n, true);
    let txt = src_text(s, valid, &HIF_WORDS);
    c.say(format!("hif {:?}", txt));
    let p = put(env, "hif", &txt);
    let r = parse_hif_file(&n.ctx(), &p);
    c.label(if r.is_ok() { "accepted" } else { "rejected" });
    c.nontrivial = true;
    if let Ok(i) = r {
        if txt.contains("and") && format!("{:?}", i).contains("And(") {
            c.label("and operator");
            return Ok(());
        }
        let t = T::from_i(&i);
        if let Err(x) = well_formed(&t, &n) {
            return fail("ill-formed interaction accepted", x);
        }
        // what it accepts, written down independently, reads the same
        let again = hif_text(s, &t, &n, true);
        let p = put(env, "hif", &again);
        match parse_hif_file(&n.ctx(), &p) {
            Ok(j) if i == j => {}
            _ => return fail("accepted interaction", format!("{} is not read back from {}", t, again)),
        }
    }
    Ok(())
}

fn mu_text(n: &Names, colocs: &Colocs, mu: &Mu) -> Toks {
    let mut k = Toks::new();
    k.p("{");
    for (i, (l, m)) in colocs.iter().zip(mu).enumerate() {
        if i > 0 {
            k.p(";")
        }
        let v: Vec<String> = l.iter().map(|x| n.lf[*x].clone()).collect();
        k.list("[", &v, "]");
        trace_toks(n, m, &mut k);
    }
    k.p("}");
    k
}

fn total_htf(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let n = Names::plain(3, 2, 0);
    let colocs = gen_colocs(s, 3);
    let mu = gen_mu(s, &colocs, 2);
    let valid = mu_text(&n, &colocs, &mu).text(s, true);
    let txt = src_text(s, valid, &HTF_WORDS);
    c.say(format!("htf {:?}", txt));
    let p = put(env, "htf", &txt);
    let r = parse_htf_file(&n.ctx(), &p);
    c.label(if r.is_ok() { "accepted" } else { "rejected" });
    c.nontrivial = true;
    let _ = multi_action_from_text(&n.ctx(), &txt);
    if let Ok((cl, m)) = r {
        let cl = cl.locs_lf_ids;
        ensure!(cl.len() == m.len(), "ill-formed multi-trace accepted", "{} co-localizations and {} components", cl.len(), m.len());
        let mut seen = BTreeSet::new();
        for (l, tr) in cl.iter().zip(&m) {
            for x in l {
                ensure!(*x < 3 && seen.insert(*x), "ill-formed multi-trace accepted", "co-localizations {:?}", cl);
            }
            for a in tr {
                ensure!(!a.is_empty(), "ill-formed multi-trace accepted", "empty multi-action");
                for x in a {
                    ensure!(l.contains(&x.lf_id) && x.ms_id < 2, "ill-formed multi-trace accepted", "action {:?} in component {:?}", x, l);
                }
            }
        }
        ensure!(seen.len() == 3, "ill-formed multi-trace accepted", "the co-localizations {:?} do not cover the lifelines", cl);
    }
    Ok(())
}

fn total_hsf(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let (a, b, d) = (s.below(3), s.below(3), s.below(2));
    let n = Names::plain(a, b, d);
    let valid = hsf_text(s, &n, true);
    let txt = src_text(s, valid, &HSF_WORDS);
    c.say(format!("hsf {:?}", txt));
    let p = put(env, "hsf", &txt);
    let r = parse_hsf_file(&p);
    c.label(if r.is_ok() { "accepted" } else { "rejected" });
    c.nontrivial = true;
    if let Ok(g) = r {
        for i in 0..g.get_lf_num() {
            let x = g.get_lf_name(i).unwrap_or_default();
            ensure!(g.get_lf_id(&x) == Some(i), "ill-formed signature accepted", "lifeline {} {:?}", i, x);
        }
        for i in 0..g.get_ms_num() {
            let x = g.get_ms_name(i).unwrap_or_default();
            ensure!(g.get_ms_id(&x) == Some(i), "ill-formed signature accepted", "message {} {:?}", i, x);
        }
    }
    Ok(())
}

fn total_hcf(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let n = Names::plain(3, 2, 0);
    let mut k = Toks::new();
    match s.below(3) {
        0 => {
            gen_ana(s, &mut k);
        }
        1 => {
            gen_exp(s, &mut k);
        }
        _ => {
            gen_can(s, &mut k);
        }
    }
    let valid = k.text(s, true);
    let txt = src_text(s, valid, &HCF_WORDS);
    c.say(format!("hcf {:?}", txt));
    let p = put(env, "hcf", &txt);
    let g = n.ctx();
    let a = parse_hcf_file_for_ana(&g, &p).is_ok();
    let b = parse_hcf_file_for_explore(&g, &p).is_ok();
    let d = parse_hcf_file_for_canonize(&g, &p).is_ok();
    c.label(if a || b || d { "accepted" } else { "rejected" });
    c.nontrivial = true;
    Ok(())
}

/// one definite mistake in an otherwise well-formed interaction
fn reject_hif(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let cfg = Cfg { n_lf: 3, n_ms: 2, n_gt: 1, max_size: 9, ..Cfg::full() };
    let t = gen_term(s, &cfg);
    if !no_empty_sync(&t) {
        c.discard = true;
        return Ok(());
    }
    let n = Names::plain(3, 2, 1);
    let bad = [
        ("undeclared lifeline", "zz -- m0 -> l0"),
        ("undeclared lifeline", "l0 -- m0 -> zz"),
        ("undeclared lifeline", "l0 -- m0 -> (l1,zz)"),
        ("undeclared lifeline", "m0 -> zz"),
        ("undeclared lifeline", "m0 -> (l0,zz)"),
        ("undeclared lifeline", "g0 -- m0 -> (zz)"),
        ("undeclared lifeline", "coreg(zz)(o,o)"),
        ("undeclared lifeline", "coreg(l0,zz)(o,o)"),
        ("undeclared lifeline", "sync(zz!m0)(o,o)"),
        ("undeclared lifeline", "sync{l0!m0,zz?m0}(o,o)"),
        ("undeclared message", "l0 -- zz -> l1"),
        ("undeclared message", "l0 -- <synch>zz -> l1"),
        ("undeclared message", "zz -> l1"),
        ("undeclared message", "<asynch>zz -> l1"),
        ("undeclared message", "sync(l0?zz)(o,o)"),
        ("gate receiving from a gate", "g0 -- m0 -> g0"),
        ("reception by a gate", "m0 -> g0"),
        ("reception by a gate", "m0 -> (l0,g0)"),
        ("reception by nothing", "m0 -> |"),
        ("reception by nothing", "g0 -- m0 -> |"),
        ("duplicate target", "l0 -- m0 -> (l1,l1)"),
        ("duplicate target", "l0 -- m0 -> (l1,g0,g0)"),
        ("duplicate target", "m0 -> (l1,l0,l1)"),
        ("duplicate lifeline in a co-region", "coreg(l0,l0)(o,o)"),
        ("gate in a co-region", "coreg(g0)(o,o)"),
        ("gate in a synchronization", "sync(g0!m0)(o,o)"),
        ("single operand", "seq(l0 -- m0 -> |)"),
        ("no operand", "alt()"),
        ("two operands", "loopS(o,o)"),
        ("unknown loop", "loopX(o)"),
        ("unknown operator", "opt(o,o)"),
        ("empty target list", "l0 -- m0 -> ()"),
        ("empty synchronization", "sync{}(o,o)"),
        ("no target", "l0 -- m0 ->"),
        ("missing parenthesis", "seq(o,o"),
        ("extra parenthesis", "seq(o,o))"),
        ("missing comma", "par(o o)"),
        ("name starting with a digit", "l0 -- 1m -> l1"),
    ];
    let (what, txt) = *s.pick(&bad);
    c.label(what);
    // put it somewhere in the term, as the operand of an operator
    let mut k = Toks::new();
    let place = s.below(4);
    match place {
        0 => k.p(txt),
        1 => {
            k.p("par");
            k.p("(");
            hif(s, &t, &n, &mut k);
            k.p(",");
            k.p(txt);
            k.p(")");
        }
        2 => {
            k.p("loopW");
            k.p("(");
            k.p("seq");
            k.p("(");
            k.p(txt);
            k.p(",");
            hif(s, &t, &n, &mut k);
            k.p(")");
            k.p(")");
        }
        _ => {
            k.p("alt");
            k.p("(");
            hif(s, &t, &n, &mut k);
            k.p(",");
            k.p("strict");
            k.p("(");
            k.p("o");
            k.p(",");
            k.p(txt);
            k.p(")");
            k.p(",");
            k.p("o");
            k.p(")");
        }
    }
    let txt = k.text(s, false);
    c.nontrivial = place > 0;
    c.say(format!("{}: hif {:?}", what, txt));
    let p = put(env, "hif", &txt);
    match parse_hif_file(&n.ctx(), &p) {
        Ok(i) => fail("mistake accepted", format!("{}: read as {:?}", what, i)),
        Err(_) => Ok(()),
    }
}

fn reject_htf(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let n = Names::plain(4, 2, 1);
    // l3 is left out of the well-formed part
    let colocs = gen_colocs(s, 3);
    let mu = gen_mu(s, &colocs, 2);
    let bad = [
        ("undeclared lifeline", "[zz]"),
        ("undeclared lifeline", "[l3] l3!m0.zz!m0"),
        ("undeclared lifeline", "[#any] zz!m0"),
        ("undeclared message", "[l3] l3!zz"),
        ("undeclared message", "[#any] l3?m0.l3?zz"),
        ("lifeline of another component", "[l3] l3!m0.l0!m0"),
        ("lifeline of another component", "[#any] l3!m0.l0!m0"),
        ("lifeline of another component", "[#all] l1!m1"),
        ("lifeline of another component", "[l3] {l3!m0,l2?m0}"),
        ("lifeline of another component", "[#any] l0!m0"),
        ("lifeline of another component", "[#any] {l3!m0,l1!m1}.l2?m0"),
        ("shared lifeline", "[l3,l0] l3!m0"),
        ("shared lifeline", "[l0] l0!m1.l0?m0"),
        ("shared lifeline", "[l2] l2?m0"),
        ("shared lifeline", "[l0]"),
        ("shared lifeline", "[l1,l2]"),
        ("gate", "[g0]"),
        ("gate", "[#any] g0!m0"),
        ("no message", "[l3] l3!"),
        ("no action after a dot", "[l3] l3!m0."),
        ("no dot", "[l3] l3!m0 l3!m1"),
        ("single action in braces", "[l3] {l3!m0}"),
        ("no lifeline", "[] "),
        ("no co-localization", "l3!m0"),
        ("unknown co-localization", "[#some] l3!m0"),
    ];
    let (what, txt) = *s.pick(&bad);
    c.label(what);
    // some of the components are [#any] ones, and the last one may be all that is left
    let mut parts: Vec<Toks> = vec![];
    for (l, m) in colocs.iter().zip(&mu) {
        let occ: BTreeSet<usize> = m.iter().flatten().map(|a| a.lf).collect();
        let mut k = Toks::new();
        k.p("[");
        if occ == *l && s.chance(1, 2) {
            c.label("#any");
            k.p("#any");
        } else {
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    k.p(",")
                }
                k.p(n.lf[*x].clone())
            }
        }
        k.p("]");
        trace_toks(&n, m, &mut k);
        parts.push(k);
    }
    let at = s.below(parts.len() + 1);
    if at == parts.len() && s.chance(1, 4) {
        c.label("#all");
        let mut k = Toks::new();
        k.p("[#all]");
        trace_toks(&n, &mu[mu.len() - 1], &mut k);
        parts.pop();
        parts.push(k);
    }
    let mut k = Toks::new();
    k.p(txt);
    parts.insert(at, k);
    let mut k = Toks::new();
    k.p("{");
    for (i, x) in parts.into_iter().enumerate() {
        if i > 0 {
            k.p(";")
        }
        k.v.extend(x.v);
    }
    k.p("}");
    let txt = k.text(s, false);
    c.nontrivial = mu_len(&mu) >= 1;
    c.say(format!("{}: htf {:?}", what, txt));
    let p = put(env, "htf", &txt);
    match parse_htf_file(&n.ctx(), &p) {
        Ok((cl, m)) => fail("mistake accepted", format!("{}: read as {:?} {:?}", what, cl.locs_lf_ids, m)),
        Err(_) => Ok(()),
    }
}

fn is_format<X>(r: Result<X, HibouParsingError>) -> bool {
    matches!(r, Err(HibouParsingError::FileFormatError(..)))
}
fn is_file<X>(r: Result<X, HibouParsingError>) -> bool {
    matches!(r, Err(HibouParsingError::FileError(..)))
}

fn paths(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let kind = *s.pick(&["hsf", "hif", "htf", "hcf", "hcfe", "hcfc"]);
    let ext = *s.pick(&["hsf", "hif", "htf", "hcf", "", "txt", "HIF", "hif2", "é"]);
    let dir = if s.chance(1, 3) { "d.hif/" } else { "" };
    let stem = *s.pick(&["x", "a.b", "hif", "..x", "é"]);
    let exists = s.chance(1, 2);
    let name = if ext.is_empty() { format!("{}{}", dir, if stem.contains('.') { "y" } else { stem }) } else { format!("{}{}.{}", dir, stem, ext) };
    c.say(format!("{:?} read as {} (exists: {})", name, kind, exists));
    c.nontrivial = !kind.starts_with(ext) || ext.is_empty();
    let id = format!("{:?}", std::thread::current().id());
    let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
    let base = env.scratch.join(format!("p{}", id));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(base.join("d.hif")).expect("dir");
    let p = base.join(&name);
    let good = match ext {
        "hif" => "l0 -- m0 -> l1",
        "htf" => "{[l0] l0!m0}",
        _ => "",
    };
    if exists {
        std::fs::write(&p, good).expect("write");
    }
    let p = p.to_str().unwrap();
    let g = mk_ctx(2, 1, 0);
    let (format, miss, ok) = match kind {
        "hsf" => (is_format(parse_hsf_file(p)), is_file(parse_hsf_file(p)), parse_hsf_file(p).is_ok()),
        "hif" => (is_format(parse_hif_file(&g, p)), is_file(parse_hif_file(&g, p)), parse_hif_file(&g, p).is_ok()),
        "htf" => (is_format(parse_htf_file(&g, p)), is_file(parse_htf_file(&g, p)), parse_htf_file(&g, p).is_ok()),
        "hcf" => (is_format(parse_hcf_file_for_ana(&g, p)), is_file(parse_hcf_file_for_ana(&g, p)), parse_hcf_file_for_ana(&g, p).is_ok()),
        "hcfe" => (is_format(parse_hcf_file_for_explore(&g, p)), is_file(parse_hcf_file_for_explore(&g, p)), parse_hcf_file_for_explore(&g, p).is_ok()),
        _ => (is_format(parse_hcf_file_for_canonize(&g, p)), is_file(parse_hcf_file_for_canonize(&g, p)), parse_hcf_file_for_canonize(&g, p).is_ok()),
    };
    let want = &kind[..3];
    if ext != want {
        ensure!(format, "file extension", "no error about the extension of {}", name);
    } else if exists {
        ensure!(ok, "file extension", "{} is rejected", name);
    } else {
        ensure!(miss, "missing file", "no error about the missing file {}", name);
    }
    Ok(())
}

// C21 -------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
struct Filt {
    depth: Vec<u32>,
    looop: Vec<u32>,
    nodes: Vec<u32>,
}

#[derive(Clone, Debug)]
struct Ana {
    loggers: usize,
    strategy: u8,
    filters: Option<Filt>,
    prio: Option<([i32; 6], bool)>,
    memo: Option<bool>,
    kind: Option<AnalysisKind>,
    goal: Option<u8>,
    locana: Option<Option<(bool, Option<u32>, u32)>>,
    por: Option<bool>,
}

fn tf(s: &mut Src, b: bool) -> &'static str {
    if b {
        *s.pick(&["true", "True", "TRUE", "⊤"])
    } else {
        *s.pick(&["false", "False", "FALSE", "⊥"])
    }
}

fn decls(s: &mut Src, head: &str, mut ds: Vec<Toks>, k: &mut Toks) {
    k.p(head);
    k.p("{");
    let mut first = true;
    while !ds.is_empty() {
        let j = s.below(ds.len());
        let d = ds.remove(j);
        if !first {
            k.p(";")
        }
        first = false;
        k.v.extend(d.v);
    }
    if s.chance(1, 2) {
        k.p(";")
    }
    k.p("}");
}

fn close_list(s: &mut Src, k: &mut Toks, close: &str) {
    if s.chance(1, 4) {
        k.p(",")
    }
    k.p(close)
}

fn gen_graphic(s: &mut Src, k: &mut Toks) {
    k.p("graphic");
    if s.chance(1, 2) {
        k.p("[");
        for i in 0..s.range(1, 4) {
            if i > 0 {
                k.p(",")
            }
            match s.below(8) {
                0 => k.p(*s.pick(&["svg", "png", "format=svg", "format = png"])),
                1 => k.p(*s.pick(&["vertical", "horizontal", "layout=vertical", "layout = horizontal"])),
                2 => k.p(format!("draw_sd={}", tf(s, true))),
                3 => k.p(format!("draw_tt={}", tf(s, false))),
                4 => k.p(format!("draw_sub_processes={}", tf(s, false))),
                5 => k.p(format!("draw_legend={}", tf(s, true))),
                6 => k.p(format!("{}=fold", s.pick(&["parent", "parent_folder", "folder"]))),
                _ => k.p(format!("{}=nam", s.pick(&["output", "name"]))),
            }
        }
        close_list(s, k, "]");
    }
}

fn gen_tracegen(s: &mut Src, k: &mut Toks) {
    k.p("tracegen");
    if s.chance(2, 3) {
        k.p("[");
        for i in 0..s.range(1, 4) {
            if i > 0 {
                k.p(",")
            }
            match s.below(5) {
                0 => k.p(format!("generation={}", s.pick(&["accepted", "exact depth 3", "modulo depth 2"]))),
                1 => k.p(format!("partition={}", s.pick(&["discrete", "trivial", "{(l0),(l1,l2)}", "{(l2,l1,l0)}"]))),
                2 => k.p(format!("{}=fold", s.pick(&["parent", "parent_folder", "folder"]))),
                3 => k.p(format!("{}=nam", s.pick(&["name_prefix", "trace_prefix", "prefix"]))),
                _ => k.p(format!("{}={}", s.pick(&["avoid_duplicates", "prevent_duplicates", "no_duplicates"]), tf(s, true))),
            }
        }
        close_list(s, k, "]");
    }
}

fn gen_loggers(s: &mut Src, d: &mut Vec<Toks>, tracegen: bool, nfait: bool) -> usize {
    if !s.chance(1, 3) {
        return 0;
    }
    let mut k = Toks::new();
    k.v.extend(["loggers", "=", "["].map(String::from));
    let n = s.range(1, 3);
    for i in 0..n {
        if i > 0 {
            k.p(",")
        }
        match s.below(3) {
            1 if tracegen => gen_tracegen(s, &mut k),
            2 if nfait => k.p(*s.pick(&["nfa", "nfait"])),
            _ => gen_graphic(s, &mut k),
        }
    }
    close_list(s, &mut k, "]");
    d.push(k);
    n
}

fn gen_strategy(s: &mut Src, d: &mut Vec<Toks>) -> u8 {
    match s.below(4) {
        0 => 0,
        x => {
            let x = (x - 1) as u8;
            let w = match x {
                0 => s.pick(&["BFS", "BreadthFS", "Breadth First Search"]),
                1 => s.pick(&["DFS", "DepthFS", "Depth First Search"]),
                _ => s.pick(&["HCS", "HighCoverageS", "High Coverage Search"]),
            };
            d.push(Toks { v: vec!["strategy".into(), "=".into(), w.to_string()] });
            x
        }
    }
}

fn gen_filters(s: &mut Src, d: &mut Vec<Toks>) -> Option<Filt> {
    if !s.chance(1, 2) {
        return None;
    }
    let mut f = Filt { depth: vec![], looop: vec![], nodes: vec![] };
    let mut k = Toks::new();
    k.v.extend(["filters", "=", "["].map(String::from));
    for i in 0..s.range(1, 3) {
        if i > 0 {
            k.p(",")
        }
        let n = s.below(40) as u32;
        match s.below(3) {
            0 => {
                f.depth.push(n);
                k.p(*s.pick(&["max_depth", "max depth"]));
            }
            1 => {
                f.looop.push(n);
                k.p(*s.pick(&["max_loop_depth", "max loop depth"]));
            }
            _ => {
                f.nodes.push(n);
                k.p(*s.pick(&["max_node_number", "max node number"]));
            }
        }
        k.p("=");
        k.p(n.to_string());
    }
    close_list(s, &mut k, "]");
    d.push(k);
    Some(f)
}

const PRIO: [&str; 6] = ["emission", "reception", "multi_rdv", "loop", "elim", "simu"];

fn gen_prio(s: &mut Src, d: &mut Vec<Toks>, n: usize) -> Option<([i32; 6], bool)> {
    if !s.chance(1, 3) {
        return None;
    }
    let mut v = [0; 6];
    let mut rand = false;
    let mut k = Toks::new();
    k.v.extend(["priorities", "=", "["].map(String::from));
    for i in 0..s.range(1, 4) {
        if i > 0 {
            k.p(",")
        }
        let j = s.below(n + 1);
        if j == n {
            rand = s.chance(1, 2);
            k.p("randomize");
            k.p("=");
            k.p(tf(s, rand));
        } else {
            let x = s.range(0, 20) as i32 - 10;
            v[j] = x;
            k.p(PRIO[j]);
            k.p("=");
            k.p(x.to_string());
        }
    }
    close_list(s, &mut k, "]");
    d.push(k);
    Some((v, rand))
}

fn gen_memo(s: &mut Src, d: &mut Vec<Toks>) -> Option<bool> {
    if !s.chance(1, 3) {
        return None;
    }
    let b = s.chance(1, 2);
    let w = tf(s, b);
    d.push(Toks { v: vec!["memoize".into(), "=".into(), w.into()] });
    Some(b)
}

fn gen_ana(s: &mut Src, k: &mut Toks) -> Ana {
    let mut d: Vec<Toks> = vec![];
    let loggers = gen_loggers(s, &mut d, true, false);
    let strategy = gen_strategy(s, &mut d);
    let filters = gen_filters(s, &mut d);
    let prio = gen_prio(s, &mut d, 6);
    let memo = gen_memo(s, &mut d);
    let mut kind = None;
    if s.chance(2, 3) {
        let mut k = Toks::new();
        k.p("analysis_kind");
        k.p("=");
        kind = Some(match s.below(5) {
            0 => {
                k.p("accept");
                AnalysisKind::Accept
            }
            1 => {
                k.p("prefix");
                AnalysisKind::Prefix
            }
            2 => {
                k.p("eliminate");
                AnalysisKind::Eliminate
            }
            x => {
                k.p("simulate");
                let mut sc = SimulationConfiguration::new(false, false, false, SimulationLoopCriterion::MaxDepth, SimulationActionCriterion::None);
                if x == 4 {
                    k.p("[");
                    for i in 0..s.range(1, 4) {
                        if i > 0 {
                            k.p(",")
                        }
                        match s.below(5) {
                            0 => {
                                sc.sim_before = s.chance(1, 2);
                                k.p(*s.pick(&["slice", "before", "preamble"]));
                                k.p("=");
                                k.p(tf(s, sc.sim_before));
                            }
                            1 => {
                                sc.multiply_by_multitrace_length = s.chance(1, 2);
                                k.p(*s.pick(&["multiply", "resized", "dependent"]));
                                k.p("=");
                                k.p(tf(s, sc.multiply_by_multitrace_length));
                            }
                            2 => {
                                sc.reset_crit_after_exec = s.chance(1, 2);
                                k.p(*s.pick(&["reset", "reinitialize"]));
                                k.p("=");
                                k.p(tf(s, sc.reset_crit_after_exec));
                            }
                            3 => {
                                k.p("act");
                                match s.below(3) {
                                    0 => {
                                        sc.act_crit = SimulationActionCriterion::None;
                                        k.p(*s.pick(&["none", "None", "NONE"]));
                                    }
                                    1 => {
                                        sc.act_crit = SimulationActionCriterion::MaxNumOutsideLoops;
                                        k.p(*s.pick(&["max_num", "max num"]));
                                    }
                                    _ => {
                                        let n = s.below(30) as u32;
                                        sc.act_crit = SimulationActionCriterion::SpecificNum(n);
                                        k.p("num");
                                        k.p("=");
                                        k.p(n.to_string());
                                    }
                                }
                            }
                            _ => {
                                k.p("loop");
                                match s.below(4) {
                                    0 => {
                                        sc.loop_crit = SimulationLoopCriterion::None;
                                        k.p(*s.pick(&["none", "None", "NONE"]));
                                    }
                                    1 => {
                                        sc.loop_crit = SimulationLoopCriterion::MaxNum;
                                        k.p(*s.pick(&["max_num", "max num"]));
                                    }
                                    2 => {
                                        sc.loop_crit = SimulationLoopCriterion::MaxDepth;
                                        k.p(*s.pick(&["max_depth", "max depth"]));
                                    }
                                    _ => {
                                        let n = s.below(30) as u32;
                                        sc.loop_crit = SimulationLoopCriterion::SpecificNum(n);
                                        k.p("num");
                                        k.p("=");
                                        k.p(n.to_string());
                                    }
                                }
                            }
                        }
                    }
                    close_list(s, &mut k, "]");
                }
                AnalysisKind::Simulate(sc)
            }
        });
        d.push(k);
    }
    let mut goal = None;
    if s.chance(1, 2) {
        let g = s.below(3) as u8;
        goal = Some(g);
        let w = match g {
            0 => "Pass",
            1 => "WeakPass",
            _ => *s.pick(&["none", "None", "NONE"]),
        };
        d.push(Toks { v: vec!["goal".into(), "=".into(), w.into()] });
    }
    let mut locana = None;
    if s.chance(1, 2) {
        let mut k = Toks::new();
        k.p("local_analysis");
        k.p("=");
        if s.chance(1, 3) {
            k.p(*s.pick(&["none", "None", "NONE"]));
            locana = Some(None);
        } else {
            let (mut all, mut depth, mut modulo) = (false, None, 1);
            k.p("[");
            for i in 0..s.range(1, 3) {
                if i > 0 {
                    k.p(",")
                }
                match s.below(3) {
                    0 => {
                        all = s.chance(1, 2);
                        k.p("select");
                        k.p("=");
                        k.p(if all { *s.pick(&["all", "All", "ALL"]) } else { *s.pick(&["dirty", "Dirty", "DIRTY"]) });
                    }
                    1 => {
                        k.p(*s.pick(&["max_look_ahead_depth", "max depth", "lookahead", "lookup"]));
                        k.p("=");
                        if s.chance(1, 3) {
                            depth = None;
                            k.p("none");
                        } else {
                            let n = s.below(20) as u32;
                            depth = Some(n);
                            k.p(n.to_string());
                        }
                    }
                    _ => {
                        modulo = s.range(1, 9) as u32;
                        k.p(*s.pick(&["modulo", "modulo_each_X_steps"]));
                        k.p("=");
                        k.p(modulo.to_string());
                    }
                }
            }
            close_list(s, &mut k, "]");
            locana = Some(Some((all, depth, modulo)));
        }
        d.push(k);
    }
    let mut por = None;
    if s.chance(1, 3) {
        let b = s.chance(1, 2);
        por = Some(b);
        let w = *s.pick(&["partial_order_reduction", "por", "POR"]);
        let v = tf(s, b);
        d.push(Toks { v: vec![w.into(), "=".into(), v.into()] });
    }
    if d.is_empty() {
        d.push(Toks { v: vec!["goal = WeakPass".into()] });
    }
    decls(s, "@analyze_option", d, k);
    Ana { loggers, strategy, filters, prio, memo, kind, goal, locana, por }
}

struct Exp {
    loggers: usize,
    strategy: u8,
    filters: Option<Filt>,
    prio: Option<([i32; 6], bool)>,
    memo: Option<bool>,
}

fn gen_exp(s: &mut Src, k: &mut Toks) -> Exp {
    let mut d: Vec<Toks> = vec![];
    let loggers = gen_loggers(s, &mut d, true, true);
    let strategy = gen_strategy(s, &mut d);
    let filters = gen_filters(s, &mut d);
    let prio = gen_prio(s, &mut d, 4);
    let mut memo = gen_memo(s, &mut d);
    if d.is_empty() {
        memo = Some(false);
        d.push(Toks { v: vec!["memoize=false".into()] });
    }
    decls(s, "@explore_option", d, k);
    Exp { loggers, strategy, filters, prio, memo }
}

fn gen_can(s: &mut Src, k: &mut Toks) -> (usize, bool) {
    let mut d: Vec<Toks> = vec![];
    let loggers = gen_loggers(s, &mut d, false, false);
    let mut all = false;
    if d.is_empty() || s.chance(2, 3) {
        match s.below(3) {
            0 => {
                all = true;
                d.push(Toks { v: vec!["search_all".into()] });
            }
            x => {
                all = x == 1;
                let w = tf(s, all);
                d.push(Toks { v: vec!["search_all".into(), "=".into(), w.into()] });
            }
        }
    }
    decls(s, "@canonize_option", d, k);
    (loggers, all)
}

/// sections of other commands around the one that matters
fn others(s: &mut Src, me: usize, k: &mut Toks) {
    for j in 0..3 {
        if j != me && s.chance(1, 4) {
            match j {
                0 => {
                    gen_ana(s, k);
                }
                1 => {
                    gen_exp(s, k);
                }
                _ => {
                    gen_can(s, k);
                }
            }
        }
    }
}

fn q(x: &Q) -> u8 {
    match x {
        Q::BFS => 0,
        Q::DFS => 1,
        Q::HCS => 2,
    }
}

fn want_filter(f: &Filt, depth: u32, nodes: u32, lo: u32) -> bool {
    f.depth.iter().any(|m| depth > *m) || f.looop.iter().any(|m| lo > *m) || f.nodes.iter().any(|m| nodes >= *m)
}

fn probes(f: &Filt) -> Vec<(u32, u32, u32)> {
    let mut v = vec![(0, 0, 0)];
    for m in f.depth.iter().chain(&f.looop).chain(&f.nodes) {
        for x in [m.saturating_sub(1), *m, m + 1] {
            v.push((x, 0, 0));
            v.push((0, x, 0));
            v.push((0, 0, x));
        }
    }
    v
}

fn check_prio<P: std::fmt::Display>(p: &GenericProcessPriorities<P>, got: [i32; 6], want: &Option<([i32; 6], bool)>) -> Res {
    let (w, r) = want.unwrap_or(([0; 6], false));
    ensure!(p.randomize == r, "priorities", "randomize is {}", p.randomize);
    if want.is_some() {
        ensure!(got == w, "priorities", "{:?} instead of {:?} ({:?})", got, w, PRIO);
    }
    Ok(())
}

fn hcf_ana(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut k = Toks::new();
    let before = s.chance(1, 2);
    if before {
        others(s, 0, &mut k)
    }
    let a = gen_ana(s, &mut k);
    if !before {
        others(s, 0, &mut k)
    }
    let txt = k.text(s, false);
    c.say(format!("hcf {:?}\nmeans {:?}", txt, a));
    c.nontrivial = true;
    let p = put(env, "hcf", &txt);
    let o = match parse_hcf_file_for_ana(&mk_ctx(3, 2, 0), &p) {
        Ok(o) => o,
        Err(e) => return fail("hcf rejected", e.to_string()),
    };
    ensure!(o.loggers.len() == a.loggers, "loggers", "{} loggers", o.loggers.len());
    ensure!(q(&o.strategy) == a.strategy, "strategy", "strategy {}", o.strategy);
    let f = a.filters.clone().unwrap_or(Filt { depth: vec![], looop: vec![], nodes: vec![] });
    for (d, n, l) in probes(&f) {
        let got = o.filters.iter().any(|x| x.apply_filter(d, n, &AnalysisFilterCriterion { loop_depth: l }).is_some());
        ensure!(got == want_filter(&f, d, n, l), "filters", "at depth {}, {} nodes and {} loop instances: filtered is {}", d, n, l, got);
    }
    let pr = &o.priorities.specific;
    check_prio(&o.priorities, [pr.emission, pr.reception, pr.multi_rdv, pr.in_loop, pr.elim, pr.simu], &a.prio)?;
    if a.prio.is_none() {
        let d = AnalysisPriorities::default();
        ensure!(format!("{}", d) == format!("{}", pr), "priorities", "{}", pr);
    }
    ensure!(o.use_memoization == a.memo.unwrap_or(true), "memoization", "memoization is {}", o.use_memoization);
    let goal = match a.goal.unwrap_or(1) {
        0 => Some(V::Pass),
        1 => Some(V::WeakPass),
        _ => None,
    };
    ensure!(o.goal == goal, "goal", "goal {:?}", o.goal);
    ensure!(o.ana_param.ana_kind == a.kind.clone().unwrap_or(AnalysisKind::Prefix), "analysis kind", "analysis kind {:?}", o.ana_param.ana_kind);
    ensure!(o.ana_param.partial_order_reduction == a.por.unwrap_or(false), "partial order reduction", "partial order reduction is {}", o.ana_param.partial_order_reduction);
    let got = o.ana_param.locana.as_ref().map(|l| (l.on_lifeline_policy == Pol::SelectAll, l.max_look_ahead_depth, l.modulo_each_X_steps));
    ensure!(got == a.locana.unwrap_or(Some((false, None, 1))), "local analysis", "local analysis {:?}", got);
    Ok(())
}

fn hcf_exp(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut k = Toks::new();
    let before = s.chance(1, 2);
    if before {
        others(s, 1, &mut k)
    }
    let a = gen_exp(s, &mut k);
    if !before {
        others(s, 1, &mut k)
    }
    let txt = k.text(s, false);
    c.say(format!("hcf {:?}", txt));
    c.nontrivial = true;
    let p = put(env, "hcf", &txt);
    let o = match parse_hcf_file_for_explore(&mk_ctx(3, 2, 0), &p) {
        Ok(o) => o,
        Err(e) => return fail("hcf rejected", e.to_string()),
    };
    ensure!(o.loggers.len() == a.loggers, "loggers", "{} loggers", o.loggers.len());
    ensure!(q(&o.strategy) == a.strategy, "strategy", "strategy {}", o.strategy);
    let f = a.filters.clone().unwrap_or(Filt { depth: vec![], looop: vec![], nodes: vec![] });
    for (d, n, l) in probes(&f) {
        let got = o.filters.iter().any(|x| x.apply_filter(d, n, &ExplorationFilterCriterion { loop_depth: l }).is_some());
        ensure!(got == want_filter(&f, d, n, l), "filters", "at depth {}, {} nodes and {} loop instances: filtered is {}", d, n, l, got);
    }
    let pr = &o.priorities.specific;
    check_prio(&o.priorities, [pr.emission, pr.reception, pr.multi_rdv, pr.in_loop, 0, 0], &a.prio)?;
    ensure!(o.use_memoization == a.memo.unwrap_or(false), "memoization", "memoization is {}", o.use_memoization);
    Ok(())
}

fn hcf_can(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut k = Toks::new();
    let before = s.chance(1, 2);
    if before {
        others(s, 2, &mut k)
    }
    let (loggers, all) = gen_can(s, &mut k);
    if !before {
        others(s, 2, &mut k)
    }
    let txt = k.text(s, false);
    c.say(format!("hcf {:?}", txt));
    c.nontrivial = true;
    let p = put(env, "hcf", &txt);
    let o = match parse_hcf_file_for_canonize(&mk_ctx(3, 2, 0), &p) {
        Ok(o) => o,
        Err(e) => return fail("hcf rejected", e.to_string()),
    };
    ensure!(o.loggers.len() == loggers, "loggers", "{} loggers", o.loggers.len());
    ensure!(o.search_all == all, "search_all", "search_all is {}", o.search_all);
    Ok(())
}

enum Log {
    Graphic { png: bool, horizontal: bool, sd: bool, tt: bool, legend: bool, folder: Option<String>, name: Option<String> },
    Trace { folder: Option<String>, prefix: Option<String>, cut: Option<(bool, usize)>, part: &'static str },
    Nfa,
}

/// a list of options of which the last of each kind counts
fn last_of(v: &[(usize, usize)], kind: usize) -> Option<usize> {
    v.iter().rev().find(|x| x.0 == kind).map(|x| x.1)
}

/// what the loggers of a command leave, according to their options
fn hcf_loggers(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let cmd = *s.pick(&["explore", "analyze", "canonize"]);
    let mut logs: Vec<Log> = vec![];
    let mut k = Toks::new();
    k.v.extend(["loggers", "=", "["].map(String::from));
    for j in 1..=s.range(1, 4) {
        if j > 1 {
            k.p(",")
        }
        let kind = match (cmd, s.below(4)) {
            ("explore", 3) => 2,
            ("explore", 2) | ("analyze", 2) => 1,
            _ => 0,
        };
        if kind == 2 {
            k.p(*s.pick(&["nfa", "nfait"]));
            logs.push(Log::Nfa);
            continue;
        }
        let opts: Vec<(usize, usize)> = if s.chance(1, 5) { vec![] } else { (0..s.range(1, 5)).map(|_| (s.below(if kind == 0 { 7 } else { 4 }), s.below(2) + 2 * s.below(6))).collect() };
        k.p(if kind == 0 { "graphic" } else { "tracegen" });
        for (i, &(o, v)) in opts.iter().enumerate() {
            k.p(if i == 0 { "[" } else { "," });
            let yes = v % 2 == 1;
            match (kind, o) {
                (0, 0) => k.p(if yes { *s.pick(&["png", "format=png", "format = png"]) } else { *s.pick(&["svg", "format=svg"]) }),
                (0, 1) => k.p(if yes { *s.pick(&["horizontal", "layout=horizontal"]) } else { *s.pick(&["vertical", "layout = vertical"]) }),
                (0, 2) => k.p(format!("draw_sd={}", tf(s, yes))),
                (0, 3) => k.p(format!("draw_tt={}", tf(s, yes))),
                (0, 4) => k.p(format!("draw_legend={}", tf(s, yes))),
                (0, 5) | (1, 0) => k.p(format!("{}=fold{}{}", s.pick(&["parent", "parent_folder", "folder"]), j, v)),
                (0, _) => k.p(format!("{}=nam{}{}", s.pick(&["output", "name"]), j, v)),
                (1, 1) => k.p(format!("{}=pre{}{}", s.pick(&["name_prefix", "trace_prefix", "prefix"]), j, v)),
                (1, 2) => k.p(match v {
                    0..=3 => "generation=accepted".to_string(),
                    4..=7 => format!("generation=exact depth {}", v - 3),
                    _ => format!("generation=modulo depth {}", v - 7),
                }),
                _ => k.p(format!("partition={}", ["discrete", "trivial", "{(l0),(l1,l2)}", "{(l2,l1,l0)}"][v % 4])),
            }
        }
        if !opts.is_empty() {
            close_list(s, &mut k, "]");
        }
        let at = |x: usize, d: usize| last_of(&opts, x).unwrap_or(d);
        logs.push(if kind == 0 {
            let flag = |x: usize, d: bool| at(x, d as usize) % 2 == 1;
            Log::Graphic {
                png: flag(0, false),
                horizontal: flag(1, false),
                sd: flag(2, true),
                tt: flag(3, false),
                legend: flag(4, true),
                folder: last_of(&opts, 5).map(|v| format!("fold{}{}", j, v)),
                name: last_of(&opts, 6).map(|v| format!("nam{}{}", j, v)),
            }
        } else {
            Log::Trace {
                folder: last_of(&opts, 0).map(|v| format!("fold{}{}", j, v)),
                prefix: last_of(&opts, 1).map(|v| format!("pre{}{}", j, v)),
                cut: match at(2, 0) {
                    0..=3 => None,
                    v @ 4..=7 => Some((true, v - 3)),
                    v => Some((false, v - 7)),
                },
                part: ["discrete", "trivial", "{(l0),(l1,l2)}", "{(l2,l1,l0)}"][at(3, 1) % 4],
            }
        });
    }
    close_list(s, &mut k, "]");
    let txt = format!("@{}_option{{{};{}}}", cmd, k.text(s, false), if cmd == "canonize" { "" } else { "strategy=BFS" });
    let txt = txt.replace(";}", "}").replace("analyze_option{", "analyze_option{analysis_kind=accept;");
    c.say(format!("{} with {:?}", cmd, txt));
    let dir = run_dir(env, "lg");
    let w = |n: &str, x: &str| std::fs::write(dir.join(n), x).unwrap();
    w("m.hsf", "@message{a;b}\n@lifeline{l0;l1;l2}\n");
    w("m.hif", "strict(l0 -- a -> l1, l1 -- b -> l2)");
    w("m.htf", "{[#all] l0!a.l1?a.l1!b.l2?b}");
    w("m.hcf", &txt);
    // records how the renderer is called
    std::fs::create_dir(dir.join("bin")).unwrap();
    let stub = dir.join("bin").join("dot");
    std::fs::write(&stub, format!("#!/bin/sh\necho \"$1 $2 $4\" >> {}\n", dir.join("dotted").display())).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&stub, std::fs::Permissions::from_mode(0o755)).unwrap();
    let args: Vec<&str> = match cmd {
        "explore" => vec!["explore", "m.hsf", "m.hif", "m.hcf"],
        "canonize" => vec!["canonize", "m.hsf", "m.hif", "m.hcf"],
        _ => vec!["analyze", "m.hsf", "m.hif", "m.htf", "m.hcf"],
    };
    if run_tool(&dir, &args, dir.join("bin").to_str().unwrap())?.is_none() {
        c.discard = true;
        return Ok(());
    }
    let dotted = std::fs::read_to_string(dir.join("dotted")).unwrap_or_default();
    c.nontrivial = logs.len() >= 2;
    c.label(cmd);
    for (j, l) in logs.iter().enumerate() {
        match l {
            Log::Graphic { png, horizontal, sd, tt, legend, folder, name } => {
                let name = name.clone().unwrap_or(format!("m_l{}", j + 1));
                let base = folder.as_ref().map_or(name.clone(), |f| format!("{}/{}", f, name));
                let text = match std::fs::read_to_string(dir.join(format!("{}.dot", base))) {
                    Ok(t) => t,
                    Err(e) => return fail("graphic logger", format!("no graph of logger {}: {}", j + 1, e)),
                };
                let call = format!("{} {}.dot {}.{}", if *png { "-Tpng" } else { "-Tsvg:cairo" }, base, base, if *png { "png" } else { "svg" });
                ensure!(dotted.lines().any(|x| x.trim_start_matches("./") == call), "graphic logger", "'{}' is not run for logger {}, but\n{}", call, j + 1, dotted);
                ensure!(text.to_lowercase().contains(if *horizontal { "rankdir=lr" } else { "rankdir=tb" }), "graphic logger", "the layout of logger {} is another one\n{}", j + 1, text);
                ensure!(if cmd != "explore" { text.contains("\tisd1 [") == *sd && text.contains("\titt1 [") == *tt } else { text.contains("subgraph cluster_n") == (*sd && *tt) }, "graphic logger", "sequence diagrams and trees of logger {} : {}", j + 1, text);
                ensure!(text.contains("process =") == *legend, "graphic logger", "legend of logger {} : {}", j + 1, text);
                if !png {
                    c.label("svg")
                } else {
                    c.label("png")
                }
            }
            Log::Trace { folder, prefix, cut, part } => {
                let d = dir.join(folder.clone().unwrap_or(format!("tracegen_l{}", j + 1)));
                ensure!(d.is_dir(), "trace logger", "no folder {:?} for logger {}", d, j + 1);
                let prefix = prefix.clone().unwrap_or("trace".into());
                let mut n = 0;
                let head = match *part {
                    "discrete" => vec!["[l0]", "[l1]", "[l2]"],
                    "{(l0),(l1,l2)}" => vec!["[l0]", "[l1,l2]"],
                    _ => vec!["[l0,l1,l2]"],
                };
                for f in std::fs::read_dir(&d).unwrap() {
                    let f = f.unwrap();
                    let name = f.file_name().into_string().unwrap();
                    ensure!(name.starts_with(&prefix) && name.ends_with(".htf"), "trace logger", "file {} of logger {} has not the prefix {}", name, j + 1, prefix);
                    let text = std::fs::read_to_string(f.path()).unwrap();
                    let comps: Vec<&str> = text.lines().filter(|x| x.starts_with('[')).map(|x| x.split_whitespace().next().unwrap().trim_end_matches(';')).collect();
                    let all = if text.contains("[#all]") { vec!["[#all]"] } else { comps };
                    ensure!(all == head || (head.len() == 1 && all == ["[#all]"]) || (head.len() == 3 && all == ["[#any]"]), "trace logger", "file {} of logger {} is\n{}", name, j + 1, text);
                    n += 1;
                }
                if cmd == "explore" {
                    let want = match cut {
                        None => 1,
                        Some((true, d)) => (*d <= 4) as usize,
                        Some((false, m)) => 4 / m,
                    };
                    ensure!(n == want, "trace logger", "{} traces of logger {} instead of {}", n, j + 1, want);
                }
                c.label("trace generation");
            }
            Log::Nfa => {}
        }
    }
    Ok(())
}

#[allow(dead_code)]
fn unused(_: GeneralContext) {}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            rule: "A case is a random signature (names that look like keywords included) or a random interaction term, written by an independent writer with random layout, n-ary or nested operators and optional syntax, then read by the tool; or written by the tool and read back. Non-trivial: at least 4 nodes (or declared names).",
            assumptions: &["interactions with a sync operator are read, not written (the writer does not support them)", "read back up to associativity of nested operators of the same kind"],
            suites: vec![
                Suite { name: "hif_parse", quick: 240000, thorough: 3000000, run: hif_parse },
                Suite { name: "hif_write", quick: 240000, thorough: 3000000, run: hif_write },
                Suite { name: "hsf", quick: 80000, thorough: 900000, run: hsf },
            ],
        },
        Prop {
            id: "C19",
            rule: "A case is a random multi-trace over random co-localizations, written independently (explicit, #any, #all or left out components, without braces) and read by the tool, or written by the tool and read back. Non-trivial: at least 2 actions (or a multi-action).",
            assumptions: &["at most 5 lifelines and 5 multi-actions per component"],
            suites: vec![
                Suite { name: "htf_parse", quick: 320000, thorough: 3000000, run: htf_parse },
                Suite { name: "htf_write", quick: 240000, thorough: 3000000, run: htf_write },
                Suite { name: "multi_action", quick: 80000, thorough: 900000, run: htf_multi_action },
            ],
        },
        Prop {
            id: "C20",
            rule: "A case is a text made of random tokens of the file format, or a well-formed file with random edits, or a well-formed file with one definite mistake, or a file path. Non-trivial: every edited text; a mistake inside an otherwise non-empty file.",
            assumptions: &["nesting depth below 30", "texts up to a few hundred characters"],
            suites: vec![
                Suite { name: "total_hif", quick: 320000, thorough: 6000000, run: total_hif },
                Suite { name: "total_htf", quick: 240000, thorough: 6000000, run: total_htf },
                Suite { name: "total_hsf", quick: 80000, thorough: 1500000, run: total_hsf },
                Suite { name: "total_hcf", quick: 320000, thorough: 6000000, run: total_hcf },
                Suite { name: "reject_hif", quick: 80000, thorough: 600000, run: reject_hif },
                Suite { name: "reject_htf", quick: 80000, thorough: 600000, run: reject_htf },
                Suite { name: "paths", quick: 3000, thorough: 30000, run: paths },
            ],
        },
        Prop {
            id: "C21",
            rule: "A case is a random set of options written in a random order and spelling, possibly with sections for other commands; the options the tool reads are compared with it (filters are compared by what they filter around their bounds). Non-trivial: every case.",
            assumptions: &["what the loggers are is read off the files that a command leaves (suite loggers, on one model); elsewhere only their number is compared"],
            suites: vec![
                Suite { name: "ana", quick: 240000, thorough: 1800000, run: hcf_ana },
                Suite { name: "explore", quick: 120000, thorough: 900000, run: hcf_exp },
                Suite { name: "canonize", quick: 80000, thorough: 600000, run: hcf_can },
                Suite { name: "loggers", quick: 1600, thorough: 40000, run: hcf_loggers },
            ],
        },
    ]
}
