//! Trace analysis: the verdicts of the four analysis kinds against the denotation of the model.
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::sem::*;
use crate::term::*;
use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
use graph_process_manager_core::manager::logger::AbstractProcessLogger;
use graph_process_manager_core::manager::manager::GenericProcessManager;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
use hibou_label::core::colocalizations::CoLocalizations;
use hibou_label::core::execution::semantics::execute::execute_interaction;
use hibou_label::core::execution::semantics::frontier::global_frontier;
use hibou_label::core::execution::trace::multitrace::{multi_trace_length, MultiTrace};
use hibou_label::core::language::syntax::interaction::Interaction;
use hibou_label::process::ana::conf::AnalysisConfig;
use hibou_label::process::ana::context::AnalysisContext;
use graph_process_manager_core::handler::filter::AbstractFilter;
use hibou_label::process::ana::filter::elim::AnalysisFilterEliminationKind;
use hibou_label::process::ana::filter::filter::{AnalysisFilter, AnalysisFilterCriterion};
use hibou_label::process::ana::handling::local_analysis::perform_local_analysis;
use hibou_label::process::ana::node::flags::MultiTraceAnalysisFlags;
use hibou_label::process::ana::node::node::AnalysisNodeKind;
use hibou_label::process::ana::param::anakind::{AnalysisKind, SimulationActionCriterion, SimulationConfiguration, SimulationLoopCriterion};
use hibou_label::process::ana::param::param::{AnalysisParameterization, LocalAnalysisLifelineSelectionPolicy, LocalAnalysisParameterization};
use hibou_label::process::ana::priorities::AnalysisPriorities;
use hibou_label::process::ana::step::AnalysisStepKind;
use hibou_label::process::ana::verdict::global::AnalysisGlobalVerdict as V;
use hibou_label::process::ana::verdict::inconc::InconcReason;
use std::collections::BTreeSet;

#[path = "long.rs"]
mod long;

#[derive(Clone)]
pub struct Setting {
    pub cfg: Cfg,
    pub t: T,
    pub colocs: Colocs,
    pub mu: Mu,
    pub how: &'static str,
}

pub struct Want {
    pub sync_op: bool,
    pub sync_comm: bool,
    pub max_size: usize,
    pub max_len: usize,
    pub loops: usize,
    /// weights of: exact, cut globally, cut per component, slices, edited
    pub modes: [usize; 5],
    /// alternatives that share behaviours only, so that the search meets again what it met
    pub shared: bool,
}

pub fn gen_setting(s: &mut Src, w: &Want) -> Option<Setting> {
    let mut cfg = Cfg::full();
    cfg.n_lf = lifelines(s, 1, 4);
    cfg.n_ms = s.range(1, 3);
    cfg.max_size = s.range(3, w.max_size);
    cfg.max_loops = w.loops;
    cfg.sync_op = w.sync_op && s.chance(1, 3);
    cfg.sync_comm = w.sync_comm && s.chance(if w.shared { 2 } else { 1 }, 3);
    let t = if w.shared && s.chance(1, 2) {
        gen_retold(s, &cfg)
    } else if w.shared || s.chance(1, 3) { gen_shared(s, &cfg) } else { gen_term(s, &cfg) };
    let t = widen(s, &mut cfg, t);
    if t.size() > w.max_size + 4 || t.has_sync_op() && !cfg.sync_op {
        return None;
    }
    observe(s, w, cfg, t)
}

/// compositions of a few synchronous communications that occur again and again
fn gen_echo(s: &mut Src, w: &Want) -> Option<Setting> {
    fn build(s: &mut Src, cfg: &Cfg, pool: &[T], n: usize) -> T {
        if n == 1 {
            return if s.chance(1, 12) { T::Empty } else { s.pick(pool).clone() };
        }
        let k = s.range(1, n - 1);
        let (x, y) = (b(build(s, cfg, pool, k)), b(build(s, cfg, pool, n - k)));
        match s.below(8) {
            0 => T::Alt(x, y),
            1 => T::Par(x, y),
            2 => T::CoReg(vec![s.below(cfg.n_lf)], x, y),
            3 | 4 => T::Strict(x, y),
            _ => T::Seq(x, y),
        }
    }
    let mut cfg = Cfg::full();
    cfg.n_lf = s.range(2, 3);
    cfg.n_ms = s.range(1, 2);
    let pool: Vec<T> = (0..s.range(1, 3))
        .map(|k| {
            let (lf, ms) = (s.below(cfg.n_lf), s.below(cfg.n_ms));
            let sync = k == 0 || s.chance(2, 3);
            let mut tgts: Vec<Tgt> = (0..cfg.n_lf).filter(|l| *l != lf).map(Tgt::Lf).collect();
            if tgts.len() > 1 && s.chance(1, 2) {
                tgts.remove(s.below(2));
            }
            match s.below(6) {
                0 if cfg.n_lf > 2 => T::Re { gt: None, ms, sync, lfs: (0..cfg.n_lf).filter(|l| *l != lf).collect() },
                1 if k > 0 => T::Em { lf, ms, sync: false, tgts: vec![] },
                _ => T::Em { lf, ms, sync, tgts },
            }
        })
        .collect();
    let n = s.range(2, 6);
    let t = build(s, &cfg, &pool, n);
    let t = widen(s, &mut cfg, t);
    observe(s, w, cfg, t)
}

fn observe(s: &mut Src, w: &Want, cfg: Cfg, t: T) -> Option<Setting> {
    let colocs = gen_colocs(s, cfg.n_lf);
    let mut al = Al::new();
    let mut budget = s.range(0, 4);
    let tr = sample(s, &t, &mut al, &mut budget)?;
    if tr.len() > w.max_len + 6 {
        return None;
    }
    let mode = s.weighted(&w.modes);
    let (mut tr, how) = match mode {
        0 => (tr, "complete"),
        1 => {
            let k = s.below(tr.len() + 1);
            (tr[..k].to_vec(), "cut at one instant")
        }
        2 => (tr, "cut on each component"),
        3 => (tr, "slices"),
        _ => (tr, "edited"),
    };
    if tr.len() > w.max_len && mode != 3 {
        tr.truncate(w.max_len);
    }
    let mut mu = project(&al, &tr, &colocs);
    match mode {
        2 => {
            for c in mu.iter_mut() {
                let k = s.below(c.len() + 1);
                c.truncate(c.len() - k);
            }
        }
        3 => {
            for c in mu.iter_mut() {
                let k = s.below(c.len() + 1);
                c.truncate(c.len() - k);
                let k = s.below(c.len() + 1);
                c.drain(..k);
            }
        }
        4 => {
            let acts: Vec<Act> = t.acts().into_iter().collect();
            for _ in 0..s.range(1, 2) {
                let ci = s.below(mu.len());
                let n = mu[ci].len();
                match s.below(4) {
                    0 if n > 0 => {
                        mu[ci].remove(s.below(n));
                    }
                    1 if n > 1 => {
                        let (i, j) = (s.below(n), s.below(n));
                        mu[ci].swap(i, j);
                    }
                    2 if n > 0 => {
                        let x = mu[ci][s.below(n)].clone();
                        let p = s.below(n + 1);
                        mu[ci].insert(p, x);
                    }
                    _ => {
                        let pool: Vec<Act> = acts.iter().filter(|a| colocs[ci].contains(&a.lf)).cloned().collect();
                        if !pool.is_empty() {
                            let mut set: BTreeSet<Act> = [*s.pick(&pool)].into_iter().collect();
                            if cfg.sync_comm && s.chance(1, 4) {
                                set.insert(*s.pick(&pool));
                            }
                            let p = s.below(n + 1);
                            mu[ci].insert(p, set);
                        }
                    }
                }
            }
        }
        _ => {}
    }
    if mu_len(&mu) > w.max_len {
        return None;
    }
    Some(Setting { cfg, t, colocs, mu, how })
}

fn subseq(x: &[BTreeSet<Act>], y: &[BTreeSet<Act>]) -> bool {
    let mut j = 0;
    for a in x {
        while j < y.len() && !a.is_subset(&y[j]) {
            j += 1;
        }
        if j == y.len() {
            return false;
        }
        j += 1;
    }
    true
}

fn is_prefix(x: &[BTreeSet<Act>], y: &[BTreeSet<Act>]) -> bool {
    y.len() >= x.len() && y[..x.len()] == *x
}

fn is_factor(x: &[BTreeSet<Act>], y: &[BTreeSet<Act>]) -> bool {
    x.is_empty() || y.windows(x.len()).any(|w| w == x)
}

/// does some trace of the term project exactly to mu?
pub fn member(t: &T, colocs: &Colocs, mu: &Mu, cap: usize) -> R<bool> {
    let mut al = Al::new();
    let keep = |al: &Al, tr: &Tr| project(al, tr, colocs).iter().zip(mu).all(|(x, y)| subseq(x, y));
    let l = lang(t, &mut al, &Lim { n: mu_len(mu), cap, keep: Some(&keep) })?;
    Ok(l.iter().any(|tr| project(&al, tr, colocs) == *mu))
}

/// is mu the multi-trace of a prefix of some trace of the term? (no sync operator)
pub fn is_execution_prefix(t: &T, colocs: &Colocs, mu: &Mu, cap: usize) -> R<bool> {
    let mut al = Al::new();
    let keep = |al: &Al, tr: &Tr| project(al, tr, colocs).iter().zip(mu).all(|(x, y)| subseq(x, y));
    let l = plang(t, &mut al, &Lim { n: mu_len(mu), cap, keep: Some(&keep) })?;
    Ok(l.iter().any(|(tr, _)| project(&al, tr, colocs) == *mu))
}

fn all_traces(t: &T, n: usize, cap: usize) -> R<(Al, Lang)> {
    let mut al = Al::new();
    let l = lang(t, &mut al, &Lim { n, cap, keep: None })?;
    Ok((al, l))
}

// ------------------------------------------------------------------------------------------------ running the tool

#[derive(Clone, Debug)]
pub struct Opt {
    pub strategy: usize,
    pub randomize: bool,
    pub prio: [i32; 6],
    pub memo: bool,
    pub goal: usize,
    /// select all, look-ahead, modulo
    pub locana: Option<(bool, Option<u32>, u32)>,
    pub por: bool,
    pub max_loop: Option<u32>,
    pub max_depth: Option<u32>,
    pub max_node: Option<u32>,
}

impl Opt {
    pub fn plain() -> Opt {
        Opt { strategy: 0, randomize: false, prio: [0, 0, 0, 0, 1, -1], memo: false, goal: 0, locana: None, por: false, max_loop: None, max_depth: None, max_node: None }
    }
    /// what `hibou analyze` does without a configuration file
    pub fn default_cli() -> Opt {
        Opt { strategy: 1, memo: true, goal: 2, locana: Some((false, None, 1)), ..Opt::plain() }
    }
    pub fn draw(s: &mut Src, locana: bool) -> Opt {
        let mut o = Opt::plain();
        match s.below(4) {
            0 => {
                o.memo = s.chance(1, 2);
                return o;
            }
            1 if locana => return Opt::default_cli(),
            _ => {}
        }
        o.strategy = s.below(3);
        o.randomize = s.chance(1, 3);
        if s.chance(1, 2) {
            for p in o.prio.iter_mut() {
                *p = s.below(5) as i32 - 2;
            }
        }
        o.memo = s.chance(1, 2);
        o.goal = s.below(3);
        if locana && s.chance(1, 2) {
            o.locana = Some((s.chance(1, 2), if s.chance(1, 3) { Some(s.below(4) as u32) } else { None }, s.range(1, 3) as u32));
        }
        o
    }
}

impl std::fmt::Display for Opt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", ["BFS", "DFS", "HCS"][self.strategy])?;
        if self.randomize {
            write!(f, " randomized")?;
        }
        if self.prio != [0, 0, 0, 0, 1, -1] {
            write!(f, " priorities {:?}", self.prio)?;
        }
        if self.memo {
            write!(f, " memo")?;
        }
        write!(f, " goal {}", ["none", "Pass", "WeakPass"][self.goal])?;
        if let Some((all, la, m)) = self.locana {
            write!(f, " local-analysis(all={},look-ahead={:?},modulo={})", all, la, m)?;
        }
        if self.por {
            write!(f, " partial-order-reduction")?;
        }
        for (n, x) in [("max-loop", self.max_loop), ("max-depth", self.max_depth), ("max-node", self.max_node)] {
            if let Some(x) = x {
                write!(f, " {}={}", n, x)?;
            }
        }
        Ok(())
    }
}

pub fn analyze_with(cfg: &Cfg, colocs: &Colocs, mu: &Mu, i: &Interaction, kind: &AnalysisKind, o: &Opt, loggers: Vec<Box<dyn AbstractProcessLogger<AnalysisConfig>>>) -> (u32, V) {
    let mtr = to_mtr(mu);
    let len = multi_trace_length(&mtr);
    let ctx = AnalysisContext::new(cfg.ctx(), CoLocalizations::new(colocs.clone()), mtr, len);
    let locana = o.locana.map(|(all, la, m)| {
        LocalAnalysisParameterization::new(if all { LocalAnalysisLifelineSelectionPolicy::SelectAll } else { LocalAnalysisLifelineSelectionPolicy::OnlyOnImpactedByLastStep }, la, m)
    });
    let strategy = match o.strategy {
        0 => QueueSearchStrategy::BFS,
        1 => QueueSearchStrategy::DFS,
        _ => QueueSearchStrategy::HCS,
    };
    let p = o.prio;
    let delegate: GenericProcessDelegate<AnalysisStepKind, AnalysisNodeKind, AnalysisPriorities> =
        GenericProcessDelegate::new(strategy, GenericProcessPriorities::new(AnalysisPriorities::new(p[0], p[1], p[2], p[3], p[4], p[5]), o.randomize));
    let flags = match kind {
        AnalysisKind::Simulate(c) => MultiTraceAnalysisFlags::new_init(colocs.len(), c.get_reset_rem_loop(len, i), c.get_reset_rem_act(len, i)),
        _ => MultiTraceAnalysisFlags::new_init(colocs.len(), 0, 0),
    };
    let mut filters: Vec<Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>> = vec![];
    if let Some(x) = o.max_loop {
        filters.push(Box::new(AnalysisFilter::MaxLoopInstanciation(x)));
    }
    if let Some(x) = o.max_depth {
        filters.push(Box::new(AnalysisFilter::MaxProcessDepth(x)));
    }
    if let Some(x) = o.max_node {
        filters.push(Box::new(AnalysisFilter::MaxNodeNumber(x)));
    }
    let goal = [None, Some(V::Pass), Some(V::WeakPass)].into_iter().nth(o.goal).unwrap();
    let mut m: GenericProcessManager<AnalysisConfig> = GenericProcessManager::new(ctx, AnalysisParameterization::new(kind.clone(), locana, o.por), delegate, filters, loggers, goal, o.memo);
    m.start_process(AnalysisNodeKind::new(i.clone(), flags, 0))
}

pub const NODES: u32 = 2500;

/// None: the search is larger than what a case may cost
pub fn analyze(x: &Setting, kind: &AnalysisKind, o: &Opt) -> R<(u32, V)> {
    let mut o = o.clone();
    let own = o.max_node;
    let cap = if matches!(kind, AnalysisKind::Simulate(_)) { NODES / 5 } else { NODES };
    o.max_node = Some(own.unwrap_or(cap).min(cap));
    let r = analyze_with(&x.cfg, &x.colocs, &x.mu, &x.t.to_i(), kind, &o, vec![]);
    if r.0 >= cap && own.is_none() {
        return Err(Overflow);
    }
    Ok(r)
}

fn describe(x: &Setting, o: &Opt) -> String {
    format!("{} | {} ({}) | {}", x.t, show_mtr(&x.mu, &x.colocs), x.how, o)
}

/// keeps the unmemoized searches small
fn cheap(x: &Setting, o: &mut Opt) {
    if mu_len(&x.mu) > 5 {
        o.memo = true;
    }
}

fn label_setting(x: &Setting, c: &mut Case) {
    classes(&x.t, c);
    c.label(x.how);
    c.label_if(x.colocs.len() > 1, "several components");
    c.label_if(x.colocs.len() > 1 && x.t.has_multi(), "synchronous action over components");
    c.label_if(x.colocs.iter().any(|c| c.len() > 1), "component with several lifelines");
}

// C07
fn accept(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let w = Want { sync_op: true, sync_comm: true, max_size: 12, max_len: 9, loops: 2, modes: [5, 1, 2, 1, 4], shared: false };
    let x = match gen_setting(s, &w) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let mut o = Opt::draw(s, !x.t.has_sync_op());
    cheap(&x, &mut o);
    c.say(describe(&x, &o));
    let want = or_discard!(member(&x.t, &x.colocs, &x.mu, 20000), c);
    let (_, v) = or_discard!(analyze(&x, &AnalysisKind::Accept, &o), c);
    label_setting(&x, c);
    c.label(if want { "member" } else { "not a member" });
    if want {
        ensure!(v == V::Pass, "member rejected", "the multi-trace is one of the model's, the verdict is {:?}", v);
    } else {
        ensure!(v == V::Fail, "non-member accepted", "the multi-trace is not one of the model's, the verdict is {:?}", v);
    }
    c.nontrivial = mu_len(&x.mu) >= 2 && x.t.size() >= 3;
    Ok(())
}

// C08
fn prefix(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let w = Want { sync_op: false, sync_comm: true, max_size: 12, max_len: 8, loops: 2, modes: [2, 3, 4, 1, 4], shared: false };
    let x = match gen_setting(s, &w) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let mut o = Opt::draw(s, true);
    cheap(&x, &mut o);
    c.say(describe(&x, &o));
    let full = or_discard!(member(&x.t, &x.colocs, &x.mu, 20000), c);
    let pref = full || or_discard!(is_execution_prefix(&x.t, &x.colocs, &x.mu, 20000), c);
    let (_, v) = or_discard!(analyze(&x, &AnalysisKind::Prefix, &o), c);
    label_setting(&x, c);
    if pref {
        let want = if full { V::Pass } else { V::WeakPass };
        // with a WeakPass goal the search may stop before finding out that the multi-trace is complete
        let ok = v == want || (o.goal == 2 && v == V::WeakPass);
        ensure!(ok, if full { "complete multi-trace" } else { "prefix of an execution" }, "the multi-trace is {}, the verdict is {:?}", if full { "one of the model's" } else { "that of a prefix of an execution" }, v);
        c.label(if full { "complete" } else { "prefix of an execution" });
    } else {
        ensure!(v != V::Pass && v != V::WeakPass, "unjustified pass", "no prefix of an execution has this multi-trace, the verdict is {:?}", v);
        if v == V::Fail || v == V::WeakFail {
            c.label("fail");
            // then no longer observation could be one of the model's: no trace has mu as a component-wise prefix
            let n = if x.t.has_loop() { 7 } else { 40 };
            if let Ok((al, l)) = all_traces(&x.t, n, 20000) {
                for tr in &l {
                    let p = project(&al, tr, &x.colocs);
                    ensure!(
                        !p.iter().zip(&x.mu).all(|(a, m)| is_prefix(m, a)),
                        "fail on an observation that can be completed",
                        "every component of the multi-trace is a prefix of that component of the execution {}, the verdict is {:?}",
                        al.show(tr),
                        v
                    );
                }
                c.label("fail confirmed");
            }
        } else {
            c.label("inconclusive");
        }
    }
    c.nontrivial = mu_len(&x.mu) >= 2 && x.t.size() >= 3;
    Ok(())
}

// C09
fn eliminate(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let w = Want { sync_op: false, sync_comm: true, max_size: 12, max_len: 8, loops: 2, modes: [2, 3, 5, 0, 4], shared: false };
    let x = match gen_setting(s, &w) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let mut o = Opt::draw(s, true);
    cheap(&x, &mut o);
    c.say(describe(&x, &o));
    let n = if x.t.has_loop() { 8 } else { 40 };
    let (al, l) = or_discard!(all_traces(&x.t, n, 20000), c);
    let multi_prefix = l.iter().any(|tr| project(&al, tr, &x.colocs).iter().zip(&x.mu).all(|(a, m)| is_prefix(m, a)));
    let (_, v) = or_discard!(analyze(&x, &AnalysisKind::Eliminate, &o), c);
    label_setting(&x, c);
    c.label(if multi_prefix { "multi-prefix" } else { "not a multi-prefix (within the bound)" });
    let single = x.colocs.iter().all(|c| c.len() == 1);
    if multi_prefix {
        // (the tool leaves it inconclusive with co-localized lifelines)
        let ok = if single { matches!(v, V::Pass | V::WeakPass) } else { !matches!(v, V::Fail | V::WeakFail) };
        ensure!(ok, "multi-prefix rejected", "every component is a prefix of the same execution's component, the verdict is {:?}", v);
    } else if !x.t.has_loop() && single {
        let exact = !x.t.any(&mut |y| matches!(y, T::Par(..) | T::CoReg(..))) && !x.t.has_multi();
        if exact {
            ensure!(v == V::Fail, "unjustified pass", "no execution has the components of this multi-trace as prefixes, the verdict is {:?}", v);
            c.label("exact rejection");
        }
    }
    if !multi_prefix && !x.t.has_loop() && !single {
        // nothing is concluded there from what happens once a component is hidden
        ensure!(!matches!(v, V::Pass | V::WeakPass), "unjustified pass (co-localized lifelines)", "no execution has the components of this multi-trace as prefixes, the verdict is {:?}", v);
    }
    let observed = x.mu.iter().filter(|m| !m.is_empty()).count();
    let hides = observed > 0 && observed < x.mu.len() || observed > 1 && !x.t.has_multi();
    if hides && !single {
        // some component is hidden before the end
        ensure!(!matches!(v, V::Pass | V::WeakPass), "pass by removal of co-localized lifelines", "the verdict is {:?}", v);
        c.label("removal of co-localized lifelines");
    }
    if v == V::Pass {
        ensure!(or_discard!(member(&x.t, &x.colocs, &x.mu, 20000), c), "pass on an incomplete multi-trace", "the verdict is Pass");
    }
    c.nontrivial = mu_len(&x.mu) >= 2 && x.t.size() >= 3;
    Ok(())
}

// C10
fn draw_sim(s: &mut Src, criteria: bool) -> SimulationConfiguration {
    let before = s.chance(1, 2);
    if !criteria {
        return SimulationConfiguration::new(before, s.chance(1, 2), s.chance(1, 2), SimulationLoopCriterion::None, SimulationActionCriterion::None);
    }
    let l = match s.below(4) {
        0 => SimulationLoopCriterion::MaxNum,
        1 => SimulationLoopCriterion::MaxDepth,
        2 => SimulationLoopCriterion::SpecificNum(s.below(4) as u32),
        _ => SimulationLoopCriterion::None,
    };
    let a = match s.below(3) {
        0 => SimulationActionCriterion::MaxNumOutsideLoops,
        1 => SimulationActionCriterion::SpecificNum(s.below(6) as u32),
        _ => SimulationActionCriterion::None,
    };
    SimulationConfiguration::new(before, s.chance(1, 2), s.chance(1, 2), l, a)
}

fn sim_oracle(x: &Setting, n: usize) -> R<(bool, bool)> {
    let (al, l) = all_traces(&x.t, n, 20000)?;
    let (mut pre, mut sli) = (false, false);
    for tr in &l {
        let p = project(&al, tr, &x.colocs);
        pre = pre || p.iter().zip(&x.mu).all(|(a, m)| is_prefix(m, a));
        sli = sli || p.iter().zip(&x.mu).all(|(a, m)| is_factor(m, a));
    }
    Ok((pre, sli))
}

/// loop-free models, no criterion: exact
fn simulate(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let w = Want { sync_op: false, sync_comm: true, max_size: 11, max_len: 8, loops: 0, modes: [2, 2, 4, 5, 4], shared: false };
    let x = gen_setting(s, &w);
    check_simulate(s, c, env, x)
}

fn simulate_echo(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let w = Want { sync_op: false, sync_comm: true, max_size: 11, max_len: 8, loops: 0, modes: [1, 1, 3, 6, 2], shared: false };
    let x = gen_echo(s, &w);
    check_simulate(s, c, env, x)
}

fn check_simulate(s: &mut Src, c: &mut Case, _env: &Env, x: Option<Setting>) -> Res {
    let x = match x {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let sc = draw_sim(s, false);
    let o = { let mut o = Opt::draw(s, true); if s.chance(2, 3) { o.memo = true } o };
    c.say(format!("{} | {}", describe(&x, &o), sc));
    let full = or_discard!(member(&x.t, &x.colocs, &x.mu, 20000), c);
    let (pre, sli) = or_discard!(sim_oracle(&x, 40), c);
    let (_, v) = or_discard!(analyze(&x, &AnalysisKind::Simulate(sc.clone()), &o), c);
    label_setting(&x, c);
    let found = if sc.sim_before { sli } else { pre };
    if full {
        ensure!(v == V::Pass || (o.goal == 2 && v == V::WeakPass), "member", "the multi-trace is one of the model's, the verdict is {:?}", v);
    } else if found {
        ensure!(v == V::WeakPass, if sc.sim_before { "multi-slice rejected" } else { "multi-prefix rejected" }, "the multi-trace is a {} of the model's, the verdict is {:?}", if sc.sim_before { "multi-slice" } else { "multi-prefix" }, v);
    } else {
        ensure!(matches!(v, V::Fail | V::WeakFail), "unjustified pass", "the multi-trace is not a {} of the model's, the verdict is {:?}", if sc.sim_before { "multi-slice" } else { "multi-prefix" }, v);
    }
    c.label(if full { "member" } else if found { "partial observation" } else { "neither" });
    c.label(if sc.sim_before { "simulation before and after" } else { "simulation after" });
    c.nontrivial = mu_len(&x.mu) >= 2 && x.t.size() >= 3;
    Ok(())
}

/// with loops and criteria: a pass is always justified, and a stronger budget never loses a pass
fn simulate_loops(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let w = Want { sync_op: false, sync_comm: true, max_size: 10, max_len: 6, loops: 2, modes: [2, 2, 4, 5, 4], shared: false };
    let x = match gen_setting(s, &w) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let mut sc = draw_sim(s, true);
    if x.t.has_loop() && sc.loop_crit == SimulationLoopCriterion::None && sc.act_crit == SimulationActionCriterion::None {
        // without a criterion the search need not end
        sc.loop_crit = SimulationLoopCriterion::MaxNum;
    }
    let mut o = Opt::draw(s, true);
    o.memo = true;
    c.say(format!("{} | {}", describe(&x, &o), sc));
    let full = or_discard!(member(&x.t, &x.colocs, &x.mu, 20000), c);
    let (_, v) = or_discard!(analyze(&x, &AnalysisKind::Simulate(sc.clone()), &o), c);
    label_setting(&x, c);
    if full {
        // what needs no simulation is found whatever the budget
        ensure!(v == V::Pass || (o.goal == 2 && v == V::WeakPass), "member", "the multi-trace is one of the model's, the verdict is {:?}", v);
        c.label("member");
    }
    match v {
        V::Pass => ensure!(full, "unjustified Pass", "the verdict is Pass"),
        V::WeakPass if !full => {
            // looked for up to a bound only: a longer execution may justify the verdict, which is then not judged
            let k = if x.t.has_loop() { mu_len(&x.mu) + 4 } else { 40 };
            let (pre, sli) = or_discard!(sim_oracle(&x, k.min(if x.t.has_loop() { 9 } else { 40 })), c);
            let ok = if sc.sim_before { sli } else { pre };
            if !x.t.has_loop() {
                ensure!(ok, "unjustified WeakPass", "no execution explains the multi-trace");
            }
            c.label(if ok { "weak pass confirmed" } else { "weak pass not confirmed within the bound" });
        }
        _ => c.label("no pass"),
    }
    c.nontrivial = mu_len(&x.mu) >= 2 && x.t.size() >= 3;
    Ok(())
}

/// the loops and actions that may be simulated from an interaction on
pub fn sim_budget(sc: &SimulationConfiguration, i: &Interaction, remaining: usize) -> (u32, u32) {
    let outside = |t: &T| -> u32 {
        fn go(t: &T) -> u32 {
            match t {
                T::Loop(..) | T::Empty => 0,
                T::Strict(a, b) | T::Seq(a, b) | T::CoReg(_, a, b) | T::Alt(a, b) | T::Par(a, b) | T::Sync(_, a, b) => go(a) + go(b),
                T::Em { .. } | T::Re { .. } => t.acts().len() as u32,
            }
        }
        go(t)
    };
        let t = T::from_i(i);
        let l = match sc.loop_crit {
            SimulationLoopCriterion::MaxNum => t.loops() as u32,
            SimulationLoopCriterion::MaxDepth => t.loop_nest() as u32,
            SimulationLoopCriterion::SpecificNum(n) => n,
            SimulationLoopCriterion::None => 0,
        };
        let a = match sc.act_crit {
            SimulationActionCriterion::MaxNumOutsideLoops => outside(&t),
            SimulationActionCriterion::SpecificNum(n) => n,
            SimulationActionCriterion::None => 0,
        };
        let m = if sc.multiply_by_multitrace_length { remaining as u32 } else { 1 };
        (l * m, a * m)
    }

/// an independent search of the executions that explain a multi-trace within the budgets of the simulation:
/// the grade of the verdict and the number of paths of that search. On each component the actions of a step are
/// either matched or simulated; a step that matches something leaves the budgets as they are, or renews them.
/// (loops are counted on the interactions that are reached, as the budgets are when they are renewed)
fn budget_search(x: &Setting, sc: &SimulationConfiguration, cap: usize) -> R<(u8, f64)> {
    #[derive(Clone, PartialEq, Eq, Hash)]
    struct St {
        i: Interaction,
        done: Vec<usize>,
        simulated: bool,
        loops: u32,
        acts: u32,
    }
    let len = mu_len(&x.mu);
    let budget = |i: &Interaction, remaining: usize| sim_budget(sc, i, remaining);
    let i0 = x.t.to_i();
    let (l0, a0) = budget(&i0, len);
    let start = St { i: i0, done: vec![0; x.mu.len()], simulated: false, loops: l0, acts: a0 };
    let mut paths: std::collections::HashMap<St, f64> = Default::default();
    let mut todo = vec![start.clone()];
    let mut grade = 0;
    paths.insert(start, 1.0);
    // steps only consume actions or budgets: breadth-first, states are met again at several depths, which only
    // makes the number of paths an estimate
    let mut k = 0;
    while k < todo.len() {
        let st = todo[k].clone();
        k += 1;
        if paths.len() > cap {
            return Err(Overflow);
        }
        let consumed: usize = st.done.iter().sum();
        if consumed == len {
            let g = if !st.simulated && nullable(&T::from_i(&st.i)) { 3 } else { 2 };
            grade = grade.max(g);
            continue;
        }
        let n = *paths.get(&st).unwrap();
        for f in global_frontier(&st.i, true) {
            let acts: BTreeSet<Act> = f.target_actions.iter().map(Act::from_ta).collect();
            let loops = loops_above(&st.i, &f.position);
            let to = execute_interaction(&st.i, &f.position, &f.target_lf_ids, true).interaction;
            // what happens on each of the components: (the actions are matched, they may be simulated)
            let ways: Vec<(usize, bool, bool)> = x
                .colocs
                .iter()
                .enumerate()
                .filter_map(|(ci, ls)| {
                    let here: BTreeSet<Act> = acts.iter().filter(|a| ls.contains(&a.lf)).cloned().collect();
                    if here.is_empty() {
                        return None;
                    }
                    let after = st.done[ci] == x.mu[ci].len();
                    Some((ci, !after && x.mu[ci][st.done[ci]] == here, after || sc.sim_before && st.done[ci] == 0))
                })
                .collect();
            let loops_ok = sc.loop_crit == SimulationLoopCriterion::None || loops <= st.loops;
            let acts_ok = sc.act_crit == SimulationActionCriterion::None || st.acts >= 1;
            let mut next = vec![];
            for choice in 0..1usize << ways.len() {
                let matched = |k: usize| choice >> k & 1 == 1;
                if !ways.iter().enumerate().all(|(k, w)| if matched(k) { w.1 } else { w.2 && loops_ok && acts_ok }) {
                    continue;
                }
                let mut nx = St { i: to.clone(), ..st.clone() };
                let mut n = 0;
                for (k, w) in ways.iter().enumerate() {
                    if matched(k) {
                        nx.done[w.0] += 1;
                        n += 1;
                    }
                }
                nx.simulated = st.simulated || n < ways.len();
                let (l, a) = budget(&to, len - consumed - n);
                if n > 0 {
                    if sc.reset_crit_after_exec {
                        nx.loops = l;
                        nx.acts = a;
                    }
                } else {
                    nx.loops = l.min(st.loops.saturating_sub(loops));
                    nx.acts = a.min(st.acts.saturating_sub(1));
                }
                next.push(nx);
            }
            for nx in next {
                match paths.get_mut(&nx) {
                    Some(m) => *m += n,
                    None => {
                        paths.insert(nx.clone(), n);
                        todo.push(nx);
                    }
                }
            }
        }
    }
    let total: f64 = paths.values().sum();
    Ok((grade, total))
}

/// choices that leave few actions outside loops next to loops, and synchronized operands of various loop depths
fn gen_budgeted(s: &mut Src, cfg: &Cfg) -> Option<T> {
    let mut sub = cfg.clone();
    sub.sync_op = false;
    sub.max_loops = 0;
    let mut part = |s: &mut Src, n: usize, loops: usize| {
        sub.max_size = n;
        sub.max_loops = loops;
        gen_term(s, &sub)
    };
    let op = |s: &mut Src, x: T, y: T| match s.below(4) {
        0 => T::Par(b(x), b(y)),
        1 => T::Strict(b(x), b(y)),
        _ => T::Seq(b(x), b(y)),
    };
    if cfg.sync_op {
        let x = part(s, 4, 1);
        let y = if s.chance(1, 2) { x.clone() } else { part(s, 4, 0) };
        let common: Vec<Act> = x.acts().into_iter().filter(|a| s.chance(3, 4) || y.acts().contains(a)).collect();
        if common.is_empty() {
            return None;
        }
        let k = *s.pick(&cfg.loop_kinds);
        let (x, y) = match s.below(4) {
            0 => (T::Loop(k, b(x)), y),
            1 => (x, T::Loop(k, b(y))),
            2 => (T::Loop(k, b(x.clone())), T::Loop(k, b(T::Alt(b(x), b(y))))),
            _ => (T::Loop(k, b(T::Loop(k, b(x)))), T::Loop(k, b(y))),
        };
        let (x, y) = if s.chance(1, 2) { (x, y) } else { (y, x) };
        let t = T::Sync(common, b(x), b(y));
        return Some(if s.chance(1, 2) {
            let z = part(s, 3, 1);
            op(s, t, z)
        } else {
            t
        });
    }
    let loops = s.below(3);
    let (x, y) = (part(s, 5, loops), part(s, 2, 0));
    let k = *s.pick(&cfg.loop_kinds);
    let z = T::Loop(k, b(part(s, 3, 0)));
    let alt = if s.chance(1, 2) { T::Alt(b(x), b(y)) } else { T::Alt(b(y), b(x)) };
    let alt = if s.chance(1, 3) {
        let w = part(s, 2, 0);
        op(s, w, alt)
    } else {
        alt
    };
    Some(if s.chance(2, 3) { op(s, alt, z) } else { op(s, z, alt) })
}

fn budget_setting(s: &mut Src) -> Option<(Setting, SimulationConfiguration)> {
    if s.chance(1, 3) {
        let loops = s.below(3);
        let w = Want { sync_op: true, sync_comm: true, max_size: 15, max_len: 8, loops, modes: [1, 1, 4, 7, 2], shared: false };
        let x = gen_setting(s, &w)?;
        let mut sc = draw_sim(s, true);
        if x.t.has_loop() && sc.loop_crit == SimulationLoopCriterion::None && sc.act_crit == SimulationActionCriterion::None {
            // without a criterion the search need not end
            sc.loop_crit = SimulationLoopCriterion::MaxNum;
        }
        return if mu_len(&x.mu) == 0 { None } else { Some((x, sc)) };
    }
    // factors of the components of an execution, and about as large a budget as it takes to explain them
    let mut cfg = Cfg::full();
    cfg.n_lf = s.range(1, 3);
    cfg.n_ms = s.range(1, 3);
    cfg.max_size = 15;
    cfg.max_loops = s.below(3);
    cfg.sync_comm = s.chance(1, 3);
    cfg.sync_op = s.chance(1, 4);
    let shaped = s.chance(1, 4);
    let t = if shaped {
        cfg.max_loops = cfg.max_loops.max(1);
        gen_budgeted(s, &cfg)?
    } else {
        gen_term(s, &cfg)
    };
    let colocs = if s.chance(2, 3) { (0..cfg.n_lf).map(|l| [l].into_iter().collect()).collect() } else { gen_colocs(s, cfg.n_lf) };
    let mut al = Al::new();
    let mut unfold = 4;
    let tr = sample(s, &t, &mut al, &mut unfold)?;
    if tr.len() < if shaped { 2 } else { 3 } || tr.len() > 10 {
        return None;
    }
    let before = s.chance(2, 3);
    let mut mu = project(&al, &tr, &colocs);
    let mut dropped = 0;
    for c in mu.iter_mut() {
        if c.is_empty() {
            continue;
        }
        // (at times, nothing is left of a component)
        let spare = if s.chance(1, 3) { 1 } else { 0 };
        let k = s.below(c.len() + spare);
        c.truncate(c.len() - k);
        dropped += k;
        if before && !c.is_empty() {
            let k = s.below(c.len());
            c.drain(..k);
            dropped += k;
        }
    }
    if dropped == 0 && s.chance(3, 4) || mu_len(&mu) == 0 {
        return None;
    }
    let l = if t.has_loop() { [SimulationLoopCriterion::MaxNum, SimulationLoopCriterion::MaxDepth, SimulationLoopCriterion::SpecificNum(s.below(if shaped { 2 } else { 4 }) as u32)][if shaped && s.chance(1, 3) { 2 } else { s.below(3) }].clone() } else { SimulationLoopCriterion::None };
    let near = (dropped + s.below(3)).saturating_sub(1) as u32;
    let a = match s.below(4) {
        0 => SimulationActionCriterion::SpecificNum(s.range(1, 2) as u32),
        1 => SimulationActionCriterion::MaxNumOutsideLoops,
        2 if shaped && s.chance(1, 2) => SimulationActionCriterion::MaxNumOutsideLoops,
        2 if shaped => SimulationActionCriterion::None,
        _ => SimulationActionCriterion::SpecificNum(near),
    };
    let l = if shaped && s.chance(1, 3) && a != SimulationActionCriterion::None { SimulationLoopCriterion::None } else { l };
    let sc = SimulationConfiguration::new(before, s.chance(1, 2), s.chance(1, 4), l, a);
    Some((Setting { cfg, t, colocs, mu, how: "slices" }, sc))
}

/// budgets of the simulation: a multi-trace is explained exactly when some execution explains it within the budgets
fn budgets(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let (x, sc) = match budget_setting(s) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let mut o = Opt::draw(s, true);
    o.memo = o.memo || s.chance(3, 4);
    if s.chance(1, 3) {
        o.locana = Some((s.chance(1, 2), None, 1));
    }
    if x.t.has_sync_op() {
        // (local behaviours are not defined for it)
        o.locana = None;
    }
    c.say(format!("{} | {}", describe(&x, &o), sc));
    let (want, paths) = or_discard!(budget_search(&x, &sc, 1500), c);
    if !o.memo && paths > 400.0 {
        o.memo = true;
    }
    let (_, v) = or_discard!(analyze(&x, &AnalysisKind::Simulate(sc.clone()), &o), c);
    label_setting(&x, c);
    let got = grade(&v);
    ensure!(
        got == want || o.goal == 2 && got >= 2 && want >= 2,
        if got < want { "explained within the budgets, rejected" } else { "pass beyond the budgets" },
        "the verdict is {:?}, a search of the executions gives {}",
        v,
        ["a failure", "?", "WeakPass", "Pass"][want as usize]
    );
    c.label(["fail", "?", "weak pass", "pass"][want as usize]);
    c.label_if(sc.reset_crit_after_exec, "budgets renewed after each executed action");
    if want == 0 && !x.t.has_loop() {
        let free = SimulationConfiguration::new(sc.sim_before, false, false, SimulationLoopCriterion::None, SimulationActionCriterion::None);
        if let Ok((2..=3, _)) = budget_search(&x, &free, 1500) {
            c.label("fail for want of a larger budget");
            c.nontrivial = true;
            return Ok(());
        }
    }
    c.nontrivial = mu_len(&x.mu) >= 2 && x.t.size() >= 3 && want == 2;
    Ok(())
}

// C11
fn grade(v: &V) -> u8 {
    match v {
        V::Fail | V::WeakFail => 0,
        V::Inconc(_) => 1,
        V::WeakPass => 2,
        V::Pass => 3,
    }
}

fn draw_kind(s: &mut Src, loops: bool) -> AnalysisKind {
    match s.below(4) {
        0 => AnalysisKind::Accept,
        1 => AnalysisKind::Prefix,
        2 => AnalysisKind::Eliminate,
        _ => {
            let criteria = loops || s.chance(1, 3);
            let mut sc = draw_sim(s, criteria);
            if loops && s.chance(1, 2) {
                // budgets that are not reset depend only on what was simulated
                sc.loop_crit = SimulationLoopCriterion::MaxNum;
                sc.act_crit = SimulationActionCriterion::SpecificNum(s.below(6) as u32);
            }
            if loops && sc.loop_crit == SimulationLoopCriterion::None && sc.act_crit == SimulationActionCriterion::None {
                // without a criterion the search need not end
                sc.loop_crit = SimulationLoopCriterion::MaxNum;
            }
            AnalysisKind::Simulate(sc)
        }
    }
}

fn invariant(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let w = Want { sync_op: false, sync_comm: true, max_size: 20, max_len: 14, loops: 3, modes: [3, 3, 3, 2, 5], shared: false };
    let x = match gen_setting(s, &w) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let kind = draw_kind(s, x.t.has_loop());
    let mut base = Opt::plain();
    base.memo = mu_len(&x.mu) > 5 || s.chance(1, 2);
    let mut o = Opt::draw(s, true);
    if !o.memo && mu_len(&x.mu) > 6 {
        o.memo = true;
    }
    c.say(format!("{} | {:?} | reference {}", describe(&x, &o), kind, base));
    let (n1, v1) = or_discard!(analyze(&x, &kind, &base), c);
    let (n2, v2) = or_discard!(analyze(&x, &kind, &o), c);
    label_setting(&x, c);
    let (g1, g2) = (grade(&v1), grade(&v2));
    let goal_cut = o.goal == 2 && g1 >= 2 && g2 >= 2;
    // local analysis may turn an inconclusive verdict into a failure, by proving it
    let sharper = o.locana.is_some() && g1 == 1 && g2 == 0;
    ensure!(g1 == g2 || goal_cut || sharper, "the verdict depends on how the search is done", "{:?} with the reference options, {:?} with the others", v1, v2);
    // a sharper failure must be a failure for a longer observation as well
    c.label(match g1 {
        0 => "fail",
        1 => "inconclusive",
        2 => "weak pass",
        _ => "pass",
    });
    c.label(match kind {
        AnalysisKind::Accept => "accept",
        AnalysisKind::Prefix => "prefix",
        AnalysisKind::Eliminate => "eliminate",
        AnalysisKind::Simulate(_) => "simulate",
    });
    c.nontrivial = n1 >= 4;
    Ok(())
}

/// memoization only merges nodes from which nothing more can be done: simulations with budgets, with and without
fn memo(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let (mut x, sc) = match budget_setting(s) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let lim = s.range(3, 8);
    while mu_len(&x.mu) > lim {
        let k = s.below(x.mu.len());
        x.mu[k].pop();
    }
    let (want, paths) = or_discard!(budget_search(&x, &sc, 1000), c);
    if paths > 450.0 {
        c.discard = true;
        return Ok(());
    }
    let mut o = Opt::draw(s, false);
    o.goal = 0;
    o.memo = false;
    c.say(format!("{} | {} | with and without memoization", describe(&x, &o), sc));
    let kind = AnalysisKind::Simulate(sc.clone());
    let (n1, v1) = or_discard!(analyze(&x, &kind, &o), c);
    o.memo = true;
    let (n2, v2) = or_discard!(analyze(&x, &kind, &o), c);
    label_setting(&x, c);
    ensure!(grade(&v1) == grade(&v2), "memoization changes the verdict", "{:?} without, {:?} with", v1, v2);
    ensure!(n2 <= n1, "memoization adds nodes", "{} nodes without, {} with", n1, n2);
    c.label_if(n2 < n1, "nodes merged");
    c.label(["fail", "?", "weak pass", "pass"][want as usize]);
    c.nontrivial = n2 < n1;
    Ok(())
}

/// memoization, on models whose executions meet again: with and without
fn meeting(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let w = Want { sync_op: false, sync_comm: true, max_size: 12, max_len: 6, loops: 1, modes: [6, 2, 2, 1, 2], shared: true };
    let x = match gen_setting(s, &w) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let kind = if s.chance(1, 2) { AnalysisKind::Eliminate } else { draw_kind(s, x.t.has_loop()) };
    let mut o = Opt::draw(s, false);
    o.goal = 0;
    o.memo = false;
    c.say(format!("{} | {:?} | with and without memoization", describe(&x, &o), kind));
    let (n1, v1) = or_discard!(analyze(&x, &kind, &o), c);
    o.memo = true;
    let (n2, v2) = or_discard!(analyze(&x, &kind, &o), c);
    label_setting(&x, c);
    ensure!(grade(&v1) == grade(&v2), "memoization changes the verdict", "{:?} without, {:?} with", v1, v2);
    ensure!(n2 <= n1, "memoization adds nodes", "{} nodes without, {} with", n1, n2);
    c.label_if(n2 < n1, "nodes merged");
    c.label(["fail", "inconclusive", "weak pass", "pass"][grade(&v1) as usize]);
    c.nontrivial = n2 < n1;
    Ok(())
}

/// partial order reduction, on the models for which it is meant: weakly sequential, asynchronous
fn por(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let w = Want { sync_op: false, sync_comm: false, max_size: 14, max_len: 10, loops: 2, modes: [5, 3, 3, 0, 4], shared: false };
    let x = match gen_setting(s, &w) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let kind = match s.below(3) {
        0 => AnalysisKind::Accept,
        1 => AnalysisKind::Prefix,
        _ => AnalysisKind::Eliminate,
    };
    let mut base = Opt::plain();
    base.memo = true;
    let mut o = Opt::draw(s, true);
    o.por = true;
    cheap(&x, &mut o);
    c.say(format!("{} | {:?}", describe(&x, &o), kind));
    if x.t.any(&mut |y| matches!(y, T::Strict(..) | T::Loop(LK::S, _) | T::Loop(LK::H, _))) {
        c.excluded = true;
        return Ok(());
    }
    let (n1, v1) = or_discard!(analyze(&x, &kind, &base), c);
    let (n2, v2) = or_discard!(analyze(&x, &kind, &o), c);
    label_setting(&x, c);
    let (g1, g2) = (grade(&v1), grade(&v2));
    let goal_cut = o.goal == 2 && g1 >= 2 && g2 >= 2;
    let both_bad = g1 <= 1 && g2 <= 1;
    ensure!(g1 == g2 || goal_cut || both_bad, "partial order reduction changes the verdict", "{:?} without, {:?} with", v1, v2);
    c.label_if(n2 < n1, "reduction");
    c.nontrivial = n1 >= 4;
    Ok(())
}

/// the look-ahead of local analyses
fn look_ahead(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let w = Want { sync_op: false, sync_comm: false, max_size: 9, max_len: 8, loops: 1, modes: [2, 2, 0, 0, 5], shared: false };
    let mut x = match gen_setting(s, &w) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let n_lf = x.cfg.n_lf;
    if x.colocs.len() > 1 {
        // one component: the others are out of the picture
        let k = s.below(x.colocs.len());
        let keep = x.colocs[k].clone();
        x.t = ref_project(&x.t, &|l| keep.contains(&l));
        x.colocs = vec![keep];
        x.mu = vec![x.mu[k].clone()];
    }
    if x.mu[0].is_empty() {
        c.discard = true;
        return Ok(());
    }
    let d = if s.chance(1, 4) { None } else { Some(s.below(5) as u32) };
    c.say(format!("{} | {} ({}) | look-ahead {:?}", x.t, show_mtr(&x.mu, &x.colocs), x.how, d));
    let v = perform_local_analysis(&mk_ctx(n_lf, x.cfg.n_ms, x.cfg.n_gt), CoLocalizations::new(x.colocs.clone()), &AnalysisKind::Prefix, false, &d, x.t.to_i(), to_mtr(&x.mu), MultiTraceAnalysisFlags::new_init(1, 0, 0), vec![]);
    // the longest prefix of the local trace that an execution can start with
    let n = x.mu[0].len();
    let mut k = n;
    while k > 0 && !or_discard!(is_execution_prefix(&x.t, &x.colocs, &vec![x.mu[0][..k].to_vec()], 20000), c) {
        k -= 1;
    }
    let dead = k < n;
    let within = d.map(|d| k as u32 <= d).unwrap_or(true);
    if dead && within {
        ensure!(v == V::Fail, "a dead local trace is not recognized", "only {} of {} actions can be executed, the local verdict is {:?}", k, n, v);
    } else if dead {
        ensure!(v != V::Fail, "the look-ahead bound is ignored", "{} of {} actions can be executed but the local analysis, bounded to {:?} steps, reports {:?}", k, n, d, v);
        c.label("out of reach of the look-ahead");
    } else {
        ensure!(v != V::Fail, "a live local trace is rejected", "the local trace can be executed, the local verdict is {:?}", v);
    }
    c.label(if dead { "dead" } else { "alive" });
    c.nontrivial = n >= 2;
    Ok(())
}

// C12
fn filters(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let w = Want { sync_op: false, sync_comm: true, max_size: 14, max_len: 9, loops: 2, modes: [5, 3, 3, 1, 3], shared: false };
    let x = match gen_setting(s, &w) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let kind = draw_kind(s, x.t.has_loop());
    let mut o = Opt::draw(s, true);
    cheap(&x, &mut o);
    match s.below(4) {
        0 => o.max_loop = Some(s.below(3) as u32),
        1 => o.max_depth = Some(s.below(8) as u32),
        2 => o.max_node = Some(s.range(1, 15) as u32),
        _ => {
            o.max_loop = Some(s.below(3) as u32);
            o.max_depth = Some(s.range(2, 10) as u32);
            o.max_node = Some(s.range(3, 30) as u32);
        }
    }
    c.say(format!("{} | {:?}", describe(&x, &o), kind));
    let mut base = Opt::plain();
    base.memo = true;
    let (_, v1) = or_discard!(analyze(&x, &kind, &base), c);
    let (n2, v2) = or_discard!(analyze(&x, &kind, &o), c);
    label_setting(&x, c);
    let (g1, g2) = (grade(&v1), grade(&v2));
    if g1 >= 2 {
        ensure!(g2 >= 1, "a bounded search fails", "{:?} without bounds, {:?} with", v1, v2);
    } else if g1 == 1 && o.locana.is_none() {
        ensure!(g2 == 1, "a bounded search decides what the full one leaves open", "{:?} without bounds, {:?} with", v1, v2);
    } else {
        ensure!(g2 <= 1, "a bounded search passes", "{:?} without bounds, {:?} with", v1, v2);
    }
    ensure!(g2 <= g1.max(1), "a bounded search passes", "{:?} without bounds, {:?} with", v1, v2);
    if let Some(m) = o.max_node {
        ensure!(n2 <= m.max(1), "node bound exceeded", "{} nodes with a bound of {}", n2, m);
    }
    c.label_if(g2 < g1, "bound reached");
    c.nontrivial = g1 >= 2 && g2 < g1 || g2 >= 2;
    Ok(())
}

/// the executions that match a multi-trace and enter at most so many loops: the grade reached (pass or weak pass) and
/// whether some step was left out for the bound
fn bounded_search(x: &Setting, bound: u32, cap: usize) -> R<(u8, bool, usize)> {
    let len = mu_len(&x.mu);
    let start = (x.t.to_i(), vec![0usize; x.mu.len()], 0u32);
    let mut seen: std::collections::HashSet<(Interaction, Vec<usize>, u32)> = [start.clone()].into_iter().collect();
    let mut todo = vec![start];
    let (mut grade, mut cut) = (0, false);
    while let Some((i, done, depth)) = todo.pop() {
        if seen.len() > cap {
            return Err(Overflow);
        }
        if done.iter().sum::<usize>() == len {
            grade = grade.max(if nullable(&T::from_i(&i)) { 3 } else { 2 });
            continue;
        }
        for f in global_frontier(&i, true) {
            let acts: BTreeSet<Act> = f.target_actions.iter().map(Act::from_ta).collect();
            let mut to = done.clone();
            let mut ok = true;
            for (ci, ls) in x.colocs.iter().enumerate() {
                let here: BTreeSet<Act> = acts.iter().filter(|a| ls.contains(&a.lf)).cloned().collect();
                if !here.is_empty() {
                    ok = ok && x.mu[ci].get(done[ci]) == Some(&here);
                    to[ci] += 1;
                }
            }
            if !ok {
                continue;
            }
            let d = depth + loops_above(&i, &f.position);
            if d > bound {
                cut = true;
                continue;
            }
            let nx = (execute_interaction(&i, &f.position, &f.target_lf_ids, true).interaction, to, d);
            if seen.insert(nx.clone()) {
                todo.push(nx);
            }
        }
    }
    Ok((grade, cut, seen.len()))
}

fn loop_bound(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let w = Want { sync_op: true, sync_comm: true, max_size: 12, max_len: 7, loops: 3, modes: [5, 2, 2, 1, 2], shared: s.chance(1, 3) };
    let x = match gen_setting(s, &w) {
        Some(x) if x.t.has_loop() => x,
        _ => {
            c.discard = true;
            return Ok(());
        }
    };
    let kind = if s.chance(1, 2) { AnalysisKind::Accept } else { AnalysisKind::Prefix };
    let mut o = Opt::draw(s, false);
    let bound = s.below(6) as u32;
    o.max_loop = Some(bound);
    cheap(&x, &mut o);
    c.say(format!("{} | {:?}", describe(&x, &o), kind));
    let (mut want, cut, n) = or_discard!(bounded_search(&x, bound, 1500), c);
    if n > 60 {
        o.memo = true;
    }
    if matches!(kind, AnalysisKind::Accept) && want == 2 {
        want = 0;
    }
    let (_, v) = or_discard!(analyze(&x, &kind, &o), c);
    label_setting(&x, c);
    let got = grade(&v);
    if want >= 2 {
        ensure!(got == want || o.goal == 2 && got >= 2, "explained within the bound on loops", "the verdict is {:?}, an execution that enters at most {} loops gives {}", v, bound, ["", "", "WeakPass", "Pass"][want as usize]);
    } else {
        ensure!(got < 2, "pass beyond the bound on loops", "the verdict is {:?}, no execution that enters at most {} loops explains the multi-trace", v, bound);
        if !cut {
            ensure!(!matches!(v, V::Inconc(InconcReason::FilteredNodes)), "inconclusive though nothing is cut", "the verdict is {:?}", v);
        } else if !o.memo {
            ensure!(got == 1, "a bounded search fails", "some steps are cut, the verdict is {:?}", v);
        }
    }
    c.label(["cut by the bound, or no execution", "?", "weak pass", "pass"][want as usize]);
    c.label_if(cut, "steps left out");
    c.nontrivial = cut && mu_len(&x.mu) >= 2;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "A case is a random model, co-localizations, a multi-trace (one of the model's, cut, or edited) and search options; the accept verdict is compared with membership in the denotation. Non-trivial: at least 2 observed actions and 3 model nodes.",
            assumptions: &["observations of at most 9 actions, except in the suite long: independent regular components of at most 160 actions", "cases whose analysis exceeds 2500 (simulation: 500) nodes are discarded"],
            suites: vec![Suite { name: "accept", quick: 100000, thorough: 1000000, run: accept }, Suite { name: "long", quick: 12000, thorough: 400000, run: long::accept }],
        },
        Prop {
            id: "C08",
            rule: "A case is as for accept; the prefix verdict is compared with membership and with the prefixes of executions computed from the denotation; a Fail is checked against all traces up to a bound. Non-trivial: at least 2 observed actions and 3 model nodes.",
            assumptions: &["observations of at most 8 actions, except in the suite long: independent regular components of at most 160 actions", "no sync operator"],
            suites: vec![Suite { name: "prefix", quick: 100000, thorough: 1000000, run: prefix }, Suite { name: "long", quick: 12000, thorough: 400000, run: long::prefix }],
        },
        Prop {
            id: "C09",
            rule: "A case is a random model, observation and options; the elimination verdict is compared with component-wise prefixes of the model's traces. Non-trivial: at least 2 observed actions and 3 model nodes.",
            assumptions: &["observations of at most 8 actions, except in the suite long: independent regular components of at most 160 actions", "rejection is only checked for loop-free models without par, coregions and synchronous actions over single-lifeline components"],
            suites: vec![Suite { name: "eliminate", quick: 100000, thorough: 1000000, run: eliminate }, Suite { name: "long", quick: 12000, thorough: 400000, run: long::eliminate }],
        },
        Prop {
            id: "C10",
            rule: "A case is a random model, an observation (prefixes, slices, edits), a simulation configuration and options; the verdict is compared with component-wise prefixes or factors of one trace. Non-trivial: at least 2 observed actions and 3 model nodes.",
            assumptions: &["exact for loop-free models without criteria; with loops or criteria only Pass, WeakPass on loop-free models, and members are checked"],
            suites: vec![
                Suite { name: "simulate", quick: 60000, thorough: 600000, run: simulate },
                Suite { name: "simulate_loops", quick: 60000, thorough: 600000, run: simulate_loops },
                Suite { name: "echo", quick: 40000, thorough: 600000, run: simulate_echo },
                Suite { name: "budgets", quick: 200000, thorough: 600000, run: budgets }, Suite { name: "long", quick: 12000, thorough: 400000, run: long::simulate },
            ],
        },
        Prop {
            id: "C11",
            rule: "A case is a random model (up to 24 nodes), observation and two option sets; the verdicts must agree. por: with and without partial order reduction; look_ahead: local analyses bounded in depth against the denotation. Non-trivial: the reference analysis has at least 4 nodes.",
            assumptions: &["cases whose analysis exceeds 2500 (simulation: 500) nodes are discarded", "partial order reduction only on asynchronous models without strict, loopS and loopH"],
            suites: vec![
                Suite { name: "invariant", quick: 60000, thorough: 600000, run: invariant },
                Suite { name: "memo", quick: 30000, thorough: 600000, run: memo },
                Suite { name: "meeting", quick: 60000, thorough: 1000000, run: meeting },
                Suite { name: "por", quick: 60000, thorough: 600000, run: por },
                Suite { name: "look_ahead", quick: 60000, thorough: 600000, run: look_ahead },
                Suite { name: "long", quick: 12000, thorough: 400000, run: long::look_ahead },
            ],
        },
        Prop {
            id: "C12",
            rule: "A case is a model, observation, options and filters; the bounded verdict is compared with the unbounded one, or with a search of the executions within a bound on loops. Non-trivial: the unbounded analysis passes and the bounded one is weaker, or still passes; for bounds on loops: some step is left out.",
            assumptions: &["bounds on loops are decided exactly for accept and prefix analyses; the others relate the bounded verdict to the unbounded one"],
            suites: vec![Suite { name: "filters", quick: 100000, thorough: 1000000, run: filters }, Suite { name: "loop_bound", quick: 150000, thorough: 600000, run: loop_bound }, Suite { name: "depth", quick: 12000, thorough: 400000, run: long::depth }],
        },
    ]
}
