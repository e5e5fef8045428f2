//! Exploration of the executions of a model, traces and automata generated from it.
use crate::cli::*;
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::imp::*;
use crate::or_discard;
use crate::sem::*;
use crate::term::*;
use crate::text::*;
use autour_core::nfa::nfa::AutNFA;
use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
use graph_process_manager_core::handler::filter::AbstractFilter;
use graph_process_manager_core::manager::logger::AbstractProcessLogger;
use graph_process_manager_core::manager::manager::GenericProcessManager;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy as Q;
use hibou_label::core::execution::semantics::execute::execute_interaction;
use hibou_label::core::execution::semantics::frontier::global_frontier;
use hibou_label::core::language::position::position::Position;
use hibou_label::core::language::syntax::interaction::Interaction;
use hibou_label::io::input::htf::interface::parse_htf_file;
use hibou_label::nfa_translation::alphabet::{get_alphabet_from_gen_ctx, get_alphabet_from_gen_ctx_and_interaction};
use hibou_label::nfa_translation::compositional::get_nfa_from_interaction_via_composition;
use hibou_label::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
use hibou_label::process::explo::conf::{ExplorationConfig, ExplorationStaticLocalVerdictAnalysisProof};
use hibou_label::process::explo::context::{ExplorationContext, ExplorationParameterization};
use hibou_label::process::explo::filter::elim::ExplorationFilterEliminationKind;
use hibou_label::process::explo::filter::filter::{ExplorationFilter, ExplorationFilterCriterion};
use hibou_label::process::explo::node::ExplorationNodeKind;
use hibou_label::process::explo::priorities::ExplorationPriorities;
use hibou_label::process::explo::step::ExplorationStepKind;
use hibou_label::process::explo::verdict::global::ExplorationGlobalVerdict;
use hibou_label::process::explo::verdict::local::ExplorationLocalVerdict;
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone)]
pub struct Succ {
    pub pos: Position,
    pub acts: BTreeSet<Act>,
    pub loops: u32,
    pub to: Interaction,
}

pub fn succs(i: &Interaction) -> Vec<Succ> {
    global_frontier(i, true)
        .into_iter()
        .map(|f| Succ {
            loops: loops_above(i, &f.position),
            acts: f.target_actions.iter().map(Act::from_ta).collect(),
            to: execute_interaction(i, &f.position, &f.target_lf_ids, false).interaction,
            pos: f.position,
        })
        .collect()
}

// C13 -------------------------------------------------------------------------------------------

struct RNode {
    id: u32,
    int: Interaction,
    loops: u32,
    depth: u32,
}

enum Ev {
    Step { from: u32, to: u32, pos: Position, acts: BTreeSet<Act>, int: Interaction, loops: u32, depth: u32, fresh: bool },
    Filtered { from: u32, kind: &'static str },
}

#[derive(Default)]
struct Recorder {
    nodes: Vec<RNode>,
    evs: Vec<Ev>,
    verdicts: Vec<(u32, bool, bool)>,
    end: Option<bool>,
    last_new: Option<u32>,
}

impl AbstractProcessLogger<ExplorationConfig> for Recorder {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn log_initialize(&mut self) {}
    fn log_parameterization(
        &mut self,
        _: &Q,
        _: &GenericProcessPriorities<ExplorationPriorities>,
        _: &[Box<dyn AbstractFilter<ExplorationFilterCriterion, ExplorationFilterEliminationKind>>],
        _: &Option<ExplorationGlobalVerdict>,
        _: bool,
        _: &ExplorationParameterization,
    ) {
    }
    fn log_filtered(&mut self, _: &ExplorationContext, from: u32, _: u32, k: &ExplorationFilterEliminationKind) {
        self.evs.push(Ev::Filtered {
            from,
            kind: match k {
                ExplorationFilterEliminationKind::MaxLoopInstanciation => "loop",
                ExplorationFilterEliminationKind::MaxProcessDepth => "depth",
                ExplorationFilterEliminationKind::MaxNodeNumber => "nodes",
            },
        })
    }
    fn log_new_node(&mut self, _: &ExplorationContext, _: &ExplorationParameterization, id: u32, n: &ExplorationNodeKind) {
        self.nodes.push(RNode { id, int: n.interaction.clone(), loops: n.loop_depth, depth: 0 });
        self.last_new = if id == 1 { None } else { Some(id) };
    }
    fn log_new_step(&mut self, _: &ExplorationContext, _: &ExplorationParameterization, from: u32, to: u32, s: &ExplorationStepKind, n: &ExplorationNodeKind, depth: u32) {
        let ExplorationStepKind::Execute(f) = s;
        let fresh = self.last_new == Some(to);
        self.last_new = None;
        if fresh {
            self.nodes.last_mut().unwrap().depth = depth;
        }
        self.evs.push(Ev::Step {
            from,
            to,
            pos: f.position.clone(),
            acts: f.target_actions.iter().map(Act::from_ta).collect(),
            int: n.interaction.clone(),
            loops: n.loop_depth,
            depth,
            fresh,
        })
    }
    fn log_verdict_on_no_child(&mut self, _: &ExplorationContext, _: &ExplorationParameterization, id: u32, v: &ExplorationLocalVerdict) {
        self.verdicts.push((id, matches!(v, ExplorationLocalVerdict::Accepting), true))
    }
    fn log_verdict_on_static_analysis(&mut self, _: &ExplorationContext, _: &ExplorationParameterization, id: u32, v: &ExplorationLocalVerdict, _: &ExplorationStaticLocalVerdictAnalysisProof) {
        self.verdicts.push((id, matches!(v, ExplorationLocalVerdict::Accepting), false))
    }
    fn log_terminate(&mut self, v: &ExplorationGlobalVerdict) {
        self.end = Some(matches!(v, ExplorationGlobalVerdict::HasDeadLocks))
    }
    fn log_notify_terminal_node_reached(&mut self, _: &ExplorationContext, _: u32) {}
    fn log_notify_last_child_of_node_processed(&mut self, _: &ExplorationContext, _: u32) {}
}

fn small_cfg(s: &mut Src) -> Cfg {
    let mut cfg = pick_cfg(s);
    cfg.max_size = s.range(2, 9);
    cfg
}

fn explore(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let mut cfg = small_cfg(s);
    let t = if s.chance(1, 4) { gen_shared(s, &cfg) } else { gen_term(s, &cfg) };
    let t = widen(s, &mut cfg, t);
    let strat = s.below(3);
    let memo = s.chance(1, 2);
    let randomize = s.chance(1, 6);
    let pr: Vec<i32> = if s.chance(1, 2) { vec![0; 4] } else { (0..4).map(|_| s.range(0, 6) as i32 - 3).collect() };
    let max_loop = if s.chance(1, 2) { Some(s.below(4) as u32) } else { None };
    // interactions and their number of steps grow quickly along the executions of loops
    let grows = t.has_sync_op() || [LK::W, LK::H, LK::P].iter().any(|k| t.has_loop_kind(*k));
    let must = t.has_loop() && grows && max_loop.is_none();
    let max_depth = if must || s.chance(1, 2) { Some(s.below(if must { 9 } else { 6 }) as u32) } else { None };
    let mut max_nodes = if s.chance(1, 3) { Some(s.below(25) as u32) } else { None };
    let hard = max_nodes.is_none();
    // long executions of loops are expensive to compare
    let bound = if max_depth.is_none() && t.has_loop() { 100 } else { 1500 };
    if hard {
        max_nodes = Some(bound);
    }
    classes(&t, c);
    c.say(format!("{}\nstrategy {} memoize {} randomize {} priorities {:?} filters depth {:?} loop {:?} nodes {:?}", t, strat, memo, randomize, pr, max_depth, max_loop, max_nodes));
    let mut filters: Vec<Box<dyn AbstractFilter<ExplorationFilterCriterion, ExplorationFilterEliminationKind>>> = vec![];
    if let Some(n) = max_depth {
        filters.push(Box::new(ExplorationFilter::MaxProcessDepth(n)))
    }
    if let Some(n) = max_loop {
        filters.push(Box::new(ExplorationFilter::MaxLoopInstanciation(n)))
    }
    if let Some(n) = max_nodes {
        filters.push(Box::new(ExplorationFilter::MaxNodeNumber(n)))
    }
    let delegate = GenericProcessDelegate::new(
        match strat {
            0 => Q::BFS,
            1 => Q::DFS,
            _ => Q::HCS,
        },
        GenericProcessPriorities::new(ExplorationPriorities::new(pr[0], pr[1], pr[2], pr[3]), randomize),
    );
    let mut m: GenericProcessManager<ExplorationConfig> =
        GenericProcessManager::new(ExplorationContext::new(cfg.ctx()), ExplorationParameterization {}, delegate, filters, vec![Box::new(Recorder::default())], None, memo);
    let init = t.to_i();
    let (count, verdict) = m.start_process(ExplorationNodeKind::new(init.clone(), 0));
    let r = m.get_logger(0).unwrap().as_any().downcast_ref::<Recorder>().unwrap();
    if hard && r.nodes.len() >= bound as usize {
        c.discard = true;
        return Ok(());
    }
    c.nontrivial = r.nodes.len() >= 4;
    c.label_if(memo && r.nodes.len() < r.evs.iter().filter(|e| matches!(e, Ev::Step { .. })).count() + 1, "memoized step");
    c.label_if(r.evs.iter().any(|e| matches!(e, Ev::Filtered { .. })), "filtered step");
    ensure!(count as usize == r.nodes.len(), "node count", "{} nodes counted, {} reached", count, r.nodes.len());
    ensure!(r.nodes[0].int == init && r.nodes[0].loops == 0 && r.nodes[0].id == 1, "initial node", "starts from another node");
    if let Some(n) = max_nodes {
        ensure!(r.nodes.len() <= n.max(1) as usize, "node filter", "{} nodes", r.nodes.len());
    }
    let idx: HashMap<u32, usize> = r.nodes.iter().enumerate().map(|(k, n)| (n.id, k)).collect();
    ensure!(idx.len() == r.nodes.len(), "node ids", "two nodes have the same number");
    let all: Vec<Vec<Succ>> = r.nodes.iter().map(|n| succs(&n.int)).collect();
    let prio = |x: &Succ| -> i32 {
        let em = x.acts.iter().filter(|a| a.emit).count() as i32;
        let rc = x.acts.len() as i32 - em;
        em * pr[0] + rc * pr[1] + (x.acts.len() as i32) * pr[2] + (x.loops as i32) * pr[3]
    };
    let mut done: Vec<Vec<usize>> = vec![vec![]; r.nodes.len()];
    let mut filtered: Vec<usize> = vec![0; r.nodes.len()];
    let mut created = 1;
    for e in &r.evs {
        let from = match e {
            Ev::Step { from, .. } | Ev::Filtered { from, .. } => *from,
        };
        let k = match idx.get(&from) {
            Some(k) if *k < created => *k,
            _ => return fail("unknown node", format!("a step from node {}", from)),
        };
        // the strategy: breadth-first processes the oldest node with steps left, depth-first the latest
        let left = |j: usize| all[j].len() > done[j].len() + filtered[j];
        if strat == 0 {
            ensure!(!(0..k).any(left), "breadth first", "node {} is processed before an older one", from);
        } else if strat == 1 {
            ensure!(!(k + 1..created).any(left), "depth first", "node {} is processed before a more recent one", from);
        }
        match e {
            Ev::Filtered { kind, .. } => {
                filtered[k] += 1;
                let ok = match *kind {
                    "loop" => max_loop.is_some(),
                    "depth" => max_depth.map_or(false, |d| r.nodes[k].depth + 1 > d),
                    _ => max_nodes.map_or(false, |n| created as u32 >= n),
                };
                ensure!(ok, "wrong filter", "step of node {} removed by the filter on {}", from, kind);
            }
            Ev::Step { to, pos, acts, int, loops, depth, fresh, .. } => {
                let j = match all[k].iter().position(|x| x.pos == *pos) {
                    Some(j) => j,
                    None => return fail("unsound step", format!("step {:?} of {} is not in its frontier", pos, T::from_i(&r.nodes[k].int))),
                };
                ensure!(!done[k].contains(&j), "step twice", "step {:?} of node {} processed twice", pos, from);
                let x = &all[k][j];
                ensure!(x.acts == *acts, "step actions", "{:?} instead of {:?}", acts, x.acts);
                ensure!(x.to == *int, "step target", "{} --{:?}--> {} instead of {}", T::from_i(&r.nodes[k].int), acts, T::from_i(int), T::from_i(&x.to));
                ensure!(*loops == r.nodes[k].loops + x.loops, "loop depth", "{} after {} and {} loops", loops, r.nodes[k].loops, x.loops);
                ensure!(*depth == r.nodes[k].depth + 1, "depth", "{} after {}", depth, r.nodes[k].depth);
                ensure!(max_depth.map_or(true, |d| *depth <= d), "depth filter", "a node at depth {}", depth);
                ensure!(max_loop.map_or(true, |d| *loops <= d), "loop filter", "a node at loop depth {}", loops);
                if *fresh {
                    ensure!(idx.get(to) == Some(&created), "node order", "new node {}", to);
                    ensure!(r.nodes[created].int == *int && r.nodes[created].loops == *loops, "step target", "node {} differs from the target of the step", to);
                    if memo {
                        let dup = r.nodes[..created].iter().find(|n| n.int == *int && n.loops <= *loops);
                        ensure!(dup.is_none(), "memoization", "node {} is included in node {}", to, dup.unwrap().id);
                    }
                    created += 1;
                } else {
                    ensure!(memo, "memoization", "a step to a known node without memoization");
                    let n = match idx.get(to) {
                        Some(n) if *n < created => &r.nodes[*n],
                        _ => return fail("unknown node", format!("a step to node {}", to)),
                    };
                    ensure!(n.int == *int && n.loops <= *loops, "memoization", "a step to {} (loop depth {}) is directed to {} (loop depth {})", T::from_i(int), loops, T::from_i(&n.int), n.loops);
                }
                if let Some(p) = done[k].last() {
                    let (a, b) = (prio(&all[k][*p]), prio(x));
                    ensure!(a >= b, "priorities", "a step of priority {} before one of priority {}", a, b);
                    if !randomize && a == b {
                        ensure!(*p < j, "sibling order", "step {:?} after step {:?}", pos, all[k][*p].pos);
                    }
                }
                done[k].push(j);
            }
        }
    }
    let full = max_nodes.map_or(false, |n| created as u32 >= n);
    for (k, n) in r.nodes.iter().enumerate() {
        ensure!(done[k].len() + filtered[k] == all[k].len(), "missing step", "{} of {} steps of node {} ({})", done[k].len() + filtered[k], all[k].len(), n.id, T::from_i(&n.int));
        for j in 0..all[k].len() {
            if !done[k].contains(&j) {
                let why = full || max_depth.map_or(false, |d| n.depth + 1 > d) || max_loop.map_or(false, |d| n.loops + all[k][j].loops > d);
                ensure!(why, "missing step", "step {:?} of node {} ({}) is removed and no filter applies", all[k][j].pos, n.id, T::from_i(&n.int));
            }
        }
        let v: Vec<_> = r.verdicts.iter().filter(|v| v.0 == n.id).collect();
        let acc = nullable(&T::from_i(&n.int));
        if acc {
            ensure!(v.len() == 1 && v[0].1, "node verdict", "{} is not said to be accepting", T::from_i(&n.int));
        } else if all[k].is_empty() {
            ensure!(v.len() == 1 && !v[0].1, "node verdict", "{} is not said to be deadlocked", T::from_i(&n.int));
        } else {
            ensure!(v.is_empty(), "node verdict", "{} has a verdict", T::from_i(&n.int));
        }
    }
    let dead = r.nodes.iter().enumerate().any(|(k, n)| all[k].is_empty() && !nullable(&T::from_i(&n.int)));
    c.label_if(dead, "deadlock");
    ensure!(matches!(verdict, ExplorationGlobalVerdict::HasDeadLocks) == dead && r.end == Some(dead), "global verdict", "{} with deadlocks: {}", verdict, dead);
    // against the denotation: the accepting nodes are the ends of the complete executions
    if !memo && hard && max_loop.is_none() && (max_depth.is_some() || !t.has_loop()) {
        let n = max_depth.map(|d| d as usize).unwrap_or(12);
        let mut al = Al::new();
        let want = or_discard!(lang(&t, &mut al, &Lim { n: if max_depth.is_some() { n } else { 30 }, cap: 20000, keep: None }), c);
        let mut word: Vec<Tr> = vec![vec![]; r.nodes.len()];
        for e in &r.evs {
            if let Ev::Step { from, to, acts, .. } = e {
                let mut w = word[idx[from]].clone();
                w.push(al.id(acts.clone()));
                word[idx[to]] = w;
            }
        }
        let got: Lang = r.nodes.iter().enumerate().filter(|(_, n)| r.verdicts.iter().any(|v| v.0 == n.id && v.1)).map(|(k, _)| word[k].clone()).collect();
        c.label("against the denotation");
        if let Some(d) = diff(&al, &got, &want) {
            return fail("executions", format!("executions explored / expected: {}", d));
        }
    }
    Ok(())
}

fn explore_cli(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = small_cfg(s);
    let t = gen_term(s, &cfg);
    let t = widen(s, &mut cfg, t);
    if t.any(&mut |x| matches!(x, T::Sync(a,..) if a.is_empty())) {
        c.discard = true;
        return Ok(());
    }
    let n = Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt);
    let f = model_files(s, env, &t, &n);
    let with = s.chance(2, 3);
    let memo = s.chance(1, 2);
    let depth = if s.chance(1, 2) { Some(s.below(6) as u32) } else { None };
    let lo = if !with || depth.is_none() || s.chance(1, 2) { Some(if with { s.below(3) as u32 } else { 1 }) } else { None };
    let depth = if with { depth } else { None };
    let memo = memo && with;
    let mut args = vec!["explore", &f.hsf, &f.hif];
    let mut fl = vec![];
    if let Some(d) = depth {
        fl.push(format!("max_depth={}", d))
    }
    if let Some(d) = lo {
        fl.push(format!("max_loop_depth={}", d))
    }
    fl.push("max_node_number=4000".to_string());
    let strat = *s.pick(&["BFS", "DFS", "HCS"]);
    let txt = format!("@explore_option{{ strategy={}; memoize={}; filters=[{}] }}", strat, memo, fl.join(","));
    let p = put(env, ".hcf", &txt);
    if with {
        args.push(&p)
    }
    c.say(format!("{}\n{}", t, if with { &txt } else { "default options" }));
    // own exploration: without memoization all paths, with it the interactions (when the filters cannot depend on the order)
    let want: Option<usize> = if !memo {
        let mut nodes = 0usize;
        let mut todo = vec![(t.to_i(), 0u32, 0u32)];
        while let Some((i, d, l)) = todo.pop() {
            nodes += 1;
            if nodes > 3000 {
                c.discard = true;
                return Ok(());
            }
            for x in succs(&i) {
                if depth.map_or(true, |m| d + 1 <= m) && lo.map_or(true, |m| l + x.loops <= m) {
                    todo.push((x.to, d + 1, l + x.loops));
                }
            }
        }
        Some(nodes)
    } else {
        None
    };
    if memo && depth.is_none() && t.loops() > 2 {
        c.discard = true;
        return Ok(());
    }
    let out = cli(&args).map_err(|e| Fail { sig: "command".into(), msg: e })?;
    let got: usize = match value(&out, "node count").and_then(|x| x.parse().ok()) {
        Some(x) => x,
        None => return fail("explore command", format!("no node count: {:?}", out)),
    };
    if let Some(w) = want {
        c.nontrivial = w >= 4;
        ensure!(got == w, "explore command", "{} nodes instead of {}", got, w);
    } else if got < 4000 && depth.is_none() {
        // memoized: the nodes that are not included in another one reached from the start
        let mut best: HashMap<Interaction, u32> = HashMap::new();
        let mut todo = std::collections::VecDeque::new();
        todo.push_back((t.to_i(), 0u32));
        let mut n = 0;
        while let Some((i, l)) = todo.pop_front() {
            if best.get(&i).map_or(false, |b| *b <= l) {
                continue;
            }
            n += 1;
            if n > 20000 {
                c.discard = true;
                return Ok(());
            }
            best.insert(i.clone(), l);
            for x in succs(&i) {
                if lo.map_or(true, |m| l + x.loops <= m) {
                    todo.push_back((x.to, l + x.loops));
                }
            }
        }
        c.nontrivial = best.len() >= 4;
        c.label("memoized");
        // a node per interaction at least, and another one only when reached again with fewer loops
        ensure!(got >= best.len(), "explore command", "{} nodes for {} interactions", got, best.len());
        let all_zero = best.values().all(|x| *x == 0);
        if all_zero {
            ensure!(got == best.len(), "explore command", "{} nodes for {} interactions", got, best.len());
        }
    }
    Ok(())
}

// C14 -------------------------------------------------------------------------------------------

type MuMap = BTreeMap<BTreeSet<usize>, Vec<BTreeSet<Act>>>;

fn mu_map(colocs: &[BTreeSet<usize>], mu: &Mu) -> MuMap {
    colocs.iter().cloned().zip(mu.iter().cloned()).collect()
}

fn tracegen(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = small_cfg(s);
    let t = gen_term(s, &cfg);
    let t = widen(s, &mut cfg, t);
    if t.any(&mut |x| matches!(x, T::Sync(a,..) if a.is_empty())) {
        c.discard = true;
        return Ok(());
    }
    classes(&t, c);
    let n = if s.chance(1, 2) { Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt) } else { Names::gen(s, cfg.n_lf, cfg.n_ms, cfg.n_gt) };
    let f = model_files(s, env, &t, &n);
    let kind = s.below(3);
    let k = if kind == 2 { s.range(1, 4) } else { s.below(6) } as u32;
    let mut colocs = gen_colocs(s, cfg.n_lf);
    let part = match s.below(4) {
        0 => {
            colocs = vec![(0..cfg.n_lf).collect()];
            "trivial".to_string()
        }
        1 => {
            colocs = (0..cfg.n_lf).map(|l| [l].into_iter().collect()).collect();
            "discrete".to_string()
        }
        2 => {
            let mut told = colocs.clone();
            if s.chance(1, 3) {
                // lifelines that are left out
                let j = s.below(told.len());
                if told.len() > 1 && told[j].len() == 1 {
                    told.remove(j);
                    c.label("partial partition");
                }
            }
            format!("{{{}}}", told.iter().map(|x| format!("({})", x.iter().map(|l| n.lf[*l].clone()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","))
        }
        _ => {
            colocs = vec![(0..cfg.n_lf).collect()];
            String::new()
        }
    };
    let nodup = s.chance(1, 2);
    let depth = if t.has_loop() || s.chance(1, 2) { Some(s.below(6) as u32) } else { None };
    let lo = if s.chance(1, 3) { Some(s.below(3) as u32) } else { None };
    let (dir, path) = fresh_dir(env, "tg");
    let mut o = vec![];
    o.push(match kind {
        0 => "generation=accepted".to_string(),
        1 => format!("generation=exact depth {}", k),
        _ => format!("generation=modulo depth {}", k),
    });
    if !part.is_empty() {
        o.push(format!("partition={}", part))
    }
    o.push(format!("folder={}", dir));
    o.push(format!("{}=tr_", *s.pick(&["prefix", "name_prefix", "trace_prefix"])));
    if nodup || s.chance(1, 3) {
        o.push(format!("{}={}", *s.pick(&["no_duplicates", "avoid_duplicates", "prevent_duplicates"]), nodup))
    }
    s.shuffle(&mut o);
    let mut fl = vec!["max_node_number=3000".to_string()];
    if let Some(d) = depth {
        fl.push(format!("max_depth={}", d))
    }
    if let Some(d) = lo {
        fl.push(format!("max_loop_depth={}", d))
    }
    let strat = *s.pick(&["BFS", "DFS", "HCS"]);
    let txt = format!("@explore_option{{ loggers=[tracegen[{}]]; strategy={}; filters=[{}] }}", o.join(","), strat, fl.join(","));
    let hcf = put(env, ".hcf", &txt);
    c.say(format!("{}\n{}", t, txt));
    // own tree
    let mut want: BTreeMap<MuMap, usize> = BTreeMap::new();
    let mut nodes = 0;
    let eps: Mu = vec![vec![]; colocs.len()];
    let mut todo = vec![(t.to_i(), eps, 0u32, 0u32, false)];
    let mut total = 0;
    let mut list: Vec<(MuMap, Vec<MuMap>)> = vec![];
    let mut todo2: Vec<Vec<MuMap>> = vec![vec![]];
    while let Some((i, mu, d, l, _)) = todo.pop() {
        let above = todo2.pop().unwrap();
        nodes += 1;
        if nodes > 1500 {
            c.discard = true;
            return Ok(());
        }
        let hit = match kind {
            0 => nullable(&T::from_i(&i)),
            1 => d == k,
            _ => d % k == 0,
        };
        let mut below = above.clone();
        if d > 0 && hit {
            let m = mu_map(&colocs, &mu);
            *want.entry(m.clone()).or_insert(0) += 1;
            total += 1;
            list.push((m, above));
        }
        if d > 0 {
            below.push(mu_map(&colocs, &mu));
        }
        for x in succs(&i) {
            if depth.map_or(true, |m| d + 1 <= m) && lo.map_or(true, |m| l + x.loops <= m) {
                let mut mu2 = mu.clone();
                for (j, cl) in colocs.iter().enumerate() {
                    let a: BTreeSet<Act> = x.acts.iter().filter(|a| cl.contains(&a.lf)).cloned().collect();
                    if !a.is_empty() {
                        mu2[j].push(a)
                    }
                }
                todo.push((x.to, mu2, d + 1, l + x.loops, false));
                todo2.push(below.clone());
            }
        }
    }
    // with no_duplicates, the library gives up the executions that extend a multi-trace that was already written
    let free: BTreeSet<MuMap> = list.iter().filter(|(_, above)| !above.iter().any(|x| want.contains_key(x))).map(|(m, _)| m.clone()).collect();
    c.nontrivial = total >= 2;
    c.label_if(nodup, "no duplicates");
    let _ = cli(&["explore", &f.hsf, &f.hif, &hcf]).map_err(|e| Fail { sig: "command".into(), msg: e })?;
    let g = n.ctx();
    let mut got: BTreeMap<MuMap, usize> = BTreeMap::new();
    let files: Vec<String> = std::fs::read_dir(&path).map(|d| d.map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    for name in &files {
        ensure!(name.starts_with("tr_") && name.ends_with(".htf"), "generated files", "file {}", name);
        match parse_htf_file(&g, path.join(name).to_str().unwrap()) {
            Err(e) => return fail("generated files", format!("{} cannot be read: {}", name, e)),
            Ok((cl, mu)) => {
                let mu: Mu = mu.iter().map(|x| x.iter().map(|a| a.iter().map(Act::from_ta).collect()).collect()).collect();
                *got.entry(mu_map(&cl.locs_lf_ids, &mu)).or_insert(0) += 1;
            }
        }
    }
    let show = |m: &MuMap| {
        let (a, b): (Vec<_>, Vec<_>) = m.iter().map(|(a, b)| (a.clone(), b.clone())).unzip();
        show_mtr(&b, &a)
    };
    for (m, k) in &got {
        match want.get(m) {
            None => return fail("unsound trace", format!("{} is generated", show(m))),
            Some(w) => {
                if nodup {
                    ensure!(*k == 1, "duplicates", "{} is generated {} times", show(m), k);
                } else {
                    ensure!(k == w, "number of traces", "{} is generated {} times instead of {}", show(m), k, w);
                }
            }
        }
    }
    for m in want.keys() {
        if !got.contains_key(m) && (!nodup || free.contains(m)) {
            return fail("missing trace", format!("{} is not generated", show(m)));
        }
    }
    // against the denotation
    if kind == 0 && !nodup && lo.is_none() {
        let mut al = Al::new();
        let l = or_discard!(lang(&t, &mut al, &Lim { n: depth.unwrap_or(20) as usize, cap: 20000, keep: None }), c);
        let w: BTreeSet<MuMap> = l.iter().filter(|t| !t.is_empty()).map(|t| mu_map(&colocs, &project(&al, t, &colocs))).collect();
        let g: BTreeSet<MuMap> = got.keys().cloned().collect();
        c.label("against the denotation");
        if let Some(m) = g.symmetric_difference(&w).next() {
            return fail("accepted multi-traces", format!("{} generated: {}", show(m), g.contains(m)));
        }
    }
    Ok(())
}

// C15, C16 --------------------------------------------------------------------------------------

/// words of length <= n that the automaton accepts (letters as numbers of the alphabet); None: too many
pub fn nfa_words(a: &AutNFA<usize>, n: usize, cap: usize) -> Option<HashSet<Vec<usize>>> {
    let mut out = HashSet::new();
    let start: BTreeSet<usize> = a.initials.iter().cloned().collect();
    let mut todo: Vec<(BTreeSet<usize>, Vec<usize>)> = vec![(start, vec![])];
    let mut seen = 0;
    while let Some((q, w)) = todo.pop() {
        seen += 1;
        if seen > cap {
            return None;
        }
        if q.iter().any(|x| a.finals.contains(x)) {
            out.insert(w.clone());
        }
        if w.len() < n {
            let mut next: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
            for x in &q {
                for (l, ys) in &a.transitions[*x] {
                    next.entry(*l).or_default().extend(ys.iter());
                }
            }
            for (l, q2) in next {
                let mut w2 = w.clone();
                w2.push(l);
                todo.push((q2, w2));
            }
        }
    }
    Some(out)
}

/// words of length <= n with an execution (complete: to a nullable interaction) that instantiates at most `lim` loops
fn words_within(i: &Interaction, n: usize, lim: u32, complete: bool, al: &mut Al, cap: usize) -> R<Lang> {
    let mut memo: HashMap<Interaction, Vec<Succ>> = HashMap::new();
    let mut seen: HashMap<(Interaction, Tr), u32> = HashMap::new();
    let mut out = Lang::new();
    let mut todo = std::collections::VecDeque::new();
    todo.push_back((i.clone(), vec![], 0u32));
    while let Some((i, w, l)) = todo.pop_front() {
        let key = (i, w);
        if seen.get(&key).map_or(false, |b| *b <= l) {
            continue;
        }
        if seen.len() > cap {
            return Err(Overflow);
        }
        seen.insert(key.clone(), l);
        let (i, w) = key;
        if !complete || nullable(&T::from_i(&i)) {
            out.insert(w.clone());
        }
        if w.len() < n {
            let ss = memo.entry(i.clone()).or_insert_with(|| succs(&i));
            for x in ss.iter() {
                if l + x.loops <= lim {
                    let mut w2 = w.clone();
                    w2.push(al.id(x.acts.clone()));
                    todo.push_back((x.to.clone(), w2, l + x.loops));
                }
            }
        }
    }
    Ok(out)
}

pub fn to_lang(ws: HashSet<Vec<usize>>, alph: &[BTreeSet<Act>], al: &mut Al) -> Result<Lang, usize> {
    let mut out = Lang::new();
    for w in ws {
        let mut t: Tr = vec![];
        for l in w {
            match alph.get(l) {
                Some(a) => t.push(al.id(a.clone())),
                None => return Err(l),
            }
        }
        out.insert(t);
    }
    Ok(out)
}

pub fn check_alphabet(alph: &[BTreeSet<Act>], cfg: &Cfg) -> Res {
    let set: BTreeSet<_> = alph.iter().collect();
    ensure!(set.len() == alph.len(), "alphabet", "a letter occurs twice: {:?}", alph);
    for lf in 0..cfg.n_lf {
        for ms in 0..cfg.n_ms {
            for e in [true, false] {
                let a: BTreeSet<Act> = [act(lf, e, ms)].into_iter().collect();
                ensure!(set.contains(&a), "alphabet", "{:?} is not a letter", a);
            }
        }
    }
    Ok(())
}

/// words of any length on which the automaton and the executions (entering at most `lim` loops) differ:
/// accepted by the automaton only if `sound`, by the executions only otherwise; the second number is the longest word tried
fn beyond(nfa: &AutNFA<usize>, letters: &[BTreeSet<Act>], i: &Interaction, lim: Option<u32>, sound: bool, cap: usize) -> (Option<Vec<BTreeSet<Act>>>, usize) {
    type Q = BTreeSet<(Interaction, u32)>;
    let mut memo: HashMap<Interaction, Vec<Succ>> = HashMap::new();
    let mut seen: HashSet<(BTreeSet<usize>, Q)> = HashSet::new();
    let mut todo = std::collections::VecDeque::new();
    let q0: BTreeSet<usize> = nfa.initials.iter().cloned().collect();
    let r0: Q = [(i.clone(), 0)].into_iter().collect();
    todo.push_back((q0, r0, vec![]));
    let mut longest = 0;
    while let Some((q, r, w)) = todo.pop_front() {
        if !seen.insert((q.clone(), r.clone())) {
            continue;
        }
        if seen.len() > cap || r.len() > 30 {
            break;
        }
        longest = longest.max(w.len());
        let a = q.iter().any(|x| nfa.finals.contains(x));
        let b = r.iter().any(|(i, _)| nullable(&T::from_i(i)));
        if sound && a && !b || !sound && b && !a {
            return (Some(w), longest);
        }
        let mut nq: BTreeMap<BTreeSet<Act>, BTreeSet<usize>> = BTreeMap::new();
        for x in &q {
            for (l, ys) in &nfa.transitions[*x] {
                nq.entry(letters[*l].clone()).or_default().extend(ys.iter());
            }
        }
        let mut nr: BTreeMap<BTreeSet<Act>, BTreeMap<Interaction, u32>> = BTreeMap::new();
        for (i, l) in &r {
            for x in memo.entry(i.clone()).or_insert_with(|| succs(i)).iter() {
                let n = if lim.is_some() { l + x.loops } else { 0 };
                if lim.map_or(true, |m| n <= m) {
                    let e = nr.entry(x.acts.clone()).or_default().entry(x.to.clone()).or_insert(n);
                    *e = (*e).min(n);
                }
            }
        }
        let keys: Vec<BTreeSet<Act>> = if sound { nq.keys().cloned().collect() } else { nr.keys().cloned().collect() };
        for k in keys {
            let mut w2 = w.clone();
            w2.push(k.clone());
            todo.push_back((nq.get(&k).cloned().unwrap_or_default(), nr.get(&k).map(|m| m.iter().map(|(i, l)| (i.clone(), *l)).collect()).unwrap_or_default(), w2));
        }
    }
    (None, longest)
}

fn nfa_explo(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let single = s.chance(1, 4);
    let cfg = if single {
        Cfg { n_lf: 1, coreg: false, sync_op: false, loop_kinds: vec![LK::S, LK::W, LK::H], max_loops: 3, max_size: s.range(3, 12), ..pick_cfg(s) }
    } else {
        let mut x = pick_cfg(s);
        x.max_size = s.range(2, 10);
        x
    };
    let t = gen_term(s, &cfg);
    classes(&t, c);
    let n = if t.has_loop() { 5 } else { 9 };
    c.say(format!("{}", t));
    if t.loops() > 2 && !single {
        c.discard = true;
        return Ok(());
    }
    let g = cfg.ctx();
    let i = t.to_i();
    // without other loops than strict ones, the automaton is exact
    let limited = [LK::W, LK::H, LK::P].iter().any(|k| t.has_loop_kind(*k));
    // size of the explored graph, by an exploration of our own
    {
        let mut best: HashSet<(Interaction, u32)> = HashSet::new();
        let mut todo = vec![(i.clone(), 0u32)];
        while let Some((i, l)) = todo.pop() {
            if !best.insert((i.clone(), l)) {
                continue;
            }
            if best.len() > 1200 {
                c.discard = true;
                return Ok(());
            }
            for x in succs(&i) {
                if l + x.loops <= 2 * t.loops() as u32 {
                    todo.push((x.to, l + x.loops))
                }
            }
        }
    }
    let (alph, with_int) = if s.chance(1, 6) && !t.has_multi() { (get_alphabet_from_gen_ctx(&g), false) } else { (get_alphabet_from_gen_ctx_and_interaction(&g, &i), true) };
    let letters: Vec<BTreeSet<Act>> = alph.iter().map(|x| x.iter().map(Act::from_ta).collect()).collect();
    check_alphabet(&letters, &cfg)?;
    let (nfa, _) = get_nfa_from_interaction_exploration(&g, &i, alph);
    ensure!(nfa.alphabet == (0..letters.len()).collect(), "alphabet", "the automaton's alphabet has {} letters and not {}", nfa.alphabet.len(), letters.len());
    for m in &nfa.transitions {
        for l in m.keys() {
            ensure!(*l < letters.len(), "alphabet", "a transition is labelled by a multi-action outside of the alphabet (with the interaction: {})", with_int);
        }
    }
    let ws = match nfa_words(&nfa, n, 30000) {
        Some(w) => w,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let mut al = Al::new();
    let got = match to_lang(ws, &letters, &mut al) {
        Ok(x) => x,
        Err(l) => return fail("alphabet", format!("letter {} out of the alphabet", l)),
    };
    let up = or_discard!(lang(&t, &mut al, &Lim { n, cap: 30000, keep: None }), c);
    let lo = if limited { or_discard!(words_within(&i, n, 2 * t.loops() as u32, true, &mut al, 30000), c) } else { up.clone() };
    c.nontrivial = lo.len() >= 2;
    c.label_if(single, "single lifeline");
    if let Some(w) = got.iter().find(|w| !up.contains(*w)) {
        return fail("unsound automaton", format!("accepts {}", al.show(w)));
    }
    if let Some(w) = lo.iter().find(|w| !got.contains(*w)) {
        return fail("incomplete automaton", format!("does not accept {}", al.show(w)));
    }
    c.label_if(got == up, "exact");
    if !s.chance(1, 3) {
        return Ok(());
    }
    let (x, k) = beyond(&nfa, &letters, &i, None, true, 150);
    if let Some(w) = x {
        return fail("unsound automaton", format!("accepts {:?}", w));
    }
    c.label_if(k > n, "longer words");
    let (x, _) = beyond(&nfa, &letters, &i, if limited { Some(2 * t.loops() as u32) } else { None }, false, 150);
    if let Some(w) = x {
        return fail("incomplete automaton", format!("does not accept {:?}", w));
    }
    Ok(())
}

fn nfa_compo(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let single = s.chance(2, 3);
    let cfg = Cfg {
        n_lf: if single { 1 } else { s.range(2, 3) },
        coreg: false,
        sync_op: false,
        loop_kinds: vec![LK::S],
        max_loops: 3,
        max_size: s.range(3, 12),
        sync_comm: s.chance(1, 2),
        ..pick_cfg(s)
    };
    let t = gen_term(s, &cfg);
    // on several lifelines the translation is exact when weak sequencing occurs in sequences of actions only
    fn seqs(t: &T) -> bool {
        match t {
            T::Strict(x, y) | T::Seq(x, y) => seqs(x) && seqs(y),
            T::Empty | T::Em { .. } | T::Re { .. } => true,
            _ => false,
        }
    }
    fn dom(t: &T) -> bool {
        if seqs(t) {
            return true;
        }
        match t {
            T::Strict(x, y) | T::Alt(x, y) | T::Par(x, y) => dom(x) && dom(y),
            T::Loop(_, x) => dom(x),
            _ => false,
        }
    }
    if !single && !dom(&t) {
        c.discard = true;
        return Ok(());
    }
    c.say(format!("{}", t));
    classes(&t, c);
    let n = if t.has_loop() { 5 } else { 9 };
    let g = cfg.ctx();
    let i = t.to_i();
    let alph = get_alphabet_from_gen_ctx_and_interaction(&g, &i);
    let letters: Vec<BTreeSet<Act>> = alph.iter().map(|x| x.iter().map(Act::from_ta).collect()).collect();
    check_alphabet(&letters, &cfg)?;
    let mut al = Al::new();
    let want = or_discard!(lang(&t, &mut al, &Lim { n, cap: 5000, keep: None }), c);
    if t.size() > 9 && t.any(&mut |x| matches!(x, T::Par(..))) && want.len() > 1500 {
        c.discard = true;
        return Ok(());
    }
    let (nfa, _) = get_nfa_from_interaction_via_composition(&g, &i, alph);
    let ws = match nfa_words(&nfa, n, 60000) {
        Some(w) => w,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let got = match to_lang(ws, &letters, &mut al) {
        Ok(x) => x,
        Err(l) => return fail("alphabet", format!("letter {} out of the alphabet", l)),
    };
    c.nontrivial = want.len() >= 3;
    c.label_if(single, "single lifeline");
    if let Some(d) = diff(&al, &got, &want) {
        return fail("language of the automaton", format!("automaton / expected: {}", d));
    }
    for sound in [true, false] {
        let (x, k) = beyond(&nfa, &letters, &i, None, sound, 250);
        if let Some(w) = x {
            return fail("language of the automaton", format!("only one of the automaton and the executions accepts {:?}", w));
        }
        c.label_if(k > n, "longer words");
    }
    Ok(())
}

// C17 -------------------------------------------------------------------------------------------

/// a word: a walk of the semantics, possibly damaged
pub fn gen_word(s: &mut Src, i: &Interaction, cfg: &Cfg) -> Vec<BTreeSet<Act>> {
    let mut word: Vec<BTreeSet<Act>> = vec![];
    {
        let mut cur = i.clone();
        for _ in 0..if s.chance(1, 12) { s.below(90) } else { s.below(8) } {
            let ss = succs(&cur);
            if ss.is_empty() {
                break;
            }
            let x = s.pick(&ss).clone();
            word.push(x.acts);
            cur = x.to;
        }
    }
    let any = |s: &mut Src| act(s.below(cfg.n_lf), s.chance(1, 2), s.below(cfg.n_ms));
    for _ in 0..s.below(3) {
        match s.below(5) {
            0 if !word.is_empty() => {
                let k = s.below(word.len());
                word.remove(k);
            }
            1 => {
                let k = s.below(word.len() + 1);
                let a = any(s);
                word.insert(k, [a].into_iter().collect());
            }
            2 if word.len() > 1 => {
                let k = s.below(word.len() - 1);
                word.swap(k, k + 1);
            }
            3 if word.len() > 1 => {
                // two actions at once
                let k = s.below(word.len() - 1);
                let b = word.remove(k + 1);
                word[k].extend(b);
            }
            4 if !word.is_empty() => {
                let k = s.below(word.len());
                let a = any(s);
                word[k].insert(a);
            }
            _ => {}
        }
    }
    word
}

fn nfa_ana(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.max_size = s.range(2, 9);
    let t = gen_term(s, &cfg);
    if t.loops() > 2 || t.any(&mut |x| matches!(x, T::Sync(a,..) if a.is_empty())) {
        c.discard = true;
        return Ok(());
    }
    classes(&t, c);
    let n = Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt);
    let i = t.to_i();
    let mut al = Al::new();
    let word = gen_word(s, &i, &cfg);
    let colocs: Vec<BTreeSet<usize>> = vec![(0..cfg.n_lf).collect()];
    c.say(format!("{}\n{}", t, show_mtr(&vec![word.clone()], &colocs)));
    let limited = [LK::W, LK::H, LK::P].iter().any(|k| t.has_loop_kind(*k));
    // does the word label a path, and one within the loop limit?
    let follow = |lim: Option<u32>| -> Option<bool> {
        let mut cur: HashMap<Interaction, u32> = [(i.clone(), 0)].into_iter().collect();
        for a in &word {
            let mut next: HashMap<Interaction, u32> = HashMap::new();
            for (i, l) in &cur {
                for x in succs(i) {
                    if x.acts == *a && lim.map_or(true, |m| l + x.loops <= m) {
                        let e = next.entry(x.to).or_insert(u32::MAX);
                        *e = (*e).min(l + x.loops);
                    }
                }
            }
            if next.len() > 2000 {
                return None;
            }
            cur = next;
        }
        Some(!cur.is_empty())
    };
    {
        let mut best: HashSet<(Interaction, u32)> = HashSet::new();
        let mut todo = vec![(i.clone(), 0u32)];
        while let Some((i, l)) = todo.pop() {
            if !best.insert((i.clone(), l)) {
                continue;
            }
            if best.len() > 800 {
                c.discard = true;
                return Ok(());
            }
            for x in succs(&i) {
                if l + x.loops <= 2 * t.loops() as u32 {
                    todo.push((x.to, l + x.loops))
                }
            }
        }
    }
    let (up, lo) = match (follow(None), follow(if limited { Some(2 * t.loops() as u32) } else { None })) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            c.discard = true;
            return Ok(());
        }
    };
    // and against the denotation of prefixes
    if !t.has_sync_op() {
        let w: Tr = word.iter().map(|a| al.id(a.clone())).collect();
        if let Ok(p) = plang(&t, &mut al, &Lim { n: w.len(), cap: 20000, keep: None }) {
            let d = p.iter().any(|(u, _)| *u == w);
            ensure!(d == up, "prefix", "the word is a prefix of an execution: {}, it labels a path: {}", d, up);
        }
    }
    c.nontrivial = word.len() >= 2;
    c.label_if(lo, "re-enacted");
    c.label_if(!up, "deviation");
    c.label_if(word.iter().any(|a| a.len() > 1), "multi-action");
    c.label_if(word.len() > 20, "more than 20 letters");
    let f = model_files(s, env, &t, &n);
    let htf = put(env, ".htf", &htf_text(&n, &colocs, &vec![word.clone()]));
    let out = cli(&["nfa_analyze", &f.hsf, &f.hif, &htf]).map_err(|e| Fail { sig: "command".into(), msg: e })?;
    let v = value(&out, "verdict").unwrap_or_default();
    if lo {
        ensure!(v == "re-enacted trace without deviations", "verdict of the automaton", "'{}' on an execution of the model", v);
    } else if !up {
        ensure!(v == "failed to re-enact trace", "verdict of the automaton", "'{}' on a word that is no execution of the model", v);
    } else {
        c.label("beyond the loop limit");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "at least 4 nodes explored",
            assumptions: &["the steps of a node are those of the small-step semantics, which C01-C03 check against the denotation"],
            suites: vec![
                Suite { name: "graph", quick: 40000, thorough: 1200000, run: explore },
                Suite { name: "command", quick: 3000, thorough: 100000, run: explore_cli },
            ],
        },
        Prop {
            id: "C14",
            rule: "at least two multi-traces to generate",
            assumptions: &["the external library never writes the empty multi-trace of the initial node", "memoization and trace generation are not combined (the external library panics)"],
            suites: vec![Suite { name: "files", quick: 20000, thorough: 600000, run: tracegen }],
        },
        Prop {
            id: "C15",
            rule: "at least two accepted words",
            assumptions: &["words up to length 9 (5 with loops)"],
            suites: vec![Suite { name: "exploration", quick: 60000, thorough: 2000000, run: nfa_explo }],
        },
        Prop {
            id: "C16",
            rule: "at least three accepted words",
            assumptions: &["words up to length 9 (5 with loops)"],
            suites: vec![Suite { name: "composition", quick: 60000, thorough: 2000000, run: nfa_compo }],
        },
        Prop {
            id: "C17",
            rule: "a word of at least two letters",
            assumptions: &["words with executions only beyond the loop limit of the translation are not decided"],
            suites: vec![Suite { name: "command", quick: 40000, thorough: 1000000, run: nfa_ana }],
        },
    ]
}
