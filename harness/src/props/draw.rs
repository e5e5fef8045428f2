//! Drawings of interactions and graphical logs of processes.
use crate::cli::*;
use crate::analysis::{gen_setting, sim_budget, Want};
use hibou_label::process::ana::param::anakind::{SimulationActionCriterion, SimulationConfiguration, SimulationLoopCriterion};
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::common::nullable;
use crate::explore::{succs, Succ};
use crate::or_discard;
use crate::sem::*;
use crate::term::*;
use crate::text::*;
use hibou_label::core::execution::trace::trace::{TraceAction, TraceActionKind};
use hibou_label::core::colocalizations::CoLocalizations;
use hibou_label::core::execution::semantics::execute::execute_interaction;
use hibou_label::core::language::eliminate_lf::eliminable::LifelineEliminable;
use hibou_label::core::language::syntax::interaction::Interaction;
use hibou_label::io::input::hif::interface::parse_hif_file;
use hibou_label::io::output::draw_interactions::as_sd::interaction_repr::interaction::make_interaction_image;
use hibou_label::core::language::position::position::Position;
use hibou_label::io::output::draw_commons::make_image_of_text::new_image_with_colored_text;
use hibou_label::io::output::draw_transitions::draw_firing::{draw_firing_analysis, draw_firing_simple};
use hibou_label::process::ana::step::SimulationStepKind;
use hibou_label::io::output::draw_commons::font::{get_hibou_font, HIBOU_FONT_SCALE};
use hibou_label::io::output::draw_commons::sd_drawing_conf::*;
use image_colored_text::draw::multi_line::MultiLineTextAlignment;
use image_colored_text::draw::single_line::{draw_line_of_colored_text, DrawCoord};
use imageproc::drawing::{draw_filled_rect_mut, draw_hollow_rect_mut, draw_line_segment_mut};
use imageproc::rect::Rect;
use image_colored_text::ttp::TextToPrint;
use hibou_label::io::output::draw_traces::interface::draw_multitrace;
use hibou_label::io::output::draw_transitions::draw_hiding::draw_hiding;
use hibou_label::process::ana::node::flags::{MultiTraceAnalysisFlags, TraceAnalysisFlags};
use hibou_label::nfa_translation::canonize::canonize_interaction;
use hibou_label::process::canon::param::default::DefaultCanonizationProcess as Dcp;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};

// texts in images --------------------------------------------------------------------------------

/// whether the image contains those lines of text (whatever their colours)
fn reads(dir: &Path, png: &Path, lines: &[String], center: bool) -> bool {
    let other = dir.join("text.png");
    let t: Vec<Vec<TextToPrint>> = lines.iter().map(|x| vec![TextToPrint::new(x.clone(), image::Rgb([0, 0, 0]))]).collect();
    new_image_with_colored_text(&other, if center { &MultiLineTextAlignment::Center } else { &MultiLineTextAlignment::Left }, &t);
    let (a, b) = match (image::open(png), image::open(&other)) {
        (Ok(a), Ok(b)) => (a.to_rgb8(), b.to_rgb8()),
        _ => return false,
    };
    same_ink(&a, &b)
}

/// whether an image is that one drawn in black (no colour is lighter than 165 in all of its components)
fn same_ink(a: &image::RgbImage, b: &image::RgbImage) -> bool {
    a.dimensions() == b.dimensions()
        && a.pixels().zip(b.pixels()).all(|(x, y)| {
            let g = 255 - *x.0.iter().min().unwrap() as i32;
            let e = 255 - y.0[0] as i32;
            g <= e + 3 && g + 3 >= e * 90 / 255
        })
}

fn pos_text(p: &Position) -> String {
    match p {
        Position::Epsilon(None) => String::new(),
        Position::Epsilon(Some(k)) => format!("s{}", k),
        Position::Left(p) => format!("1{}", pos_text(p)),
        Position::Right(p) => format!("2{}", pos_text(p)),
        Position::Both(p, q) => format!("(1{},2{})", pos_text(p), pos_text(q)),
    }
}

fn ta_text(n: &Names, a: &Act) -> String {
    format!("{}{}{}", n.lf[a.lf], if a.emit { "!" } else { "?" }, n.ms[a.ms])
}

fn fired(n: &Names, acts: &BTreeSet<Act>, p: &Position) -> String {
    let ts: BTreeSet<TraceAction> = acts.iter().map(|a| a.to_ta()).collect();
    format!("{}@{}", ts.iter().map(|a| ta_text(n, &Act::from_ta(a)) + " ").collect::<String>(), pos_text(p))
}

fn coloc_text(n: &Names, c: &BTreeSet<usize>) -> String {
    format!("[{}]", c.iter().map(|l| n.lf[*l].clone()).collect::<Vec<_>>().join(","))
}

/// the drawing of a step of an analysis: consumed and simulated components, in any order
fn reads_firing(dir: &Path, png: &Path, n: &Names, acts: &BTreeSet<Act>, p: &Position, colocs: &[BTreeSet<usize>], on: &BTreeSet<usize>, sim: &BTreeMap<usize, bool>) -> bool {
    let cons: Vec<String> = on.iter().map(|c| format!("C{} ", coloc_text(n, &colocs[*c]))).collect();
    let sims: Vec<String> = sim.iter().map(|(c, before)| format!("S{}{} ", coloc_text(n, &colocs[*c]), if *before { "↑" } else { "↓" })).collect();
    let last = fired(n, acts, p);
    if cons.is_empty() && sims.is_empty() {
        return reads(dir, png, &[last], true);
    }
    orders(&cons).iter().any(|c| orders(&sims).iter().any(|s| reads(dir, png, &[format!("{}{}", c.concat(), s.concat()), last.clone()], true)))
}

fn orders(v: &[String]) -> Vec<Vec<String>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    (0..v.len())
        .flat_map(|k| {
            let mut rest = v.to_vec();
            let x = rest.remove(k);
            orders(&rest).into_iter().map(move |mut o| {
                o.insert(0, x.clone());
                o
            })
        })
        .collect()
}

#[derive(Clone, Debug, Default)]
struct Canal {
    used: usize,
    hidden: bool,
    dirty: u32,
    before: u32,
    after: u32,
}

/// the drawing of a multi-trace: what remains of each component, what is known about it
fn mu_lines(n: &Names, colocs: &[BTreeSet<usize>], mu: &Mu, f: &[Canal], sim: Option<(Option<u32>, Option<u32>)>) -> Vec<String> {
    let mut out = vec![];
    for ((c, m), x) in colocs.iter().zip(mu).zip(f) {
        let name = coloc_text(n, c);
        let before = if x.before > 0 { format!("♧{}", x.before) } else { String::new() };
        if x.hidden {
            out.push(format!("{} {}⚐{}⚑ non-obs ", name, before, x.used));
            out.push(String::new());
            continue;
        }
        let rest: Vec<String> = m[x.used..]
            .iter()
            .map(|a| {
                let ts: BTreeSet<TraceAction> = a.iter().map(|a| a.to_ta()).collect();
                let v: Vec<String> = ts.iter().map(|a| ta_text(n, &Act::from_ta(a))).collect();
                if v.len() == 1 {
                    v[0].clone()
                } else {
                    format!("{{{}}}", v.join(","))
                }
            })
            .collect();
        out.push(format!("{} ←{} ", name, if rest.is_empty() { "ε".to_string() } else { rest.join(".") }));
        let mut l = format!("{}{}", " ".repeat(name.len() + 1), before);
        if x.used > 0 || x.after > 0 {
            l += &format!("⚐{}", x.used);
            if x.used == m.len() {
                l += "⚑";
                if x.after > 0 {
                    l += &format!("{}♣", x.after)
                }
            }
        }
        if x.dirty > 0 {
            l += &if x.dirty > 1 { format!(" *{}", x.dirty) } else { " *".to_string() }
        }
        out.push(l + " ");
    }
    match sim {
        None => (),
        Some((None, None)) => out.push(" ⌕ *".into()),
        Some((l, a)) => out.push(format!(" ⌕ {}{}", l.map_or("".into(), |x| format!("L{} ", x)), a.map_or("".into(), |x| format!("A{}", x)))),
    }
    out
}

/// drawings of multi-traces and of steps with all that an analysis can say about them
fn draw_texts(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.self_comm = false;
    cfg.n_lf = s.range(1, 5);
    cfg.n_ms = s.range(1, 4);
    let n = if s.chance(1, 2) { Names::gen(s, cfg.n_lf, cfg.n_ms, cfg.n_gt) } else { Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt) };
    let g = n.ctx();
    let colocs = gen_colocs(s, cfg.n_lf);
    let cl = CoLocalizations::new(colocs.clone());
    let acts = |s: &mut Src, c: &BTreeSet<usize>, most: usize| -> BTreeSet<Act> {
        let v: Vec<usize> = c.iter().cloned().collect();
        (0..s.range(1, most)).map(|_| act(*s.pick(&v), s.chance(1, 2), s.below(cfg.n_ms))).collect()
    };
    let mut mu: Mu = vec![];
    let mut fl: Vec<Canal> = vec![];
    for cl in &colocs {
        let m: Vec<BTreeSet<Act>> = (0..s.below(6)).map(|_| if s.chance(1, 3) { acts(s, cl, 4) } else { acts(s, cl, 1) }).collect();
        let used = if s.chance(1, 3) { m.len() } else { s.below(m.len() + 1) };
        let small = |s: &mut Src| if s.chance(1, 2) { 0 } else { s.below(13) as u32 };
        fl.push(Canal { used, hidden: s.chance(1, 4), dirty: small(s), before: small(s), after: small(s) });
        mu.push(m);
    }
    let (rl, ra) = (s.below(12) as u32, s.below(12) as u32);
    let sim = if s.chance(1, 2) { Some((s.chance(1, 2), s.chance(1, 2))) } else { None };
    let dir = run_dir(env, "x");
    c.say(format!("{} {:?} {:?}", show_mtr(&mu, &colocs), fl, sim));
    let flags = MultiTraceAnalysisFlags::new(fl.iter().map(|x| TraceAnalysisFlags::new(x.used, x.hidden, x.dirty, x.before, x.after)).collect(), rl, ra);
    draw_multitrace(&g, &cl, &to_mtr(&mu), &flags, sim.is_some(), sim.map_or(false, |x| x.0), sim.map_or(false, |x| x.1), &dir.to_str().unwrap().to_string(), &"mu".to_string());
    let want = mu_lines(&n, &colocs, &mu, &fl, sim.map(|x| (if x.0 { Some(rl) } else { None }, if x.1 { Some(ra) } else { None })));
    ensure!(reads(&dir, &dir.join("mu.png"), &want, false), "text of a multi-trace", "another text than {:#?}", want);
    // a step
    let t = gen_term(s, &cfg);
    let all = succs(&t.to_i());
    let pos = if all.is_empty() { Position::Epsilon(None) } else { s.pick(&all).pos.clone() };
    let every: BTreeSet<usize> = (0..cfg.n_lf).collect();
    let a = acts(s, &every, 4);
    let mut on = BTreeSet::new();
    let mut sm: BTreeMap<usize, bool> = BTreeMap::new();
    for k in 0..colocs.len() {
        match s.below(4) {
            0 | 1 if on.len() < 3 => {
                on.insert(k);
            }
            2 if sm.len() < 3 => {
                sm.insert(k, s.chance(1, 2));
            }
            _ => (),
        }
    }
    let tas: BTreeSet<TraceAction> = a.iter().map(|a| a.to_ta()).collect();
    let kinds: HashMap<usize, SimulationStepKind> = sm.iter().map(|(k, b)| (*k, if *b { SimulationStepKind::BeforeStart } else { SimulationStepKind::AfterEnd })).collect();
    draw_firing_analysis(&dir.join("f.png"), &g, &pos, &tas, &cl, &on.iter().cloned().collect(), &kinds);
    ensure!(reads_firing(&dir, &dir.join("f.png"), &n, &a, &pos, &colocs, &on, &sm), "text of a step", "another text than {:?} {:?} {}", on, sm, fired(&n, &a, &pos));
    draw_firing_simple(&dir.join("g.png"), &g, &pos, &tas);
    ensure!(reads(&dir, &dir.join("g.png"), &[fired(&n, &a, &pos)], true), "text of a step", "another text than {}", fired(&n, &a, &pos));
    draw_hiding(&dir.join("h.png"), &g, &colocs[0]);
    ensure!(reads(&dir, &dir.join("h.png"), &[format!("eliminate lifelines {}", coloc_text(&n, &colocs[0]))], true), "text of a step", "another text for the elimination of {:?}", colocs[0]);
    c.nontrivial = mu.iter().any(|m| m.len() >= 2) && colocs.len() >= 2;
    c.label_if(on.len() + sm.len() >= 2, "several components in a step");
    c.label_if(sim.is_some(), "simulation");
    Ok(())
}

// graphs -----------------------------------------------------------------------------------------

#[derive(Debug, Default)]
pub struct Dot {
    pub nodes: Vec<(String, BTreeMap<String, String>, String)>,
    pub clusters: Vec<String>,
    pub edges: Vec<(String, String)>,
    /// attributes of the edges
    pub on: Vec<BTreeMap<String, String>>,
}

impl Dot {
    pub fn attr(&self, id: &str, key: &str) -> Option<&String> {
        self.nodes.iter().find(|n| n.0 == id).and_then(|n| n.1.get(key))
    }
    pub fn has(&self, id: &str) -> bool {
        self.nodes.iter().any(|n| n.0 == id)
    }
}

fn ident(x: &str) -> bool {
    let mut c = x.chars();
    c.next().map_or(false, |f| f.is_alphabetic() || f == '_') && c.all(|f| f.is_alphanumeric() || f == '_')
}

fn attributes(at: &str) -> Result<BTreeMap<String, String>, String> {
    let mut m = BTreeMap::new();
    let mut one = String::new();
    let mut q = false;
    for y in at.chars().chain([',']) {
        if y == '"' {
            q = !q
        }
        if !q && (y == ',' || y == ';') {
            if let Some(p) = one.find('=') {
                m.insert(one[..p].trim().to_string(), one[p + 1..].trim().trim_matches('"').to_string());
            } else if !one.trim().is_empty() {
                return Err(format!("attribute '{}'", one));
            }
            one.clear();
        } else {
            one.push(y)
        }
    }
    Ok(m)
}

/// reads a graph, and rejects what is not one
pub fn dot_parse(text: &str) -> Result<Dot, String> {
    let ch: Vec<char> = text.chars().collect();
    let mut d = Dot::default();
    let mut k = 0;
    let mut stack: Vec<String> = vec![];
    let mut cur = String::new();
    let mut quoted = false;
    let mut bracket = false;
    let mut closed = false;
    while k < ch.len() {
        let x = ch[k];
        k += 1;
        if quoted {
            if x == '\\' {
                cur.push(x);
                if k < ch.len() {
                    cur.push(ch[k]);
                    k += 1;
                }
                continue;
            }
            if x == '"' {
                quoted = false;
            }
            cur.push(x);
            continue;
        }
        match x {
            '"' => {
                quoted = true;
                cur.push(x);
            }
            '[' if bracket => return Err(format!("'[' in the attributes of '{}'", cur)),
            '[' => {
                bracket = true;
                cur.push(x)
            }
            ']' => {
                if !bracket {
                    return Err(format!("']' after '{}'", cur));
                }
                bracket = false;
                cur.push(x)
            }
            '{' if !bracket => {
                let h = cur.trim().to_string();
                cur.clear();
                if stack.is_empty() {
                    if h != "digraph G" || closed {
                        return Err(format!("header '{}'", h));
                    }
                    stack.push("".into());
                } else {
                    let id = h.strip_prefix("subgraph cluster_").unwrap_or("").to_string();
                    if !ident(&id) {
                        return Err(format!("sub-graph '{}'", h));
                    }
                    if d.clusters.contains(&id) {
                        return Err(format!("two sub-graphs '{}'", id));
                    }
                    d.clusters.push(id.clone());
                    stack.push(id);
                }
            }
            '}' if !bracket => {
                if !cur.trim().is_empty() {
                    return Err(format!("'{}' before the end of a graph", cur.trim()));
                }
                if stack.pop().is_none() {
                    return Err("'}' out of any graph".into());
                }
                closed = stack.is_empty();
            }
            ';' if !bracket => {
                let st = cur.trim().to_string();
                cur.clear();
                if stack.is_empty() {
                    return Err(format!("'{}' out of any graph", st));
                }
                if st.is_empty() {
                    continue;
                }
                let (head, attrs) = match st.find('[') {
                    Some(p) if !st[..p].contains('"') => (st[..p].trim().to_string(), Some(st[p + 1..st.len() - 1].to_string())),
                    _ => (st.clone(), None),
                };
                if let Some(p) = head.find("->") {
                    let (a, b) = (head[..p].trim().to_string(), head[p + 2..].trim().to_string());
                    if !ident(&a) || !ident(&b) {
                        return Err(format!("edge '{}'", head));
                    }
                    d.edges.push((a, b));
                    d.on.push(attributes(&attrs.unwrap_or_default())?);
                } else if let Some(at) = attrs {
                    if !ident(&head) {
                        return Err(format!("node '{}'", head));
                    }
                    let m = attributes(&at)?;
                    d.nodes.push((head, m, stack.last().unwrap().clone()));
                } else if ident(&head) {
                    d.nodes.push((head, BTreeMap::new(), stack.last().unwrap().clone()));
                } else if !head.contains('=') {
                    return Err(format!("statement '{}'", head));
                }
            }
            _ => cur.push(x),
        }
    }
    if !closed || !cur.trim().is_empty() {
        return Err("no end".into());
    }
    Ok(d)
}

// C29 -------------------------------------------------------------------------------------------

#[derive(PartialEq, Clone)]
struct Tree(String, Vec<Tree>);

impl std::fmt::Debug for Tree {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)?;
        if !self.1.is_empty() {
            write!(f, "{:?}", self.1)?;
        }
        Ok(())
    }
}

fn tree(t: &T, n: &Names) -> Tree {
    let lfs = |v: &Vec<usize>| v.iter().map(|l| n.lf[*l].clone()).collect::<Vec<_>>().join(",");
    match t {
        T::Empty => Tree("o".into(), vec![]),
        T::Em { lf, ms, sync, tgts } => {
            let to: Vec<String> = tgts
                .iter()
                .map(|g| match g {
                    Tgt::Lf(l) => n.lf[*l].clone(),
                    Tgt::Gt(g) => n.gt[*g].clone(),
                })
                .collect();
            let end = if to.is_empty() { "".to_string() } else { format!("({})", to.join(",")) };
            Tree(format!("{}{}{}{}", n.lf[*lf], if *sync { "|!|" } else { "!" }, n.ms[*ms], end), vec![])
        }
        T::Re { gt, ms, sync, lfs: l } => {
            let to = if l.len() == 1 { n.lf[l[0]].clone() } else { format!("({})", lfs(l)) };
            let from = gt.map_or("".to_string(), |g| format!("[{}]", n.gt[g]));
            Tree(format!("{}{}{}{}", to, if *sync { "|?|" } else { "?" }, from, n.ms[*ms]), vec![])
        }
        T::Strict(x, y) => Tree("strict".into(), vec![tree(x, n), tree(y, n)]),
        T::Seq(x, y) => Tree("seq".into(), vec![tree(x, n), tree(y, n)]),
        T::Alt(x, y) => Tree("alt".into(), vec![tree(x, n), tree(y, n)]),
        T::Par(x, y) => Tree("par".into(), vec![tree(x, n), tree(y, n)]),
        T::CoReg(l, x, y) => Tree(format!("coreg({})", lfs(l)), vec![tree(x, n), tree(y, n)]),
        T::Sync(a, x, y) => {
            let acts: Vec<String> = a.iter().map(|a| format!("{}{}{}", n.lf[a.lf], if a.emit { "!" } else { "?" }, n.ms[a.ms])).collect();
            Tree(format!("sync{{{}}}", acts.join(",")), vec![tree(x, n), tree(y, n)])
        }
        T::Loop(k, x) => Tree(format!("loop{:?}", k), vec![tree(x, n)]),
    }
}

fn tree_of(text: &str) -> Result<Tree, String> {
    let d = dot_parse(text)?;
    let ids: HashSet<&String> = d.nodes.iter().map(|x| &x.0).collect();
    if ids.len() != d.nodes.len() {
        return Err("two nodes with the same name".into());
    }
    let mut kids: HashMap<&String, Vec<&String>> = HashMap::new();
    let mut parent: HashMap<&String, &String> = HashMap::new();
    for (a, b) in &d.edges {
        if !ids.contains(a) || !ids.contains(b) {
            return Err(format!("edge {} -> {} between undefined nodes", a, b));
        }
        if parent.insert(b, a).is_some() {
            return Err(format!("two edges to {}", b));
        }
        kids.entry(a).or_default().push(b);
    }
    let roots: Vec<&String> = d.nodes.iter().map(|x| &x.0).filter(|x| !parent.contains_key(x)).collect();
    if roots.len() != 1 {
        return Err(format!("{} roots", roots.len()));
    }
    let mut seen = 0;
    fn build(d: &Dot, x: &String, kids: &HashMap<&String, Vec<&String>>, seen: &mut usize) -> Tree {
        *seen += 1;
        Tree(d.attr(x, "label").cloned().unwrap_or_default(), kids.get(x).map_or(vec![], |v| v.iter().map(|y| build(d, y, kids, seen)).collect()))
    }
    let t = build(&d, roots[0], &kids, &mut seen);
    if seen != d.nodes.len() {
        return Err("a cycle".into());
    }
    Ok(t)
}

fn draw_tree(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.max_size = s.range(1, 20);
    cfg.max_loops = 5;
    let t = gen_term(s, &cfg);
    if t.any(&mut |x| matches!(x, T::Sync(l, ..) if l.is_empty())) {
        c.discard = true;
        return Ok(());
    }
    let n = if s.chance(1, 2) { Names::gen(s, cfg.n_lf, cfg.n_ms, cfg.n_gt) } else { Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt) };
    c.say(format!("{} with {:?}", t, n));
    classes(&t, c);
    c.nontrivial = t.size() >= 5;
    let f = model_files(s, env, &t, &n);
    let name = format!("t{}", tid());
    let path = env.scratch.join("temp").join(format!("{}.dot", name));
    let _ = std::fs::remove_file(&path);
    let out = cli(&["draw", &f.hsf, &f.hif, "-r", "tt", "-o", &name]).map_err(|e| Fail { sig: "command".into(), msg: e })?;
    ensure!(out.iter().any(|l| l.contains(&name)), "name of the file", "the command prints {:?}", out);
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let got = tree_of(&text).map_err(|e| Fail { sig: "not a tree".into(), msg: format!("{} in\n{}", e, text) })?;
    // as it is read back (the set of synchronized actions has its own order)
    let u = T::from_i(&parse_hif_file(&n.ctx(), &f.hif).map_err(|e| Fail { sig: "unreadable".into(), msg: e.to_string() })?);
    ensure!(norm(&right(&u)) == norm(&right(&t)), "term read", "{} instead of {}", u, t);
    let want = tree(&u, &n);
    ensure!(got == want, "tree", "{:?} instead of {:?}", got, want);
    Ok(())
}

fn has_lf(t: &T) -> bool {
    t.any(&mut |x| matches!(x, T::Em { .. } | T::Re { .. }))
}

fn leaves(t: &T) -> Vec<T> {
    let mut v = vec![];
    t.any(&mut |x| {
        match x.clone() {
            T::Em { lf, ms, sync, mut tgts } => {
                tgts.sort();
                v.push(T::Em { lf, ms, sync, tgts })
            }
            T::Re { gt, ms, sync, mut lfs } => {
                lfs.sort();
                v.push(T::Re { gt, ms, sync, lfs })
            }
            _ => {}
        }
        false
    });
    v
}

/// terms that differ from a term by one visible change, and what it is
/// (the labels of frames nested in more than two others may be cut, when the diagram is narrow)
fn changes(t: &T, n_lf: usize, n_ms: usize, depth: usize) -> Vec<(&'static str, T)> {
    let mut out = vec![];
    match t {
        T::Empty => {}
        T::Em { lf, ms, sync, tgts } => {
            for m in 0..n_ms {
                if m != *ms {
                    out.push(("message", T::Em { lf: *lf, ms: m, sync: *sync, tgts: tgts.clone() }));
                }
            }
            for l in 0..n_lf {
                if l != *lf && !tgts.contains(&Tgt::Lf(l)) {
                    out.push(("lifeline", T::Em { lf: l, ms: *ms, sync: *sync, tgts: tgts.clone() }));
                    let mut more = tgts.clone();
                    more.push(Tgt::Lf(l));
                    out.push(("target", T::Em { lf: *lf, ms: *ms, sync: *sync, tgts: more }));
                }
            }
            out.push(("synchronicity", T::Em { lf: *lf, ms: *ms, sync: !*sync, tgts: tgts.clone() }));
            if tgts.is_empty() {
                out.push(("kind of action", T::Re { gt: None, ms: *ms, sync: *sync, lfs: vec![*lf] }));
            }
            out.push(("removal", T::Empty));
        }
        T::Re { gt, ms, sync, lfs } => {
            for m in 0..n_ms {
                if m != *ms {
                    out.push(("message", T::Re { gt: *gt, ms: m, sync: *sync, lfs: lfs.clone() }));
                }
            }
            for l in 0..n_lf {
                if !lfs.contains(&l) {
                    let mut other = lfs.clone();
                    other[0] = l;
                    out.push(("lifeline", T::Re { gt: *gt, ms: *ms, sync: *sync, lfs: other.clone() }));
                    let mut more = lfs.clone();
                    more.push(l);
                    out.push(("target", T::Re { gt: *gt, ms: *ms, sync: *sync, lfs: more }));
                }
            }
            out.push(("synchronicity", T::Re { gt: *gt, ms: *ms, sync: !*sync, lfs: lfs.clone() }));
            if gt.is_some() {
                out.push(("gate", T::Re { gt: None, ms: *ms, sync: *sync, lfs: lfs.clone() }));
            }
            out.push(("removal", T::Empty));
        }
        T::Loop(k, x) => {
            if has_lf(x) && depth <= 2 {
                for j in [LK::S, LK::H, LK::W, LK::P] {
                    if j != *k {
                        out.push(("kind of loop", T::Loop(j, x.clone())));
                    }
                }
                out.push(("loop", (**x).clone()));
            }
            out.extend(changes(x, n_lf, n_ms, depth + 1).into_iter().map(|(w, y)| (w, T::Loop(*k, b(y)))));
        }
        T::Strict(x, y) | T::Seq(x, y) | T::Alt(x, y) | T::Par(x, y) | T::CoReg(_, x, y) | T::Sync(_, x, y) => {
            let re = |x: T, y: T| match t {
                T::Strict(..) => T::Strict(b(x), b(y)),
                T::Seq(..) => T::Seq(b(x), b(y)),
                T::Alt(..) => T::Alt(b(x), b(y)),
                T::Par(..) => T::Par(b(x), b(y)),
                T::CoReg(l, ..) => T::CoReg(l.clone(), b(x), b(y)),
                T::Sync(l, ..) => T::Sync(l.clone(), b(x), b(y)),
                _ => unreachable!(),
            };
            let below = depth + !matches!(t, T::Seq(..)) as usize;
            if has_lf(x) || has_lf(y) {
                for z in [T::Strict(x.clone(), y.clone()), T::Seq(x.clone(), y.clone()), T::Alt(x.clone(), y.clone()), T::Par(x.clone(), y.clone())] {
                    if z != *t && depth <= 2 {
                        out.push(("operator", z));
                    }
                }
                if let (T::CoReg(l, ..), true) = (t, depth <= 2) {
                    for k in 0..n_lf {
                        if !x.lfs().contains(&k) && !y.lfs().contains(&k) {
                            continue;
                        }
                        let mut m: Vec<usize> = l.iter().filter(|j| **j != k).cloned().collect();
                        if m.len() == l.len() {
                            m.push(k);
                            m.sort();
                        }
                        if !m.is_empty() {
                            out.push(("co-region", T::CoReg(m, x.clone(), y.clone())));
                        }
                    }
                }
                if has_lf(x) && has_lf(y) && leaves(x) != leaves(y) {
                    out.push(("order", re((**y).clone(), (**x).clone())));
                }
            }
            out.extend(changes(x, n_lf, n_ms, below).into_iter().map(|(w, z)| (w, re(z, (**y).clone()))));
            out.extend(changes(y, n_lf, n_ms, below).into_iter().map(|(w, z)| (w, re((**x).clone(), z))));
        }
    }
    out
}

fn draw_sd(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.self_comm = false;
    cfg.max_size = s.range(1, 10);
    cfg.max_loops = 3;
    let mut t = gen_term(s, &cfg);
    if cfg.coreg && s.chance(1, 3) {
        // co-regions in co-regions
        cfg.max_size = 3;
        for _ in 0..s.range(1, 2) {
            let u = gen_term(s, &cfg);
            let mut l: Vec<usize> = (0..cfg.n_lf).filter(|_| s.chance(1, 2)).collect();
            if l.is_empty() {
                l.push(s.below(cfg.n_lf));
            }
            t = if s.chance(1, 2) { T::CoReg(l, b(t), b(u)) } else { T::CoReg(l, b(u), b(t)) };
        }
    }
    if t.any(&mut |x| matches!(x, T::Sync(l, ..) if l.is_empty())) {
        c.discard = true;
        return Ok(());
    }
    let n = Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt);
    let g = n.ctx();
    let ch = changes(&t, cfg.n_lf, cfg.n_ms, 0);
    let i = right(&t).to_i();
    let a = make_interaction_image(&g, &i);
    classes(&t, c);
    if ch.is_empty() || s.chance(1, 8) {
        // the command draws that image
        c.say(format!("{}", t));
        let f = model_files(s, env, &t, &n);
        let name = format!("i{}", tid());
        let path = env.scratch.join(format!("{}.png", name));
        let _ = std::fs::remove_file(&path);
        cli(&["draw", &f.hsf, &f.hif, "-o", &name]).map_err(|e| Fail { sig: "command".into(), msg: e })?;
        let bytes = std::fs::read(&path).unwrap_or_default();
        ensure!(!bytes.is_empty(), "no image", "{} is not written", name);
        if !t.has_sync_op() {
            let other = env.scratch.join(format!("j{}.png", tid()));
            a.save(&other).unwrap();
            ensure!(bytes == std::fs::read(&other).unwrap(), "other image", "the command draws another image than that of the interaction");
        }
        c.label("command");
        c.nontrivial = t.size() >= 5;
        return Ok(());
    }
    let kinds: BTreeSet<&str> = ch.iter().map(|x| x.0).collect();
    let kind = *s.pick(&kinds.into_iter().collect::<Vec<_>>());
    let ch: Vec<&(&str, T)> = ch.iter().filter(|x| x.0 == kind).collect();
    let (what, u) = (*s.pick(&ch)).clone();
    c.say(format!("{}\n{}: {}", t, what, u));
    c.nontrivial = t.size() >= 3;
    c.label(what);
    ensure!(make_interaction_image(&g, &i) == a, "not deterministic", "two drawings of {} differ", t);
    if right(&u) == right(&t) {
        c.discard = true;
        return Ok(());
    }
    ensure!(make_interaction_image(&g, &right(&u).to_i()) != a, format!("same drawing: {}", what), "{} and {} are drawn alike", t, u);
    Ok(())
}

// a sequence diagram of our own, in black --------------------------------------------------------

struct Col {
    x0: f32,
    inner: f32,
    outer: f32,
    mid: f32,
}

struct Sheet<'a> {
    img: image::RgbImage,
    cols: BTreeMap<usize, Col>,
    n: &'a Names,
}

const INK: image::Rgb<u8> = image::Rgb([0, 0, 0]);

/// the operands of an operator, those of nested occurrences of the same one included
fn operands(t: &T) -> Vec<T> {
    fn go(t: &T, x: &T, out: &mut Vec<T>) {
        match (t, x) {
            (T::Strict(..), T::Strict(a, d)) | (T::Alt(..), T::Alt(a, d)) | (T::Par(..), T::Par(a, d)) => {
                go(t, a, out);
                go(t, d, out)
            }
            (T::CoReg(l, ..), T::CoReg(m, a, d)) if l == m => {
                go(t, a, out);
                go(t, d, out)
            }
            (T::Sync(l, ..), T::Sync(m, a, d)) if l == m => {
                go(t, a, out);
                go(t, d, out)
            }
            _ => out.push(x.clone()),
        }
    }
    let mut v = vec![];
    go(t, t, &mut v);
    v
}

fn rows(t: &T) -> u32 {
    match t {
        T::Empty => 0,
        T::Em { .. } | T::Re { .. } => 3,
        T::Seq(a, d) => rows(a) + rows(d) + 1,
        T::Loop(_, a) => rows(a) + 4,
        T::CoReg(..) => operands(t).iter().map(|x| rows(x) + 2).sum(),
        _ => 2 + operands(t).iter().map(|x| rows(x) + 2).sum::<u32>(),
    }
}

impl<'a> Sheet<'a> {
    fn y(row: u32) -> f32 {
        MARGIN + VERTICAL_SIZE * row as f32
    }

    fn line(&mut self, x1: f32, y1: f32, x2: f32, y2: f32) {
        draw_line_segment_mut(&mut self.img, (x1, y1), (x2, y2), INK)
    }

    fn text(&mut self, x: DrawCoord, y: f32, t: &str) {
        draw_line_of_colored_text(&mut self.img, &x, &DrawCoord::CenteredAround(y), &vec![TextToPrint::new(t.to_string(), INK)], &get_hibou_font(), &HIBOU_FONT_SCALE)
    }

    /// the line of an exchange: double when it is synchronous
    fn exchange(&mut self, sync: bool, x1: f32, x2: f32, y: f32) {
        if sync {
            self.line(x1, y - 1.5, x2, y - 1.5);
            self.line(x1, y + 1.5, x2, y + 1.5);
        } else {
            self.line(x1, y, x2, y);
        }
    }

    fn head(&mut self, x: f32, y: f32, right: bool) {
        let d = if right { -ARROW_HEAD_LENGTH } else { ARROW_HEAD_LENGTH };
        self.line(x, y, x + d, y - ARROW_HEAD_LENGTH);
        self.line(x, y, x + d, y + ARROW_HEAD_LENGTH);
    }

    fn gate(&mut self, x: f32, y: f32) {
        draw_filled_rect_mut(&mut self.img, Rect::at(x as i32, (y - GATE_SIZE / 2.0) as i32).of_size(GATE_SIZE as u32, GATE_SIZE as u32), INK)
    }

    /// the lifelines that are touched: the first and the last one
    fn draw(&mut self, t: &T, nest: u32, row: u32) -> Option<(usize, usize)> {
        let join = |a: Option<(usize, usize)>, d: Option<(usize, usize)>| match (a, d) {
            (Some(a), Some(d)) => Some((a.0.min(d.0), a.1.max(d.1))),
            (a, d) => a.or(d),
        };
        let (ty, ay) = (Self::y(row) + VERTICAL_SIZE / 2.0, Self::y(row + 2));
        let w = self.img.width() as f32;
        match t {
            T::Empty => None,
            T::Em { lf, ms, sync, tgts } => {
                let m = self.n.ms[*ms].clone();
                let o = &self.cols[lf];
                let (om, oi) = (o.mid, o.inner);
                match tgts[..] {
                    [Tgt::Lf(l)] => {
                        let x = self.cols[&l].mid;
                        // next to the sender
                        let by = if l > *lf { self.cols.range(lf + 1..).next() } else { self.cols.range(..lf).next_back() }.unwrap().1.mid;
                        self.head(x, ay, l > *lf);
                        self.exchange(*sync, x, om, ay);
                        self.text(DrawCoord::CenteredAround((om + by) / 2.0), ty, &m);
                        Some((l.min(*lf), l.max(*lf)))
                    }
                    [Tgt::Gt(_)] => {
                        self.gate(w - GATE_SIZE, ay);
                        self.head(w, ay, true);
                        self.exchange(*sync, om, w, ay);
                        self.text(DrawCoord::CenteredAround((om + w) / 2.0), ty, &m);
                        Some((*lf, *lf))
                    }
                    _ => {
                        let end = om + oi / 2.0;
                        self.head(end, ay, true);
                        self.exchange(*sync, om, end, ay);
                        self.text(DrawCoord::CenteredAround((om + end) / 2.0), ty, &m);
                        let mut r = (*lf, *lf);
                        for x in tgts {
                            match x {
                                Tgt::Lf(l) => {
                                    r = (r.0.min(*l), r.1.max(*l));
                                    let (x, i) = (self.cols[l].mid, self.cols[l].inner);
                                    self.head(x, ay, true);
                                    self.exchange(*sync, x - i / 2.0, x, ay);
                                }
                                Tgt::Gt(_) => {
                                    self.gate(w - GATE_SIZE, ay);
                                    self.head(w, ay, true);
                                    self.exchange(*sync, w - (HORIZONTAL_SIZE - 2.0 * MARGIN) / 3.0, w, ay);
                                }
                            }
                        }
                        Some(r)
                    }
                }
            }
            T::Re { gt, ms, sync, lfs } => {
                let m = self.n.ms[*ms].clone();
                if gt.is_some() {
                    let end = HORIZONTAL_SIZE / 3.5;
                    self.gate(0.0, ay);
                    self.exchange(*sync, 0.0, end, ay);
                    self.head(end, ay, true);
                    self.text(DrawCoord::CenteredAround(end / 2.0), ty, &m);
                }
                for l in lfs {
                    let (x, i) = (self.cols[l].mid, self.cols[l].inner);
                    self.head(x, ay, true);
                    self.exchange(*sync, x - i / 2.0, x, ay);
                    self.text(DrawCoord::CenteredAround((x - i / 2.0 + x) / 2.0), ty, &m);
                }
                Some((*lfs.iter().min()?, *lfs.iter().max()?))
            }
            T::Seq(a, d) => {
                let r = self.draw(a, nest, row);
                let q = self.draw(d, nest, row + rows(a) + 1);
                join(r, q)
            }
            T::Loop(k, a) => {
                let r = self.draw(a, nest + 1, row + 3);
                let name = match k {
                    LK::S => "loopS",
                    LK::H => "loopH",
                    LK::W => "loopW",
                    LK::P => "loopP",
                };
                self.frame(name, nest, r, &[row, row + rows(t)]);
                r
            }
            T::CoReg(on, ..) => {
                let mut r = None;
                let mut at = vec![row];
                let mut y = row;
                for x in operands(t) {
                    r = join(r, self.draw(&x, nest + 1, y + 1));
                    y += rows(&x) + 2;
                    at.push(y);
                }
                for l in on {
                    let (mid, outer) = match self.cols.get(l) {
                        Some(c) => (c.mid, c.outer),
                        None => continue,
                    };
                    let d = nest as f32 * FRAGMENT_PADDING;
                    let (x1, x2) = (mid - outer / 2.0 + d, mid + outer / 2.0 - d);
                    for (k, y) in at.iter().enumerate() {
                        let y = Self::y(*y);
                        self.line(x1, y, x2, y);
                        // brackets
                        let (up, down) = if k == 0 {
                            (0.0, VERTICAL_SIZE / 2.0)
                        } else if k + 1 == at.len() {
                            (VERTICAL_SIZE / 2.0, 0.0)
                        } else {
                            (VERTICAL_SIZE / 4.0, VERTICAL_SIZE / 4.0)
                        };
                        for x in [x1, x2] {
                            self.line(x, y - up, x, y + down);
                        }
                    }
                }
                r
            }
            _ => {
                let mut r = None;
                let mut at = vec![row];
                let mut y = row + 2;
                for x in operands(t) {
                    r = join(r, self.draw(&x, nest + 1, y + 1));
                    y += rows(&x) + 2;
                    at.push(y);
                }
                let name = match t {
                    T::Strict(..) => "strict".to_string(),
                    T::Alt(..) => "alt".to_string(),
                    T::Par(..) => "par".to_string(),
                    T::Sync(l, ..) => {
                        let ts: BTreeSet<TraceAction> = l.iter().map(|a| a.to_ta()).collect();
                        format!("sync{{{}}}", ts.iter().map(|a| ta_text(self.n, &Act::from_ta(a))).collect::<Vec<_>>().join(","))
                    }
                    _ => unreachable!(),
                };
                self.frame(&name, nest, r, &at);
                r
            }
        }
    }

    fn frame(&mut self, name: &str, nest: u32, on: Option<(usize, usize)>, at: &[u32]) {
        let on = match on {
            Some(x) => x,
            None => return,
        };
        let d = nest as f32 * FRAGMENT_PADDING;
        let (a, z) = (&self.cols[&on.0], &self.cols[&on.1]);
        let (x1, x2) = (a.x0 + d, z.x0 + z.outer - d);
        let (y1, y2) = (Self::y(at[0]), Self::y(at[at.len() - 1]));
        self.line(x1, y1, x1, y2);
        self.line(x2, y1, x2, y2);
        for y in at {
            self.line(x1, Self::y(*y), x2, Self::y(*y));
        }
        self.text(DrawCoord::StartingAt(x1 + FRAGMENT_TITLE_MARGIN), y1 + VERTICAL_SIZE + FRAGMENT_TITLE_MARGIN, name);
    }
}

fn sheet(t: &T, n: &Names) -> image::RgbImage {
    let on = t.lfs();
    let mut cols = BTreeMap::new();
    let mut x = MARGIN;
    for l in &on {
        let inner = (HORIZONTAL_SIZE - 2.0 * MARGIN).max(2.0 * MARGIN + n.lf[*l].len() as f32 * FONT_WIDTH / 2.0);
        let outer = inner + 2.0 * MARGIN;
        cols.insert(*l, Col { x0: x, inner, outer, mid: x + outer / 2.0 + THICKNESS });
        x = x + outer + MARGIN;
    }
    let h = (rows(t) + 4) as f32 * VERTICAL_SIZE;
    let mut img = image::RgbImage::new(x as u32, (h + 2.0 * MARGIN) as u32);
    for p in img.pixels_mut() {
        *p = image::Rgb([255, 255, 255]);
    }
    let mut sh = Sheet { img, cols, n };
    for l in &on {
        let mid = sh.cols[l].mid;
        let w = FONT_WIDTH * n.lf[*l].chars().count() as f32 / 2.0 + 2.0 * MARGIN;
        let down = MARGIN + 2.0 * VERTICAL_SIZE;
        sh.text(DrawCoord::CenteredAround(mid), MARGIN + VERTICAL_SIZE, &n.lf[*l]);
        draw_hollow_rect_mut(&mut sh.img, Rect::at((mid - w / 2.0) as i32, MARGIN as i32).of_size(w as u32, (2.0 * VERTICAL_SIZE) as u32), INK);
        sh.line(mid, down, mid, MARGIN + h);
    }
    sh.draw(t, 1, 3);
    sh.img
}

/// sequence diagrams against drawings of our own
fn draw_layout(s: &mut Src, c: &mut Case, _env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.self_comm = false;
    cfg.max_size = s.range(1, 14);
    cfg.max_loops = 4;
    let mut t = match s.below(4) {
        0 => gen_shared(s, &cfg),
        _ => gen_term(s, &cfg),
    };
    t = widen(s, &mut cfg, t);
    let n = if s.chance(1, 2) { Names::gen(s, cfg.n_lf, cfg.n_ms, cfg.n_gt) } else { Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt) };
    c.say(format!("{} with {:?}", t, n));
    classes(&t, c);
    c.nontrivial = t.size() >= 5;
    let a = make_interaction_image(&n.ctx(), &t.to_i());
    let d = sheet(&t, &n);
    ensure!(a.dimensions() == d.dimensions(), "size of the diagram", "{:?} instead of {:?}", a.dimensions(), d.dimensions());
    if !same_ink(&a, &d) {
        let (x, y, _) = a
            .enumerate_pixels()
            .find(|(x, y, p)| {
                let one = |p: &image::Rgb<u8>| image::RgbImage::from_pixel(1, 1, *p);
                !same_ink(&one(p), &one(d.get_pixel(*x, *y)))
            })
            .unwrap();
        if std::env::var("VERIF_KEEP").is_ok() {
            a.save("/tmp/a.png").unwrap();
            d.save("/tmp/d.png").unwrap();
        }
        return fail("another diagram", format!("the images differ, first at {} {}", x, y));
    }
    Ok(())
}

// C30 -------------------------------------------------------------------------------------------

pub fn printed(out: &[String], key: &str) -> Option<String> {
    out.iter().find_map(|l| l.find(key).map(|p| l[p + key.len()..].trim_start_matches(|x| x == ' ' || x == ':').trim().to_string()))
}

struct Opts {
    sd: bool,
    tt: bool,
    legend: bool,
    svg: bool,
    folder: Option<&'static str>,
}

fn opts(s: &mut Src) -> (Opts, String) {
    let o = Opts { sd: s.chance(1, 2), tt: s.chance(1, 2), legend: s.chance(2, 3), svg: s.chance(1, 2), folder: if s.chance(1, 4) { Some("fo") } else { None } };
    let mut v = vec![format!("draw_sd={}", o.sd), format!("draw_tt={}", o.tt), if o.svg { "svg".into() } else { "png".into() }, "name=gr".to_string()];
    if !o.legend || s.chance(1, 2) {
        v.push(format!("draw_legend={}", o.legend));
    }
    if let Some(f) = o.folder {
        v.push(format!("folder={}", f));
    }
    s.shuffle(&mut v);
    (o, format!("graphic[{}]", v.join(",")))
}

fn read_graph(dir: &Path, o: &Opts) -> Result<(Dot, String), Fail> {
    let p = match o.folder {
        Some(f) => dir.join(f).join("gr.dot"),
        None => dir.join("gr.dot"),
    };
    let text = std::fs::read_to_string(&p).map_err(|e| Fail { sig: "no graph".into(), msg: format!("{:?}: {}", p, e) })?;
    let d = dot_parse(&text).map_err(|e| Fail { sig: "not a graph".into(), msg: format!("{} in\n{}", e, text) })?;
    let mut ids = HashSet::new();
    for x in d.nodes.iter().filter(|x| !x.0.starts_with("s_")) {
        if !ids.insert(&x.0) {
            return Err(Fail { sig: "not a graph".into(), msg: format!("two nodes {} in\n{}", x.0, text) });
        }
    }
    Ok((d, text))
}

/// if dot is there, it accepts the graph
fn dotted(dir: &Path, o: &Opts) -> Res {
    if !["/usr/bin/dot", "/usr/local/bin/dot", "/bin/dot"].iter().any(|p| Path::new(p).exists()) {
        return Ok(());
    }
    let f = format!("gr.{}", if o.svg { "svg" } else { "png" });
    let p = match o.folder {
        Some(x) => dir.join(x).join(&f),
        None => dir.join(&f),
    };
    let n = std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0);
    ensure!(n > 0, "not rendered", "dot does not render {}", f);
    Ok(())
}

pub fn num(x: &str, prefix: &str) -> Option<u32> {
    x.strip_prefix(prefix).and_then(|y| y.parse().ok())
}

/// the drawing of an interaction at a node of a graph
fn check_repr(d: &Dot, dir: &Path, node: &str, i: &Interaction, sd: bool, g: &hibou_label::core::general_context::GeneralContext, n: &Names) -> Res {
    let img = d.attr(node, "image");
    if *i == Interaction::Empty {
        ensure!(img.is_none(), "drawn node", "{} of an empty interaction has an image", node);
        return Ok(());
    }
    ensure!(img == Some(&format!("graphviz_temp_l1/{}.png", node)), "drawn node", "{} has the image {:?}", node, img);
    if sd {
        let other = dir.join("other.png");
        make_interaction_image(g, i).save(&other).unwrap();
        let a = std::fs::read(dir.join(img.unwrap())).unwrap_or_default();
        ensure!(a == std::fs::read(&other).unwrap(), "drawn node", "{} is not the sequence diagram of {}", node, T::from_i(i));
    } else {
        let text = std::fs::read_to_string(dir.join("temp").join(format!("{}.dot", node))).unwrap_or_default();
        let got = tree_of(&text).map_err(|e| Fail { sig: "not a tree".into(), msg: format!("{} in\n{}", e, text) })?;
        let want = tree(&T::from_i(i), n);
        ensure!(got == want, "drawn node", "{} is {:?} instead of {:?}", node, got, want);
    }
    Ok(())
}

/// the targets and sources of the steps: (step, from, to)
fn steps(d: &Dot) -> Result<Vec<(String, u32, u32)>, Fail> {
    let bad = |m: String| Fail { sig: "steps".into(), msg: m };
    let node = |x: &str| num(x, "n").or(num(x, "a"));
    let mut out = vec![];
    let mut used = 0;
    for (id, _, _) in d.nodes.iter().filter(|x| x.0.starts_with("s_")) {
        if out.iter().any(|x: &(String, u32, u32)| x.0 == *id) {
            return Err(bad(format!("two steps {}", id)));
        }
        let a: Vec<Option<u32>> = d.edges.iter().filter(|e| e.1 == *id).map(|e| node(&e.0)).collect();
        let b: Vec<Option<u32>> = d.edges.iter().filter(|e| e.0 == *id).map(|e| node(&e.1)).collect();
        match (&a[..], &b[..]) {
            ([Some(x)], [Some(y)]) => out.push((id.clone(), *x, *y)),
            _ => return Err(bad(format!("step {} has {} sources and {} targets", id, a.len(), b.len()))),
        }
        used += 2;
    }
    for (a, b) in &d.edges {
        if node(a).is_some() && (num(b, "e").is_some() || num(b, "v").is_some()) {
            used += 1;
        }
    }
    if used != d.edges.len() {
        return Err(bad(format!("{} edges of {} are of no step, filter or verdict", d.edges.len() - used, d.edges.len())));
    }
    Ok(out)
}

fn graph_explore(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.self_comm = false;
    cfg.max_size = s.range(1, 7);
    let t = if s.chance(1, 3) { gen_shared(s, &cfg) } else { gen_term(s, &cfg) };
    if t.any(&mut |x| matches!(x, T::Sync(l, ..) if l.is_empty())) {
        c.discard = true;
        return Ok(());
    }
    let n = if s.chance(1, 4) { Names::gen(s, cfg.n_lf, cfg.n_ms, cfg.n_gt) } else { Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt) };
    let g = n.ctx();
    let (o, gr) = opts(s);
    let memo = s.chance(1, 2);
    let strat = s.below(3);
    let depth = if s.chance(1, 2) { Some(s.below(4)) } else { None };
    let lo = if s.chance(1, 2) { Some(s.below(3)) } else { None };
    let max = s.range(1, 12);
    let mut fl = vec![];
    let mut shown = vec![];
    if let Some(d) = depth {
        fl.push(format!("max_depth={}", d));
        shown.push(format!("MaxDepth={}", d));
    }
    if let Some(d) = lo {
        fl.push(format!("max_loop_depth={}", d));
        shown.push(format!("MaxLoop={}", d));
    }
    fl.push(format!("max_node_number={}", max));
    shown.push(format!("MaxNum={}", max));
    let txt = format!("@explore_option{{ loggers=[{}]; strategy={}; memoize={}; filters=[{}] }}", gr, ["BFS", "DFS", "HCS"][strat], memo, fl.join(","));
    c.say(format!("{} with {:?}\n{}", t, n, txt));
    classes(&t, c);
    let f = model_files(s, env, &t, &n);
    let h = put(env, ".hcf", &txt);
    let dir = run_dir(env, "e");
    let with_dot = s.chance(1, 40);
    let out = match run_tool(&dir, &["explore", &f.hsf, &f.hif, &h], if with_dot { "/usr/local/bin:/usr/bin:/bin" } else { "" })? {
        Some(x) => x,
        None => {
            c.discard = true;
            c.label("too long");
            return Ok(());
        }
    };
    let (d, text) = read_graph(&dir, &o)?;
    if with_dot {
        c.label("rendered");
        dotted(&dir, &o)?;
    }
    let clusters = o.sd && o.tt;
    let ids: BTreeSet<u32> = if clusters { d.clusters.iter().filter_map(|x| num(x, "n")).collect() } else { d.nodes.iter().filter_map(|x| num(&x.0, "n")).collect() };
    ensure!(ids.contains(&1), "initial node", "no node 1 in\n{}", text);
    let count = printed(&out, "node count");
    ensure!(count == Some(ids.len().to_string()), "node count", "{} nodes drawn, '{:?}' printed", ids.len(), count);
    c.nontrivial = ids.len() >= 3;
    // from the initial node, along the steps
    let st = steps(&d)?;
    let i0 = parse_hif_file(&g, &f.hif).map_err(|e| Fail { sig: "unreadable".into(), msg: e.to_string() })?;
    let mut int: BTreeMap<u32, Interaction> = [(1, i0)].into_iter().collect();
    let mut todo = vec![1u32];
    let mut dead = false;
    let mut seen_steps = 0;
    while let Some(k) = todo.pop() {
        let i = int[&k].clone();
        let all: Vec<Succ> = succs(&i);
        let mut done: HashSet<String> = HashSet::new();
        for (id, _, to) in st.iter().filter(|x| x.1 == k) {
            let p = match id.strip_prefix(&format!("s_{}_{}_", k, to)) {
                Some(p) => p.to_string(),
                None => return fail("steps", format!("{} goes from {} to {}", id, k, to)),
            };
            let x = match all.iter().find(|x| format!("{:?}", x.pos) == p) {
                Some(x) => x,
                None => return fail("steps", format!("{} is no step of {}", id, T::from_i(&i))),
            };
            ensure!(done.insert(p), "steps", "{} twice", id);
            seen_steps += 1;
            ensure!(ids.contains(to), "steps", "{} goes to an unknown node", id);
            match int.get(to) {
                None => {
                    int.insert(*to, x.to.clone());
                    todo.push(*to);
                }
                Some(j) => {
                    ensure!(memo, "steps", "two steps to node {} without memoization", to);
                    ensure!(*j == x.to, "steps", "{} goes to {} instead of {}", id, T::from_i(j), T::from_i(&x.to));
                }
            }
            let img = d.attr(id, "image");
            ensure!(img == Some(&format!("graphviz_temp_l1/{}.png", id)), "drawn step", "{} has the image {:?}", id, img);
            ensure!(reads(&dir, &dir.join(img.unwrap()), &[fired(&n, &x.acts, &x.pos)], true), "drawn step", "{} is not the drawing of the execution of {:?}", id, x.acts);
        }
        let anchor = format!("{}{}", if clusters { "a" } else { "n" }, k);
        let mut filtered = 0;
        for (_, e) in d.edges.iter().filter(|e| e.0 == anchor && num(&e.1, "e").is_some()) {
            filtered += 1;
            let l = d.attr(e, "label").cloned().unwrap_or_default();
            let ok = match l.as_str() {
                "MaxDepth" => depth.is_some(),
                "MaxLoop" => lo.is_some(),
                "MaxNum" => ids.len() >= max.max(1),
                _ => false,
            };
            ensure!(ok, "filtered step", "step of node {} removed by '{}'", k, l);
            c.label("filtered step");
        }
        ensure!(done.len() + filtered == all.len(), "steps", "{} steps and {} filtered ones of node {} for {} steps of {}", done.len(), filtered, k, all.len(), T::from_i(&i));
        let v = format!("v{}", k);
        let label = d.attr(&v, "label").map(|x| x.as_str());
        let null = nullable(&T::from_i(&i));
        let want = if null {
            Some("Accepting")
        } else if all.is_empty() {
            Some("DeadLocked")
        } else {
            None
        };
        dead |= want == Some("DeadLocked");
        ensure!(label == want, "verdict of a node", "{:?} instead of {:?} for node {} {}", label, want, k, T::from_i(&i));
        ensure!(want.is_none() || d.edges.contains(&(anchor.clone(), v.clone())), "verdict of a node", "no edge to {}", v);
        if clusters {
            let inside: BTreeSet<String> = d.nodes.iter().filter(|x| x.2 == format!("n{}", k)).map(|x| x.0.clone()).collect();
            let want: BTreeSet<String> = [format!("a{}", k), format!("isd{}", k), format!("itt{}", k)].into_iter().collect();
            ensure!(inside == want, "drawn node", "node {} contains {:?}", k, inside);
            check_repr(&d, &dir, &format!("isd{}", k), &i, true, &g, &n)?;
            check_repr(&d, &dir, &format!("itt{}", k), &i, false, &g, &n)?;
        } else if o.sd || o.tt {
            check_repr(&d, &dir, &format!("n{}", k), &i, o.sd, &g, &n)?;
        }
    }
    ensure!(int.len() == ids.len() && seen_steps == st.len(), "steps", "{} of {} nodes and {} of {} steps are reached", int.len(), ids.len(), seen_steps, st.len());
    c.label_if(dead, "deadlock");
    c.label_if(memo && st.len() >= int.len(), "memoized step");
    c.label(if clusters { "two drawings" } else if o.sd { "sequence diagrams" } else if o.tt { "term trees" } else { "no drawing" });
    // the legend
    ensure!(d.has("param") == o.legend && d.has("verdict") == o.legend, "legend", "legend: {} and {}", d.has("param"), d.has("verdict"));
    if o.legend {
        let l: Vec<&str> = d.attr("param", "label").unwrap().lines().map(|x| x.trim()).collect();
        for want in [
            "process = semantic exploration".to_string(),
            format!("strategy={}", ["BreadthFirstSearch", "DepthFirstSearch", "HighCoverageSearch"][strat]),
            format!("memoize={}", memo),
        ] {
            ensure!(l.contains(&want.as_str()), "legend", "no '{}' in {:?}", want, l);
        }
        let fs: BTreeSet<&str> = l.iter().find_map(|x| x.strip_prefix("filters=[")).unwrap_or("").trim_end_matches(']').split(',').filter(|x| !x.is_empty()).collect();
        ensure!(fs == shown.iter().map(|x| x.as_str()).collect(), "legend", "filters {:?} instead of {:?}", fs, shown);
        let v = d.attr("verdict", "label").unwrap();
        ensure!(v == if dead { "verdict=HasDeadLocks" } else { "verdict=FoundNoDeadLocks" }, "legend", "'{}' with deadlocks: {}", v, dead);
    }
    Ok(())
}

fn graph_canonize(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.self_comm = false;
    cfg.max_size = s.range(2, 7);
    let t = if s.chance(1, 3) { gen_shared(s, &cfg) } else { gen_term(s, &cfg) };
    if t.any(&mut |x| matches!(x, T::Sync(l, ..) if l.is_empty())) {
        c.discard = true;
        return Ok(());
    }
    let n = Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt);
    let g = n.ctx();
    let (mut o, _) = opts(s);
    o.tt = true;
    let gr = format!("graphic[draw_sd={},draw_tt=true,{},name=gr,draw_legend={}{}]", o.sd, if o.svg { "svg" } else { "png" }, o.legend, o.folder.map_or("".into(), |f| format!(",folder={}", f)));
    let all = t.size() <= 6 && s.chance(1, 2);
    let txt = format!("@canonize_option{{ loggers=[{}]{} }}", gr, if all { "; search_all" } else { "" });
    c.say(format!("{}\n{}", t, txt));
    classes(&t, c);
    let f = model_files(s, env, &t, &n);
    let h = put(env, ".hcf", &txt);
    let dir = run_dir(env, "c");
    let out = match run_tool(&dir, &["canonize", &f.hsf, &f.hif, &h], "")? {
        Some(x) => x,
        None => {
            c.discard = true;
            c.label("too long");
            return Ok(());
        }
    };
    let (d, text) = read_graph(&dir, &o)?;
    let ids: BTreeSet<u32> = d.clusters.iter().filter_map(|x| num(x, "n")).collect();
    ensure!(ids.contains(&1), "initial node", "no node 1 in\n{}", text);
    let count = printed(&out, "node count");
    ensure!(count == Some(ids.len().to_string()), "node count", "{} nodes drawn, '{:?}' printed", ids.len(), count);
    if d.nodes.iter().any(|x| num(&x.0, "e").is_some()) || ids.len() >= 60 {
        c.discard = true;
        return Ok(());
    }
    c.nontrivial = ids.len() >= 6;
    let mut tr: BTreeMap<u32, Tree> = BTreeMap::new();
    for k in &ids {
        let x = format!("itt{}", k);
        ensure!(d.has(&x), "drawn node", "node {} has no drawing", k);
        tr.insert(
            *k,
            match d.attr(&x, "image") {
                None => Tree("o".into(), vec![]),
                Some(_) => {
                    let text = std::fs::read_to_string(dir.join("temp").join(format!("{}.dot", x))).unwrap_or_default();
                    tree_of(&text).map_err(|e| Fail { sig: "not a tree".into(), msg: format!("{} in\n{}", e, text) })?
                }
            },
        );
    }
    let i0 = parse_hif_file(&g, &f.hif).map_err(|e| Fail { sig: "unreadable".into(), msg: e.to_string() })?;
    ensure!(tr[&1] == tree(&T::from_i(&i0), &n), "initial node", "{:?} for {}", tr[&1], t);
    // (steps to the same node have the same name)
    let mut edges: BTreeSet<(u32, u32)> = BTreeSet::new();
    for (a, b) in &d.edges {
        if let (Some(k), true) = (num(a, "a"), b.starts_with("s_")) {
            let v: Vec<&str> = b.split('_').collect();
            ensure!(v.len() == 3 && v[1] == k.to_string(), "steps", "{} -> {}", a, b);
            let to: u32 = v[2].parse().unwrap_or(0);
            ensure!(ids.contains(&to) && d.edges.contains(&(b.clone(), format!("a{}", to))), "steps", "{} leads to no node", b);
            ensure!(d.has(b), "steps", "{} is not defined", b);
            edges.insert((k, to));
        }
    }
    // every node is reached; the ends are the canonical form(s)
    let mut seen: BTreeSet<u32> = [1].into_iter().collect();
    let mut todo = vec![1];
    while let Some(k) = todo.pop() {
        for (_, b) in edges.iter().filter(|e| e.0 == k) {
            if seen.insert(*b) {
                todo.push(*b)
            }
        }
    }
    ensure!(seen == ids, "steps", "nodes {:?} of {:?} are reached", seen, ids);
    let ends: BTreeSet<u32> = ids.iter().filter(|k| !edges.iter().any(|e| e.0 == **k)).cloned().collect();
    ensure!(!ends.is_empty(), "canonical form", "no end in\n{}", text);
    let canon = tree(&T::from_i(&canonize_interaction(&g, &i0, Dcp::FivePhases)), &n);
    if all {
        c.label("all");
        ensure!(ends.iter().any(|k| tr[k] == canon), "canonical form", "{:?} instead of {:?}", ends.iter().map(|k| &tr[k]).collect::<Vec<_>>(), canon);
    } else {
        for k in &ends {
            ensure!(tr[k] == canon, "canonical form", "{:?} instead of {:?}", tr[k], canon);
        }
    }
    Ok(())
}

/// the state of an analysis at a node of its graph
#[derive(Clone)]
struct State {
    i: Interaction,
    used: Vec<usize>,
    hidden: Vec<bool>,
    dirty: Vec<u32>,
    before: Vec<u32>,
    after: Vec<u32>,
    loops: u32,
    acts: u32,
}

fn graph_analysis(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let w = Want { sync_op: true, sync_comm: true, max_size: 9, max_len: 6, loops: 2, modes: [3, 3, 3, 1, 2], shared: false };
    let x = match gen_setting(s, &w) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    let self_comm = x.t.any(&mut |y| match y {
        T::Em { lf, tgts, .. } => tgts.contains(&Tgt::Lf(*lf)),
        _ => false,
    });
    let kind = s.below(4);
    if x.t.any(&mut |y| matches!(y, T::Sync(l, ..) if l.is_empty())) || kind == 2 && x.t.has_sync_op() {
        c.discard = true;
        return Ok(());
    }
    let n = Names::plain(x.cfg.n_lf, x.cfg.n_ms, x.cfg.n_gt);
    let g = n.ctx();
    let (mut o, mut gr) = opts(s);
    if self_comm && o.sd {
        // (not drawn as sequence diagrams)
        gr = gr.replace("draw_sd=true", "draw_sd=false");
        o.sd = false;
    }
    // (a node may be merged with one on which more lifelines are eliminated, provided that the interaction is the same)
    let memo = s.chance(1, 2) && kind < 2;
    let strat = s.below(3);
    let kinds = ["accept", "prefix", "eliminate", "simulate"];
    let sc = SimulationConfiguration::new(
        s.chance(1, 2),
        s.chance(1, 2),
        s.chance(1, 3),
        match s.below(4) {
            0 if !x.t.has_loop() => SimulationLoopCriterion::None,
            0 | 1 => SimulationLoopCriterion::SpecificNum(s.below(3) as u32),
            2 => SimulationLoopCriterion::MaxNum,
            _ => SimulationLoopCriterion::MaxDepth,
        },
        match s.below(3) {
            0 => SimulationActionCriterion::None,
            1 => SimulationActionCriterion::SpecificNum(s.below(5) as u32),
            _ => SimulationActionCriterion::MaxNumOutsideLoops,
        },
    );
    let how = if kind == 3 {
        let mut v = vec![
            format!("before={}", sc.sim_before),
            format!("reset={}", sc.reset_crit_after_exec),
            format!("multiply={}", sc.multiply_by_multitrace_length),
            match &sc.loop_crit {
                SimulationLoopCriterion::None => "loop none".to_string(),
                SimulationLoopCriterion::SpecificNum(n) => format!("loop num={}", n),
                SimulationLoopCriterion::MaxNum => "loop maxnum".to_string(),
                SimulationLoopCriterion::MaxDepth => "loop maxdepth".to_string(),
            },
            match &sc.act_crit {
                SimulationActionCriterion::None => "act none".to_string(),
                SimulationActionCriterion::SpecificNum(n) => format!("act num={}", n),
                SimulationActionCriterion::MaxNumOutsideLoops => "act maxnum".to_string(),
            },
        ];
        s.shuffle(&mut v);
        format!("simulate[{}]", v.join(","))
    } else {
        kinds[kind].to_string()
    };
    let goal = ["none", "none", "none", "WeakPass", "Pass"][s.below(5)];
    let txt = format!(
        "@analyze_option{{ loggers=[{}]; analysis_kind={}; local_analysis=none; strategy={}; memoize={}; goal={}; filters=[max_node_number=60] }}",
        gr,
        how,
        ["BFS", "DFS", "HCS"][strat],
        memo,
        goal
    );
    c.say(format!("{} on {}\n{}", x.t, show_mtr(&x.mu, &x.colocs), txt));
    classes(&x.t, c);
    let f = model_files(s, env, &x.t, &n);
    let h = put(env, ".hcf", &txt);
    let m = put(env, ".htf", &htf_text(&n, &x.colocs, &x.mu));
    let dir = run_dir(env, "a");
    let out = match run_tool(&dir, &["analyze", &f.hsf, &f.hif, &m, &h], "")? {
        Some(x) => x,
        None => {
            c.discard = true;
            c.label("too long");
            return Ok(());
        }
    };
    let (d, text) = read_graph(&dir, &o)?;
    let clusters = o.sd || o.tt;
    let ids: BTreeSet<u32> = if clusters { d.clusters.iter().filter_map(|x| num(x, "n")).collect() } else { d.nodes.iter().filter_map(|x| num(&x.0, "n")).collect() };
    ensure!(ids.contains(&1), "initial node", "no node 1 in\n{}", text);
    let count = printed(&out, "node count");
    ensure!(count == Some(ids.len().to_string()), "node count", "{} nodes drawn, '{:?}' printed", ids.len(), count);
    let verdict = printed(&out, "verdict").unwrap_or_default().trim_matches('\'').to_string();
    let cut = d.nodes.iter().any(|x| num(&x.0, "e").is_some());
    let colocs = CoLocalizations::new(x.colocs.clone());
    let of = |l: usize| x.colocs.iter().position(|c| c.contains(&l)).unwrap();
    let i0 = parse_hif_file(&g, &f.hif).map_err(|e| Fail { sig: "unreadable".into(), msg: e.to_string() })?;
    let k = x.colocs.len();
    let mut st: BTreeMap<u32, State> = BTreeMap::new();
    let len = mu_len(&x.mu);
    let (loops, acts) = if kind == 3 { sim_budget(&sc, &i0, len) } else { (0, 0) };
    st.insert(1, State { i: i0, used: vec![0; k], hidden: vec![false; k], dirty: vec![0; k], before: vec![0; k], after: vec![0; k], loops, acts });
    let mut todo = vec![1u32];
    let edges: BTreeSet<(String, String)> = d.edges.iter().cloned().collect();
    let full = goal == "none" && !cut;
    let mut locals: Vec<String> = vec![];
    let (mut n_steps, mut seen) = (0, 0);
    while let Some(id) = todo.pop() {
        seen += 1;
        let now = st[&id].clone();
        let anchor = format!("{}{}", if clusters { "a" } else { "n" }, id);
        // what may follow
        let over = now.used.iter().zip(&x.mu).all(|(u, m)| *u == m.len());
        let hide: BTreeSet<usize> = (0..k).filter(|c| kind == 2 && !now.hidden[*c] && now.used[*c] == x.mu[*c].len()).collect();
        let mut next: Vec<(String, Option<(Succ, BTreeSet<usize>, BTreeMap<usize, bool>)>, State)> = vec![];
        if over {
        } else if !hide.is_empty() {
            let lfs: BTreeSet<usize> = hide.iter().flat_map(|c| x.colocs[*c].iter().cloned()).collect();
            let hidden = (0..k).map(|c| now.hidden[c] || hide.contains(&c)).collect();
            next.push(("hide".into(), None, State { i: now.i.eliminate_lifelines(&lfs), hidden, ..now.clone() }));
        } else {
            for y in succs(&now.i) {
                let on: BTreeSet<usize> = y.acts.iter().map(|a| of(a.lf)).collect();
                let fits = |c: &usize| x.mu[*c].get(now.used[*c]).map_or(false, |h| *h == y.acts.iter().filter(|a| of(a.lf) == *c).cloned().collect());
                let on: Vec<usize> = on.into_iter().collect();
                let mut to = None;
                for w in 0..1usize << on.len() {
                    // some of the components are simulated
                    let (sim, cons): (Vec<usize>, Vec<usize>) = (0..on.len()).partition(|q| w >> q & 1 == 1);
                    let cons: BTreeSet<usize> = cons.into_iter().map(|q| on[q]).collect();
                    let sim: BTreeMap<usize, bool> = sim.into_iter().map(|q| (on[q], now.used[on[q]] < x.mu[on[q]].len())).collect();
                    let may = kind == 3
                        && sim.iter().all(|(c, before)| !before || sc.sim_before && now.used[*c] == 0)
                        && (sc.loop_crit == SimulationLoopCriterion::None || y.loops <= now.loops)
                        && (sc.act_crit == SimulationActionCriterion::None || now.acts >= 1);
                    if !cons.iter().all(fits) || !sim.is_empty() && !may {
                        continue;
                    }
                    let (after_i, affected) = to
                        .get_or_insert_with(|| {
                            let r = execute_interaction(&now.i, &y.pos, &y.acts.iter().map(|a| a.lf).collect(), true);
                            (r.interaction, r.affected_lifelines)
                        })
                        .clone();
                    let hit = colocs.get_coloc_ids_from_lf_ids(&affected);
                    let used: Vec<usize> = (0..k).map(|c| now.used[c] + cons.contains(&c) as usize).collect();
                    let dirty = (0..k).map(|c| if now.dirty[c] > 0 { now.dirty[c] + 1 } else { hit.contains(&c) as u32 }).collect();
                    let before = (0..k).map(|c| now.before[c] + (sim.get(&c) == Some(&true)) as u32).collect();
                    let after = (0..k).map(|c| now.after[c] + (sim.get(&c) == Some(&false)) as u32).collect();
                    let mut z = State { i: after_i, used, dirty, before, after, ..now.clone() };
                    if kind == 3 {
                        let (l, a) = sim_budget(&sc, &z.i, len - z.used.iter().sum::<usize>());
                        if cons.is_empty() {
                            z.loops = l.min(now.loops.saturating_sub(y.loops));
                            z.acts = a.min(now.acts.saturating_sub(1));
                        } else if sc.reset_crit_after_exec {
                            z.loops = l;
                            z.acts = a;
                        }
                    }
                    next.push((format!("{:?} {:?} {:?}", y.pos, cons, sim), Some((y.clone(), cons, sim)), z));
                }
            }
        }
        // what follows
        let mut done: Vec<usize> = vec![];
        for (_, step) in edges.iter().filter(|e| e.0 == anchor && e.1.starts_with("s_")) {
            let to = match step.strip_prefix(&format!("s_{}_", id)).and_then(|y| y.parse::<u32>().ok()) {
                Some(t) => t,
                None => return fail("steps", format!("{} leaves node {}", step, id)),
            };
            ensure!(ids.contains(&to), "steps", "{} goes to an unknown node", step);
            let end = format!("{}{}", if clusters { "a" } else { "n" }, to);
            ensure!(edges.contains(&(step.clone(), end)) && d.has(step), "steps", "{} is not linked to node {}", step, to);
            n_steps += 1;
            let img = d.attr(step, "image");
            ensure!(img == Some(&format!("graphviz_temp_l1/{}.png", step)), "drawn step", "{} has the image {:?}", step, img);
            let png = dir.join(img.unwrap());
            let mut found = None;
            for (q, (_, y, z)) in next.iter().enumerate() {
                let fits = st.get(&to).map_or(true, |t| t.i == z.i && t.used == z.used && t.hidden == z.hidden);
                if !fits || done.contains(&q) {
                    continue;
                }
                match y {
                    Some((y, on, sim)) => {
                        if !reads_firing(&dir, &png, &n, &y.acts, &y.pos, &x.colocs, on, sim) {
                            continue;
                        }
                    }
                    None => {
                        let lfs: BTreeSet<usize> = hide.iter().flat_map(|c| x.colocs[*c].iter().cloned()).collect();
                        if !reads(&dir, &png, &[format!("eliminate lifelines {}", coloc_text(&n, &lfs))], true) {
                            continue;
                        }
                    }
                }
                // of two steps with the same drawing, the one that leads to the same node is the right one
                found = Some(q);
                break;
            }
            let q = match found {
                Some(q) => q,
                None => return fail("steps", format!("{} is no step of node {} {} {:?}", step, id, T::from_i(&now.i), now.used)),
            };
            done.push(q);
            let z = &next[q].2;
            if !st.contains_key(&to) {
                st.insert(to, z.clone());
                todo.push(to);
            } else {
                ensure!(memo, "steps", "two steps to node {} without memoization", to);
            }
        }
        let filtered = d.edges.iter().filter(|e| e.0 == anchor && num(&e.1, "e").is_some()).count();
        if full {
            // (with memoization several steps may go to the same node, under the same name)
            let missing = next.iter().enumerate().find(|(q, (_, _, z))| {
                !done.contains(q) && !(memo && done.iter().any(|r| next[*r].2.i == z.i && next[*r].2.used == z.used && next[*r].2.hidden == z.hidden))
            });
            if let Some((_, (p, _, z))) = missing {
                return fail("steps", format!("no step {} to {} {:?} from node {} {}", p, T::from_i(&z.i), z.used, id, T::from_i(&now.i)));
            }
        }
        // the local verdict
        let v = format!("v{}", id);
        let label = d.attr(&v, "label").cloned();
        let single = x.colocs.iter().all(|c| c.len() == 1);
        let null = nullable(&T::from_i(&now.i));
        let any_over = now.used.iter().zip(&x.mu).any(|(u, m)| *u == m.len());
        let want = if !next.is_empty() {
            None
        } else if over {
            Some(match kind {
                0 => if null { "Cov" } else { "Out" },
                1 => if null { "Cov" } else { "TooShort" },
                3 => if now.before.iter().any(|n| *n > 0) {
                    "Slice"
                } else if now.after.iter().any(|n| *n > 0) {
                    "MultiPref"
                } else if null { "Cov" } else { "TooShort" },
                _ => if now.hidden.iter().any(|h| *h) {
                    if single { "MultiPref" } else { "Inconc UsingLifelineRemovalWithCoLocalizations" }
                } else if null { "Cov" } else { "TooShort" },
            })
        } else if kind == 1 && any_over {
            Some("Inconc LackObs")
        } else if kind == 3 {
            Some("OutSim")
        } else {
            Some("Out")
        };
        if full || label.is_some() && filtered == 0 {
            ensure!(label.as_deref() == want, "local verdict", "{:?} instead of {:?} at node {} {} {:?}", label, want, id, T::from_i(&now.i), now.used);
        }
        if let Some(l) = label {
            ensure!(edges.contains(&(anchor.clone(), v.clone())), "local verdict", "no edge to {}", v);
            locals.push(l);
        }
        // the drawing
        let mu_node = if clusters { format!("mu{}", id) } else { format!("n{}", id) };
        let img = d.attr(&mu_node, "image");
        ensure!(img == Some(&format!("graphviz_temp_l1/{}.png", mu_node)), "drawn multi-trace", "{} has the image {:?}", mu_node, img);
        if !memo {
            let fl: Vec<Canal> = (0..k).map(|c| Canal { used: now.used[c], hidden: now.hidden[c], dirty: now.dirty[c], before: now.before[c], after: now.after[c] }).collect();
            let sim = if kind == 3 {
                Some((
                    if sc.loop_crit == SimulationLoopCriterion::None { None } else { Some(now.loops) },
                    if sc.act_crit == SimulationActionCriterion::None { None } else { Some(now.acts) },
                ))
            } else {
                None
            };
            let want = mu_lines(&n, &x.colocs, &x.mu, &fl, sim);
            ensure!(reads(&dir, &dir.join(img.unwrap()), &want, false), "drawn multi-trace", "{} is not the drawing {:#?} of the multi-trace at node {} {:?}", mu_node, want, id, now.used);
        }
        if clusters {
            let mut want: BTreeSet<String> = [format!("a{}", id), format!("mu{}", id)].into_iter().collect();
            if o.sd {
                want.insert(format!("isd{}", id));
                check_repr(&d, &dir, &format!("isd{}", id), &now.i, true, &g, &n)?;
            }
            if o.tt {
                want.insert(format!("itt{}", id));
                check_repr(&d, &dir, &format!("itt{}", id), &now.i, false, &g, &n)?;
            }
            let inside: BTreeSet<String> = d.nodes.iter().filter(|x| x.2 == format!("n{}", id)).map(|x| x.0.clone()).collect();
            ensure!(inside == want, "drawn node", "node {} contains {:?}", id, inside);
        }
    }
    ensure!(seen == ids.len(), "steps", "{} of {} nodes are reached", seen, ids.len());
    c.nontrivial = ids.len() >= 3;
    c.label(kinds[kind]);
    c.label_if(!full, "interrupted");
    c.label_if(memo && n_steps >= ids.len(), "memoized step");
    // the verdict follows from the local ones
    let has = |l: &str| locals.iter().any(|x| x == l);
    let inc = locals.iter().find(|x| x.starts_with("Inconc"));
    if !cut {
        let want = if has("Cov") {
            "Pass".to_string()
        } else if has("TooShort") || has("MultiPref") || has("Slice") {
            "WeakPass".to_string()
        } else if inc.is_some() {
            "Inconc".to_string()
        } else if has("OutSim") {
            "WeakFail".to_string()
        } else {
            "Fail".to_string()
        };
        ensure!(verdict.starts_with(&want), "verdict", "'{}' with the local verdicts {:?}", verdict, locals);
    }
    ensure!(d.has("param") == o.legend && d.has("verdict") == o.legend, "legend", "legend: {} and {}", d.has("param"), d.has("verdict"));
    if o.legend {
        let l: Vec<&str> = d.attr("param", "label").unwrap().lines().map(|x| x.trim()).collect();
        for want in [
            "process = analysis".to_string(),
            format!("analysis kind = {}", kinds[kind]),
            "local analysis = none".to_string(),
            format!("strategy={}", ["BreadthFirstSearch", "DepthFirstSearch", "HighCoverageSearch"][strat]),
            format!("memoize={}", memo),
            "filters=[MaxNum=60]".to_string(),
        ] {
            ensure!(l.iter().any(|y| y.starts_with(&want)), "legend", "no '{}' in {:?}", want, l);
        }
        let v = d.attr("verdict", "label").unwrap();
        ensure!(verdict.starts_with(v.trim_start_matches("verdict=")) , "legend", "'{}' in the legend, '{}' printed", v, verdict);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C29",
            rule: "a term of at least 5 symbols, resp. 3 for a pair of diagrams",
            assumptions: &["colours are not compared, and distances and sizes are those of the repository's constants"],
            suites: vec![
                Suite { name: "tree", quick: 20000, thorough: 400000, run: draw_tree },
                Suite { name: "diagram", quick: 24000, thorough: 400000, run: draw_sd },
                Suite { name: "layout", quick: 12000, thorough: 200000, run: draw_layout },
            ],
        },
        Prop {
            id: "C30",
            rule: "a graph of at least 3 nodes, resp. 6 for canonization",
            assumptions: &["the drawing of one interaction is the subject of C29, the steps and their order that of C13"],
            suites: vec![
                Suite { name: "explore", quick: 1600, thorough: 20000, run: graph_explore },
                Suite { name: "canonize", quick: 1600, thorough: 20000, run: graph_canonize },
                Suite { name: "analysis", quick: 1600, thorough: 20000, run: graph_analysis },
                Suite { name: "texts", quick: 12000, thorough: 300000, run: draw_texts },
            ],
        },
    ]
}
