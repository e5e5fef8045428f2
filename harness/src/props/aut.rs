//! The automata that are drawn: of the semantics of an interaction, of an exploration, of the analysis of a word.
use crate::cli::*;
use crate::common::*;
use crate::draw::{dot_parse, num, printed, Dot};
use crate::engine::*;
use crate::ensure;
use crate::explore::{gen_word, succs};
use crate::term::*;
use crate::text::*;
use hibou_label::core::language::syntax::interaction::Interaction;
use hibou_label::io::output::draw_interactions::as_sd::interaction_repr::interaction::make_interaction_image;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::Path;

type Letter = BTreeSet<Act>;
type Set = BTreeSet<usize>;

#[derive(Default, Clone, PartialEq, Debug)]
struct Aut {
    init: Set,
    fin: Set,
    to: Vec<BTreeMap<Letter, Set>>,
    eps: Vec<Set>,
    /// drawn as active
    lit: Set,
    /// colours of the states
    color: Vec<Option<String>>,
}

impl Aut {
    fn edges(&self) -> usize {
        self.to.iter().map(|m| m.values().map(|x| x.len()).sum::<usize>()).sum::<usize>() + self.eps.iter().map(|x| x.len()).sum::<usize>()
    }
    fn close(&self, q: &Set) -> Set {
        let mut out = q.clone();
        let mut todo: Vec<usize> = q.iter().cloned().collect();
        while let Some(x) = todo.pop() {
            for y in &self.eps[x] {
                if out.insert(*y) {
                    todo.push(*y)
                }
            }
        }
        out
    }
    fn start(&self) -> Set {
        self.close(&self.init)
    }
    fn next(&self, q: &Set) -> BTreeMap<Letter, Set> {
        let mut m: BTreeMap<Letter, Set> = BTreeMap::new();
        for x in q {
            for (l, t) in &self.to[*x] {
                m.entry(l.clone()).or_default().extend(t);
            }
        }
        m.into_iter().map(|(l, t)| (l, self.close(&t))).collect()
    }
    fn accepts(&self, q: &Set) -> bool {
        q.iter().any(|x| self.fin.contains(x))
    }
    fn hide(&self, lf: usize) -> Aut {
        let mut a = self.clone();
        for (q, m) in self.to.iter().enumerate() {
            for (l, t) in m.iter().filter(|x| x.0.iter().any(|a| a.lf == lf)) {
                a.to[q].remove(l);
                a.eps[q].extend(t);
            }
        }
        a
    }
    /// states and edges of the least deterministic automaton
    fn least(&self, cap: usize) -> Option<(usize, usize)> {
        let d: Vec<Vec<(Letter, usize)>> = self.to.iter().map(|m| m.iter().flat_map(|(l, q)| q.iter().map(|x| (l.clone(), *x)).collect::<Vec<_>>()).collect()).collect();
        crate::out::minimal(d.len(), &self.init, &|q| self.fin.contains(&q), &d, cap)
    }
    fn useful(&self) -> (Set, Set) {
        let all = |q: usize| -> Set { self.to[q].values().flatten().chain(&self.eps[q]).cloned().collect() };
        let mut acc = self.init.clone();
        let mut todo: Vec<usize> = acc.iter().cloned().collect();
        while let Some(q) = todo.pop() {
            for y in all(q) {
                if acc.insert(y) {
                    todo.push(y)
                }
            }
        }
        let mut co = self.fin.clone();
        loop {
            let more: Set = (0..self.to.len()).filter(|q| !co.contains(q) && all(*q).iter().any(|y| co.contains(y))).collect();
            if more.is_empty() {
                return (acc, co);
            }
            co.extend(more);
        }
    }
}

/// a word of a that is none of b (None: larger than the cap)
fn beyond(a: &Aut, b: &Aut, cap: usize) -> Option<Option<Vec<Letter>>> {
    let start = (a.start(), b.start());
    let mut seen: BTreeSet<(Set, Set)> = [start.clone()].into_iter().collect();
    let mut todo = std::collections::VecDeque::from(vec![(start.0, start.1, vec![])]);
    while let Some((x, y, w)) = todo.pop_front() {
        if a.accepts(&x) && !b.accepts(&y) {
            return Some(Some(w));
        }
        let my = b.next(&y);
        for (l, x2) in a.next(&x) {
            let y2 = my.get(&l).cloned().unwrap_or_default();
            if seen.insert((x2.clone(), y2.clone())) {
                if seen.len() > cap {
                    return None;
                }
                let mut w2: Vec<Letter> = w.clone();
                w2.push(l);
                todo.push_back((x2, y2, w2));
            }
        }
    }
    Some(None)
}

fn same(what: &str, a: &Aut, b: &Aut, c: &mut Case) -> Res {
    for (x, y, how) in [(a, b, "too many words"), (b, a, "missing words")] {
        match beyond(x, y, 20000) {
            None => {
                c.discard = true;
                return Ok(());
            }
            Some(Some(w)) => return Err(Fail { sig: how.into(), msg: format!("{}: {:?}", what, w) }),
            _ => {}
        }
    }
    Ok(())
}

/// the automaton of the executions within limits; None: larger than the cap
fn explored(i: &Interaction, loops: Option<u32>, depth: Option<u32>, cap: usize) -> Option<Aut> {
    let mut ids: HashMap<(Interaction, u32, u32), usize> = HashMap::new();
    let mut list = vec![(i.clone(), 0, 0)];
    ids.insert(list[0].clone(), 0);
    let mut a = Aut { init: [0].into_iter().collect(), ..Aut::default() };
    let mut k = 0;
    while k < list.len() {
        let (i, l, d) = list[k].clone();
        if nullable(&T::from_i(&i)) {
            a.fin.insert(k);
        }
        let mut m: BTreeMap<Letter, Set> = BTreeMap::new();
        for x in succs(&i) {
            let y = (x.to, if loops.is_some() { l + x.loops } else { 0 }, if depth.is_some() { d + 1 } else { 0 });
            if loops.map_or(false, |n| y.1 > n) || depth.map_or(false, |n| y.2 > n) {
                continue;
            }
            let id = *ids.entry(y.clone()).or_insert_with(|| {
                list.push(y);
                list.len() - 1
            });
            m.entry(x.acts).or_default().insert(id);
        }
        if list.len() > cap {
            return None;
        }
        a.to.push(m);
        a.eps.push(Set::new());
        k += 1;
    }
    Some(a)
}

/// number of executions within limits
fn paths(i: &Interaction, loops: Option<u32>, depth: u32, cap: usize) -> usize {
    let mut n = 0;
    let mut todo = vec![(i.clone(), 0, 0)];
    while let Some((i, l, d)) = todo.pop() {
        n += 1;
        if n > cap {
            break;
        }
        if d < depth {
            for x in succs(&i) {
                if loops.map_or(true, |m| l + x.loops <= m) {
                    todo.push((x.to, l + x.loops, d + 1));
                }
            }
        }
    }
    n
}

fn read_letter(n: &Names, text: &str) -> Option<Letter> {
    let one = |x: &str| -> Option<Act> {
        let p = x.find(|c| c == '!' || c == '?')?;
        let lf = n.lf.iter().position(|y| y == &x[..p])?;
        let ms = n.ms.iter().position(|y| y == &x[p + 1..])?;
        Some(act(lf, x[p..].starts_with('!'), ms))
    };
    match text.strip_prefix('{').and_then(|x| x.strip_suffix('}')) {
        None => Some([one(text)?].into_iter().collect()),
        Some(x) => {
            let v: Option<Vec<Act>> = x.split(',').map(one).collect();
            let v = v?;
            let s: Letter = v.iter().cloned().collect();
            if s.len() == v.len() && s.len() != 1 {
                Some(s)
            } else {
                None
            }
        }
    }
}

fn write_letter(n: &Names, l: &Letter) -> String {
    let v: Vec<String> = l.iter().map(|a| format!("{}{}{}", n.lf[a.lf], if a.emit { "!" } else { "?" }, n.ms[a.ms])).collect();
    if v.len() == 1 {
        v[0].clone()
    } else {
        format!("{{{}}}", v.join(","))
    }
}

fn read_aut(n: &Names, p: &Path) -> Result<Aut, Fail> {
    let text = std::fs::read_to_string(p).map_err(|e| Fail { sig: "no automaton".into(), msg: format!("{:?}: {}", p, e) })?;
    let bad = |m: String| Fail { sig: "not an automaton".into(), msg: format!("{} in\n{}", m, text) };
    let d = dot_parse(&text).map_err(|e| bad(e))?;
    let k = d.nodes.iter().filter(|x| x.0.starts_with('S')).count();
    let mut a = Aut { to: vec![BTreeMap::new(); k], eps: vec![Set::new(); k], color: vec![None; k], ..Aut::default() };
    let mut seen = HashSet::new();
    for (id, m, _) in &d.nodes {
        if !seen.insert(id.clone()) {
            return Err(bad(format!("two nodes {}", id)));
        }
        let shape = m.get("shape").map(|x| x.as_str()).unwrap_or("");
        match (num(id, "S"), num(id, "I")) {
            (Some(q), _) if (q as usize) < k && m.get("label") == Some(id) => {
                match shape {
                    "circle" => {}
                    "doublecircle" => {
                        a.fin.insert(q as usize);
                    }
                    _ => return Err(bad(format!("state {} of shape {}", id, shape))),
                }
                if m.get("fillcolor").is_some() {
                    a.lit.insert(q as usize);
                }
                a.color[q as usize] = m.get("color").cloned();
            }
            (_, Some(_)) if shape == "point" => {}
            _ => return Err(bad(format!("node {}", id))),
        }
    }
    for ((x, y), m) in d.edges.iter().zip(&d.on) {
        let to = match num(y, "S") {
            Some(q) if (q as usize) < k => q as usize,
            _ => return Err(bad(format!("edge to {}", y))),
        };
        if let Some(q) = num(x, "I") {
            if q as usize != to || !d.has(x) || m.contains_key("label") || !a.init.insert(to) {
                return Err(bad(format!("initial {}", x)));
            }
            continue;
        }
        let from = match num(x, "S") {
            Some(q) if (q as usize) < k => q as usize,
            _ => return Err(bad(format!("edge from {}", x))),
        };
        let l = m.get("label").map(|x| x.as_str()).unwrap_or("");
        let new = if l == "&#x3B5;" {
            a.eps[from].insert(to)
        } else {
            match read_letter(n, l) {
                Some(l) => a.to[from].entry(l).or_default().insert(to),
                None => return Err(bad(format!("label '{}'", l))),
            }
        };
        if !new {
            return Err(bad(format!("two edges from {} to {} with '{}'", from, to, l)));
        }
    }
    if a.init.len() != d.nodes.len() - k {
        return Err(bad("initial states".into()));
    }
    Ok(a)
}

/// the automaton of an interaction: all its behaviours if its loops are strict, at least those with few instances otherwise
fn check_semantics(a: &Aut, t: &T, i: &Interaction, c: &mut Case) -> Res {
    let limited = [LK::W, LK::H, LK::P].iter().any(|k| t.has_loop_kind(*k));
    ensure!(a.init.len() == 1 && a.eps.iter().all(|x| x.is_empty()), "automaton", "{} initial states, {:?}", a.init.len(), a.eps);
    let bound = if limited { Some(2 * t.loops() as u32) } else { None };
    let least = match explored(i, bound, None, 600) {
        Some(x) => x,
        None => {
            c.discard = true;
            return Ok(());
        }
    };
    if !limited {
        return same("the automaton of the executions", a, &least, c);
    }
    match beyond(&least, a, 20000) {
        None => {
            c.discard = true;
            return Ok(());
        }
        Some(Some(w)) => return fail("missing words", format!("{:?}", w)),
        _ => {}
    }
    // and each of its words, up to some length, is one of an execution
    let mut memo: HashMap<Interaction, Vec<(Letter, Interaction)>> = HashMap::new();
    let start: HashSet<Interaction> = [i.clone()].into_iter().collect();
    let mut todo = vec![(a.start(), start, vec![])];
    let mut n = 0;
    while let Some((q, is, w)) = todo.pop() {
        n += 1;
        if n > 3000 || is.len() > 300 {
            c.label("too many words");
            return Ok(());
        }
        if a.accepts(&q) {
            ensure!(is.iter().any(|i| nullable(&T::from_i(i))), "too many words", "{:?}", w);
        }
        if w.len() >= 5 {
            continue;
        }
        for (l, q2) in a.next(&q) {
            let mut to = HashSet::new();
            for i in &is {
                let v = memo.entry(i.clone()).or_insert_with(|| succs(i).into_iter().map(|x| (x.acts, x.to)).collect());
                to.extend(v.iter().filter(|x| x.0 == l).map(|x| x.1.clone()));
            }
            let mut w2: Vec<Letter> = w.clone();
            w2.push(l);
            todo.push((q2, to, w2));
        }
    }
    Ok(())
}

struct Setting {
    t: T,
    i: Interaction,
    n: Names,
    cfg: Cfg,
    f: Files,
    stem: String,
}

fn gen(s: &mut Src, c: &mut Case, env: &Env, size: usize) -> Option<Setting> {
    let mut cfg = pick_cfg(s);
    cfg.self_comm = false;
    cfg.max_size = s.range(2, size);
    let t = if s.chance(1, 3) { gen_shared(s, &cfg) } else { gen_term(s, &cfg) };
    if t.loops() > 2 || t.any(&mut |x| matches!(x, T::Sync(a, ..) if a.is_empty())) {
        c.discard = true;
        return None;
    }
    classes(&t, c);
    let i = t.to_i();
    let limited = [LK::W, LK::H, LK::P].iter().any(|k| t.has_loop_kind(*k));
    let bound = if limited { Some(2 * t.loops() as u32) } else { None };
    if explored(&i, bound, None, 300).is_none() {
        c.discard = true;
        return None;
    }
    let n = if s.chance(1, 2) { Names::gen(s, cfg.n_lf, cfg.n_ms, cfg.n_gt) } else { Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt) };
    c.say(format!("{} with {:?}", t, n));
    let f = model_files(s, env, &t, &n);
    let stem = Path::new(&f.hif).file_stem().unwrap().to_str().unwrap().to_string();
    Some(Setting { t, i, n, cfg, f, stem })
}

fn run(dir: &Path, args: &[&str], c: &mut Case) -> Result<Option<Vec<String>>, Fail> {
    let out = run_tool(dir, args, "")?;
    if out.is_none() {
        c.discard = true;
        c.label("too long");
    }
    Ok(out)
}

fn count(out: &[String], key: &str) -> Option<usize> {
    out.iter().find(|l| l.contains(key)).and_then(|l| l.trim().rsplit(' ').next().and_then(|x| x.parse().ok()))
}

fn picture(d: &Dot, node: &str, name: &str) -> Res {
    let img = d.attr(node, "image");
    ensure!(img == Some(&format!("{}.png", name)), "drawn graph", "{} has the image {:?} instead of {}", node, img, name);
    Ok(())
}

fn same_int(dir: &Path, x: &Setting) -> Res {
    let a = std::fs::read(dir.join(format!("{}_int.png", x.stem))).unwrap_or_default();
    let other = dir.join("other.png");
    make_interaction_image(&x.n.ctx(), &x.i).save(&other).unwrap();
    ensure!(a == std::fs::read(&other).unwrap(), "drawn interaction", "not the sequence diagram of {}", x.t);
    Ok(())
}

fn read_dot(p: &Path) -> Result<Dot, Fail> {
    let text = std::fs::read_to_string(p).map_err(|e| Fail { sig: "no graph".into(), msg: format!("{:?}: {}", p, e) })?;
    dot_parse(&text).map_err(|e| Fail { sig: "not a graph".into(), msg: format!("{} in\n{}", e, text) })
}

fn glosem(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let x = match gen(s, c, env, 9) {
        Some(x) => x,
        None => return Ok(()),
    };
    let dir = run_dir(env, "g");
    let out = match run(&dir, &["glosem", &x.f.hsf, &x.f.hif], c)? {
        Some(o) => o,
        None => return Ok(()),
    };
    let file = |y: &str| dir.join(format!("{}_{}.dot", x.stem, y));
    same_int(&dir, &x)?;
    let orig = read_aut(&x.n, &file("orig_nfa"))?;
    check_semantics(&orig, &x.t, &x.i, c)?;
    if c.discard {
        return Ok(());
    }
    c.nontrivial = orig.to.len() >= 3;
    ensure!(count(&out, "orig NFA :") == Some(orig.to.len()), "number of states", "{} states are drawn: {:?}", orig.to.len(), out);
    let min = read_aut(&x.n, &file("mini_dfa"))?;
    ensure!(count(&out, "min DFA :") == Some(min.to.len()), "number of states", "{} states are drawn: {:?}", min.to.len(), out);
    ensure!(
        min.init.len() == 1 && min.eps.iter().all(|e| e.is_empty()) && min.to.iter().all(|m| m.values().all(|q| q.len() == 1)),
        "deterministic automaton",
        "{:?}",
        min
    );
    same("the least automaton", &min, &orig, c)?;
    if let Some((q, e)) = orig.least(2000) {
        ensure!(min.to.len() == q && min.edges() == e, "least automaton", "{} states and {} edges instead of {} and {}", min.to.len(), min.edges(), q, e);
    }
    let d = read_dot(&file("glosem"))?;
    let mut nodes: BTreeSet<String> = ["int", "orig_nfa", "min_nfa"].iter().map(|y| y.to_string()).collect();
    let mut edges: BTreeSet<(String, String)> = [("int", "orig_nfa"), ("orig_nfa", "min_nfa")].iter().map(|y| (y.0.to_string(), y.1.to_string())).collect();
    picture(&d, "int", &format!("{}_int", x.stem))?;
    picture(&d, "orig_nfa", &format!("{}_orig_nfa", x.stem))?;
    picture(&d, "min_nfa", &format!("{}_mini_dfa", x.stem))?;
    for lf in 0..x.cfg.n_lf {
        let (h, k) = (format!("hid_{}_nfa", lf), format!("hid_{}_closed_nfa", lf));
        picture(&d, &h, &format!("{}_{}", x.stem, h))?;
        picture(&d, &k, &format!("{}_{}", x.stem, k))?;
        edges.insert(("min_nfa".into(), h.clone()));
        edges.insert((h.clone(), k.clone()));
        let (hid, closed) = (read_aut(&x.n, &file(&h))?, read_aut(&x.n, &file(&k))?);
        nodes.insert(h);
        nodes.insert(k);
        let on = |a: &Aut| a.to.iter().any(|m| m.keys().any(|l| l.iter().any(|y| y.lf == lf)));
        ensure!(!on(&hid) && !on(&closed), "hidden lifeline", "actions of lifeline {} are drawn", lf);
        ensure!(closed.eps.iter().all(|e| e.is_empty()), "closed automaton", "{:?}", closed);
        same(&format!("without lifeline {}", lf), &hid, &min.hide(lf), c)?;
        same(&format!("closed, without lifeline {}", lf), &closed, &hid, c)?;
    }
    let got: BTreeSet<String> = d.nodes.iter().map(|y| y.0.clone()).collect();
    ensure!(got == nodes && d.nodes.len() == nodes.len(), "drawn graph", "nodes {:?}", got);
    let got: BTreeSet<(String, String)> = d.edges.iter().cloned().collect();
    ensure!(got == edges && d.edges.len() == edges.len(), "drawn graph", "edges {:?}", d.edges);
    Ok(())
}

fn logger(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut cfg = pick_cfg(s);
    cfg.max_size = s.range(2, 9);
    let t = if s.chance(1, 3) { gen_shared(s, &cfg) } else { gen_term(s, &cfg) };
    if t.any(&mut |x| matches!(x, T::Sync(a, ..) if a.is_empty())) {
        c.discard = true;
        return Ok(());
    }
    classes(&t, c);
    let i = t.to_i();
    let memo = s.chance(1, 3);
    let loops = if !memo && s.chance(1, 2) { Some(s.below(4) as u32) } else { None };
    let depth = if memo { None } else { Some(s.below(6) as u32) };
    // (without memoization each execution has its own states; with it, all the executions must be met)
    let want = match explored(&i, loops, depth, 300) {
        Some(x) if memo || paths(&i, loops, depth.unwrap(), 1500) <= 1500 => x,
        _ => {
            c.discard = true;
            return Ok(());
        }
    };
    let states = if memo { want.to.len() } else { paths(&i, loops, depth.unwrap(), 1500) };
    let n = if s.chance(1, 2) { Names::gen(s, cfg.n_lf, cfg.n_ms, cfg.n_gt) } else { Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt) };
    let mut parts = vec![
        format!("loggers=[{}]", ["nfa", "nfait"][s.below(2)]),
        format!("strategy={}", ["BFS", "DFS", "HCS"][s.below(3)]),
        format!("memoize={}", memo),
    ];
    let mut fs = vec![];
    if let Some(x) = loops {
        fs.push(format!("max_loop_depth={}", x));
    }
    if let Some(x) = depth {
        fs.push(format!("max_depth={}", x));
    }
    s.shuffle(&mut fs);
    parts.push(format!("filters=[{}]", if fs.is_empty() { "max_node_number=100000".to_string() } else { fs.join(",") }));
    s.shuffle(&mut parts);
    let txt = format!("@explore_option{{ {} }}", parts.join("; "));
    c.say(format!("{} with {:?}\n{}", t, n, txt));
    let f = model_files(s, env, &t, &n);
    let h = put(env, ".hcf", &txt);
    let dir = run_dir(env, "n");
    let out = match run(&dir, &["explore", &f.hsf, &f.hif, &h], c)? {
        Some(o) => o,
        None => return Ok(()),
    };
    let got = read_aut(&n, &dir.join("nfait_l1.dot"))?;
    c.nontrivial = got.to.len() >= 4;
    c.label_if(memo, "memoized");
    ensure!(printed(&out, "node count") == Some(got.to.len().to_string()), "number of states", "{} states are drawn: {:?}", got.to.len(), out);
    // (an interaction that is met with fewer instances of loops than before is not merged)
    ensure!(got.to.len() == states || memo && got.to.len() > states, "number of states", "{} states instead of {}", got.to.len(), states);
    ensure!(got.init == [0].into_iter().collect() && got.eps.iter().all(|x| x.is_empty()), "automaton", "{:?}", got);
    same("the automaton of the executions", &got, &want, c)?;
    let (acc, co) = got.useful();
    for q in 0..got.to.len() {
        let want = match (acc.contains(&q), co.contains(&q)) {
            (true, true) => "green",
            (true, false) => "purple",
            (false, true) => "navy",
            _ => "red",
        };
        ensure!(got.color[q].as_deref() == Some(want), "colour", "state {} is {:?} and not {}", q, got.color[q], want);
    }
    Ok(())
}

fn words(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let x = match gen(s, c, env, 8) {
        Some(x) => x,
        None => return Ok(()),
    };
    let word = gen_word(s, &x.i, &x.cfg);
    let colocs: Vec<BTreeSet<usize>> = vec![(0..x.cfg.n_lf).collect()];
    c.say(format!("{} with {:?}\n{}", x.t, x.n, show_mtr(&vec![word.clone()], &colocs)));
    let m = put(env, ".htf", &htf_text(&x.n, &colocs, &vec![word.clone()]));
    let (with_t, with_a) = [(true, true), (true, false), (false, true)][s.below(3)];
    let mut args = vec!["nfa_analyze", &x.f.hsf[..], &x.f.hif[..], &m[..]];
    if with_t {
        args.push("-t");
    }
    if with_a {
        args.push("-a");
    }
    let dir = run_dir(env, "w");
    if with_a {
        std::fs::create_dir_all(dir.join("temp")).unwrap();
    }
    let out = match run(&dir, &args, c)? {
        Some(o) => o,
        None => return Ok(()),
    };
    let file = |y: &str| dir.join(format!("{}_{}.dot", x.stem, y));
    let verdict = printed(&out, "verdict").unwrap_or_default().trim_matches('\'').to_string();
    let mut nfa: Option<Aut> = None;
    c.nontrivial = word.len() >= 2;
    if with_t {
        same_int(&dir, &x)?;
        let a = read_aut(&x.n, &file("nfa"))?;
        let d = read_dot(&file("transfo"))?;
        picture(&d, "int", &format!("{}_int", x.stem))?;
        picture(&d, "nfa", &format!("{}_nfa", x.stem))?;
        ensure!(d.nodes.len() == 2 && d.edges == vec![("int".to_string(), "nfa".to_string())], "drawn graph", "{:?}", d);
        nfa = Some(a);
    } else {
        ensure!(!file("nfa").exists() && !file("transfo").exists(), "drawn graph", "drawn without being asked for");
    }
    let ana = dir.join(format!("ana_{}.dot", x.stem));
    if with_a {
        let mut a = read_aut(&x.n, &dir.join("temp/nfa1.dot"))?;
        ensure!(a.lit == a.init, "drawn step", "initially, the states {:?} are active", a.lit);
        a.lit.clear();
        if let Some(b) = &nfa {
            ensure!(a == *b, "drawn step", "not the automaton of the transformation");
        }
        nfa = Some(a);
    } else {
        ensure!(!ana.exists(), "drawn graph", "drawn without being asked for");
    }
    let a = nfa.unwrap();
    check_semantics(&a, &x.t, &x.i, c)?;
    if c.discard {
        return Ok(());
    }
    // what the automaton says about the word
    let mut active = vec![a.start()];
    for l in &word {
        match a.next(active.last().unwrap()).remove(l) {
            Some(q) => active.push(q),
            None => break,
        }
    }
    let read = active.len() - 1;
    let over = read == word.len();
    ensure!(
        verdict == if over { "re-enacted trace without deviations" } else { "failed to re-enact trace" },
        "verdict",
        "'{}' after {} of {} letters",
        verdict,
        read,
        word.len()
    );
    c.label_if(over, "re-enacted");
    c.label_if(!over, "deviation");
    if !with_a {
        return Ok(());
    }
    let d = read_dot(&ana)?;
    let letters: HashSet<Letter> = {
        let alph = hibou_label::nfa_translation::alphabet::get_alphabet_from_gen_ctx_and_interaction(&x.n.ctx(), &x.i);
        alph.iter().map(|y| y.iter().map(Act::from_ta).collect()).collect()
    };
    let mut nodes: BTreeSet<String> = ["param", "verdict"].iter().map(|y| y.to_string()).collect();
    let mut edges: BTreeSet<(String, String)> = BTreeSet::new();
    for (k, q) in active.iter().enumerate() {
        let id = k + 1;
        let rest: Vec<String> = word[k..].iter().map(|l| if letters.contains(l) { write_letter(&x.n, l) } else { "#".into() }).collect();
        let want = if rest.is_empty() { "<- &#x3B5;".to_string() } else { format!("<- {}", rest.join(".")) };
        let tra = format!("tra{}", id);
        ensure!(d.attr(&tra, "label") == Some(&want), "drawn word", "{:?} instead of {:?}", d.attr(&tra, "label"), want);
        picture(&d, &format!("nfa{}", id), &format!("temp/nfa{}", id))?;
        let mut b = read_aut(&x.n, &dir.join(format!("temp/nfa{}.dot", id)))?;
        ensure!(b.lit == *q, "drawn step", "the active states after {} letters are {:?} instead of {:?}", k, b.lit, q);
        b.lit.clear();
        ensure!(b == a, "drawn step", "another automaton after {} letters", k);
        for y in ["tra", "a", "nfa"] {
            nodes.insert(format!("{}{}", y, id));
        }
        if k > 0 {
            let st = format!("s_{}_{}", k, id);
            ensure!(d.attr(&st, "label").map(|y| y.as_str()) == Some("read"), "drawn step", "{} is {:?}", st, d.attr(&st, "label"));
            edges.insert((format!("a{}", k), st.clone()));
            edges.insert((st.clone(), format!("a{}", id)));
            nodes.insert(st);
        }
    }
    let v = format!("v{}", read + 1);
    ensure!(
        d.attr(&v, "label").map(|y| y.as_str()) == Some(if over { "EmptiedTrace" } else { "FailureToEmptyTrace" }),
        "local verdict",
        "{:?} after {} of {} letters",
        d.attr(&v, "label"),
        read,
        word.len()
    );
    edges.insert((format!("a{}", read + 1), v.clone()));
    nodes.insert(v);
    ensure!(d.attr("verdict", "label") == Some(&format!("verdict={}", verdict)), "legend", "{:?} and '{}'", d.attr("verdict", "label"), verdict);
    let got: BTreeSet<String> = d.nodes.iter().map(|y| y.0.clone()).collect();
    ensure!(got == nodes && d.nodes.len() == nodes.len(), "drawn graph", "nodes {:?}", got);
    let got: BTreeSet<(String, String)> = d.edges.iter().cloned().collect();
    ensure!(got == edges && d.edges.len() == edges.len(), "drawn graph", "edges {:?}", d.edges);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "an automaton of at least 3 states (4 for the logger of explorations), resp. a word of at least 2 letters",
        assumptions: &["the executions of an interaction are those of its frontier (C01)", "the drawings of interactions are those of C29"],
        suites: vec![
            Suite { name: "glosem", quick: 2000, thorough: 40000, run: glosem },
            Suite { name: "logger", quick: 2000, thorough: 40000, run: logger },
            Suite { name: "words", quick: 2000, thorough: 40000, run: words },
        ],
    }]
}
