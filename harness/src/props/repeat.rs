//! A command does the same thing again, wherever its inputs are and whatever lies around, and touches nothing else.
use crate::cli::*;
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::explore::gen_word;
use crate::sem::*;
use crate::term::*;
use crate::text::*;
use std::collections::BTreeMap;
use std::path::Path;

type Snap = BTreeMap<String, Vec<u8>>;

fn snap_in(dir: &Path, rel: &str, out: &mut Snap) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let name = format!("{}{}", rel, e.file_name().to_string_lossy());
            if e.path().is_dir() {
                snap_in(&e.path(), &format!("{}/", name), out);
            } else if name != "stdout.txt" {
                out.insert(name, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
}

fn snap(dir: &Path) -> Snap {
    let mut m = Snap::new();
    snap_in(dir, "", &mut m);
    m
}

struct World {
    t: T,
    n: Names,
    files: Vec<(&'static str, String)>,
}

fn world(s: &mut Src, kind: &str, hcf: &str) -> World {
    let mut cfg = pick_cfg(s);
    cfg.self_comm = false;
    cfg.max_size = s.range(1, 8);
    if ["nfa_experiment", "get_metrics", "puml_sd", "puml_ap"].contains(&kind) {
        cfg.coreg = false;
        cfg.sync_op = false;
        cfg.broadcast = kind != "puml_sd" && kind != "puml_ap" && cfg.broadcast;
        cfg.loop_kinds = if kind == "puml_ap" { vec![LK::S, LK::H, LK::W] } else { vec![LK::S] };
    }
    let mut t = if s.chance(1, 3) { gen_shared(s, &cfg) } else { gen_term(s, &cfg) };
    if t.any(&mut |x| matches!(x, T::Sync(l, ..) if l.is_empty())) {
        t = T::Empty;
    }
    let n = if s.chance(1, 4) { Names::gen(s, cfg.n_lf, cfg.n_ms, cfg.n_gt) } else { Names::plain(cfg.n_lf, cfg.n_ms, cfg.n_gt) };
    let colocs = if kind == "nfa_analyze" { vec![(0..cfg.n_lf).collect()] } else { gen_colocs(s, cfg.n_lf) };
    let i = t.to_i();
    let one = |s: &mut Src| -> String {
        let w = gen_word(s, &i, &cfg);
        let mu: Mu = colocs
            .iter()
            .map(|l| w.iter().map(|x| x.iter().filter(|a| l.contains(&a.lf)).cloned().collect::<std::collections::BTreeSet<Act>>()).filter(|x| !x.is_empty()).take(4).collect())
            .collect();
        htf_text(&n, &colocs, &mu)
    };
    let files = vec![("hsf", hsf_text(s, &n, true)), ("hif", hif_text(s, &t, &n, true)), ("htf", one(s)), ("2.htf", one(s)), ("hcf", hcf.to_string())];
    World { t, n, files }
}

const TEMP: [&str; 2] = ["temp/", "graphviz_temp_l"];

/// arguments (inputs are <hsf> and so on), the files it must write and the beginnings of those it may write, %: the name of the inputs
struct Cmd {
    kind: &'static str,
    args: Vec<String>,
    hcf: String,
    must: Vec<String>,
    may: Vec<String>,
    random: bool,
    /// automata, the order and the numbers of which vary
    aut: bool,
}

fn command(s: &mut Src) -> Cmd {
    let kind = *s.pick(&[
        "draw", "glosem", "canonize", "explore", "analyze", "nfa_analyze", "nfa_experiment", "get_metrics", "slice", "puml_sd", "puml_ap", "slice", "mutate_insert_noise", "mutate_remove_actions", "mutate_swap_actions",
        "mutate_swap_components", "explore", "analyze", "draw",
    ]);
    let mut k = Cmd { kind, args: vec![kind.into(), "<hsf>".into()], hcf: "@analyze_option{}".into(), must: vec![], may: vec![], random: false, aut: false };
    let mut arg = |x: &[&str]| k.args.extend(x.iter().map(|y| y.to_string()));
    if !kind.starts_with("slice") && !kind.starts_with("mutate") {
        arg(&["<hif>"]);
    }
    let graph = |s: &mut Src, may: &mut Vec<String>, must: &mut Vec<String>| -> String {
        let mut v = vec![format!("draw_sd={}", s.chance(1, 2)), format!("draw_tt={}", s.chance(1, 2))];
        if s.chance(1, 2) {
            v.push("svg".into());
        }
        let mut f = "".to_string();
        if s.chance(1, 3) {
            v.push("folder=fo".into());
            f = "fo/".into();
        }
        v.push("name=gr".into());
        must.push(format!("{}gr.dot", f));
        may.push(format!("{}gr.", f));
        may.extend(TEMP.iter().map(|x| x.to_string()));
        format!("graphic[{}]", v.join(","))
    };
    let limits = |s: &mut Src| format!("filters=[max_node_number={}{}]", s.range(1, 10), if s.chance(1, 2) { ",max_loop_depth=2" } else { "" });
    let strat = |s: &mut Src| *s.pick(&["BFS", "DFS", "HCS"]);
    match kind {
        "draw" => {
            let tt = s.chance(1, 2);
            if tt || s.chance(1, 2) {
                arg(&["-r", if tt { "tt" } else { "sd" }]);
            }
            let o = if s.chance(1, 3) {
                arg(&["-o", "drawn"]);
                "drawn"
            } else {
                "%_repr"
            };
            // a term is drawn by dot
            if tt {
                k.must.push(format!("temp/{}.dot", o));
                k.may.push("temp/".into());
            } else {
                k.must.push(format!("{}.png", o));
            }
        }
        "glosem" => {
            k.aut = true;
            k.must = ["%_int.png", "%_orig_nfa.dot", "%_mini_dfa.dot", "%_glosem.dot"].iter().map(|x| x.to_string()).collect();
            k.may = vec!["%_hid_".into()];
        }
        "canonize" => {
            arg(&["<hcf>"]);
            let g = graph(s, &mut k.may, &mut k.must);
            k.hcf = format!("@canonize_option{{loggers=[{}]}}", g);
        }
        "explore" => {
            arg(&["<hcf>"]);
            let mut v = vec![];
            if s.chance(1, 2) {
                v.push(graph(s, &mut k.may, &mut k.must));
            }
            if s.chance(1, 2) {
                v.push(format!("tracegen[generation={},partition={},folder=tr]", s.pick(&["accepted", "exact depth 2", "modulo depth 2"]), s.pick(&["trivial", "discrete"])));
                k.may.push("tr/".into());
            }
            if s.chance(1, 3) {
                k.aut = true;
                v.push("nfa".into());
                k.may.push("nfait_".into());
            }
            s.shuffle(&mut v);
            k.hcf = format!("@explore_option{{loggers=[{}];strategy={};memoize={};{}}}", v.join(","), strat(s), s.chance(1, 2), limits(s));
        }
        "analyze" => {
            arg(&["<htf>", "<hcf>"]);
            let mut v = "".to_string();
            if s.chance(2, 3) {
                v = format!("loggers=[{}];", graph(s, &mut k.may, &mut k.must));
            }
            let ak = *s.pick(&["accept", "prefix", "eliminate", "simulate[before=true,reset=true,multiply=false,loop num=1,act num=2]", "simulate[before=false,reset=true,multiply=false,loop num=1,act none]"]);
            k.may.push("stat".into());
            k.hcf = format!("@analyze_option{{{}analysis_kind={};strategy={};memoize={};goal={};{}}}", v, ak, strat(s), s.chance(1, 2), s.pick(&["none", "Pass", "WeakPass"]), limits(s));
        }
        "nfa_analyze" => {
            arg(&["<htf>"]);
            k.aut = true;
            if s.chance(1, 2) {
                arg(&["-t"]);
                k.must = ["%_int.png", "%_nfa.dot", "%_transfo.dot"].iter().map(|x| x.to_string()).collect();
            }
            if s.chance(1, 2) {
                arg(&["-a"]);
                k.must.push("ana_%.dot".into());
                k.may.push("temp/".into());
            }
        }
        "nfa_experiment" => {
            arg(&["-n", "1"]);
        }
        "get_metrics" => {
            arg(&[*s.pick(&["INT", "operatNFA", "minDFA"])]);
        }
        "slice" => {
            arg(&["<htf>", "-k", *s.pick(&["prefix", "suffix", "slice"])]);
            if s.chance(1, 2) {
                arg(&["-p", "sl"]);
                k.may.push("sl/".into());
            } else {
                k.may.push("%_slices/".into());
            }
            if s.chance(1, 2) {
                arg(&["-n", "pre"]);
            }
            if s.chance(1, 3) {
                arg(&["-r", "3"]);
                k.random = true;
            }
        }
        "puml_sd" => k.must = vec!["%_sd.puml".into()],
        "puml_ap" => k.must = vec!["%_ap.puml".into()],
        _ => {
            arg(&["<htf>"]);
            if kind == "mutate_swap_components" {
                arg(&["<2.htf>"]);
            }
            let mut p = "";
            if s.chance(1, 2) {
                arg(&["-p", "mu"]);
                p = "mu/";
            }
            let m = *s.pick(&["0", "2"]);
            arg(&["-n", "x", "-m", m]);
            k.must = vec![format!("{}x.htf", p)];
            k.random = m != "0";
        }
    }
    if kind == "mutate_swap_components" {
        // two mutants
        k.may = vec!["x".into(), "mu/x".into()];
        k.must = vec![];
    }
    k
}

fn masked(lines: &[String], paths: &[(String, String)]) -> Vec<String> {
    lines
        .iter()
        .map(|l| {
            let mut l = l.clone();
            for (p, name) in paths {
                l = l.replace(p, name);
            }
            l.split_whitespace()
                .map(|w| {
                    let x = w.trim_matches(|c| c == '\'' || c == ',');
                    let num = x.starts_with(|c: char| c.is_ascii_digit());
                    let unit = ["ns", "µs", "μs", "ms", "s"].iter().any(|u| x.ends_with(u));
                    if num && (unit || ["elapsed", "median", "time to", "time of"].iter().any(|y| l.contains(y))) {
                        "#".to_string()
                    } else {
                        w.to_string()
                    }
                })
                .collect::<Vec<_>>()
                .join(" ")
        })
        .collect()
}

/// what does not vary in the drawing of an automaton
fn shape(text: &[u8]) -> Vec<String> {
    let t = String::from_utf8_lossy(text);
    let mut v: Vec<String> = t
        .lines()
        .map(|l| {
            let x = l.trim();
            let label = x.find("label=").map(|p| x[p..].to_string()).unwrap_or_default();
            format!("{}{}", if x.contains("->") { "edge " } else { "node " }, if x.contains("->") { label } else { "".into() })
        })
        .collect();
    v.sort();
    v
}

fn run(dir: &Path, k: &Cmd, place: &str, stem: &str) -> Result<Option<(bool, Vec<String>)>, Fail> {
    let path = |x: &str| format!("{}{}{}{}", place, stem, if x.contains('.') { "" } else { "." }, x);
    let args: Vec<String> = k
        .args
        .iter()
        .map(|a| match a.strip_prefix('<').and_then(|x| x.strip_suffix('>')) {
            Some(x) => path(x),
            None => a.clone(),
        })
        .collect();
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    match run_tool(dir, &a, "") {
        Err(_) => Ok(Some((false, vec![]))),
        Ok(None) => Ok(None),
        Ok(Some(x)) => {
            let ps: Vec<(String, String)> = ["hsf", "hif", "2.htf", "htf", "hcf"].iter().map(|x| (path(x), format!("<{}>", x))).collect();
            Ok(Some((true, masked(&x, &ps))))
        }
    }
}

fn put_in(dir: &Path, stem: &str, w: &World) {
    std::fs::create_dir_all(dir).unwrap();
    for (x, text) in &w.files {
        let p = dir.join(format!("{}{}{}", stem, if x.contains('.') { "" } else { "." }, x));
        std::fs::write(p, text).unwrap();
    }
}

fn again(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let mut k = command(s);
    let mut w = world(s, k.kind, &k.hcf);
    let stem = *s.pick(&["m", "m", "model_1", "m.v2", "a b", "été", "M-x"]);
    let before = if s.chance(1, 2) { Some(world(s, k.kind, &k.hcf)) } else { None };
    let where_ = s.below(4);
    if w.t.any(&mut |x| matches!(x, T::Loop(..))) || k.hcf.contains("simulate") {
        // the same, for the nodes of a process
        k.hcf = k.hcf.replace("memoize=true", "memoize=false");
        w.files[4].1 = k.hcf.clone();
    }
    c.say(format!("{:?} on '{}' {} with {:?}\n{}\n{}", k.args, stem, w.t, w.n, w.files[2].1, k.hcf));
    c.label(k.kind);
    classes(&w.t, c);
    // alone
    let a = run_dir(env, "ra");
    put_in(&a, stem, &w);
    let ins = snap(&a);
    let (ok, out) = match run(&a, &k, "", stem)? {
        Some(x) => x,
        None => {
            c.discard = true;
            c.label("too long");
            return Ok(());
        }
    };
    let got = snap(&a);
    c.label_if(!ok, "refused");
    let name = |x: &String| x.replace('%', stem);
    for (f, text) in &ins {
        ensure!(got.get(f) == Some(text), "input changed", "{} was {}", f, if got.contains_key(f) { "changed" } else { "removed" });
    }
    if ok {
        for f in k.must.iter().map(name) {
            ensure!(got.contains_key(&f), "output missing", "no {} among {:?}", f, got.keys());
        }
    }
    for f in got.keys().filter(|f| !ins.contains_key(*f)) {
        ensure!(k.must.iter().chain(&k.may).map(name).any(|x| f.starts_with(&x)), "other file written", "{}", f);
    }
    c.nontrivial = ok && got.len() > ins.len() || out.len() > 6;
    // elsewhere, after another run, among other files
    let b = run_dir(env, "rb");
    let sub = ["", "", "in/", "in put/x.y/"][where_];
    if let Some(x) = &before {
        put_in(&b.join(sub), stem, x);
        if run(&b, &k, sub, stem)?.is_none() {
            c.discard = true;
            c.label("too long");
            return Ok(());
        }
        c.label("after another run");
    }
    put_in(&b.join(sub), stem, &w);
    for (f, t) in [
        ("notes.txt", "mine"),
        ("m", "mine"),
        ("m.txt", "mine"),
        ("temp2/x.png", "mine"),
        ("other.hif", "o"),
        ("other.hsf", "@message{a}"),
        ("sl/keep.txt", "mine"),
        ("mu/keep.htf", "mine"),
        ("fo/keep.dot", "mine"),
        ("m_slices/keep.txt", "mine"),
        ("in/keep.hcf", "mine"),
        ("gr.txt", "mine"),
    ] {
        let p = b.join(f);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    }
    let was = snap(&b);
    let place = match (where_, s.chance(1, 3)) {
        (0, true) => "./".to_string(),
        (_, true) => format!("{}/{}", b.to_str().unwrap(), sub),
        _ => sub.to_string(),
    };
    let (ok2, out2) = match run(&b, &k, &place, stem)? {
        Some(x) => x,
        None => {
            c.discard = true;
            c.label("too long");
            return Ok(());
        }
    };
    let now = snap(&b);
    ensure!(ok == ok2, "answer differs", "the command {} the first time and {} then", if ok { "ends" } else { "panics" }, if ok2 { "ends" } else { "panics" });
    // the folders of the loggers are theirs
    let theirs = |f: &String| f.starts_with("temp/") || f.starts_with("graphviz_temp_l") || f.starts_with("tr/");
    for (f, text) in was.iter().filter(|x| !theirs(x.0)) {
        let output = got.contains_key(f) && !ins.contains_key(f) || k.random && k.may.iter().chain(&k.must).map(name).any(|x| f.starts_with(&x)) && !f.contains("keep");
        if !output {
            ensure!(now.get(f) == Some(text), "other file changed", "{} was {}", f, if now.contains_key(f) { "changed" } else { "removed" });
        }
    }
    for f in now.keys().filter(|f| !was.contains_key(*f)) {
        ensure!(k.must.iter().chain(&k.may).map(name).any(|x| f.starts_with(&x)), "other file written", "{}", f);
    }
    if k.random || !ok {
        return Ok(());
    }
    // an automaton limited in loops: which of several memoized nodes is taken may vary, and with it the automaton
    let vague = k.aut && k.kind != "explore" && w.t.any(&mut |x| matches!(x, T::Loop(l, _) if *l != LK::S));
    c.label_if(vague, "automaton limited in loops");
    ensure!(vague || out == out2, "answer differs", "{:?} and then {:?}", out, out2);
    for (f, text) in got.iter().filter(|x| !ins.contains_key(x.0)) {
        let x = match now.get(f) {
            None => return fail("output missing", format!("no {} the second time", f)),
            Some(x) => x,
        };
        if k.aut && (vague || f.ends_with(".dot") || f.starts_with("temp/")) && !f.ends_with("gr.dot") {
            // the letters of a step, in any order
            ensure!(vague || !f.ends_with(".dot") || shape(x) == shape(text), "output differs", "{}:\n{}\nand then\n{}", f, String::from_utf8_lossy(text), String::from_utf8_lossy(x));
        } else if f.starts_with("tr/") || k.kind == "analyze" && f.contains("/s_") {
            // the components on which a step occurs are drawn in any order
        } else {
            ensure!(x == text, "output differs", "{}:\n{:.2000}\nand then\n{:.2000}", f, String::from_utf8_lossy(text), String::from_utf8_lossy(x));
        }
    }
    // the traces, numbered in any order
    let traces = |m: &Snap| -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = m.iter().filter(|x| x.0.starts_with("tr/")).map(|x| x.1.clone()).collect();
        v.sort();
        v
    };
    let (x, y) = (traces(&got), traces(&now));
    ensure!(x == y, "output differs", "traces {:?} and then {:?}", x.iter().map(|t| String::from_utf8_lossy(t)).collect::<Vec<_>>(), y.iter().map(|t| String::from_utf8_lossy(t)).collect::<Vec<_>>());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        rule: "the command writes at least one file, or an answer of more than its frame",
        assumptions: &["commands that draw at random are only held to leave other files alone", "times are masked, and states and edges of automata are compared up to their numbers and order"],
        suites: vec![Suite { name: "again", quick: 3000, thorough: 100000, run: again }],
    }]
}
