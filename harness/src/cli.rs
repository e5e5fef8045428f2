//! Runs the tool's commands in the process, and writes their input files.
use crate::engine::*;
use crate::term::*;
use crate::text::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

pub fn tid() -> String {
    let id = format!("{:?}", std::thread::current().id());
    id.chars().filter(|c| c.is_ascii_digit()).collect()
}

/// writes a file of this thread in the scratch folder and returns its path
pub fn put(env: &Env, name: &str, text: &str) -> String {
    let p = env.scratch.join(format!("f{}{}", tid(), name));
    std::fs::write(&p, text).expect("write");
    p.to_str().unwrap().to_string()
}

/// a folder of this thread, emptied; its name is relative to the current folder, which is the scratch folder
pub fn fresh_dir(env: &Env, name: &str) -> (String, std::path::PathBuf) {
    let n = format!("d{}{}", tid(), name);
    let p = env.scratch.join(&n);
    let _ = std::fs::remove_dir_all(&p);
    (n, p)
}

/// the lines that a command prints
pub fn cli(args: &[&str]) -> Result<Vec<String>, String> {
    use hibou_label::ui::commands as c;
    let yaml = clap::load_yaml!("../shim/src/ui/hibou_cli.yml");
    let mut all = vec!["hibou_label"];
    all.extend_from_slice(args);
    let m = clap::App::from_yaml(yaml).try_get_matches_from(&all).map_err(|e| e.to_string())?;
    let (name, sub) = m.subcommand().ok_or("no command")?;
    let (lines, _) = match name {
        "explore" => c::cli_explore::cli_explore(sub),
        "analyze" => c::cli_analyze::cli_analyze(sub),
        "canonize" => c::cli_canonize::cli_canonize(sub),
        "nfa_analyze" => c::cli_nfa_ana::cli_nfa_ana(sub),
        "nfa_experiment" => c::cli_nfa_experiment::cli_nfa_experiment(sub),
        "get_metrics" => c::cli_get_metrics::cli_get_metrics(sub),
        "slice" => c::cli_slice::cli_slice(sub),
        "draw" => c::cli_draw::cli_draw(sub),
        "glosem" => c::cli_glosem::cli_glosem(sub),
        "puml_sd" => c::cli_puml_sd::cli_puml_sd(sub),
        "puml_ap" => c::cli_puml_ap::cli_puml_ap(sub),
        "rng_gen_interactions" => c::cli_rng_gen_interactions::cli_rng_gen_interactions(sub),
        "mutate_remove_actions" => c::cli_mutate_remove_actions::cli_mutate_remove_actions(sub),
        "mutate_insert_noise" => c::cli_mutate_insert_noise::cli_mutate_insert_noise(sub),
        "mutate_swap_actions" => c::cli_mutate_swap_actions::cli_mutate_swap_actions(sub),
        "mutate_swap_components" => c::cli_mutate_swap_components::cli_mutate_swap_components(sub),
        _ => return Err(format!("command {}", name)),
    };
    Ok(lines)
}

/// the text between quotes or after the colon of the line that starts with a key
pub fn value(lines: &[String], key: &str) -> Option<String> {
    lines.iter().find(|l| l.trim_start().starts_with(key)).map(|l| {
        let v = l.splitn(2, ':').nth(1).unwrap_or("").trim();
        v.trim_matches('\'').to_string()
    })
}

pub struct Files {
    pub hsf: String,
    pub hif: String,
}

pub fn model_files(s: &mut Src, env: &Env, t: &T, n: &Names) -> Files {
    let a = hsf_text(s, n, true);
    let b = hif_text(s, t, n, true);
    Files { hsf: put(env, ".hsf", &a), hif: put(env, ".hif", &b) }
}

/// the text of a multi-trace file
pub fn htf_text(n: &Names, colocs: &[BTreeSet<usize>], mu: &[Vec<BTreeSet<Act>>]) -> String {
    let mut k = Toks::new();
    k.p("{");
    for (i, (l, tr)) in colocs.iter().zip(mu).enumerate() {
        if i > 0 {
            k.p(";")
        }
        let v: Vec<String> = l.iter().map(|x| n.lf[*x].clone()).collect();
        k.list("[", &v, "]");
        trace_toks(n, tr, &mut k);
    }
    k.p("}");
    k.text(&mut Src::replay(vec![]), true)
}

/// a folder of its own for a run of the tool
pub fn run_dir(env: &Env, name: &str) -> PathBuf {
    let p = env.scratch.join(format!("r{}{}", tid(), name));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    p
}

/// None: given up after some seconds
pub fn run_tool(dir: &Path, args: &[&str], path: &str) -> Result<Option<Vec<String>>, Fail> {
    use std::io::Read;
    use std::process::{Command, Stdio};
    use std::time::{Duration, Instant};
    let bin = std::env::var("HIBOU_BIN").expect("HIBOU_BIN");
    let bad = |e: String| Fail { sig: "command".into(), msg: e };
    let out = dir.join("stdout.txt");
    let to = std::fs::File::create(&out).map_err(|e| bad(e.to_string()))?;
    let mut p = Command::new(bin)
        .args(args)
        .current_dir(dir)
        .env("PATH", path)
        .stdin(Stdio::null())
        .stdout(to)
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| bad(e.to_string()))?;
    let start = Instant::now();
    let st = loop {
        if let Some(st) = p.try_wait().map_err(|e| bad(e.to_string()))? {
            break st;
        }
        if start.elapsed() > Duration::from_secs(6) {
            let _ = p.kill();
            let _ = p.wait();
            return Ok(None);
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    if !st.success() {
        let mut e = String::new();
        let _ = p.stderr.take().unwrap().read_to_string(&mut e);
        return Err(bad(e));
    }
    Ok(Some(std::fs::read_to_string(&out).unwrap_or_default().lines().map(|x| x.to_string()).collect()))
}
