//! Slices and mutants of multi-traces.
use crate::cli::*;
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::sem::*;
use crate::term::*;
use crate::text::*;
use hibou_label::io::input::htf::interface::parse_htf_file;
use std::collections::{BTreeMap, BTreeSet};

type Comp = Vec<BTreeSet<Act>>;

/// the commands draw at random: a case is repeated, and a replay is repeated more
fn tries(env: &Env, n: usize) -> usize {
    if env.verbose {
        300
    } else {
        n
    }
}

fn gen_mu(s: &mut Src, colocs: &Colocs, n_ms: usize, max: usize) -> Mu {
    colocs
        .iter()
        .map(|l| {
            let l: Vec<usize> = l.iter().cloned().collect();
            let k = if s.chance(1, 5) { 0 } else { s.below(max + 1) };
            (0..k)
                .map(|_| {
                    let m = if s.chance(1, 5) { 2 } else { 1 };
                    (0..m).map(|_| act(*s.pick(&l), s.chance(1, 2), s.below(n_ms))).collect()
                })
                .collect()
        })
        .collect()
}

struct Model {
    n: Names,
    colocs: Colocs,
    mu: Mu,
    hsf: String,
    htf: String,
}

fn model(s: &mut Src, env: &Env, max: usize) -> Model {
    let n_lf = lifelines(s, 1, 4);
    let n_ms = s.range(1, 6);
    let n = if s.chance(2, 3) { Names::plain(n_lf, n_ms, 0) } else { Names::gen(s, n_lf, n_ms, 0) };
    let colocs = gen_colocs(s, n_lf);
    let mu = gen_mu(s, &colocs, n_ms, max);
    let hsf = put(env, ".hsf", &hsf_text(s, &n, true));
    let htf = put(env, "_mu.htf", &htf_text(&n, &colocs, &mu));
    Model { n, colocs, mu, hsf, htf }
}

fn read_mu(m: &Model, path: &str) -> Result<Mu, Fail> {
    match parse_htf_file(&m.n.ctx(), path) {
        Err(e) => Err(Fail { sig: "written file".into(), msg: format!("{} cannot be read: {}", path, e) }),
        Ok((cl, mu)) => {
            let got: BTreeMap<BTreeSet<usize>, Comp> = cl
                .locs_lf_ids
                .iter()
                .cloned()
                .zip(mu.iter().map(|x| x.iter().map(|a| a.iter().map(Act::from_ta).collect()).collect()))
                .collect();
            let set: BTreeSet<_> = m.colocs.iter().cloned().collect();
            if got.len() != cl.locs_lf_ids.len() || got.keys().cloned().collect::<BTreeSet<_>>() != set {
                return Err(Fail { sig: "written file".into(), msg: format!("co-localizations {:?} instead of {:?}", cl.locs_lf_ids, m.colocs) });
            }
            Ok(m.colocs.iter().map(|c| got[c].clone()).collect())
        }
    }
}

fn names_in(p: &std::path::Path) -> BTreeSet<String> {
    std::fs::read_dir(p).map(|d| d.map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect()).unwrap_or_default()
}

// C22 -------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Prefix,
    Suffix,
    Slice,
}

/// the cuts of a sequence of length n: all non-empty ones and an empty one
fn windows(k: Kind, n: usize) -> Vec<(usize, usize)> {
    match k {
        Kind::Prefix => (0..=n).map(|i| (0, i)).collect(),
        Kind::Suffix => (0..=n).map(|i| (i, n)).collect(),
        Kind::Slice => {
            let mut v = vec![(0, 0)];
            for i in 0..n {
                for j in i + 1..=n {
                    v.push((i, j))
                }
            }
            v
        }
    }
}

fn slice_args(s: &mut Src) -> (Kind, Vec<&'static str>) {
    match s.below(4) {
        0 => (Kind::Slice, vec![]),
        1 => (Kind::Slice, vec!["-k", "slice"]),
        2 => (Kind::Prefix, vec!["-k", "prefix"]),
        _ => (Kind::Suffix, vec!["-k", "suffix"]),
    }
}

struct Out {
    path: std::path::PathBuf,
    args: Vec<String>,
    prefix: String,
    other: bool,
}

fn out_args(s: &mut Src, env: &Env, stem: &str) -> Out {
    let mut args = vec![];
    let path = match s.below(3) {
        0 => {
            let p = env.scratch.join(format!("{}_slices", stem));
            let _ = std::fs::remove_dir_all(&p);
            p
        }
        1 => {
            let (d, p) = fresh_dir(env, "sl");
            args.push("-p".to_string());
            args.push(d);
            p
        }
        _ => {
            let (d, p) = fresh_dir(env, "sm");
            args.push("-p".to_string());
            args.push(format!("{}/in/side", d));
            p.join("in").join("side")
        }
    };
    let prefix = if s.chance(1, 2) { "pre_".to_string() } else { String::new() };
    if !prefix.is_empty() {
        args.push("-n".to_string());
        args.push(prefix.clone());
    }
    // the folder may exist, with other files and an old slice in it
    let other = s.chance(1, 3);
    if other {
        let _ = std::fs::create_dir_all(&path);
        let _ = std::fs::write(path.join("other.htf"), "not a slice");
    }
    Out { path, args, prefix, other }
}

fn stem(p: &str) -> String {
    std::path::Path::new(p).file_stem().unwrap().to_string_lossy().to_string()
}

fn slices_all(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let most = if s.chance(1, 60) { 2000 } else { 400 };
    let long = if most > 400 { 60 } else if s.chance(1, 5) { 16 } else { 4 };
    let m = model(s, env, long);
    let (kind, ka) = slice_args(s);
    let ws: Vec<Vec<(usize, usize)>> = m.mu.iter().map(|x| windows(kind, x.len())).collect();
    let total: usize = ws.iter().map(|w| w.len()).product();
    if total > most {
        c.discard = true;
        return Ok(());
    }
    let o = out_args(s, env, &stem(&m.htf));
    let mut args = vec!["slice", &m.hsf, &m.htf];
    args.extend(ka.iter());
    args.extend(o.args.iter().map(|x| x.as_str()));
    if s.chance(1, 4) {
        // only meaningful for random slices
        args.push("-w")
    }
    c.say(format!("{}\n{:?}", show_mtr(&m.mu, &m.colocs), &args[3..]));
    c.nontrivial = total >= 6;
    c.label_if(m.colocs.len() > 1, "several components");
    c.label_if(m.mu.iter().any(|x| x.len() > 6), "long component");
    c.label_if(total > 400, "more than 400 slices");
    c.label(match kind {
        Kind::Prefix => "prefixes",
        Kind::Suffix => "suffixes",
        Kind::Slice => "slices",
    });
    let mut want: BTreeMap<Mu, usize> = BTreeMap::new();
    let mut acc: Vec<Mu> = vec![vec![]];
    for (x, w) in m.mu.iter().zip(&ws) {
        acc = acc
            .into_iter()
            .flat_map(|p| {
                w.iter().map(move |(i, j)| {
                    let mut q = p.clone();
                    q.push(x[*i..*j].to_vec());
                    q
                })
            })
            .collect();
    }
    for x in acc {
        *want.entry(x).or_insert(0) += 1;
    }
    cli(&args).map_err(|e| Fail { sig: "command".into(), msg: e })?;
    let mut names = names_in(&o.path);
    if o.other {
        ensure!(names.remove("other.htf") && std::fs::read_to_string(o.path.join("other.htf")).ok().as_deref() == Some("not a slice"), "other files", "a file that was in the folder is lost");
    }
    let expect: BTreeSet<String> = (1..=total).map(|i| format!("{}s{}.htf", o.prefix, i)).collect();
    ensure!(names == expect, "slices", "{} files instead of {}, or other names: {:?}", names.len(), total, names.symmetric_difference(&expect).next());
    let mut got: BTreeMap<Mu, usize> = BTreeMap::new();
    for f in &names {
        let mu = read_mu(&m, o.path.join(f).to_str().unwrap())?;
        *got.entry(mu).or_insert(0) += 1;
    }
    for (k, v) in &want {
        let g = got.get(k).cloned().unwrap_or(0);
        ensure!(g == *v, "slices", "{} is written {} times instead of {}", show_mtr(k, &m.colocs), g, v);
    }
    ensure!(got.len() == want.len(), "slices", "multi-traces that are no slices are written");
    Ok(())
}

fn slices_rnd(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let long = [4, 12, 40][s.weighted(&[5, 4, 1])];
    let m = model(s, env, long);
    let (kind, ka) = slice_args(s);
    let wide = s.chance(1, 2);
    let num = s.below(12);
    let n_txt = format!("{}", num);
    let o = out_args(s, env, &stem(&m.htf));
    let mut args = vec!["slice", &m.hsf, &m.htf];
    args.extend(ka.iter());
    args.extend(o.args.iter().map(|x| x.as_str()));
    args.push("-r");
    args.push(&n_txt);
    if wide {
        args.push("-w")
    }
    c.say(format!("{}\n{:?}", show_mtr(&m.mu, &m.colocs), &args[3..]));
    c.nontrivial = num >= 2 && m.mu.iter().any(|x| x.len() >= 2);
    c.label_if(wide && m.mu.iter().any(|x| x.len() > 4), "wide");
    for _ in 0..tries(env, 2) {
        if let Ok(d) = std::fs::read_dir(&o.path) {
            for e in d.flatten() {
                let f = e.path();
                if f.file_name().map_or(false, |x| x != "other.htf") {
                    let _ = std::fs::remove_file(f);
                }
            }
        }
        cli(&args).map_err(|e| Fail { sig: "command".into(), msg: e })?;
        let mut names = names_in(&o.path);
        if o.other {
            ensure!(names.remove("other.htf"), "other files", "a file that was in the folder is lost");
        }
        ensure!(names.len() <= num && (num == 0 || !names.is_empty()), "number of slices", "{} files for {} slices", names.len(), num);
        let mut got: BTreeMap<Mu, usize> = BTreeMap::new();
        for f in &names {
            let ok = f.strip_prefix(&format!("{}s", o.prefix)).and_then(|x| x.strip_suffix(".htf")).and_then(|x| x.parse::<usize>().ok());
            ensure!(ok.map_or(false, |k| k >= 1 && k <= num), "slice names", "file {}", f);
            let mu = read_mu(&m, o.path.join(f).to_str().unwrap())?;
            *got.entry(mu).or_insert(0) += 1;
        }
        for (mu, k) in &got {
            // places where each component can come from; an empty one can be cut anywhere
            let mut places = 1usize;
            for (x, y) in m.mu.iter().zip(mu) {
                let w: Vec<(usize, usize)> = match kind {
                    Kind::Slice => (0..=x.len()).flat_map(|i| (i..=x.len()).map(move |j| (i, j))).collect(),
                    k => windows(k, x.len()),
                };
                let p = w.iter().filter(|(i, j)| &x[*i..*j] == &y[..]).count();
                ensure!(p > 0, "random slice", "{} has a component that is none of the original", show_mtr(mu, &m.colocs));
                if wide && x.len() > 4 {
                    ensure!(y.len() * 3 >= x.len(), "wide slice", "{} has less than a third of a component", show_mtr(mu, &m.colocs));
                }
                places *= p;
            }
            ensure!(*k <= places, "distinct slices", "{} is written {} times for {} places", show_mtr(mu, &m.colocs), k, places);
        }
    }
    Ok(())
}

/// every slice can be drawn
fn slices_reach(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let wide = s.chance(1, 3);
    let lens: Vec<usize> = match s.below(4) {
        0 if wide => vec![s.range(5, 8), 1],
        _ if wide => vec![s.range(5, 8)],
        0 => vec![s.range(1, 3)],
        1 => vec![s.range(0, 3), 1],
        2 => vec![1, s.range(0, 3)],
        _ => vec![2, s.range(1, 2)],
    };
    let n = Names::plain(lens.len(), 8, 0);
    let mu: Mu = lens.iter().enumerate().map(|(l, k)| (0..*k).map(|i| [act(l, true, i)].into_iter().collect()).collect()).collect();
    let colocs: Colocs = (0..lens.len()).map(|l| [l].into_iter().collect()).collect();
    let hsf = put(env, ".hsf", &hsf_text(s, &n, true));
    let htf = put(env, "_mu.htf", &htf_text(&n, &colocs, &mu));
    let m = Model { n, colocs, mu, hsf, htf };
    let (kind, ka) = slice_args(s);
    let (d, path) = fresh_dir(env, "rc");
    let mut args = vec!["slice", &m.hsf, &m.htf, "-p", &d, "-r", "700"];
    args.extend(ka.iter());
    if wide {
        args.push("-w");
    }
    c.say(format!("{}\n{:?}", show_mtr(&m.mu, &m.colocs), &args[3..]));
    c.label_if(wide, "wide");
    c.label_if(lens.len() > 1, "several components");
    c.nontrivial = true;
    cli(&args).map_err(|e| Fail { sig: "command".into(), msg: e })?;
    let mut got: BTreeSet<Mu> = BTreeSet::new();
    for f in names_in(&path) {
        got.insert(read_mu(&m, path.join(f).to_str().unwrap())?);
    }
    let mut all: Vec<Mu> = vec![vec![]];
    for x in &m.mu {
        let mut w = windows(kind, x.len());
        if wide && x.len() > 4 {
            // these can be drawn at least (wide prefixes have an even number of elements at most)
            let top = if kind == Kind::Prefix { x.len() / 2 * 2 } else { x.len() };
            w.retain(|(i, j)| *j <= top && i + top - j <= 1);
        }
        all = all.into_iter().flat_map(|v| w.iter().map(|(i, j)| v.iter().cloned().chain([x[*i..*j].to_vec()]).collect::<Mu>()).collect::<Vec<_>>()).collect();
    }
    for w in all {
        ensure!(got.contains(&w), "slices never drawn", "{} is not among 700 random slices", show_mtr(&w, &m.colocs));
    }
    Ok(())
}

// C23 -------------------------------------------------------------------------------------------

struct Dest {
    args: Vec<String>,
    file: std::path::PathBuf,
    folder: Option<std::path::PathBuf>,
}

fn dest(s: &mut Src, env: &Env, default: String) -> Dest {
    let mut args = vec![];
    let mut folder = None;
    let mut base = env.scratch.clone();
    if s.chance(1, 2) {
        let (d, p) = fresh_dir(env, "mt");
        args.push("-p".to_string());
        args.push(d);
        base = p.clone();
        folder = Some(p);
    }
    let mut name = default;
    if s.chance(1, 2) {
        name = format!("mutant{}", tid());
        args.push("-n".to_string());
        args.push(name.clone());
    }
    Dest { args, file: base.join(format!("{}.htf", name)), folder }
}

fn run_mutation(cmd: &str, m: &Model, second: Option<&str>, d: &Dest, opts: &[String]) -> Result<Mu, Fail> {
    let _ = std::fs::remove_file(&d.file);
    if let Some(p) = &d.folder {
        let _ = std::fs::remove_dir_all(p);
    }
    let mut args = vec![cmd, &m.hsf, &m.htf];
    if let Some(x) = second {
        args.push(x)
    }
    args.extend(d.args.iter().map(|x| x.as_str()));
    args.extend(opts.iter().map(|x| x.as_str()));
    let out = cli(&args).map_err(|e| Fail { sig: "command".into(), msg: e })?;
    if !d.file.exists() {
        return Err(Fail { sig: "mutant file".into(), msg: format!("{} is not written ({:?})", d.file.display(), out) });
    }
    read_mu(m, d.file.to_str().unwrap())
}

fn is_subseq(x: &Comp, y: &Comp) -> bool {
    let mut k = 0;
    for a in y {
        if k < x.len() && x[k] == *a {
            k += 1
        }
    }
    k == x.len()
}

fn bag<X: Ord + Clone>(v: &[X]) -> BTreeMap<X, usize> {
    let mut b = BTreeMap::new();
    for x in v {
        *b.entry(x.clone()).or_insert(0) += 1
    }
    b
}

fn max_opt(s: &mut Src) -> (usize, Vec<String>) {
    if s.chance(1, 4) {
        (1, vec![])
    } else {
        let m = s.below(6);
        (m, vec!["-m".to_string(), format!("{}", m)])
    }
}

fn mut_noise(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let extra = if s.chance(1, 8) { 14 } else { 0 };
    let m = model(s, env, 4 + extra);
    let (max, mut opts) = max_opt(s);
    let one = s.chance(1, 2);
    let end = s.chance(1, 2);
    if one {
        opts.push("-u".into())
    }
    if end {
        opts.push("-e".into())
    }
    let d = dest(s, env, format!("{}_insert_noise_mutant", stem(&m.htf)));
    c.say(format!("{}\n{:?} {:?}", show_mtr(&m.mu, &m.colocs), d.args, opts));
    c.nontrivial = max >= 1;
    c.label_if(one, "one per component");
    c.label_if(end, "only at end");
    for _ in 0..tries(env, 3) {
        let mu = run_mutation("mutate_insert_noise", &m, None, &d, &opts)?;
        let got = show_mtr(&mu, &m.colocs);
        let mut n = 0;
        for (x, y) in m.mu.iter().zip(&mu) {
            ensure!(y.len() >= x.len() && is_subseq(x, y), "noise", "{} does not contain the original", got);
            let k = y.len() - x.len();
            n += k;
            let bx = bag(x);
            for (a, v) in bag(y) {
                if v > bx.get(&a).cloned().unwrap_or(0) {
                    ensure!(a.len() == 1, "noise", "{}: a multi-action is inserted", got);
                }
            }
            if end {
                ensure!(y.starts_with(x), "noise at the end", "{} does not start with the original", got);
            }
            if one {
                ensure!(k <= 1, "noise per component", "{} has {} more actions on a component", got, k);
            }
        }
        let want = if one { max.min(m.mu.len()) } else { max };
        ensure!(n == want, "amount of noise", "{} has {} insertions instead of {}", got, n, want);
    }
    Ok(())
}

fn mut_remove(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let extra = if s.chance(1, 8) { 14 } else { 0 };
    let m = model(s, env, 4 + extra);
    let (max, opts) = max_opt(s);
    let d = dest(s, env, format!("{}_remove_actions_mutant", stem(&m.htf)));
    c.say(format!("{}\n{:?} {:?}", show_mtr(&m.mu, &m.colocs), d.args, opts));
    c.nontrivial = max >= 1 && m.mu.iter().any(|x| x.len() > 0);
    for _ in 0..tries(env, 3) {
        let mu = run_mutation("mutate_remove_actions", &m, None, &d, &opts)?;
        let got = show_mtr(&mu, &m.colocs);
        let mut n = 0;
        for (x, y) in m.mu.iter().zip(&mu) {
            ensure!(is_subseq(y, x), "removal", "{} is not the original without some actions", got);
            n += x.len() - y.len();
        }
        ensure!(n <= max, "number of removals", "{} has {} removals, more than {}", got, n, max);
        if max >= 1 && m.mu.iter().all(|x| !x.is_empty()) {
            ensure!(n >= 1, "number of removals", "nothing is removed");
        }
    }
    Ok(())
}

fn mut_swap(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let extra = if s.chance(1, 8) { 14 } else { 0 };
    let m = model(s, env, 5 + extra);
    let (max, opts) = max_opt(s);
    let d = dest(s, env, format!("{}_swap_act_mutant", stem(&m.htf)));
    c.say(format!("{}\n{:?} {:?}", show_mtr(&m.mu, &m.colocs), d.args, opts));
    c.nontrivial = max >= 1 && m.mu.iter().any(|x| x.len() > 1);
    let room: usize = m.mu.iter().map(|x| x.len().saturating_sub(1)).sum();
    for _ in 0..tries(env, 3) {
        let mu = run_mutation("mutate_swap_actions", &m, None, &d, &opts)?;
        let got = show_mtr(&mu, &m.colocs);
        let mut need = 0;
        for (x, y) in m.mu.iter().zip(&mu) {
            ensure!(bag(x) == bag(y), "swap", "{} does not have the actions of the original on a component", got);
            let distinct = bag(x).values().all(|k| *k == 1);
            need += if distinct {
                // length minus number of cycles of the permutation
                let pos: Vec<usize> = y.iter().map(|a| x.iter().position(|b| b == a).unwrap()).collect();
                let mut seen = vec![false; pos.len()];
                let mut k = 0;
                for i in 0..pos.len() {
                    let mut j = i;
                    let mut len = 0;
                    while !seen[j] {
                        seen[j] = true;
                        j = pos[j];
                        len += 1;
                    }
                    k += if len > 0 { len - 1 } else { 0 };
                }
                k
            } else {
                (x.iter().zip(y).filter(|(a, b)| a != b).count() + 1) / 2
            };
        }
        ensure!(need <= max, "number of swaps", "{} needs {} swaps, more than {}", got, need, max);
        if max == 1 && room >= 1 && m.mu.iter().all(|x| bag(x).values().all(|k| *k == 1)) {
            ensure!(need == 1, "number of swaps", "nothing is swapped");
        }
    }
    Ok(())
}

fn mut_compo(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let extra = if s.chance(1, 8) { 14 } else { 0 };
    let mut m = model(s, env, 3 + extra);
    let n_ms = m.n.ms.len();
    let other = s.chance(1, 8);
    let colocs2 = if other { gen_colocs(s, m.n.lf.len()) } else { m.colocs.clone() };
    let mu2 = gen_mu(s, &colocs2, n_ms, 3);
    let htf2 = put(env, "_nu.htf", &htf_text(&m.n, &colocs2, &mu2));
    let (max, opts) = max_opt(s);
    let d = dest(s, env, format!("{}_swap_comp_mutant", stem(&m.htf)));
    c.say(format!("{}\n{}\n{:?} {:?}", show_mtr(&m.mu, &m.colocs), show_mtr(&mu2, &colocs2), d.args, opts));
    let set: BTreeSet<_> = m.colocs.iter().collect();
    let set2: BTreeSet<_> = colocs2.iter().collect();
    if set != set2 {
        c.label("different co-localizations");
        c.nontrivial = true;
        let r = run_mutation("mutate_swap_components", &m, Some(&htf2), &d, &opts);
        return match r {
            Err(f) if f.sig == "mutant file" => Ok(()),
            Err(f) => Err(f),
            Ok(_) => fail("different co-localizations", "a mutant is written"),
        };
    }
    if other {
        // maybe in another order
        m.colocs = m.colocs.clone();
        c.discard = true;
        return Ok(());
    }
    let k = m.colocs.len();
    c.nontrivial = max >= 1 && k > 1;
    let all_differ = m.mu.iter().zip(&mu2).all(|(x, y)| x != y);
    c.label_if(max >= k, "more swaps than components");
    for _ in 0..tries(env, 3) {
        let mu = run_mutation("mutate_swap_components", &m, Some(&htf2), &d, &opts)?;
        let got = show_mtr(&mu, &m.colocs);
        let mut n = 0;
        for ((x, y), z) in m.mu.iter().zip(&mu2).zip(&mu) {
            ensure!(z == x || z == y, "component swap", "{} has a component of none of the two", got);
            if z != x {
                n += 1
            }
        }
        ensure!(n <= max, "number of swapped components", "{} has {} components of the second one, more than {}", got, n, max);
        if all_differ && max >= 1 && k > 1 {
            ensure!(n >= 1, "number of swapped components", "nothing is swapped");
        }
    }
    Ok(())
}

/// everything that a mutation may do can be drawn
fn mut_reach(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let n_lf = s.range(1, 4);
    let n_ms = s.range(1, 5);
    let n = Names::plain(n_lf, n_ms, 0);
    let colocs = gen_colocs(s, n_lf);
    let many = s.chance(1, 2);
    let what = s.below(if many { 1 } else { 4 });
    let max = if colocs.len() > 2 { 2 } else { 3 };
    // actions that differ, so that a change tells where it was made
    let gen = |s: &mut Src| -> Mu {
        colocs
            .iter()
            .map(|l| {
                let l: Vec<usize> = l.iter().cloned().collect();
                let mut all: Vec<Act> = l.iter().flat_map(|f| (0..n_ms).flat_map(move |m| [act(*f, true, m), act(*f, false, m)])).collect();
                let k = s.below(max + 1);
                (0..k).filter_map(|_| if all.is_empty() { None } else { let i = s.below(all.len()); Some([all.remove(i)].into_iter().collect()) }).collect()
            })
            .collect()
    };
    let mu = gen(s);
    let nu = gen(s);
    let hsf = put(env, ".hsf", &hsf_text(s, &n, true));
    let htf = put(env, "_mu.htf", &htf_text(&n, &colocs, &mu));
    let htf2 = put(env, "_nu.htf", &htf_text(&n, &colocs, &nu));
    let m = Model { n, colocs: colocs.clone(), mu, hsf, htf };
    let (d, p) = fresh_dir(env, "mr");
    let d = Dest { args: vec!["-p".into(), d, "-n".into(), "mutant".into()], file: p.join("mutant.htf"), folder: Some(p) };
    c.nontrivial = m.mu.iter().any(|x| !x.is_empty());
    let k = colocs.len();
    if many {
        // which actions noise is made of
        let one = s.chance(1, 3);
        let end = s.chance(1, 2);
        let (runs, num) = if one { (1500, k) } else { (1, 1500) };
        let mut opts = vec!["-m".to_string(), format!("{}", num)];
        if one {
            opts.push("-u".into());
        }
        if end {
            opts.push("-e".into());
        }
        c.say(format!("{}\n{} messages {:?}", show_mtr(&m.mu, &m.colocs), n_ms, opts));
        c.label("actions of noise");
        let mut seen: BTreeSet<(usize, Act)> = BTreeSet::new();
        for _ in 0..runs {
            let mu = run_mutation("mutate_insert_noise", &m, None, &d, &opts)?;
            for (i, (x, y)) in m.mu.iter().zip(&mu).enumerate() {
                ensure!(is_subseq(x, y), "noise", "the original is lost");
                let mut bx = bag(x);
                for a in y {
                    match bx.get_mut(a) {
                        Some(v) if *v > 0 => *v -= 1,
                        _ => {
                            seen.extend(a.iter().map(|b| (i, b.clone())));
                        }
                    }
                }
            }
        }
        for (i, l) in colocs.iter().enumerate() {
            for f in l {
                for ms in 0..n_ms {
                    for e in [true, false] {
                        let a = act(*f, e, ms);
                        ensure!(seen.contains(&(i, a.clone())), "noise never drawn", "{:?} is not among the noise of component {}", a, i);
                    }
                }
            }
        }
        return Ok(());
    }
    let (cmd, second, num) = match what {
        0 => ("mutate_insert_noise", None, 1),
        1 => ("mutate_remove_actions", None, 1),
        2 => ("mutate_swap_actions", None, 1),
        _ => ("mutate_swap_components", Some(htf2.as_str()), s.range(1, 3)),
    };
    let mut opts = vec!["-m".to_string(), format!("{}", num)];
    let one = what == 0 && s.chance(1, 2);
    if one {
        opts.push("-u".into());
    }
    c.say(format!("{}\n{}\n{} {:?}", show_mtr(&m.mu, &m.colocs), show_mtr(&nu, &m.colocs), cmd, opts));
    c.label(cmd);
    let mut got: BTreeSet<Mu> = BTreeSet::new();
    // without the inserted action
    let mut places: BTreeSet<(usize, usize)> = BTreeSet::new();
    for _ in 0..400 {
        let mu = run_mutation(cmd, &m, second, &d, &opts)?;
        if what == 0 {
            for (i, (x, y)) in m.mu.iter().zip(&mu).enumerate() {
                if y.len() == x.len() + 1 {
                    for j in 0..y.len() {
                        if y[..j] == x[..j] && y[j + 1..] == x[j..] {
                            places.insert((i, j));
                        }
                    }
                }
            }
        }
        got.insert(mu);
    }
    let mut want: Vec<Mu> = vec![];
    match what {
        0 => {
            for (i, x) in m.mu.iter().enumerate() {
                for j in 0..x.len().max(1) {
                    ensure!(places.contains(&(i, j)), "noise never drawn", "nothing is inserted at place {} of component {}", j, i);
                }
            }
        }
        1 => {
            for (i, x) in m.mu.iter().enumerate() {
                for j in 0..x.len() {
                    let mut mu = m.mu.clone();
                    mu[i].remove(j);
                    want.push(mu);
                }
            }
        }
        2 => {
            for (i, x) in m.mu.iter().enumerate() {
                for j in 0..x.len() {
                    for h in 0..j {
                        let mut mu = m.mu.clone();
                        mu[i].swap(h, j);
                        want.push(mu);
                    }
                }
            }
        }
        _ => {
            let n = num.min(k - 1);
            for b in 0..1u32 << k {
                if b.count_ones() as usize == n {
                    want.push((0..k).map(|i| if b >> i & 1 == 1 { nu[i].clone() } else { m.mu[i].clone() }).collect());
                }
            }
        }
    }
    for w in want {
        ensure!(got.contains(&w), "mutant never drawn", "{} is not among 400 mutants", show_mtr(&w, &m.colocs));
    }
    Ok(())
}

/// nothing to work on: the mutant is the original
fn mut_corner(s: &mut Src, c: &mut Case, env: &Env) -> Res {
    let n_lf = s.below(3);
    let n_ms = s.below(2);
    let n = Names::plain(n_lf, n_ms, 0);
    let colocs: Colocs = (0..n_lf).map(|l| [l].into_iter().collect()).collect();
    let mu: Mu = colocs.iter().map(|l| if n_ms > 0 && s.chance(1, 2) { vec![[act(*l.iter().next().unwrap(), true, 0)].into_iter().collect()] } else { vec![] }).collect();
    let hsf = put(env, ".hsf", &hsf_text(s, &n, true));
    let htf = put(env, "_mu.htf", &htf_text(&n, &colocs, &mu));
    let m = Model { n, colocs, mu, hsf, htf };
    let (max, opts) = max_opt(s);
    let cmd = *s.pick(&["mutate_insert_noise", "mutate_remove_actions", "mutate_swap_actions", "mutate_swap_components"]);
    let d = dest(
        s,
        env,
        format!(
            "{}_{}",
            stem(&m.htf),
            match cmd {
                "mutate_insert_noise" => "insert_noise_mutant",
                "mutate_remove_actions" => "remove_actions_mutant",
                "mutate_swap_actions" => "swap_act_mutant",
                _ => "swap_comp_mutant",
            }
        ),
    );
    c.say(format!("{} {} lifelines, {} messages, {}\n{:?} {:?}", cmd, n_lf, n_ms, show_mtr(&m.mu, &m.colocs), d.args, opts));
    c.nontrivial = true;
    let second = if cmd == "mutate_swap_components" { Some(m.htf.clone()) } else { None };
    let mu = run_mutation(cmd, &m, second.as_deref(), &d, &opts)?;
    let len = |mu: &Mu| mu.iter().map(|x| x.len()).sum::<usize>();
    match cmd {
        "mutate_insert_noise" => {
            let want = len(&m.mu) + if n_lf > 0 && n_ms > 0 { max } else { 0 };
            ensure!(len(&mu) == want, "corner", "{}", show_mtr(&mu, &m.colocs));
        }
        "mutate_remove_actions" => ensure!(len(&mu) <= len(&m.mu), "corner", "{}", show_mtr(&mu, &m.colocs)),
        _ => ensure!(mu == m.mu, "corner", "{}", show_mtr(&mu, &m.colocs)),
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            rule: "at least 6 slices, or 2 random ones of a component of two actions",
            assumptions: &["wide slices are checked on components of more than 4 actions: shorter ones are cut freely"],
            suites: vec![
                Suite { name: "exhaustive", quick: 8000, thorough: 200000, run: slices_all },
                Suite { name: "random", quick: 12000, thorough: 300000, run: slices_rnd },
                Suite { name: "reach", quick: 240, thorough: 600, run: slices_reach },
            ],
        },
        Prop {
            id: "C23",
            rule: "at least one mutation to do",
            assumptions: &["mutants are drawn at random by the tool: a case runs the command three times"],
            suites: vec![
                Suite { name: "noise", quick: 12000, thorough: 300000, run: mut_noise },
                Suite { name: "removal", quick: 12000, thorough: 300000, run: mut_remove },
                Suite { name: "swap", quick: 12000, thorough: 300000, run: mut_swap },
                Suite { name: "components", quick: 12000, thorough: 300000, run: mut_compo },
                Suite { name: "reach", quick: 240, thorough: 2000, run: mut_reach },
                Suite { name: "corner", quick: 2000, thorough: 20000, run: mut_corner },
            ],
        },
    ]
}
