//! Runs the checks of the properties of one executable.
use crate::engine::*;
use std::path::PathBuf;

fn load_known(root: &std::path::Path) -> Vec<Known> {
    let mut v = vec![];
    let s = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    for l in s.lines() {
        // finding: property=<id> suite=<suite> choices=<c,c,..> sig="<sig>" what="<text>"
        if let Some(l) = l.strip_prefix("finding: ") {
            let get = |k: &str| -> String {
                let p = match l.find(&format!("{}=", k)) {
                    Some(p) => p + k.len() + 1,
                    None => panic!("known_findings: no {} in {}", k, l),
                };
                let r = &l[p..];
                if let Some(r) = r.strip_prefix('"') {
                    r[..r.find('"').unwrap()].to_string()
                } else {
                    r.split_whitespace().next().unwrap_or("").to_string()
                }
            };
            v.push(Known { property: get("property"), suite: get("suite"), sig: get("sig"), choices: parse_choices(&get("choices")), what: get("what") });
        }
    }
    v
}

/// Runs the property in a child process. When the child dies (stack overflow, abort) or a case does not come to an
/// end, the cases it was executing are run again one by one: one that dies or hangs again is a violation.
fn supervise(p: &Prop, seed: u64, thorough: bool, root: &std::path::Path, scratch: &std::path::Path) -> i32 {
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("exe");
    let slots = scratch.join("slots");
    let st = Command::new(&exe).args(["run", p.id]).env("HARNESS_INNER", scratch).stdin(Stdio::null()).status().expect("spawn");
    let code = st.code();
    if matches!(code, Some(0) | Some(1) | Some(2)) {
        return code.unwrap();
    }
    if let Ok(path) = std::fs::read_to_string(scratch.join("pending")) {
        emit(&format!("VIOLATION property={} replay={}", p.id, path));
        write_minimal_evidence(root, p, thorough, seed, "a failing case, whose shrinking ended abnormally");
        return 1;
    }
    let cands = Slots::read(&slots);
    let results: Vec<(usize, u64, Option<String>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = cands
            .iter()
            .enumerate()
            .map(|(k, (su, state))| {
                let exe = exe.clone();
                let (su, state) = (*su, *state);
                let dir = scratch.join(format!("one{}", k));
                sc.spawn(move || {
                    let _ = std::fs::create_dir_all(&dir);
                    let name = p.suites[su].name;
                    let f = dir.join("case.replay");
                    let _ = std::fs::write(&f, format!("property {}\nsuite {}\nrandom {}\n", p.id, name, state));
                    let mut ch = match Command::new(&exe).arg("replay").arg(&f).env("HARNESS_QUIET", "1").env("HARNESS_INNER", &dir).stdin(Stdio::null()).spawn() {
                        Ok(c) => c,
                        Err(_) => return (su, state, None),
                    };
                    let t0 = std::time::Instant::now();
                    loop {
                        match ch.try_wait() {
                            Ok(Some(st)) => {
                                let why = match st.code() {
                                    Some(0) | Some(2) => None,
                                    Some(1) => Some("fails".to_string()),
                                    _ => Some(format!("the process executing the case died ({:?})", st)),
                                };
                                return (su, state, why);
                            }
                            _ => {}
                        }
                        if t0.elapsed().as_secs() > CASE_LIMIT_S {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            return (su, state, Some(format!("the case does not end within {} s", CASE_LIMIT_S)));
                        }
                        std::thread::sleep(std::time::Duration::from_millis(50));
                    }
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().ok()).collect()
    });
    for (su, state, why) in results {
        if let Some(why) = why {
            let path = write_random_replay(root, p.id, p.suites[su].name, seed, state, &why);
            emit(&format!("VIOLATION property={} replay={}", p.id, path));
            emit(&format!("  suite {} : {}", p.suites[su].name, why));
            write_minimal_evidence(root, p, thorough, seed, &why);
            return 1;
        }
    }
    eprintln!("{}: the run ended abnormally ({:?}) and no case reproduces it", p.id, st);
    2
}

/// memory-backed when it can be written, as some suites write many small files
fn scratch_root() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let probe = shm.join(format!("hibou-verif-probe-{}", std::process::id()));
    let ok = std::fs::write(&probe, vec![1u8; 64 << 20]).is_ok();
    let _ = std::fs::remove_file(&probe);
    if ok {
        shm
    } else {
        std::env::temp_dir()
    }
}

pub fn drive(props: Vec<Prop>) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let inner = std::env::var("HARNESS_INNER").ok();
    let scratch = match &inner {
        Some(d) => PathBuf::from(d),
        None => scratch_root().join(format!("hibou-verif-{}", std::process::id())),
    };
    std::fs::create_dir_all(&scratch).expect("scratch");
    // relative paths used by the code under test stay inside the scratch folder
    std::env::set_current_dir(&scratch).expect("chdir");
    let cmd = args.get(1).map(|s| s.as_str());
    let slots = if cmd == Some("run") && inner.is_some() { Some(Slots::new(&scratch.join("slots"))) } else { None };
    let env = Env { thorough, scratch: scratch.clone(), verbose: cmd == Some("replay"), slots };
    let quiet = std::env::var("HARNESS_QUIET").is_ok();
    let rc = match cmd {
        Some("list") => {
            for p in &props {
                emit(p.id);
            }
            0
        }
        Some("run") => {
            let id = &args[2];
            match props.iter().find(|p| p.id == id) {
                Some(p) if inner.is_none() => supervise(p, seed, thorough, &root, &scratch),
                Some(p) => {
                    let known = load_known(&root);
                    let env = &env;
                    std::thread::scope(|sc| {
                        let h = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || run_prop(p, seed, env, &root, &known, scale)).unwrap();
                        // not joined: ends with the process
                        sc.spawn(move || env.slots.as_ref().unwrap().watch());
                        let rc = h.join().unwrap_or(2);
                        std::process::exit(rc)
                    })
                }
                None => {
                    eprintln!("unknown property {}", id);
                    2
                }
            }
        }
        Some("replay") => {
            let r = read_replay(&args[2]);
            let p = props.iter().find(|p| p.id == r.property).expect("property");
            let su = p.suites.iter().find(|s| s.name == r.suite).expect("suite");
            let h = std::thread::Builder::new().stack_size(256 << 20);
            let env = &env;
            std::thread::scope(|sc| {
                h.spawn_scoped(sc, move || {
                    let mut src = match r.random {
                        Some(x) => Src::random(x),
                        None => Src::replay(r.choices.clone()),
                    };
                    let (c, res) = run_case(su.run, &mut src, env);
                    if quiet {
                        return if res.is_ok() || c.discard || c.excluded { 0 } else { 1 };
                    }
                    emit(&format!("case: {}", c.desc.unwrap_or_default()));
                    match res {
                        Ok(()) => {
                            emit("holds on this case");
                            0
                        }
                        Err(e) => {
                            emit(&format!("fails: {}: {}", e.sig, e.msg));
                            1
                        }
                    }
                })
                .unwrap()
                .join()
                .unwrap_or(2)
            })
        }
        _ => {
            eprintln!("usage: harness list | run <property> | replay <file>");
            2
        }
    };
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(rc);
}
