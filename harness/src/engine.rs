//! A small choice-sequence property-testing engine.
//!
//! Every random decision of a case is a draw from `Src`; a case is therefore a pure function of its draw
//! sequence. Random cases are seeded from (VERIF_SEED, property, case index), so a run does not depend on the
//! number of threads. A failing case is shrunk by deleting and lowering draws; the shrunk draw sequence,
//! together with a human readable description, is the replay file.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Src {
    state: u64,
    replay: Option<Vec<u32>>,
    pub rec: Vec<u32>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { state: seed, replay: None, rec: vec![] }
    }
    pub fn replay(v: Vec<u32>) -> Src {
        Src { state: 0, replay: Some(v), rec: vec![] }
    }
    /// uniform in 0..n (0 is the simplest value)
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let v = match &self.replay {
            Some(r) => {
                let x = r.get(self.rec.len()).copied().unwrap_or(0);
                x.min((n - 1) as u32)
            }
            None => (splitmix(&mut self.state) % (n as u64)) as u32,
        };
        self.rec.push(v);
        v as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; the simplest value is false
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// index drawn with the given weights
    /// in any order (as it is when the source is exhausted)
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for k in 0..v.len() {
            let j = k + self.below(v.len() - k);
            v.swap(k, j);
        }
    }

    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let tot: usize = ws.iter().sum();
        let mut k = self.below(tot);
        for (i, w) in ws.iter().enumerate() {
            if k < *w {
                return i;
            }
            k -= w;
        }
        ws.len() - 1
    }
}

#[derive(Default, Clone)]
pub struct Case {
    pub desc: Option<String>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub discard: bool,
    pub excluded: bool,
}

impl Case {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
    pub fn say(&mut self, s: String) {
        self.desc = Some(s)
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<S: Into<String>, M: Into<String>>(sig: S, msg: M) -> Res {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) { return Err($crate::engine::Fail { sig: $sig.to_string(), msg: format!($($arg)*) }); }
    };
}

thread_local! {
    static LAST_PANIC : RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// runs f, turning a panic into Err(message)
pub fn guarded<X, F: FnOnce() -> X>(f: F) -> Result<X, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub type PropFn = fn(&mut Src, &mut Case, &Env) -> Res;

pub struct Env {
    pub thorough: bool,
    pub scratch: std::path::PathBuf,
    pub verbose: bool,
    pub slots: Option<Slots>,
}

/// What every worker thread is executing, kept in a file so that the supervising process can tell which case
/// made the worker process die or hang.
pub struct Slots {
    pub file: std::fs::File,
    pub started: Vec<AtomicU64>,
    pub t0: std::time::Instant,
}

pub const MAX_THREADS: usize = 16;
pub const EXIT_HANG: i32 = 86;
pub const CASE_LIMIT_S: u64 = 100;

impl Slots {
    pub fn new(path: &std::path::Path) -> Slots {
        let file = std::fs::OpenOptions::new().create(true).write(true).open(path).expect("slots");
        Slots { file, started: (0..MAX_THREADS).map(|_| AtomicU64::new(0)).collect(), t0: std::time::Instant::now() }
    }
    pub fn begin(&self, thread: usize, suite: usize, seed: u64) {
        use std::os::unix::fs::FileExt;
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(suite as u64 + 1).to_le_bytes());
        b[8..].copy_from_slice(&seed.to_le_bytes());
        let _ = self.file.write_at(&b, (thread * 16) as u64);
        self.started[thread].store(self.t0.elapsed().as_secs() + 1, Ordering::Relaxed);
    }
    pub fn end(&self, thread: usize) {
        use std::os::unix::fs::FileExt;
        let _ = self.file.write_at(&[0u8; 8], (thread * 16) as u64);
        self.started[thread].store(0, Ordering::Relaxed);
    }
    pub fn read(path: &std::path::Path) -> Vec<(usize, u64)> {
        let b = std::fs::read(path).unwrap_or_default();
        b.chunks_exact(16)
            .map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap())))
            .filter(|(s, _)| *s > 0)
            .map(|(s, x)| ((s - 1) as usize, x))
            .collect()
    }
    pub fn watch(&self) {
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = self.t0.elapsed().as_secs() + 1;
            for s in &self.started {
                let b = s.load(Ordering::Relaxed);
                if b > 0 && now > b + CASE_LIMIT_S {
                    std::process::exit(EXIT_HANG);
                }
            }
        }
    }
}

pub struct Suite {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub run: PropFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
}

pub fn run_case(f: PropFn, src: &mut Src, env: &Env) -> (Case, Res) {
    crate::sem::refuel();
    let mut case = Case::default();
    let r = {
        let c = &mut case;
        let s = &mut *src;
        match catch_unwind(AssertUnwindSafe(move || f(s, c, env))) {
            Ok(r) => r,
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                Err(Fail { sig: format!("panic"), msg: format!("panic: {}", m) })
            }
        }
    };
    (case, r)
}

fn hash_str<T: Hash>(s: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn shrink(f: PropFn, start: Vec<u32>, sig: &str, env: &Env, deadline: std::time::Instant) -> Vec<u32> {
    let fails = |v: &Vec<u32>| -> Option<Vec<u32>> {
        let mut s = Src::replay(v.clone());
        let (c, r) = run_case(f, &mut s, env);
        if c.discard || c.excluded {
            return None;
        }
        match r {
            Err(e) if e.sig == sig => {
                let mut rec = s.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some(rec)
            }
            _ => None,
        }
    };
    let better = |a: &Vec<u32>, b: &Vec<u32>| (a.len(), a) < (b.len(), b);
    let mut cur = match fails(&start) {
        Some(v) => v,
        None => return start,
    };
    loop {
        let mut improved = false;
        let mut size = 16usize;
        while size >= 1 {
            let mut i = 0;
            while i + 1 <= cur.len() {
                if std::time::Instant::now() > deadline {
                    return cur;
                }
                let mut v = cur.clone();
                let end = (i + size).min(v.len());
                v.drain(i..end);
                let mut done = false;
                if let Some(w) = fails(&v) {
                    if better(&w, &cur) {
                        cur = w;
                        improved = true;
                        done = true;
                    }
                }
                if !done {
                    i += 1;
                }
            }
            size /= 2;
        }
        for i in 0..cur.len() {
            if i >= cur.len() {
                break;
            }
            let orig = cur[i];
            let mut cands = vec![0, orig / 2];
            if orig > 0 {
                cands.push(orig - 1);
            }
            for c in cands {
                if i >= cur.len() || c >= cur[i] {
                    continue;
                }
                if std::time::Instant::now() > deadline {
                    return cur;
                }
                let mut v = cur.clone();
                v[i] = c;
                if let Some(w) = fails(&v) {
                    if better(&w, &cur) {
                        cur = w;
                        improved = true;
                        break;
                    }
                }
            }
        }
        if !improved {
            return cur;
        }
    }
}

pub fn emit(line: &str) {
    use std::os::fd::FromRawFd;
    // check.sh opens descriptor 3 as the real stdout, and sends the code under test's prints to /dev/null
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(3) });
    if writeln!(f, "{}", line).is_err() {
        println!("{}", line);
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    discarded: u64,
    excluded: u64,
    labels: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: BTreeMap<usize, String>,
    per_suite: BTreeMap<String, (u64, u64)>,
}

pub struct Known {
    pub property: String,
    pub suite: String,
    pub sig: String,
    pub choices: Vec<u32>,
    pub what: String,
}

pub fn run_prop(p: &Prop, seed: u64, env: &Env, root: &std::path::Path, known: &[Known], scale: f64) -> i32 {
    let t0 = std::time::Instant::now();
    let mut violations: Vec<String> = vec![];
    let stats = Mutex::new(Stats::default());
    // listed findings: re-run each witness, report it while it still fails in the listed way
    for k in known.iter().filter(|k| k.property == p.id) {
        let suite = match p.suites.iter().find(|s| s.name == k.suite) {
            Some(s) => s,
            None => {
                eprintln!("unknown suite {} in known findings", k.suite);
                return 2;
            }
        };
        let mut src = Src::replay(k.choices.clone());
        let (_c, r) = run_case(suite.run, &mut src, env);
        if let Err(e) = r {
            if e.sig == k.sig {
                emit(&format!("KNOWN-FINDING: property={} {}", p.id, k.what));
            } else {
                let path = write_replay(root, p.id, suite.name, seed, &src.rec, &e, _c.desc.as_deref());
                emit(&format!("VIOLATION property={} replay={}", p.id, path));
                violations.push(e.sig);
            }
        }
    }
    for (suite_idx, suite) in p.suites.iter().enumerate() {
        let n = if env.thorough { suite.thorough } else { suite.quick };
        let n = ((n as f64) * scale).ceil() as usize;
        let next = AtomicUsize::new(0);
        let first_fail = AtomicUsize::new(usize::MAX);
        let fails: Mutex<BTreeMap<usize, (Vec<u32>, Fail)>> = Mutex::new(BTreeMap::new());
        let base = fnv(p.id) ^ fnv(suite.name).rotate_left(17) ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(MAX_THREADS);
        let done = AtomicBool::new(false);
        let progress = AtomicU64::new(0);
        std::thread::scope(|sc| {
            let (next, first_fail, fails, progress, stats) = (&next, &first_fail, &fails, &progress, &stats);
            for thread in 0..threads {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let mut local = Stats::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || i > first_fail.load(Ordering::SeqCst) {
                                break;
                            }
                            let mut s = base.wrapping_add((i as u64).wrapping_mul(0xD1342543DE82EF95));
                            let _ = splitmix(&mut s);
                            let mut src = Src::random(s);
                            if let Some(sl) = &env.slots {
                                sl.begin(thread, suite_idx, s);
                            }
                            let t0 = std::time::Instant::now();
                            let (case, r) = run_case(suite.run, &mut src, env);
                            if std::env::var_os("VERIF_SLOW").is_some() && t0.elapsed().as_secs_f64() > 1.0 {
                                eprintln!("slow case {:.1}s (suite {}, random {}): {:?}", t0.elapsed().as_secs_f64(), suite.name, s, case.desc);
                            }
                            if let Some(sl) = &env.slots {
                                sl.end(thread);
                            }
                            progress.fetch_add(1, Ordering::Relaxed);
                            local.evaluations += 1;
                            if case.discard {
                                local.discarded += 1;
                            }
                            if case.excluded {
                                local.excluded += 1;
                            }
                            for l in &case.labels {
                                *local.labels.entry(l.to_string()).or_insert(0) += 1;
                            }
                            let e = local.per_suite.entry(suite.name.to_string()).or_insert((0, 0));
                            e.0 += 1;
                            if case.discard || case.excluded {
                                continue;
                            }
                            if case.nontrivial {
                                e.1 += 1;
                                let h = match &case.desc {
                                    Some(d) => hash_str(&(suite.name, d)),
                                    None => hash_str(&(suite.name, &src.rec)),
                                };
                                local.distinct.insert(h);
                                if local.samples.len() < 3 || i < 12 {
                                    if let Some(d) = &case.desc {
                                        let mut d = d.clone();
                                        if d.len() > 1500 {
                                            let mut k = 1500;
                                            while !d.is_char_boundary(k) {
                                                k -= 1;
                                            }
                                            d.truncate(k);
                                        }
                                        local.samples.insert(i, format!("[{}#{}] {}", suite.name, i, d));
                                    }
                                }
                            }
                            if let Err(e) = r {
                                first_fail.fetch_min(i, Ordering::SeqCst);
                                fails.lock().unwrap().insert(i, (src.rec.clone(), e));
                            }
                        }
                        let mut g = stats.lock().unwrap();
                        g.evaluations += local.evaluations;
                        g.discarded += local.discarded;
                        g.excluded += local.excluded;
                        for (k, v) in local.labels {
                            *g.labels.entry(k).or_insert(0) += v;
                        }
                        g.distinct.extend(local.distinct);
                        for (k, v) in local.samples.into_iter().take(2) {
                            if g.samples.len() < 24 {
                                g.samples.entry(k * 64 + p.suites.iter().position(|s| s.name == suite.name).unwrap()).or_insert(v);
                            }
                        }
                        for (k, v) in local.per_suite {
                            let e = g.per_suite.entry(k).or_insert((0, 0));
                            e.0 += v.0;
                            e.1 += v.1;
                        }
                    })
                    .expect("thread");
            }
        });
        done.store(true, Ordering::SeqCst);
        let fails = fails.into_inner().unwrap();
        if let Some((_i, (rec, e))) = fails.into_iter().next() {
            let deadline = std::time::Instant::now() + std::time::Duration::from_secs(60);
            // should shrinking crash, the supervisor reports this replay
            let first = write_replay(root, p.id, suite.name, seed, &rec, &e, None);
            let _ = std::fs::write(env.scratch.join("pending"), &first);
            let small = shrink(suite.run, rec.clone(), &e.sig, env, deadline);
            let mut s = Src::replay(small.clone());
            let (c, r) = run_case(suite.run, &mut s, env);
            let (rec, e, c) = match r {
                Err(e2) => (small, e2, c),
                Ok(()) => (rec, e, c),
            };
            let path = write_replay(root, p.id, suite.name, seed, &rec, &e, c.desc.as_deref());
            emit(&format!("VIOLATION property={} replay={}", p.id, path));
            emit(&format!("  suite {} : {} : {}", suite.name, e.sig, e.msg));
            if let Some(d) = c.desc {
                emit(&format!("  case: {}", d));
            }
            violations.push(e.sig.clone());
            let _ = std::fs::remove_file(env.scratch.join("pending"));
        }
    }
    let st = stats.into_inner().unwrap();
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!(" \"property\": {},\n", json_str(p.id)));
    o.push_str(&format!(" \"tier\": \"{}\",\n", if env.thorough { "thorough" } else { "quick" }));
    o.push_str(&format!(" \"seed\": {},\n", seed));
    o.push_str(" \"level\": \"exploration\",\n");
    o.push_str(" \"coverage\": {\n");
    o.push_str(&format!("  \"evaluations\": {},\n", st.evaluations));
    o.push_str(&format!("  \"distinct_nontrivial\": {},\n", st.distinct.len()));
    o.push_str(&format!("  \"discarded_over_bound\": {},\n", st.discarded));
    o.push_str(&format!("  \"excluded_known_finding_class\": {},\n", st.excluded));
    o.push_str(&format!("  \"rule\": {},\n", json_str(p.rule)));
    o.push_str("  \"cases_per_suite\": {");
    o.push_str(&st.per_suite.iter().map(|(k, v)| format!("{}: {{\"run\": {}, \"nontrivial\": {}}}", json_str(k), v.0, v.1)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n  \"classes\": {");
    o.push_str(&st.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n  \"samples\": [\n   ");
    let mut smp: Vec<String> = vec![];
    for s in &p.suites {
        smp.extend(st.samples.values().filter(|d| d.starts_with(&format!("[{}#", s.name))).take(3).cloned());
    }
    o.push_str(&smp.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   "));
    o.push_str("\n  ]\n },\n");
    o.push_str(&format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!(" \"wall_s\": {:.2},\n", t0.elapsed().as_secs_f64()));
    o.push_str(&format!(" \"violations\": {}\n}}\n", violations.len()));
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), o) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    if st.distinct.is_empty() && violations.is_empty() {
        eprintln!("{}: no non-trivial case was generated", p.id);
        return 2;
    }
    emit(&format!(
        "{} {}: {} cases, {} distinct non-trivial, {} discarded, {:.1}s, {} violation(s)",
        p.id,
        if env.thorough { "thorough" } else { "quick" },
        st.evaluations,
        st.distinct.len(),
        st.discarded,
        t0.elapsed().as_secs_f64(),
        violations.len()
    ));
    if violations.is_empty() {
        0
    } else {
        1
    }
}

fn write_replay(root: &std::path::Path, id: &str, suite: &str, seed: u64, rec: &[u32], e: &Fail, desc: Option<&str>) -> String {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.replay", id, suite, seed));
    let mut s = String::new();
    s.push_str(&format!("property {}\nsuite {}\nsig {}\nchoices {}\n", id, suite, e.sig.replace('\n', " "), rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("# {}\n", e.msg.replace('\n', "\n# ")));
    if let Some(d) = desc {
        s.push_str(&format!("# case: {}\n", d.replace('\n', "\n# ")));
    }
    let _ = std::fs::write(&path, s);
    path.display().to_string()
}

pub struct Replay {
    pub property: String,
    pub suite: String,
    pub choices: Vec<u32>,
    pub random: Option<u64>,
}

pub fn read_replay(path: &str) -> Replay {
    let s = std::fs::read_to_string(path).expect("replay file");
    let mut r = Replay { property: String::new(), suite: String::new(), choices: vec![], random: None };
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            r.property = x.trim().to_string()
        } else if let Some(x) = l.strip_prefix("suite ") {
            r.suite = x.trim().to_string()
        } else if let Some(x) = l.strip_prefix("random ") {
            r.random = x.trim().parse().ok()
        } else if let Some(x) = l.strip_prefix("choices ") {
            r.choices = parse_choices(x)
        }
    }
    r
}

pub fn parse_choices(x: &str) -> Vec<u32> {
    x.split(',').filter(|y| !y.trim().is_empty()).map(|y| y.trim().parse().unwrap()).collect()
}

pub fn write_random_replay(root: &std::path::Path, id: &str, suite: &str, seed: u64, state: u64, why: &str) -> String {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.replay", id, suite, seed));
    let _ = std::fs::write(&path, format!("property {}\nsuite {}\nsig {}\nrandom {}\n", id, suite, why, state));
    path.display().to_string()
}

pub fn write_minimal_evidence(root: &std::path::Path, p: &Prop, thorough: bool, seed: u64, what: &str) {
    let o = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": 1,\n  \"distinct_nontrivial\": 1,\n  \"rule\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [],\n \"wall_s\": 0,\n \"violations\": 1\n}}\n",
        json_str(p.id),
        json_str(if thorough { "thorough" } else { "quick" }),
        seed,
        json_str(p.rule),
        json_str(what)
    );
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), o);
}
