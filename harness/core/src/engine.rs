//! Monitor engine: runs monitored cases in worker processes, watches for refuted oracles, panics,
//! crashes (signals, sanitizer reports) and hangs, and turns what was observed into a verdict and
//! an evidence file.
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// A refuted oracle
#[derive(Debug, Clone)]
pub struct Fail {
    /// stable signature: what failed, on which site/input (matched against the known findings)
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => {
        return Err($crate::Fail { sig: ($sig).to_string(), msg: format!($($arg)*) })
    };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { $crate::fail!($sig, $($arg)*); }
    };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { $crate::fail!($sig, "{}: {:?} != {:?}", format!($($arg)*), a, b); }
    }};
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub verbose: bool,
    log: String,
    fps: Vec<u64>,
    counters: BTreeMap<String, u64>,
    known: Vec<String>,
    known_sigs: std::rc::Rc<HashSet<String>>,
    pub scratch: PathBuf,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map_or_else(|| "?".into(), |l| format!("{}:{}", l.file(), l.line()));
        if std::env::var_os("VH_BT").is_some() {
            eprintln!("PANIC {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs a closure, catching panics; returns (message, location)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| ("?".into(), "?".into()))),
    }
}

impl Case {
    /// Adds to the (replayable) description of this case
    pub fn log(&mut self, s: impl AsRef<str>) {
        if self.log.len() < 40_000 {
            self.log.push_str(s.as_ref());
            self.log.push('\n');
        }
        if self.verbose {
            eprintln!("  {}", s.as_ref());
        }
    }
    pub fn log_text(&self) -> &str {
        &self.log
    }
    /// The same case once more, from the start
    pub fn fresh(&self) -> Case {
        Case {
            rng: Rng::new(mix(mix(self.seed) ^ mix(self.idx)) ^ 0x5eed),
            idx: self.idx,
            seed: self.seed,
            thorough: self.thorough,
            verbose: false,
            log: String::new(),
            fps: vec![],
            counters: BTreeMap::new(),
            known: vec![],
            known_sigs: self.known_sigs.clone(),
            scratch: self.scratch.join("again"),
        }
    }
    /// Marks a distinct non-trivial situation, by its description
    pub fn nontrivial(&mut self, desc: &str) {
        self.fps.push(hash_str(desc));
    }
    pub fn count(&mut self, what: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(what) {
            *x += n;
        } else {
            self.counters.insert(what.to_string(), n);
        }
    }
    /// Is this signature a listed known finding? (counts it as observed)
    pub fn known(&mut self, sig: &str) -> bool {
        if self.known_sigs.contains(sig) {
            self.known.push(sig.to_string());
            true
        } else {
            false
        }
    }
    /// Runs code under test; a panic is a failure with the given signature prefix
    pub fn run<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
        guard(f).map_err(|(m, l)| Fail {
            sig: format!("panic:{what}"),
            msg: format!("{what} panicked: {m} at {l}"),
        })
    }
    /// fresh scratch directory for this case (removed after the case)
    pub fn dir(&self) -> PathBuf {
        std::fs::create_dir_all(&self.scratch).expect("scratch directory");
        self.scratch.clone()
    }
}

#[derive(Clone)]
pub struct Sub {
    pub name: &'static str,
    /// relative share of the time budget
    pub share: u32,
    /// maximum number of cases in the quick / thorough tier (0: only bounded by time)
    pub max: (u64, u64),
    /// wall seconds without progress on one case after which it counts as hanging
    pub hang_s: u64,
    /// whether a hang or memory exhaustion refutes the property (otherwise: inconclusive)
    pub hang_violates: bool,
    /// whether a case that takes that long is merely cut off (and its worker with it)
    pub cut: bool,
    /// the binary (beside the main one) whose workers run this monitor; empty: the main one
    pub exe: &'static str,
    pub f: fn(&mut Case) -> Res,
}

impl Sub {
    pub fn new(name: &'static str, share: u32, f: fn(&mut Case) -> Res) -> Self {
        Sub { name, share, max: (0, 0), hang_s: 240, hang_violates: false, cut: false, exe: "", f }
    }
    pub fn max(mut self, q: u64, t: u64) -> Self {
        self.max = (q, t);
        self
    }
    pub fn exe(mut self, e: &'static str) -> Self {
        self.exe = e;
        self
    }
    pub fn cut(mut self, cut: bool) -> Self {
        self.cut = cut;
        self
    }

    pub fn hang(mut self, s: u64, violates: bool) -> Self {
        self.hang_s = s;
        self.hang_violates = violates;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Sub>,
    /// seconds of monitoring in the quick tier
    pub quick_s: u64,
    pub thorough_s: u64,
    /// number of worker processes
    pub workers: usize,
    /// further binaries (beside the main one) that run workers
    pub alt: Vec<(&'static str, usize)>,
    /// address space limit of a worker in MB (0: none)
    pub mem_mb: u64,
}

impl Prop {
    pub fn new(id: &'static str, rule: &'static str, subs: Vec<Sub>) -> Self {
        Prop { id, rule, assumptions: vec![], subs, quick_s: 20, thorough_s: 600, workers: 8, alt: vec![], mem_mb: 0 }
    }
    pub fn quick(mut self, s: u64) -> Self {
        self.quick_s = s;
        self
    }
    pub fn thorough(mut self, s: u64) -> Self {
        self.thorough_s = s;
        self
    }
    pub fn mem(mut self, mb: u64) -> Self {
        self.mem_mb = mb;
        self
    }
    pub fn workers(mut self, n: usize) -> Self {
        self.workers = n;
        self
    }
    pub fn alt(mut self, exe: &'static str, n: usize) -> Self {
        self.alt.push((exe, n));
        self
    }
    pub fn assume(mut self, a: &[&'static str]) -> Self {
        self.assumptions = a.to_vec();
        self
    }
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

/// known findings: lines `known: property=<id> sig=<sig> | <what fails>`
fn load_known(prop: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={prop} sig=")) {
                if let Some((sig, what)) = r.split_once(" | ") {
                    out.push((sig.trim().to_string(), what.trim().to_string()));
                }
            }
        }
    }
    out
}

fn case_rng(seed: u64, prop: &str, sub: &str, idx: u64) -> Rng {
    Rng::new(mix(mix(mix(seed) ^ hash_str(prop)) ^ hash_str(sub)) ^ mix(idx))
}

struct Status {
    ptr: *mut u64,
    file: std::fs::File,
}
impl Status {
    fn open(path: &Path) -> Self {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("status file");
        f.set_len(64).expect("status file");
        use std::os::fd::AsRawFd;
        // (an interpreter has no shared mappings)
        let p = if cfg!(miri) {
            std::ptr::null_mut()
        } else {
            unsafe { libc::mmap(std::ptr::null_mut(), 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) }
        };
        assert!(p != libc::MAP_FAILED);
        Status { ptr: p.cast(), file: f }
    }
    fn set(&self, i: usize, v: u64) {
        if self.ptr.is_null() {
            use std::io::{Seek, SeekFrom, Write};
            let mut f = &self.file;
            f.seek(SeekFrom::Start(i as u64 * 8)).and_then(|_| f.write_all(&v.to_ne_bytes())).expect("status file");
        } else {
            unsafe { self.ptr.add(i).write_volatile(v) }
        }
    }
    fn get(&self, i: usize) -> u64 {
        if self.ptr.is_null() {
            use std::io::{Read, Seek, SeekFrom};
            let mut f = &self.file;
            let mut b = [0; 8];
            f.seek(SeekFrom::Start(i as u64 * 8)).and_then(|_| f.read_exact(&mut b)).expect("status file");
            u64::from_ne_bytes(b)
        } else {
            unsafe { self.ptr.add(i).read_volatile() }
        }
    }
}

fn run_case(prop: &Prop, sub: &Sub, idx: u64, seed: u64, thorough: bool, verbose: bool, known: &std::rc::Rc<HashSet<String>>, scratch: &Path) -> (Case, Res) {
    let mut c = Case {
        rng: case_rng(seed, prop.id, sub.name, idx),
        idx,
        seed,
        thorough,
        verbose,
        log: String::new(),
        fps: vec![],
        counters: BTreeMap::new(),
        known: vec![],
        known_sigs: known.clone(),
        scratch: scratch.to_path_buf(),
    };
    let r = match guard(|| (sub.f)(&mut c)) {
        Ok(r) => r,
        Err((m, l)) => {
            if l.contains("harness/") || l.contains("pure/src") || l.contains("ffi/src") || l.contains("core/src/engine") || m.contains("harness/: ") || l.contains("core/src/oracle") {
                Err(Fail { sig: "HARNESS".into(), msg: format!("harness panicked: {m} at {l}") })
            } else {
                let site = l.rsplit_once(':').map_or(l.as_str(), |x| x.0).to_string();
                Err(Fail { sig: format!("panic@{site}"), msg: format!("code under test panicked: {m} at {l}") })
            }
        }
    };
    if c.scratch.exists() {
        let _ = std::fs::remove_dir_all(&c.scratch);
    }
    // known findings
    let r = match r {
        Err(f) if c.known(&f.sig) => Ok(()),
        r => r,
    };
    (c, r)
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn jesc(s: &str) -> String {
    serde_json::Value::String(s.to_string()).to_string()
}

pub struct Opts {
    seed: u64,
    thorough: bool,
    explore: bool,
    secs: Option<u64>,
    only: Option<String>,
    no_evidence: bool,
}

/// position of a worker process
struct Wk {
    k: usize,
    n: usize,
    slot: usize,
    group: String,
    dir: PathBuf,
}

fn worker(prop: &Prop, o: &Opts, w: &Wk) -> i32 {
    let (k, n, slot, dir) = (w.k, w.n, w.slot, w.dir.as_path());
    let st = Status::open(&dir.join(format!("status.{slot}")));
    if prop.mem_mb > 0 && std::env::var_os("VH_NOLIMIT").is_none() {
        let l = libc::rlimit { rlim_cur: prop.mem_mb << 20, rlim_max: prop.mem_mb << 20 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    }
    let known: std::rc::Rc<HashSet<String>> = std::rc::Rc::new(load_known(prop.id).into_iter().map(|x| x.0).collect());
    let budget = Duration::from_secs(o.secs.unwrap_or(if o.thorough { prop.thorough_s } else { prop.quick_s }));
    let start = Instant::now();
    let subs: Vec<&Sub> = prop.subs.iter().filter(|s| s.exe == w.group && o.only.as_deref().is_none_or(|x| x == s.name)).collect();
    let m = subs.len();
    let mut next = vec![k as u64; m];
    let mut spent = vec![0f64; m];
    let mut ran = vec![0u64; m];
    let mut done = vec![false; m];
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut fps: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut per_sub_samples = vec![0; m];
    let mut violations: Vec<String> = vec![];
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen_sigs: HashSet<String> = HashSet::new();
    let mut harness_err = None;
    'outer: loop {
        let mut best = None;
        for i in 0..m {
            if done[i] {
                continue;
            }
            let key = spent[i] / f64::from(subs[i].share);
            if best.is_none_or(|(_, b)| key < b) {
                best = Some((i, key));
            }
        }
        let Some((i, _)) = best else { break };
        let s = subs[i];
        let idx = next[i];
        let mx = if o.thorough { s.max.1 } else { s.max.0 };
        if mx != 0 && idx >= mx {
            done[i] = true;
            continue;
        }
        // every sub-monitor gets at least one case per worker
        if start.elapsed() >= budget {
            if ran.iter().zip(&done).all(|(&r, &d)| r > 0 || d) {
                break;
            }
            if ran[i] > 0 {
                spent[i] = f64::MAX;
                done[i] = true;
                continue;
            }
        }
        next[i] += n as u64;
        let sub_index = prop.subs.iter().position(|x| x.name == s.name).unwrap();
        st.set(1, sub_index as u64);
        st.set(2, idx);
        st.set(0, st.get(0) + 1);
        let t = Instant::now();
        let scratch = dir.join(format!("scratch.{slot}"));
        let (c, r) = run_case(prop, s, idx, o.seed, o.thorough, false, &known, &scratch);
        spent[i] += t.elapsed().as_secs_f64() + 1e-7;
        ran[i] += 1;
        if t.elapsed().as_secs_f64() > 3.0 && std::env::var_os("VH_SLOW").is_some() {
            eprintln!("slow case {}#{idx}: {:.1} s {:?}", s.name, t.elapsed().as_secs_f64(), c.counters);
        }
        for (name, v) in &c.counters {
            if let Some(x) = counters.get_mut(name) {
                *x += v;
            } else {
                counters.insert(name.clone(), *v);
            }
        }
        if !c.fps.is_empty() && per_sub_samples[i] < 2 && ran[i] >= 3 {
            per_sub_samples[i] += 1;
            let mut t: String = format!("[{}#{}] {}", s.name, idx, c.log);
            if t.len() > 700 {
                let mut e = 700;
                while !t.is_char_boundary(e) {
                    e -= 1;
                }
                t.truncate(e);
            }
            samples.push(t);
        }
        for f in &c.fps {
            if fps.len() < 4_000_000 {
                fps.insert(mix(*f ^ hash_str(s.name)));
            }
        }
        for kf in &c.known {
            *known_seen.entry(kf.clone()).or_default() += 1;
        }
        if let Err(f) = r {
            if f.sig == "HARNESS" {
                harness_err = Some(format!("{}#{}: {}", s.name, idx, f.msg));
                if !o.explore {
                    break 'outer;
                }
            }
            if seen_sigs.insert(format!("{}:{}", s.name, f.sig)) {
                violations.push(format!(
                    "{{\"sub\":{},\"idx\":{},\"sig\":{},\"msg\":{},\"log\":{},\"harness\":{}}}",
                    jesc(s.name), idx, jesc(&f.sig), jesc(&f.msg), jesc(&c.log), f.sig == "HARNESS"
                ));
            }
            if !o.explore || violations.len() > 60 {
                break 'outer;
            }
        }
    }
    st.set(3, 1);
    let mut j = String::new();
    let runs: Vec<String> = subs.iter().zip(&ran).map(|(s, r)| format!("{}:{}", jesc(s.name), r)).collect();
    let cnt: Vec<String> = counters.iter().map(|(k, v)| format!("{}:{}", jesc(k), v)).collect();
    let kn: Vec<String> = known_seen.iter().map(|(k, v)| format!("{}:{}", jesc(k), v)).collect();
    let smp: Vec<String> = samples.iter().map(|s| jesc(s)).collect();
    let _ = write!(
        j,
        "{{\"runs\":{{{}}},\"counters\":{{{}}},\"known\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"harness\":{}}}",
        runs.join(","), cnt.join(","), kn.join(","), smp.join(","), violations.join(","),
        harness_err.as_ref().map_or("null".into(), |e| jesc(e))
    );
    let bytes: Vec<u8> = fps.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(dir.join(format!("fps.{slot}")), bytes).expect("write fps");
    std::fs::write(dir.join(format!("result.{slot}")), j).expect("write result");
    if harness_err.is_some() {
        2
    } else {
        i32::from(!violations.is_empty())
    }
}

fn cpu_secs(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let r = s.rsplit_once(')')?.1;
    let f: Vec<&str> = r.split_whitespace().collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let t: f64 = f.get(12)?.parse().ok()?;
    Some((u + t) / 100.0)
}

fn write_replay(prop: &str, seed: u64, sub: &str, idx: u64, sig: &str, msg: &str, log: &str, bin: &str) -> PathBuf {
    let d = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&d);
    let safe: String = sub.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
    let p = d.join(format!("{prop}-{safe}-{seed}-{idx}.json"));
    let j = format!(
        "{{\n\"property\":{},\n\"sub\":{},\n\"seed\":{},\n\"idx\":{},\n\"sig\":{},\n\"what\":{},\n\"case\":{},\n\"replay_cmd\":{}\n}}\n",
        jesc(prop), jesc(sub), seed, idx, jesc(sig), jesc(msg), jesc(log),
        jesc(&format!("cd /verif && VERIF_SEED={seed} {bin} {prop} --one {sub} {idx}"))
    );
    std::fs::write(&p, j).expect("write replay");
    p
}

/// Entry point of a harness binary
pub fn main_with(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: {} PROP [--one SUB IDX] [--explore] [--secs N] [--sub NAME] | --list", args[0]);
        std::process::exit(2)
    };
    if args.len() < 2 {
        usage();
    }
    if args[1] == "--list" {
        for p in &props {
            println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
        }
        std::process::exit(0);
    }
    let Some(prop) = props.iter().find(|p| p.id == args[1]) else { usage() };
    let mut o = Opts {
        seed: env_u64("VERIF_SEED", 1),
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        explore: false,
        secs: std::env::var("VH_SECS").ok().and_then(|x| x.parse().ok()),
        only: None,
        no_evidence: false,
    };
    let mut one = None;
    let mut wk = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--explore" => o.explore = true,
            "--no-evidence" => o.no_evidence = true,
            "--secs" => {
                o.secs = Some(args[i + 1].parse().unwrap());
                i += 1;
            }
            "--sub" => {
                o.only = Some(args[i + 1].clone());
                o.no_evidence = true;
                i += 1;
            }
            "--one" => {
                one = Some((args[i + 1].clone(), args[i + 2].parse::<u64>().unwrap()));
                i += 2;
            }
            "--worker" => {
                wk = Some(Wk {
                    k: args[i + 1].parse().unwrap(),
                    n: args[i + 2].parse().unwrap(),
                    slot: args[i + 3].parse().unwrap(),
                    group: args[i + 4].clone(),
                    dir: PathBuf::from(&args[i + 5]),
                });
                i += 5;
            }
            _ => usage(),
        }
        i += 1;
    }
    install_panic_hook();
    if let Some(w) = wk {
        let c = worker(prop, &o, &w);
        // run normal process teardown so that leak checkers see it
        std::process::exit(c);
    }
    if let Some((sub, idx)) = one {
        let s = prop.subs.iter().find(|s| s.name == sub).expect("no such sub-monitor");
        if !s.exe.is_empty() && std::env::var_os("VH_GROUP").is_none_or(|g| g != *s.exe) {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(sibling(s.exe)).args(&args[1..]).env("VH_GROUP", s.exe).exec();
            eprintln!("cannot run {}: {e}", s.exe);
            std::process::exit(2);
        }
        let known = std::rc::Rc::new(load_known(prop.id).into_iter().map(|x| x.0).collect());
        let scratch = std::env::temp_dir().join(format!("vh-one-{}", std::process::id()));
        let (c, r) = run_case(prop, s, idx, o.seed, o.thorough, true, &known, &scratch);
        println!("{}", c.log_text());
        match r {
            Ok(()) => {
                println!("held (known findings seen: {:?}; counters {:?})", c.known, c.counters);
                std::process::exit(0)
            }
            Err(f) => {
                println!("REFUTED sig={} : {}", f.sig, f.msg);
                std::process::exit(if f.sig == "HARNESS" { 2 } else { 1 })
            }
        }
    }
    std::process::exit(parent(prop, &o, &args[0]));
}

fn sibling(exe: &str) -> PathBuf {
    let own = std::env::current_exe().expect("own path");
    if exe.is_empty() {
        own
    } else {
        own.parent().expect("directory").join(exe)
    }
}

fn parent(prop: &Prop, o: &Opts, bin: &str) -> i32 {
    let t0 = Instant::now();
    let base = std::env::var_os("VH_TMP").map_or_else(std::env::temp_dir, PathBuf::from);
    let dir = base.join(format!("vh-{}-{}", prop.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("work directory");
    // (binary, position in its group, size of its group)
    let mut slots: Vec<(&'static str, usize, usize)> = (0..prop.workers).map(|k| ("", k, prop.workers)).collect();
    for &(e, n) in &prop.alt {
        slots.extend((0..n).map(|k| (e, k, n)));
    }
    if let Some(x) = &o.only {
        let e = prop.subs.iter().find(|s| s.name == x).map_or("", |s| s.exe);
        slots.retain(|s| s.0 == e);
    }
    let n = slots.len();
    let spawn = |k: usize| {
        let (exe, pos, size) = slots[k];
        let mut c = std::process::Command::new(sibling(exe));
        c.arg(prop.id);
        if o.explore {
            c.arg("--explore");
        }
        if let Some(s) = o.secs {
            c.arg("--secs").arg(s.to_string());
        }
        if let Some(s) = &o.only {
            c.arg("--sub").arg(s);
        }
        c.arg("--worker").arg(pos.to_string()).arg(size.to_string()).arg(k.to_string()).arg(exe).arg(&dir);
        c.stdin(std::process::Stdio::null());
        c.stdout(std::fs::File::create(dir.join(format!("out.{k}"))).unwrap());
        c.stderr(std::fs::File::create(dir.join(format!("err.{k}"))).unwrap());
        c.spawn().expect("spawn worker")
    };
    let mut kids: Vec<Option<std::process::Child>> = (0..n).map(|k| Some(spawn(k))).collect();
    let stats: Vec<Status> = (0..n).map(|k| Status::open(&dir.join(format!("status.{k}")))).collect();
    // (heartbeat, since, cpu at that time)
    let mut beat: Vec<(u64, Instant, f64)> = (0..n).map(|_| (0, Instant::now(), 0.0)).collect();
    let mut violations: Vec<serde_json::Value> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let mut cut = 0u64;
    let stop_all = |kids: &mut Vec<Option<std::process::Child>>| {
        for c in kids.iter_mut().flatten() {
            let _ = c.kill();
            let _ = c.wait();
        }
    };
    loop {
        let mut alive = 0;
        let mut stop = false;
        for k in 0..n {
            let Some(c) = kids[k].as_mut() else { continue };
            match c.try_wait().expect("wait") {
                None => {
                    alive += 1;
                    let h = stats[k].get(0);
                    if h != beat[k].0 {
                        beat[k] = (h, Instant::now(), cpu_secs(c.id()).unwrap_or(0.0));
                    } else if stats[k].get(3) == 0 && h > 0 {
                        let s = &prop.subs[stats[k].get(1) as usize];
                        let wall = beat[k].1.elapsed().as_secs();
                        if wall > s.hang_s && s.cut {
                            let _ = c.kill();
                            let _ = c.wait();
                            kids[k] = None;
                            cut += 1;
                        } else if wall > s.hang_s {
                            let cpu = cpu_secs(c.id()).unwrap_or(0.0) - beat[k].2;
                            let idx = stats[k].get(2);
                            let msg = format!("case {}#{idx} did not finish within {wall} s ({cpu:.0} s of CPU time)", s.name);
                            // burning CPU, or blocked (no CPU use at all), but not merely starved
                            if s.hang_violates && (cpu > wall as f64 * 0.5 || cpu < wall as f64 * 0.05) {
                                violations.push(serde_json::json!({"sub": s.name, "idx": idx, "sig": "hang", "msg": msg, "log": ""}));
                            } else {
                                inconclusive.push(msg);
                            }
                            stop = true;
                        }
                    }
                }
                Some(status) => {
                    use std::os::unix::process::ExitStatusExt;
                    kids[k] = None;
                    let err = std::fs::read(dir.join(format!("err.{k}"))).unwrap_or_default();
                    let err_all = String::from_utf8_lossy(&err);
                    let oom = ["memory allocation of", "handle_alloc_error", "out of memory", "bad_alloc", "capacity overflow"].iter().any(|p| err_all.contains(p));
                    let marks = ["ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "runtime error:", "WARNING: ThreadSanitizer", "error: Undefined Behavior"];
                    let from = marks.iter().filter_map(|m| err_all.find(m)).min();
                    let err = match from {
                        Some(p) => err_all[p..].chars().take(5000).collect(),
                        None => String::from_utf8_lossy(&err[err.len().saturating_sub(6000)..]).into_owned(),
                    };
                    let finished = stats[k].get(3) == 1;
                    match (status.code(), status.signal()) {
                        (Some(0), _) => {}
                        (Some(1), _) if finished => stop |= !o.explore,
                        (Some(2), _) if finished => stop |= !o.explore,
                        (code, sig) => {
                            let s = &prop.subs[stats[k].get(1) as usize];
                            let idx = stats[k].get(2);
                            let san = from.is_some() || (err.contains("==") && code == Some(99));
                            let crash = matches!(sig, Some(libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGFPE | libc::SIGILL));
                            let what = format!("worker died in case {}#{idx} (code {code:?}, signal {sig:?}, finished {finished}): {err}", s.name);
                            if s.cut && err_all.contains("error: unsupported operation") {
                                cut += 1;
                                continue;
                            }
                            if oom && !s.hang_violates {
                                inconclusive.push(what);
                            } else if san || crash || oom {
                                let sg = if san { "sanitizer" } else if oom { "memory" } else { "crash" };
                                violations.push(serde_json::json!({"sub": s.name, "idx": idx, "sig": sg, "msg": what, "log": ""}));
                            } else {
                                inconclusive.push(what);
                            }
                            stop = true;
                        }
                    }
                }
            }
        }
        if stop && !o.explore {
            // give the others a moment to finish the current case, then stop
            stop_all(&mut kids);
            break;
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    // collect
    let mut runs: BTreeMap<String, u64> = prop.subs.iter().filter(|s| o.only.as_deref().is_none_or(|x| x == s.name)).map(|s| (s.name.to_string(), 0)).collect();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    if cut > 0 {
        counters.insert("workers cut off in a case that took too long or was not supported".into(), cut);
    }
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut fps: HashSet<u64> = HashSet::new();
    for k in 0..n {
        let Ok(s) = std::fs::read_to_string(dir.join(format!("result.{k}"))) else { continue };
        let Ok(v) = serde_json::from_str::<serde_json::Value>(&s) else { continue };
        for (name, x) in v["runs"].as_object().unwrap() {
            *runs.entry(name.clone()).or_default() += x.as_u64().unwrap();
        }
        for (name, x) in v["counters"].as_object().unwrap() {
            *counters.entry(name.clone()).or_default() += x.as_u64().unwrap();
        }
        for (name, x) in v["known"].as_object().unwrap() {
            *known.entry(name.clone()).or_default() += x.as_u64().unwrap();
        }
        if samples.len() < 12 {
            samples.extend(v["samples"].as_array().unwrap().iter().take(6).cloned());
        }
        for x in v["violations"].as_array().unwrap() {
            if x["harness"].as_bool() == Some(true) {
                inconclusive.push(format!("{} // case: {}", x["msg"].as_str().unwrap_or(""), x["log"].as_str().unwrap_or("")));
            } else {
                violations.push(x.clone());
            }
        }
        let b = std::fs::read(dir.join(format!("fps.{k}"))).unwrap_or_default();
        for c in b.chunks_exact(8) {
            fps.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let total: u64 = runs.values().sum();
    let known_list = load_known(prop.id);
    for (sig, what) in &known_list {
        if let Some(c) = known.get(sig) {
            println!("KNOWN-FINDING: property={} {} [observed {} times; sig {}]", prop.id, what, c, sig);
        }
    }
    let mut seen = HashSet::new();
    let mut code = 0;
    for v in &violations {
        let sub = v["sub"].as_str().unwrap();
        let sig = v["sig"].as_str().unwrap();
        if !seen.insert((sub.to_string(), sig.to_string())) {
            continue;
        }
        let idx = v["idx"].as_u64().unwrap();
        let msg = v["msg"].as_str().unwrap();
        let p = write_replay(prop.id, o.seed, sub, idx, sig, msg, v["log"].as_str().unwrap(), bin);
        let mut short: String = msg.chars().take(1500).collect();
        short = short.replace('\n', "\n    ");
        println!("refuted {sub}#{idx} sig={sig}: {short}");
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        code = 1;
    }
    for i in inconclusive.iter().take(5) {
        println!("INCONCLUSIVE {}: {i}", prop.id);
    }
    if code == 0 && violations.is_empty() {
        for (name, r) in &runs {
            if *r == 0 {
                inconclusive.push(format!("sub-monitor {name} observed nothing"));
                println!("INCONCLUSIVE {}: sub-monitor {name} observed nothing", prop.id);
            }
        }
        for (sig, what) in &known_list {
            if o.only.is_none() && !known.contains_key(sig) {
                println!("KNOWN-FINDING: property={} {what} [not observed in this run; sig {sig}]", prop.id);
            }
        }
    }
    if !o.no_evidence {
        let ev = serde_json::json!({
            "property": prop.id,
            "tier": if o.thorough { "thorough" } else { "quick" },
            "seed": o.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": total,
                "distinct_nontrivial": fps.len(),
                "rule": prop.rule,
                "samples": samples,
                "cases_per_monitor": runs,
                "observed": counters,
                "known_findings_observed": known,
                "inconclusive": inconclusive.len(),
            },
            "assumptions": prop.assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": violations.len(),
        });
        let d = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&d);
        std::fs::write(d.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    println!("{} {}: {} cases, {} distinct non-trivial, {:.1} s; {:?}", prop.id, if code == 1 { "REFUTED" } else if inconclusive.is_empty() { "held on everything observed" } else { "INCONCLUSIVE" }, total, fps.len(), t0.elapsed().as_secs_f64(), runs);
    if code == 1 {
        1
    } else if inconclusive.is_empty() {
        0
    } else {
        2
    }
}
