//! Monitor for external solver processes (C18)
//!
//! The executable that is driven is this binary itself (`--fake-solver SCENARIO`): it records how it
//! was called and what it was given to read, and behaves as a scenario file tells it to.
use crate::m_types::{asg_map, junk, status, vlines, Want};
use rustsat::solvers::external::{InputVia, OutputVia};
use rustsat::solvers::{ExternalSolver, Solve, SolverResult, SolverState, StateError};
use rustsat::types::{Clause, Lit, TernaryVal, Var};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use vcore::{check, check_eq, fail, Case, Prop, Res, Sub};

// ---------------------------------------------------------------------------------------------
// the solver process

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn hex(b: &[u8]) -> String {
    use std::fmt::Write;
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

/// Acts out the scenario file that follows the `--fake-solver` argument
pub fn fake_solver() {
    let args: Vec<OsString> = std::env::args_os().collect();
    let at = args.iter().position(|a| a == "--fake-solver").unwrap();
    let scen = std::fs::read_to_string(&args[at + 1]).unwrap();
    let mut lines = scen.lines();
    let rec = PathBuf::from(lines.next().unwrap());
    let inarg = lines.next().unwrap();
    let mut r = std::fs::File::create(&rec).unwrap();
    for a in &args[1..] {
        writeln!(r, "arg {}", hex(a.as_bytes())).unwrap();
    }
    for (k, v) in std::env::vars_os() {
        if k.as_bytes().starts_with(b"VHX_") {
            writeln!(r, "env {} {}", hex(k.as_bytes()), hex(v.as_bytes())).unwrap();
        }
    }
    writeln!(r, "cwd {}", hex(std::env::current_dir().unwrap().as_os_str().as_bytes())).unwrap();
    let path = match inarg {
        "first" => Some(PathBuf::from(&args[1])),
        "last" => Some(PathBuf::from(&args[args.len() - 1])),
        _ => None,
    };
    for l in lines {
        let (op, x) = l.split_once(' ').unwrap_or((l, ""));
        match op {
            "read" => {
                let mut b = vec![];
                match &path {
                    Some(p) => {
                        let _ = std::fs::File::open(p).and_then(|mut f| f.read_to_end(&mut b));
                    }
                    None => {
                        let _ = std::io::stdin().read_to_end(&mut b);
                    }
                }
                std::fs::write(rec.with_extension("in"), &b).unwrap();
            }
            "readsome" => {
                let mut b = vec![0; x.parse().unwrap()];
                if path.is_none() {
                    let _ = std::io::stdin().read(&mut b);
                }
            }
            "closein" => {
                unsafe { libc::close(0) };
            }
            "out" => {
                let b = unhex(x);
                let mut o = std::io::stdout();
                let _ = o.write_all(&b).and_then(|()| o.flush());
            }
            "fill" => {
                // many comment lines
                let n: usize = x.parse().unwrap();
                let mut o = std::io::stdout().lock();
                for i in 0..n {
                    if writeln!(o, "c filler line {i} filler filler filler filler filler filler filler").is_err() {
                        break;
                    }
                }
                let _ = o.flush();
            }
            "closeout" => {
                unsafe { libc::close(1) };
            }
            "err" => {
                let _ = std::io::stderr().write_all(b"c some message on the other channel\n");
            }
            "sleep" => std::thread::sleep(std::time::Duration::from_millis(x.parse().unwrap())),
            "exit" => std::process::exit(x.parse().unwrap()),
            "signal" => unsafe {
                let s: i32 = x.parse().unwrap();
                libc::signal(s, libc::SIG_DFL);
                libc::raise(s);
                std::process::exit(1);
            },
            _ => panic!("{l}"),
        }
    }
    std::process::exit(0)
}

// ---------------------------------------------------------------------------------------------
// the monitor

#[derive(Clone, Copy, PartialEq, Debug)]
enum In {
    FileFirst,
    FileLast,
    TempFirst,
    TempLast,
    Pipe,
}

/// what the process printed has to be understood as
fn wanted(c: &mut Case, text: &mut Vec<u8>) -> (Want, &'static str) {
    let style = c.rng.below(3);
    let (v, m) = vlines(c, style);
    let mut lines: Vec<String> = v;
    let kind = c.rng.below(16);
    let (stat, name): (&[&str], _) = match kind {
        0 | 1 => (&["s UNSATISFIABLE"], "unsat"),
        2 => (&["s UNKNOWN"], "unknown"),
        3 => (&["s INDETERMINATE"], "unknown"),
        4 => (&[], "no status"),
        5 => (&["s SATISFIABLE", "s UNSATISFIABLE"], "contradictory"),
        6 => (&["s UNSATISFIABLE", "s SATISFIABLE"], "contradictory"),
        7 => (&["s MAYBE"], "malformed status"),
        8 => (&["s SATISFIABLE"], "no values"),
        9 => (&["s SATISFIABLE"], "malformed values"),
        10 => (&["s SATISFIABLE"], "not text"),
        11 => (&["s SATISFIABLE"], "conflicting values"),
        _ => (&["s SATISFIABLE"], "sat"),
    };
    match name {
        "unsat" | "unknown" if c.rng.chance(3, 4) => lines.clear(),
        "no values" => lines.clear(),
        "malformed values" => lines.push("v 1 2 zz 0".into()),
        "conflicting values" => {
            lines.clear();
            lines.push("v 1 -2 3 0".into());
            lines.push("v 2 0".into());
        }
        _ => {}
    }
    if c.rng.chance(1, 3) {
        lines.extend(stat.iter().map(|s| (*s).to_string()));
    } else {
        for s in stat.iter().rev() {
            lines.insert(0, (*s).to_string());
        }
    }
    for _ in 0..c.rng.below(4) {
        let at = c.rng.below(lines.len() + 1);
        let j = junk(c);
        lines.insert(at, j);
    }
    let nl = *c.rng.pick(&["\n", "\n", "\n", "\r\n"]);
    let t = lines.join(nl) + if c.rng.chance(3, 4) { nl } else { "" };
    let want = match name {
        "sat" => Want::Sat(m),
        "unsat" | "unknown" => status(&t).unwrap(),
        _ => Want::Err,
    };
    *text = t.into_bytes();
    if name == "not text" {
        // somewhere in a comment before or after the answer
        let mut b = b"c \xff\xfe\x80\n".to_vec();
        b.extend_from_slice(text);
        *text = b;
    }
    (want, name)
}

fn clauses(c: &mut Case) -> (Vec<Vec<i32>>, u32) {
    let big = c.rng.chance(1, 12);
    let n = match c.rng.below(6) {
        0 => 0,
        1 => 1,
        _ if big => 20_000,
        _ => c.rng.us(1, 40),
    };
    let maxv = match c.rng.below(4) {
        0 => 1,
        1 => 2_000_000_000,
        _ => 50,
    };
    let mut cls = vec![];
    let mut top = 0;
    for _ in 0..n {
        let k = if c.rng.chance(1, 30) { 0 } else { c.rng.us(1, 6) };
        let cl: Vec<i32> = (0..k)
            .map(|_| {
                let v = if c.rng.chance(1, 2) { c.rng.us(1, maxv.min(9)) } else { c.rng.us(1, maxv) } as i32;
                top = top.max(v as u32);
                if c.rng.bool() { v } else { -v }
            })
            .collect();
        cls.push(cl);
    }
    (cls, top)
}

fn unpack(p: &Path) -> std::io::Result<Vec<u8>> {
    let tool = match p.extension().and_then(|e| e.to_str()) {
        Some("gz") => "gzip",
        Some("bz2") => "bzip2",
        Some("xz") => "xz",
        _ => return std::fs::read(p),
    };
    let o = std::process::Command::new(tool).arg("-dc").arg(p).output()?;
    if o.status.success() { Ok(o.stdout) } else { Err(std::io::Error::other(format!("{tool} {:?}", o.status))) }
}

fn state_of(e: &anyhow::Error) -> Option<(SolverState, SolverState)> {
    e.downcast_ref::<StateError>().map(|e| (e.required_state, e.actual_state))
}

/// no child process is left behind
fn reap() -> usize {
    let mut n = 0;
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) };
        if r == 0 {
            // still running
            n += 1;
            unsafe { libc::waitpid(-1, &mut st, 0) };
        } else if r < 0 {
            return n;
        } else {
            n += 1;
        }
    }
}

#[allow(clippy::too_many_lines)]
fn external(c: &mut Case) -> Res {
    let dir = c.dir();
    let tmp = dir.join("tmp");
    let cwd = dir.join("cwd");
    std::fs::create_dir_all(&tmp).unwrap();
    std::fs::create_dir_all(&cwd).unwrap();
    std::env::set_var("TMPDIR", &tmp);
    std::env::set_var("VHX_inherited", "kept");
    std::env::set_var("VHX_removed", "must not arrive");
    let via = *c.rng.pick(&[In::FileFirst, In::FileLast, In::TempFirst, In::TempLast, In::Pipe, In::Pipe]);
    let out_file = c.rng.chance(1, 3);
    let (cls, top) = clauses(c);
    let mut text = vec![];
    let (mut want, mut name) = wanted(c, &mut text);
    // the scenario
    let rec = dir.join("rec");
    let mut scen = vec![rec.to_str().unwrap().to_string()];
    scen.push(match via {
        In::FileFirst | In::TempFirst => "first",
        In::FileLast | In::TempLast => "last",
        In::Pipe => "stdin",
    }.to_string());
    let mut parts: Vec<Vec<u8>> = vec![];
    let mut rest = &text[..];
    for _ in 0..c.rng.below(4) {
        let k = c.rng.below(rest.len() + 1);
        parts.push(rest[..k].to_vec());
        rest = &rest[k..];
    }
    parts.push(rest.to_vec());
    // when is the input read
    let reads = !c.rng.chance(1, 8);
    let read_at = c.rng.below(parts.len() + 1) * usize::from(c.rng.chance(1, 3));
    let filler = if c.rng.chance(1, 6) { c.rng.us(1, 6000) } else { 0 };
    let fill_at = *c.rng.pick(&[0, parts.len()]);
    let slow = c.rng.chance(1, 10);
    let mut closed = false;
    for i in 0..=parts.len() {
        if i == read_at {
            if reads {
                scen.push("read".into());
            } else if c.rng.bool() {
                scen.push(format!("readsome {}", c.rng.us(1, 5000)));
            }
            if c.rng.chance(1, 5) {
                scen.push("closein".into());
            }
        }
        if filler > 0 && i == fill_at && (i == 0 || text.last() == Some(&b'\n')) {
            scen.push(format!("fill {filler}"));
        }
        if slow && c.rng.bool() {
            scen.push(format!("sleep {}", c.rng.us(1, 30)));
        }
        if c.rng.chance(1, 10) {
            scen.push("err".into());
        }
        if i < parts.len() {
            scen.push(format!("out {}", hex(&parts[i])));
        }
    }
    if c.rng.chance(1, 8) {
        closed = true;
        scen.push("closeout".into());
        if slow {
            scen.push(format!("sleep {}", c.rng.us(1, 30)));
        }
    }
    match c.rng.below(8) {
        0 => {
            let s = *c.rng.pick(&[libc::SIGKILL, libc::SIGTERM, libc::SIGUSR1, libc::SIGPIPE, libc::SIGINT]);
            scen.push(format!("signal {s}"));
            want = Want::Err;
            name = "signal";
        }
        1 => {
            let x = *c.rng.pick(&[1, 2, 3, 9, 11, 19, 21, 30, 127, 139, 255]);
            scen.push(format!("exit {x}"));
            want = Want::Err;
            name = "exit code";
        }
        2 => scen.push("exit 0".into()),
        _ => scen.push(match &want {
            Want::Sat(_) => "exit 10".into(),
            Want::Unsat => "exit 20".into(),
            _ => format!("exit {}", *c.rng.pick(&[0, 10, 20])),
        }),
    }
    let spath = dir.join("scen");
    std::fs::write(&spath, scen.join("\n") + "\n").unwrap();
    // the command
    let mut exe = std::env::current_exe().unwrap();
    if c.rng.chance(1, 40) {
        exe = dir.join("missing");
        want = Want::Err;
        name = "no executable";
    } else if c.rng.chance(1, 60) {
        exe = dir.join("scen");
        want = Want::Err;
        name = "not executable";
    }
    let mut extra: Vec<OsString> = vec![];
    for _ in 0..c.rng.below(3) {
        extra.push(match c.rng.below(4) {
            0 => OsString::from("with space"),
            1 => OsString::from_vec(vec![b'x', 0xff, 0xfe]),
            2 => OsString::from(""),
            _ => OsString::from("-n"),
        });
    }
    let mut cmd = std::process::Command::new(&exe);
    cmd.arg("--fake-solver").arg(&spath).args(&extra);
    let set_env = c.rng.bool();
    if set_env {
        cmd.env("VHX_set", "value");
    }
    let rm_env = c.rng.bool();
    if rm_env {
        cmd.env_remove("VHX_removed");
    }
    let set_cwd = c.rng.bool();
    if set_cwd {
        cmd.current_dir(&cwd);
    }
    if c.rng.bool() {
        // where the output is read from is no business of the caller
        cmd.stdout(std::process::Stdio::null());
    }
    let infile = dir.join(*c.rng.pick(&["in.cnf", "in.cnf", "in", "in.cnf.gz", "in.cnf.bz2", "in.cnf.xz"]));
    let mut bad_path = false;
    let infile = if c.rng.chance(1, 40) {
        bad_path = matches!(via, In::FileFirst | In::FileLast);
        dir.join("nodir").join("in.cnf")
    } else {
        infile
    };
    if !bad_path && c.rng.chance(1, 3) {
        // overwritten completely
        std::fs::write(&infile, vec![b'z'; 5000]).ok();
    }
    let outfile = dir.join("out.txt");
    let mut bad_out = false;
    let outfile = if c.rng.chance(1, 40) {
        bad_out = out_file;
        dir.join("nodir").join("out")
    } else {
        outfile
    };
    if !bad_out && c.rng.chance(1, 3) {
        std::fs::write(&outfile, "s SATISFIABLE\nv 1 2 3 0\n".repeat(500)).ok();
    }
    if bad_path || bad_out {
        want = Want::Err;
        name = "bad path";
    }
    let input = match via {
        In::FileFirst => InputVia::file_first(&infile),
        In::FileLast => InputVia::file_last(&infile),
        In::TempFirst => InputVia::tempfile_first(),
        In::TempLast => InputVia::tempfile_last(),
        In::Pipe => InputVia::pipe(),
    };
    let output = if out_file { OutputVia::file(&outfile) } else { OutputVia::pipe() };
    let dflt = via == In::TempLast && !out_file && c.rng.bool();
    c.log(format!("{via:?} file {infile:?} output file {out_file} clauses {} scenario {scen:?} text {:?} args {extra:?} env {set_env} {rm_env} cwd {set_cwd} want {name}", cls.len(), String::from_utf8_lossy(&text)));
    let mut s = if dflt {
        ExternalSolver::new_default(cmd, "sig")
    } else {
        ExternalSolver::new(cmd, input, output, "sig")
    };
    check_eq!(s.signature(), "sig", "signature", "signature");
    for (i, cl) in cls.iter().enumerate() {
        let k: Clause = cl.iter().map(|&l| Lit::from_ipasir(l).unwrap()).collect();
        let r = match i % 3 {
            0 => s.add_clause(k),
            1 => s.add_clause_ref(&k),
            _ => {
                s.extend([k]);
                Ok(())
            }
        };
        check!(r.is_ok(), "add", "clause {i}: {r:?}");
    }
    if c.rng.chance(1, 4) {
        let e = s.lit_val(Lit::positive(0)).err().and_then(|e| state_of(&e));
        check_eq!(e, Some((SolverState::Sat, SolverState::Input)), "state:before", "value before solving");
        let e = s.solution(Var::new(3)).err().and_then(|e| state_of(&e));
        check_eq!(e, Some((SolverState::Sat, SolverState::Input)), "state:before", "solution before solving");
    }
    let r = c.run("solve", || s.solve())?;
    let reaped = reap();
    if reaped > 0 {
        c.count("processes the solver did not wait for", reaped as u64);
    }
    // what the process saw
    let started = rec.exists();
    let no_exe = name == "no executable" || name == "not executable" || bad_path || bad_out;
    if no_exe {
        check!(r.is_err(), "failure:not-reported", "{name}: {r:?}");
    } else {
        check!(started, "call:not-started", "the command was not run: {r:?}");
        let recd = std::fs::read_to_string(&rec).unwrap();
        let mut args: Vec<OsString> = vec![];
        let mut env: BTreeMap<String, String> = BTreeMap::new();
        let mut rcwd = PathBuf::new();
        for l in recd.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "arg" => args.push(OsString::from_vec(unhex(f[1]))),
                "env" => {
                    env.insert(String::from_utf8(unhex(f[1])).unwrap(), String::from_utf8(unhex(f[2])).unwrap());
                }
                _ => rcwd = PathBuf::from(OsString::from_vec(unhex(f[1]))),
            }
        }
        let mut wargs: Vec<OsString> = vec!["--fake-solver".into(), spath.clone().into()];
        wargs.extend(extra.iter().cloned());
        let path = match via {
            In::FileFirst | In::TempFirst if !args.is_empty() => Some(args.remove(0)),
            In::FileLast | In::TempLast => args.pop(),
            _ => None,
        };
        check_eq!(args, wargs, "call:args", "arguments of the command");
        let mut wenv: BTreeMap<String, String> = BTreeMap::new();
        wenv.insert("VHX_inherited".into(), "kept".into());
        if !rm_env {
            wenv.insert("VHX_removed".into(), "must not arrive".into());
        }
        if set_env {
            wenv.insert("VHX_set".into(), "value".into());
        }
        check_eq!(env, wenv, "call:env", "environment of the command");
        let wcwd = if set_cwd { std::fs::canonicalize(&cwd).unwrap() } else { std::env::current_dir().unwrap() };
        check_eq!(rcwd, wcwd, "call:cwd", "working directory of the command");
        match via {
            In::FileFirst | In::FileLast => {
                check_eq!(path.as_deref(), Some(infile.as_os_str()), "call:path", "path of the instance");
                check!(infile.exists(), "input:file-gone", "the input file has been removed");
            }
            In::TempFirst | In::TempLast => {
                let p = PathBuf::from(path.unwrap());
                check!(p.starts_with(&tmp), "call:path", "temporary file {p:?}");
                check!(!p.exists(), "input:temp-left", "temporary file {p:?} is still there");
            }
            In::Pipe => {}
        }
        // a call that failed before the process ended may have taken the input away from it
        if reads && !(r.is_err() && reaped > 0) {
            let inp = rec.with_extension("in");
            check!(inp.exists() || r.is_err(), "input:unread", "the answer came without the process having read its input");
            if inp.exists() {
                let raw = if matches!(via, In::FileFirst | In::FileLast) {
                    // what the process read is the file
                    check_eq!(std::fs::read(&inp).unwrap(), std::fs::read(&infile).unwrap(), "input:changed", "file seen by the process and left behind");
                    match unpack(&infile) {
                        Ok(b) => b,
                        Err(e) => fail!("input:archive", "{infile:?}: {e}"),
                    }
                } else {
                    std::fs::read(&inp).unwrap()
                };
                let mut txt = format!("p cnf {} {}\n", top, cls.len());
                for cl in &cls {
                    for l in cl {
                        txt.push_str(&format!("{l} "));
                    }
                    txt.push_str("0\n");
                }
                let norm = |s: &str| -> Vec<String> {
                    s.lines()
                        .filter(|l| !l.starts_with('c') && !l.trim().is_empty())
                        .map(|l| l.split_whitespace().collect::<Vec<_>>().join(" "))
                        .collect()
                };
                let got = String::from_utf8_lossy(&raw).into_owned();
                let (g, w) = (norm(&got), norm(&txt));
                if g != w {
                    let at = (0..g.len().max(w.len())).find(|&i| g.get(i) != w.get(i)).unwrap();
                    fail!("input:clauses", "line {at}: the process received {:?} of {} lines, added {:?} of {}", g.get(at), g.len(), w.get(at), w.len());
                }
                c.count("inputs received and compared", 1);
                c.count("clauses received", cls.len() as u64);
            }
        }
        let _ = closed;
        // a process that does not read everything it is sent may make the call fail
        let may_fail = via == In::Pipe && (!reads || top > 0 && scen.iter().any(|l| l == "closein"));
        match (&want, &r) {
            (Want::Err, Ok(x)) => fail!(format!("failure:{name}"), "answer {x:?}"),
            (Want::Err, Err(_)) => {}
            (_, Err(_)) if may_fail && !reads => c.count("calls failing with unread input", 1),
            (w, Err(e)) => fail!("answer:lost", "{e:#} instead of {w:?}"),
            (Want::Sat(_), Ok(x)) => check_eq!(*x, SolverResult::Sat, "answer", "answer"),
            (Want::Unsat, Ok(x)) => check_eq!(*x, SolverResult::Unsat, "answer", "answer"),
            (Want::Unknown, Ok(x)) => check_eq!(*x, SolverResult::Interrupted, "answer", "answer"),
        }
    }
    let left: Vec<_> = std::fs::read_dir(&tmp).unwrap().collect();
    check!(left.is_empty(), "input:temp-left", "{left:?} in the directory of temporary files");
    // later queries
    let st = match &r {
        Ok(SolverResult::Sat) => SolverState::Sat,
        Ok(SolverResult::Unsat) => SolverState::Unsat,
        _ => SolverState::Unknown,
    };
    if let (Want::Sat(m), SolverState::Sat) = (&want, st) {
        let high = m.keys().last().copied().unwrap_or(0);
        for v in (0..high.min(300) + 3).chain([high, high + 1, 1_000_000]) {
            let w = match m.get(&v) {
                Some(true) => TernaryVal::True,
                Some(false) => TernaryVal::False,
                None => TernaryVal::DontCare,
            };
            let g = c.run("lit_val", || s.lit_val(Lit::positive(v)))?;
            check!(g.as_ref().is_ok_and(|g| *g == w), "value", "x{}: {g:?} instead of {w:?}", v + 1);
            let g = c.run("lit_val", || s.lit_val(Lit::negative(v)))?;
            check!(g.as_ref().is_ok_and(|g| *g == !w), "value", "-x{}: {g:?} instead of {:?}", v + 1, !w);
            let g = s.var_val(Var::new(v));
            check!(g.as_ref().is_ok_and(|g| *g == w), "value", "var {g:?}");
        }
        for h in [high, c.rng.below(high as usize + 5) as u32] {
            let g = c.run("solution", || s.solution(Var::new(h)))?;
            match g {
                Ok(a) => {
                    let cut: BTreeMap<u32, bool> = m.iter().filter(|(k, _)| **k <= h).map(|(k, v)| (*k, *v)).collect();
                    check_eq!(asg_map(&a), cut, "solution", "solution up to {h}");
                }
                Err(e) => fail!("solution", "{e}"),
            }
        }
    } else {
        let e = s.lit_val(Lit::positive(0)).err().and_then(|e| state_of(&e));
        check_eq!(e, Some((SolverState::Sat, st)), "state:after", "value after {r:?}");
        let e = s.solution(Var::new(3)).err().and_then(|e| state_of(&e));
        check_eq!(e, Some((SolverState::Sat, st)), "state:after", "solution after {r:?}");
    }
    let e = s.solve().err().and_then(|e| state_of(&e));
    check_eq!(e, Some((SolverState::Input, st)), "state:after", "solving again after {r:?}");
    let e = s.add_clause(Clause::from_iter([Lit::positive(0)])).err().and_then(|e| state_of(&e));
    check_eq!(e, Some((SolverState::Input, st)), "state:after", "adding a clause after {r:?}");
    c.count(name, 1);
    c.nontrivial(&format!("{via:?}{out_file}{name}{:?}{}", &scen[2..], cls.len()));
    Ok(())
}

#[must_use]
pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C18",
        "an external solver process receives exactly the clauses added and its answer or failure is reported as it is",
        vec![Sub::new("external", 100, external).hang(20, true)],
    )
    .quick(45)
    .thorough(900)
    .assume(&["the fake solver records faithfully what it is given", "gzip, bzip2 and xz unpack what they are given"])]
}
