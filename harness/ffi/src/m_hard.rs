//! Monitors on instances that take a while: stopping a search (limits, terminators, interrupts from
//! other threads), and solvers and interrupters moving between threads
use crate::drv::*;
use crate::m_solve::{clause, lit};
use rustsat::solvers::*;
use rustsat::types::*;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};
use vcore::oracle::Sat;
use vcore::{check, check_eq, fail, Case, Res};

/// `holes + 1` pigeons in `holes` holes, every clause with a further literal
fn pigeons(holes: usize, extra: Option<i32>) -> Vec<Vec<i32>> {
    let x = |p: usize, h: usize| (p * holes + h + 1) as i32;
    let mut out = vec![];
    for p in 0..=holes {
        out.push((0..holes).map(|h| x(p, h)).collect::<Vec<i32>>());
    }
    for h in 0..holes {
        for p in 0..=holes {
            for q in 0..p {
                out.push(vec![-x(p, h), -x(q, h)]);
            }
        }
    }
    for c in &mut out {
        c.extend(extra);
    }
    out
}

fn fill(c: &mut Case, d: &mut Box<dyn Drv>, cls: &[Vec<i32>]) -> Res {
    for cl in cls {
        let k = clause(cl);
        if let Err(e) = c.run("add", || d.add(4, &k))? {
            fail!(format!("C17:{}:add-error", d.name()), "{e:#}");
        }
    }
    Ok(())
}
fn model_ok(d: &dyn Drv, cls: &[Vec<i32>], assumps: &[i32]) -> bool {
    let t = |l: i32| matches!(d.lit_val(lit(l)), Ok(TernaryVal::True));
    assumps.iter().all(|&l| t(l)) && cls.iter().all(|c| c.iter().any(|&l| t(l)))
}

/// searches that are stopped: the answer is undecided, in time, and later answers are right
pub fn stop(c: &mut Case) -> Res {
    let i = c.idx as usize % MAKE.len();
    let mut d = make(i);
    if d.interrupter().is_none() && d.name() != "ipasir" {
        d = make(0);
    }
    let name = d.name();
    let inc = d.incremental();
    let kissat = name == "kissat";
    // an interrupt may have arrived after the search it was meant for
    let mut pending = false;
    let sig = |s: &str| format!("C17:{name}:{s}");
    // far too hard to be decided by any of the solvers within the time
    let holes = c.rng.us(10, 12);
    let nv = (holes * (holes + 1)) as i32;
    let act = nv + 1;
    let cls = pigeons(holes, if inc { Some(-act) } else { None });
    c.log(format!("{name}: {holes} holes"));
    let variant = c.rng.below(3);
    if inc {
        if let Some(Err(e)) = d.freeze(lit(act).var()) {
            fail!(sig("freeze"), "{e:#}");
        }
    }
    fill(c, &mut d, &cls)?;
    let rounds = if inc { c.rng.us(1, 4) } else { 1 };
    for _ in 0..rounds {
        let how = if d.interrupter().is_none() { 3 } else { c.rng.below(6) };
        let k = c.rng.us(0, 300) as u32;
        // what is attached, for how long
        let calls = Rc::new(Cell::new(0usize));
        let stop_at = c.rng.us(0, 40);
        let after_stop = Rc::new(Cell::new(0usize));
        let mut what = String::new();
        let before = d.internal();
        let mut threads = false;
        let mut cb = false;
        match how {
            0 => {
                if matches!(d.lim_conf(Some(k)), Some(Ok(()))) {
                    what = format!("conflict limit {k}");
                }
            }
            1 => {
                if matches!(d.lim_dec(Some(k)), Some(Ok(()))) {
                    what = format!("decision limit {k}");
                }
            }
            2 => {
                let k = k * 20;
                if matches!(d.lim_prop(Some(k)), Some(Ok(()))) {
                    what = format!("propagation limit {k}");
                }
            }
            3 => {
                let (n, a) = (calls.clone(), after_stop.clone());
                if d.attach_term(Box::new(move || {
                    n.set(n.get() + 1);
                    if n.get() > stop_at {
                        a.set(a.get() + 1);
                        ControlSignal::Terminate
                    } else {
                        ControlSignal::Continue
                    }
                })) {
                    cb = true;
                    what = format!("terminator stopping after {stop_at} calls");
                }
            }
            _ => {}
        }
        if what.is_empty() {
            if d.interrupter().is_none() {
                continue;
            }
            threads = true;
            what = "interrupts from another thread".into();
        }
        let delay = c.rng.us(0, 20) as u64;
        let al = [lit(act)];
        let go = |d: &mut Box<dyn Drv>| if inc { d.solve_assumps(&al).expect("incremental") } else { d.solve() };
        let t = Instant::now();
        let mut late = None;
        // (a search that is not stopped is ended by an interrupt, so that not stopping can be told)
        let rescue = if kissat { 300 } else { 8000 };
        let rescued = AtomicBool::new(false);
        let res = if let Some(int) = d.interrupter() {
            let over = AtomicBool::new(false);
            let first = AtomicU64::new(u64::MAX);
            let d = &mut d;
            let r = c.run("solve", || {
                std::thread::scope(|s| {
                    s.spawn(|| {
                        if threads {
                            std::thread::sleep(Duration::from_millis(delay));
                        } else {
                            let mut n = 0;
                            while !over.load(SeqCst) && t.elapsed().as_millis() < rescue {
                                n += 1;
                                std::thread::sleep(Duration::from_micros(if n < 20 { 50 } else { 2000 }));
                            }
                            if over.load(SeqCst) {
                                return;
                            }
                            rescued.store(true, SeqCst);
                        }
                        first.store(t.elapsed().as_millis() as u64, SeqCst);
                        // (an interrupt before the call has begun may have no effect)
                        while !over.load(SeqCst) {
                            int.interrupt();
                            std::thread::sleep(Duration::from_millis(2));
                        }
                    });
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(d)));
                    over.store(true, SeqCst);
                    r
                })
            })?;
            late = (threads).then(|| t.elapsed().as_millis() as u64 - first.load(SeqCst).min(t.elapsed().as_millis() as u64));
            match r {
                Ok(r) => r,
                Err(_) => fail!(sig("stop-panic"), "solving panicked"),
            }
        } else {
            let d = &mut d;
            c.run("solve", || go(d))?
        };
        c.log(format!("{what} -> {res:?}, {} terminator calls ({} after asking to stop)", calls.get(), after_stop.get()));
        c.count(&format!("searches stopped: {}", what.split(' ').next().unwrap()), 1);
        if kissat && cb && calls.get() == 0 {
            let f = vcore::Fail { sig: sig("terminator-never-called"), msg: format!("{what}: the terminator is not called in {:.1} s of search", t.elapsed().as_secs_f64()) };
            return if c.known(&f.sig) { Ok(()) } else { Err(f) };
        }
        match res {
            Ok(SolverResult::Interrupted) if !rescued.load(SeqCst) => {}
            r => fail!(sig("not-stopped"), "with {what}, a search that needs far longer returns {r:?} after {:.1} s", t.elapsed().as_secs_f64()),
        }
        if let (Some((_, d0, c0)), Some((_, d1, c1))) = (before, d.internal()) {
            if how == 0 && !threads && !name.starts_with("glucose") {
                // (glucose only looks at its limit when it restarts)
                // (several conflicts in a row are possible before the limit is looked at)
                check!(c1 - c0 <= 2 * k as usize + 100, sig("conflict-limit"), "{} conflicts with a limit of {k}", c1 - c0);
                c.count("conflict limits checked", 1);
            }
            if how == 1 && !threads {
                check!(d1 - d0 <= 2 * k as usize + 100, sig("decision-limit"), "{} decisions with a limit of {k}", d1 - d0);
            }
        }
        if cb {
            // the search does not go on calling the terminator
            check!(after_stop.get() >= 1 || pending, sig("terminator-not-asked"), "undecided without the terminator asking for it");
            d.detach_term();
            check_eq!(Rc::strong_count(&calls), 1, sig("callback-leaked"), "the detached terminator is still alive");
        }
        pending |= threads;
        if let Some(ms) = late {
            c.count("milliseconds from the interrupt to the answer", ms);
        }
        let st = d.stats();
        check!(st.n_terminated >= 1 && st.n_sat + st.n_unsat + st.n_terminated == d.stat_methods().3, sig("stop-stats"), "{st:?}");
        if !inc {
            break;
        }
        // limits are removed, callbacks detached: the easy side is decided, rightly
        d.lim_conf(None);
        d.lim_prop(None);
        d.lim_dec(None);
        if variant == 0 {
            continue;
        }
        let mut decided = false;
        for _ in 0..2 {
            let d = &mut d;
            let asm = [-act];
            let a = [lit(-act)];
            let r = c.run("solve", || d.solve_assumps(&a).expect("incremental"))?;
            match r {
                Ok(SolverResult::Sat) => {
                    check!(model_ok(d.as_ref(), &cls, &asm), sig("model-after-stop"), "the model after a stopped search does not satisfy the clauses");
                    decided = true;
                    pending = false;
                    break;
                }
                // an interrupt that arrived late
                Ok(SolverResult::Interrupted) if pending => pending = false,
                // the simplifying solvers may have eliminated the variable
                Err(_) if d.eliminated(lit(act).var()) => {
                    decided = true;
                    break;
                }
                r => fail!(sig("after-stop"), "after {what} was removed, an easy query gives {r:?}"),
            }
        }
        check!(decided, sig("after-stop"), "after {what} was removed, an easy query stays undecided");
        c.nontrivial(&format!("{name}:{what}:{holes}"));
        if variant == 2 && c.rng.bool() {
            // something contradictory ends it
            let d = &mut d;
            for l in [act, -act] {
                let k = clause(&[l]);
                if c.run("add", || d.add(4, &k))?.is_err() {
                    return Ok(());
                }
            }
            let r = c.run("solve", || d.solve())?;
            check!(matches!(r, Ok(SolverResult::Unsat)), sig("after-stop"), "contradicting units give {r:?}");
            break;
        }
    }
    c.nontrivial(&format!("{name}:{holes}:{rounds}"));
    Ok(())
}

/// solvers created, fed, solved, read and dropped in changing threads, with interrupts from others at
/// any time: answers that come are right
pub fn threads(c: &mut Case) -> Res {
    let i = c.idx as usize % MAKE.len();
    let mut d = {
        if c.rng.bool() { make(i) } else { std::thread::scope(|s| s.spawn(|| make(i)).join().expect("creating")) }
    };
    let name = d.name();
    let sig = |s: &str| format!("C17:{name}:{s}");
    let inc = d.incremental();
    let n = c.rng.us(3, if c.thorough { 150 } else { 90 });
    let mut all: Vec<Vec<i32>> = if c.rng.chance(1, 4) {
        pigeons(c.rng.us(2, 6), None)
    } else {
        let m = (n as f64 * (3.2 + c.rng.below(16) as f64 / 10.0)) as usize;
        (0..m).map(|_| c.rng.distinct_lits(n, 3)).collect()
    };
    c.rng.shuffle(&mut all);
    c.log(format!("{name}: {} clauses over {n} variables", all.len()));
    let mut oracle = Sat::new();
    let mut ints: Vec<Box<dyn InterruptSolver + Send>> = vec![];
    let mut done = 0;
    let steps = if inc { c.rng.us(1, 5) } else { 1 };
    let mut overlap = 0u64;
    for step in 0..steps {
        let upto = if step + 1 == steps { all.len() } else { c.rng.us(done, all.len()) };
        for cl in &all[done..upto] {
            oracle.add(cl);
        }
        let part: Vec<Clause> = all[done..upto].iter().map(|c| clause(c)).collect();
        done = upto;
        while ints.len() < c.rng.below(4) {
            match d.interrupter() {
                Some(x) => ints.push(x),
                None => break,
            }
        }
        let many = c.rng.bool();
        let assumps: Vec<i32> = if inc { let k = c.rng.below(4).min(n); c.rng.distinct_lits(n, k) } else { vec![] };
        let al: Vec<Lit> = assumps.iter().map(|&l| lit(l)).collect();
        let plain = assumps.is_empty() && c.rng.bool();
        let fire: Vec<(u64, u64)> = (0..ints.len()).map(|_| (c.rng.below(800) as u64, c.rng.us(1, 30) as u64)).collect();
        let (running, fired) = (AtomicBool::new(false), AtomicU64::new(0));
        let own = &mut d;
        let al = &al;
        let (res, back) = c.run("solve in threads", || {
            std::thread::scope(|s| {
                for (int, &(us, times)) in ints.iter().zip(&fire) {
                    let (running, fired) = (&running, &fired);
                    s.spawn(move || {
                        for _ in 0..times {
                            int.interrupt();
                            if running.load(SeqCst) {
                                fired.fetch_add(1, SeqCst);
                            }
                            std::thread::sleep(Duration::from_micros(us));
                        }
                    });
                }
                let running = &running;
                s.spawn(move || {
                    running.store(true, SeqCst);
                    if many {
                        own.add_many(1, &part)?;
                    } else {
                        for cl in &part {
                            own.add(0, cl)?;
                        }
                    }
                    let r = if plain || !inc { own.solve() } else { own.solve_assumps(al).expect("incremental") };
                    running.store(false, SeqCst);
                    r.map(|r| (r, own))
                })
                .join()
                .expect("solver thread")
            })
        })
        .map(|r| match r {
            Ok((r, d)) => (Ok(r), Some(d)),
            Err(e) => (Err(e), None),
        })?;
        overlap += fired.load(SeqCst);
        let Some(dd) = back else {
            // the simplifying solvers may have eliminated the variables
            if name.ends_with("simp") {
                c.count("refused for eliminated variables", 1);
                return Ok(());
            }
            fail!(sig("thread-error"), "{:?}", res.err());
        };
        let mut r = res.unwrap();
        c.log(format!("{upto} clauses, assumptions {assumps:?}: {r}"));
        if r == SolverResult::Interrupted {
            c.count("interrupted", 1);
            if ints.is_empty() {
                fail!(sig("undecided"), "answer Interrupted without interrupt");
            }
            if !inc {
                break;
            }
            // no interrupts any more
            for k in 0..2 {
                let again = c.run("solve again", || if plain { dd.solve() } else { dd.solve_assumps(al).expect("incremental") })?;
                match again {
                    Ok(SolverResult::Interrupted) if k == 0 => {}
                    Ok(x) => {
                        r = x;
                        break;
                    }
                    Err(e) => fail!(sig("thread-error"), "{e:#}"),
                }
            }
            check!(r != SolverResult::Interrupted, sig("stays-undecided"), "undecided though no interrupt arrives any more");
        }
        let truth = oracle.solve(&assumps);
        check_eq!(r == SolverResult::Sat, truth, sig("thread-answer"), "answer under {assumps:?}");
        let cls: Vec<Vec<i32>> = all[..upto].to_vec();
        let asm = assumps.clone();
        // reading in another thread
        let ok = c.run("reading", || {
            std::thread::scope(|s| {
                s.spawn(move || {
                    if r == SolverResult::Sat {
                        model_ok(dd.as_ref(), &cls, &asm)
                    } else if inc {
                        match dd.core() {
                            Some(Ok(core)) => core.iter().all(|l| asm.iter().any(|&a| lit(-a) == *l)),
                            _ => false,
                        }
                    } else {
                        true
                    }
                })
                .join()
                .expect("reading thread")
            })
        })?;
        check!(ok, sig("thread-result"), "model or core of answer {r} is wrong");
        c.count("answers of solvers moved between threads", 1);
        c.nontrivial(&format!("{name}:{step}:{}:{}", ints.len(), all.len()));
    }
    c.count("interrupts while another thread used the solver", overlap);
    // ends of life in any order: interrupting is harmless at any time
    match c.rng.below(4) {
        0 => drop(d),
        1 => c.run("drop", || std::thread::scope(|s| s.spawn(|| drop(d)).join()))?.expect("dropping"),
        2 => {
            let gone = AtomicBool::new(false);
            c.run("drop", || {
                std::thread::scope(|s| {
                    for int in &ints {
                        let gone = &gone;
                        s.spawn(move || {
                            let mut k = 0;
                            while k < 50 || !gone.load(SeqCst) {
                                int.interrupt();
                                k += 1;
                            }
                        });
                    }
                    drop(d);
                    gone.store(true, SeqCst);
                })
            })?;
            c.count("interrupts while the solver is dropped", 1);
        }
        _ => {
            let keep = ints.pop();
            ints.clear();
            drop(d);
            ints.extend(keep);
        }
    }
    if !ints.is_empty() {
        c.count("interrupts after the solver was dropped", 1);
    }
    for int in &ints {
        c.run("interrupt", || int.interrupt())?;
    }
    Ok(())
}
