//! Monitors for the solver interfaces (C16, C17)
use crate::drv::*;
use rustsat::solvers::*;
use rustsat::types::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vcore::{check, check_eq, fail, Case, Fail, Prop, Res, Sub};

pub fn lit(l: i32) -> Lit {
    Lit::from_ipasir(l).unwrap()
}
pub fn int(l: Lit) -> i32 {
    l.to_ipasir()
}
pub fn clause(c: &[i32]) -> Clause {
    c.iter().map(|&l| lit(l)).collect()
}
pub fn is_state_err(e: &anyhow::Error) -> bool {
    e.downcast_ref::<StateError>().is_some()
}

/// Reference semantics over a small universe of (possibly scattered) variables: the set of all
/// assignments that satisfy everything added so far
#[derive(Clone)]
pub struct Ref {
    /// 1-based variables, in increasing order
    pub vars: Vec<i32>,
    pub models: Vec<u32>,
    pub clauses: Vec<Vec<i32>>,
}
impl Ref {
    pub fn new(vars: Vec<i32>) -> Self {
        let n = vars.len();
        Ref { vars, models: (0..1u32 << n).collect(), clauses: vec![] }
    }
    fn true_in(&self, l: i32, m: u32) -> bool {
        let i = self.vars.binary_search(&l.abs()).expect("variable of the universe");
        (m >> i & 1 == 1) == (l > 0)
    }
    pub fn add(&mut self, c: &[i32]) {
        let keep: Vec<u32> = self.models.iter().copied().filter(|&m| c.iter().any(|&l| self.true_in(l, m))).collect();
        self.models = keep;
        self.clauses.push(c.to_vec());
    }
    pub fn sat(&self, assumps: &[i32], extra: Option<&[i32]>) -> bool {
        self.models.iter().any(|&m| {
            assumps.iter().all(|&l| self.true_in(l, m)) && extra.is_none_or(|c| c.iter().any(|&l| self.true_in(l, m)))
        })
    }
    pub fn entails(&self, c: &[i32]) -> bool {
        self.models.iter().all(|&m| c.iter().any(|&l| self.true_in(l, m)))
    }
}

#[derive(Clone, Debug)]
enum St {
    Input,
    Sat(Vec<i32>, Option<Vec<i32>>),
    Unsat(Vec<i32>, Option<Vec<i32>>),
}

/// Everything observed about one history
struct Hist {
    d: Box<dyn Drv>,
    r: Ref,
    st: St,
    /// the last calls may (but need not) have left the result state
    neutral: bool,
    /// Kissat only: solved already
    solved: bool,
    n_res: [usize; 3],
    /// repeated queries in an unchanged state (answered from the cache or solved again)
    cached: usize,
    n_added: usize,
    n_tmp: usize,
    sum_len: usize,
    max_lo: i32,
    max_hi: i32,
    tmp: Option<Vec<i32>>,
    /// an undecided answer is acceptable in the next call
    armed: bool,
    /// the undecided answers stay acceptable
    armed_forever: bool,
    frozen: std::collections::BTreeMap<i32, usize>,
    learned: Rc<RefCell<Vec<Vec<i32>>>>,
    learn_max: Option<usize>,
    term: Option<Rc<TermState>>,
    flipped: bool,
    /// a literal has been flipped at some point
    ever_flipped: bool,
    /// this history may flip literals
    may_flip: bool,
    /// the solver has searched or simplified
    worked: bool,
    /// an interrupt is pending
    intr: bool,
    what: &'static str,
}
struct TermState {
    calls: Cell<usize>,
    stop_at: usize,
    solving: Cell<bool>,
    stray: Cell<bool>,
    dropped: Cell<bool>,
}
struct DropFlag(Rc<TermState>);
impl Drop for DropFlag {
    fn drop(&mut self) {
        self.0.dropped.set(true);
    }
}

impl Hist {
    fn sig(&self, s: &str) -> String {
        format!("{}:{}:{s}", self.what, self.d.name())
    }
    /// whether one of the variables was eliminated by preprocessing (never before the last call)
    fn gone(&mut self, ls: &[i32]) -> bool {
        ls.iter().any(|&l| self.d.eliminated(lit(l).var()))
    }
    fn universe_lit(&self, c: &mut Case) -> i32 {
        let v = *c.rng.pick(&self.r.vars);
        if c.rng.bool() {
            v
        } else {
            -v
        }
    }
    fn rand_clause(&self, c: &mut Case) -> Vec<i32> {
        let k = match c.rng.below(20) {
            0 => 0,
            1..=3 => 1,
            4..=9 => 2,
            10..=16 => 3,
            17 => 4,
            _ => c.rng.us(1, 7),
        };
        let mut cl: Vec<i32> = vec![];
        for _ in 0..k {
            let l = self.universe_lit(c);
            // duplicates and tautologies, sometimes
            if !cl.iter().any(|x| x.abs() == l.abs()) || c.rng.chance(1, 4) {
                cl.push(l);
            }
        }
        if cl.is_empty() && k > 0 {
            cl.push(self.universe_lit(c));
        }
        // an empty clause ends everything: rarely
        if cl.is_empty() && c.rng.chance(9, 10) {
            cl.push(self.universe_lit(c));
        }
        cl
    }
    fn rand_assumps(&self, c: &mut Case) -> Vec<i32> {
        let k = match c.rng.below(8) {
            0 => 0,
            1..=3 => c.rng.us(1, 2),
            4..=6 => c.rng.us(1, self.r.vars.len()),
            _ => c.rng.us(0, 2 * self.r.vars.len()),
        };
        let mut a: Vec<i32> = vec![];
        let dirty = c.rng.chance(1, 4);
        for _ in 0..k {
            let l = self.universe_lit(c);
            if dirty || !a.iter().any(|x| x.abs() == l.abs()) {
                a.push(l);
            }
        }
        a
    }
    fn touch(&mut self, ls: &[i32]) {
        for l in ls {
            self.max_hi = self.max_hi.max(l.abs());
        }
    }
    fn added(&mut self, cl: &[i32]) {
        self.n_added += 1;
        self.sum_len += cl.len();
        self.r.add(cl);
        for l in cl {
            self.max_lo = self.max_lo.max(l.abs());
        }
        self.touch(cl);
        self.st = St::Input;
        self.neutral = false;
        self.flipped = false;
    }
    fn solve(&mut self, c: &mut Case, assumps: Option<&[i32]>) -> Res {
        let a: Vec<i32> = assumps.unwrap_or(&[]).to_vec();
        let al: Vec<Lit> = a.iter().map(|&l| lit(l)).collect();
        let before = self.d.stats();
        let cacheable = match &self.st {
            St::Sat(..) => assumps.is_none(),
            St::Unsat(x, t) => assumps.is_none() && x.is_empty() && t.is_none(),
            St::Input => false,
        };
        // (also a repeated call without assumptions after an answer under assumptions)
        let tmp = self.tmp.take();
        if let Some(t) = &self.term {
            t.solving.set(true);
        }
        self.learned.borrow_mut().clear();
        let in_thread = c.rng.chance(1, 12) && self.term.is_none() && self.learn_max.is_none();
        let d = &mut self.d;
        let res = c.run(d.name(), || {
            let go = |d: &mut Box<dyn Drv>| match assumps {
                None => d.solve(),
                Some(_) => d.solve_assumps(&al).expect("incremental solver"),
            };
            if in_thread {
                std::thread::scope(|s| s.spawn(|| go(d)).join().expect("solver thread"))
            } else {
                go(d)
            }
        })?;
        self.touch(&a);
        if let Some(t) = &self.term {
            t.solving.set(false);
        }
        let res = match res {
            Ok(r) => r,
            Err(e) => {
                // documented: preprocessing eliminated an assumption variable
                if self.gone(&a) {
                    check!(self.d.stats().n_sat == before.n_sat && self.d.stats().n_unsat == before.n_unsat, self.sig("solve-count"), "a refused call is counted");
                    c.count("refused for eliminated variables", 1);
                    return Ok(());
                }
                fail!(self.sig("solve-error"), "solving under {a:?} failed: {e:#}");
            }
        };
        check!(!self.gone(&a), self.sig("eliminated-assumption"), "assumptions {a:?} over eliminated variables accepted");
        c.count("solve calls", 1);
        if in_thread {
            c.count("solve calls from another thread", 1);
        }
        let truth = self.r.sat(&a, tmp.as_deref());
        self.flipped = false;
        let was = std::mem::replace(&mut self.st, St::Input);
        // propagating leaves the state open
        let open = self.neutral && matches!(was, St::Input);
        self.neutral = false;
        match res {
            SolverResult::Sat => {
                check!(truth, self.sig("sat-but-unsat"), "answer Sat under {a:?} (temporary clause {tmp:?}), but there is no model");
                if cacheable {
                    // may be an answer to the earlier query, which is a model as well
                    self.st = match &was {
                        St::Sat(x, t) => St::Sat(x.clone(), t.clone()),
                        _ => unreachable!("cached"),
                    };
                    // if solved again, the assumptions of the earlier call do not hold any longer
                    if let St::Sat(x, t) = &mut self.st {
                        x.clear();
                        *t = None;
                    }
                } else {
                    self.st = St::Sat(a.clone(), tmp);
                }
                c.count("satisfiable answers", 1);
            }
            SolverResult::Unsat => {
                check!(!truth, self.sig(if self.ever_flipped { "unsat-but-sat-after-flip" } else { "unsat-but-sat" }), "answer Unsat under {a:?} (temporary clause {tmp:?}), but there is a model");
                self.st = St::Unsat(a.clone(), tmp);
                c.count("unsatisfiable answers", 1);
            }
            SolverResult::Interrupted => {
                check!(self.armed || self.armed_forever || self.intr, self.sig("undecided"), "answer Interrupted without limit, terminator or interrupt");
                c.count("undecided answers", 1);
            }
        }
        let i = match res {
            SolverResult::Sat => 0,
            SolverResult::Unsat => 1,
            SolverResult::Interrupted => 2,
        };
        let after = self.d.stats();
        let grown = [after.n_sat - before.n_sat.min(after.n_sat), after.n_unsat - before.n_unsat.min(after.n_unsat), after.n_terminated - before.n_terminated.min(after.n_terminated)];
        let mut want = [0; 3];
        want[i] = 1;
        check!(
            grown == want || (open && assumps.is_none() && grown == [0; 3]) || (matches!((&was, res), (St::Sat(..), SolverResult::Sat) | (St::Unsat(..), SolverResult::Unsat)) && assumps.is_none() && grown == [0; 3]),
            self.sig("solve-count"),
            "counts of solver calls grew by {grown:?} (sat, unsat, undecided) in a call that answered {res}"
        );
        self.n_res[i] += grown[i];
        if grown == [0; 3] {
            self.cached += 1;
        } else {
            self.worked = true;
            self.armed = self.armed_forever;
            self.intr = false;
        }
        // learned clauses are entailed by the clauses added
        if let Some(max) = self.learn_max {
            let l = self.learned.borrow();
            for cl in l.iter() {
                check!(cl.len() <= max, self.sig("learned-too-long"), "learned clause {cl:?} is longer than {max}");
                let known = cl.iter().all(|l| self.r.vars.binary_search(&l.abs()).is_ok());
                check!(known && self.r.entails(cl), self.sig("learned-not-entailed"), "learned clause {cl:?} does not follow");
            }
            c.count("learned clauses checked", l.len() as u64);
        }
        if let Some(t) = &self.term {
            check!(!t.stray.get(), self.sig("stray-callback"), "terminator called outside of solving");
            c.count("terminator calls", t.calls.get() as u64);
        }
        Ok(())
    }
    /// reads everything readable and judges it
    fn read(&mut self, c: &mut Case) -> Res {
        let st = self.st.clone();
        match st {
            St::Sat(a, tmp) => {
                let mut any_err = false;
                let mut m = std::collections::BTreeMap::new();
                for &v in &self.r.vars.clone() {
                    let l = lit(v);
                    let d = &self.d;
                    let (p, n, vv) = c.run("lit_val", || (d.lit_val(l), d.lit_val(!l), d.var_val(l.var())))?;
                    match (p, n, vv) {
                        (Ok(p), Ok(n), Ok(vv)) => {
                            check_eq!(n, neg(p), self.sig("lit-val-neg"), "value of the negation of x{v}");
                            check_eq!(vv, p, self.sig("var-val"), "var_val against lit_val of x{v}");
                            m.insert(v, p);
                        }
                        (Err(e), Err(_), Err(_)) => {
                            check!(self.neutral && is_state_err(&e), self.sig("lit-val-error"), "lit_val in satisfied state: {e:#}");
                            any_err = true;
                        }
                        x => fail!(self.sig("lit-val-mixed"), "values {x:?}"),
                    }
                }
                if any_err {
                    check!(m.is_empty(), self.sig("lit-val-mixed"), "some values are refused, others not");
                } else {
                    let tr = |l: i32| m[&l.abs()] == if l > 0 { TernaryVal::True } else { TernaryVal::False };
                    for cl in &self.r.clauses {
                        let ok = cl.iter().any(|&l| tr(l)) || cl.iter().any(|&l| cl.contains(&-l));
                        check!(ok, self.sig("model-clause"), "values {m:?} do not satisfy clause {cl:?}");
                    }
                    if !self.flipped {
                        for &l in &a {
                            check!(tr(l), self.sig("model-assumption"), "values {m:?} do not satisfy assumption {l} of {a:?}");
                        }
                        if let Some(t) = &tmp {
                            let ok = t.iter().any(|&l| tr(l)) || t.iter().any(|&l| t.contains(&-l));
                            check!(ok, self.sig("model-tmp"), "values {m:?} do not satisfy the temporary clause {t:?}");
                        }
                    }
                    let d = &self.d;
                    let hi = *self.r.vars.last().unwrap();
                    let (s, f) = c.run("solution", || (d.solution(lit(hi).var()), d.full_solution()))?;
                    let s = match s {
                        Ok(s) => s,
                        Err(e) => fail!(self.sig("solution-error"), "solution: {e:#}"),
                    };
                    let f = match f {
                        Ok(s) => s,
                        Err(e) => fail!(self.sig("solution-error"), "full_solution: {e:#}"),
                    };
                    for (&v, &val) in &m {
                        check_eq!(s.var_value(lit(v).var()), val, self.sig("solution"), "value of x{v} in solution()");
                        if self.d.stats().max_var.is_some_and(|mv| lit(v).var() <= mv) {
                            check_eq!(f.var_value(lit(v).var()), val, self.sig("full-solution"), "value of x{v} in full_solution()");
                        }
                    }
                    // values of a variable nobody mentioned
                    let far = hi + c.rng.us(1, 40) as i32;
                    let d = &self.d;
                    let x = c.run("lit_val", || (d.lit_val(lit(far)), d.lit_val(lit(-far))))?;
                    match x {
                        (Ok(p), Ok(n)) => check_eq!(n, neg(p), self.sig("lit-val-neg"), "value of the negation of the unused x{far}"),
                        (Err(_), Err(_)) => {}
                        x => fail!(self.sig("lit-val-mixed"), "values {x:?}"),
                    }
                    c.count("models checked", 1);
                }
                if let Some(x) = self.d.core() {
                    check!(matches!(&x, Err(e) if is_state_err(e)), self.sig("core-in-sat"), "core in satisfied state gives {x:?}");
                }
            }
            St::Unsat(a, tmp) => {
                let d = &mut self.d;
                if let Some(x) = c.run("core", || d.core())? {
                    match x {
                        Ok(core) => {
                            let core: Vec<i32> = core.into_iter().map(int).collect();
                            for l in &core {
                                check!(a.contains(&-l), self.sig("core-lit"), "core {core:?} contains {l}, which negates no assumption of {a:?}");
                            }
                            let asm: Vec<i32> = core.iter().map(|l| -l).collect();
                            let mut with = None;
                            if let Some(t) = &tmp {
                                match self.d.tmp_in_core() {
                                    Some(Ok(true)) => with = Some(t.clone()),
                                    None | Some(Ok(false)) => {}
                                    Some(Err(e)) => fail!(self.sig("tmp-in-core"), "{e:#}"),
                                }
                            }
                            check!(!self.r.sat(&asm, with.as_deref()), self.sig("core-entailed"), "core {core:?} (assumptions {a:?}, temporary clause in core: {with:?}) is not entailed");
                            c.count("cores checked", 1);
                        }
                        Err(e) => check!(self.neutral && is_state_err(&e), self.sig("core-error"), "core in unsatisfied state: {e:#}"),
                    }
                }
                let v = lit(self.r.vars[0]);
                let x = self.d.lit_val(v);
                check!(matches!(&x, Err(e) if is_state_err(e)), self.sig("val-in-unsat"), "lit_val in unsatisfied state gives {x:?}");
                let x = self.d.full_solution();
                check!(matches!(&x, Err(e) if is_state_err(e)), self.sig("val-in-unsat"), "full_solution in unsatisfied state gives {x:?}");
            }
            St::Input => {
                let v = lit(self.r.vars[0]);
                let x = self.d.lit_val(v);
                check!(matches!(&x, Err(e) if is_state_err(e)), self.sig("val-in-input"), "lit_val in input state gives {x:?}");
                let x = self.d.solution(v.var());
                check!(matches!(&x, Err(e) if is_state_err(e)), self.sig("val-in-input"), "solution in input state gives {x:?}");
                let x = self.d.full_solution();
                check!(matches!(&x, Err(e) if is_state_err(e)), self.sig("val-in-input"), "full_solution in input state gives {x:?}");
                if let Some(x) = self.d.core() {
                    check!(matches!(&x, Err(e) if is_state_err(e)), self.sig("core-in-input"), "core in input state gives {x:?}");
                }
                c.count("refused reads", 1);
            }
        }
        Ok(())
    }
    fn stats(&mut self, c: &mut Case) -> Res {
        let s = self.d.stats();
        let m = self.d.stat_methods();
        check_eq!(m, (s.n_sat, s.n_unsat, s.n_terminated, s.n_sat + s.n_unsat + s.n_terminated, s.n_clauses, s.max_var, s.max_var.map_or(0, |v| v.idx() + 1), s.avg_clause_len), self.sig("stats-methods"), "statistics methods against stats()");
        check_eq!([s.n_sat, s.n_unsat, s.n_terminated], self.n_res, self.sig("stats-results"), "numbers of answers");
        if self.d.exact_clause_count() {
            check!(s.n_clauses >= self.n_added && s.n_clauses <= self.n_added + self.n_tmp, self.sig("stats-clauses"), "n_clauses {} after adding {} clauses (and {} temporary ones)", s.n_clauses, self.n_added, self.n_tmp);
        } else {
            check!(s.n_clauses <= self.n_added, self.sig("stats-clauses"), "n_clauses {} after adding {} clauses", s.n_clauses, self.n_added);
        }
        let mv = s.max_var.map_or(0, |v| v.idx() as i32 + 1);
        check!(mv >= self.max_lo && mv <= self.max_hi, self.sig("stats-max-var"), "max_var {:?} but the highest variable added is x{} and the highest mentioned is x{}", s.max_var, self.max_lo, self.max_hi);
        if self.n_added > 0 && self.n_tmp == 0 {
            let avg = self.sum_len as f32 / self.n_added as f32;
            check!((s.avg_clause_len - avg).abs() < 1e-3 * avg.max(1.), self.sig("stats-avg-len"), "average clause length {} instead of {avg}", s.avg_clause_len);
        }
        c.count("statistics checked", 1);
        Ok(())
    }
}
pub fn neg(v: TernaryVal) -> TernaryVal {
    match v {
        TernaryVal::True => TernaryVal::False,
        TernaryVal::False => TernaryVal::True,
        TernaryVal::DontCare => TernaryVal::DontCare,
    }
}

pub fn universe(c: &mut Case) -> Vec<i32> {
    let n = c.rng.us(1, 9);
    let mut v: Vec<i32> = vec![];
    let mut next = if c.rng.chance(1, 4) { c.rng.us(1, 70) as i32 } else { 1 };
    let gaps = c.rng.chance(1, 3);
    for _ in 0..n {
        v.push(next);
        next += if gaps && c.rng.chance(1, 3) { c.rng.us(1, 60) as i32 } else { 1 };
    }
    v
}


fn history(c: &mut Case, what: &'static str, extras: bool) -> Res {
    let which = if extras {
        // mostly the solver with the most extras
        if c.rng.bool() { 0 } else { c.idx as usize % MAKE.len() }
    } else {
        c.idx as usize % MAKE.len()
    };
    let vars = universe(c);
    let d = make(which);
    let name = d.name();
    let mut h = Hist {
        d, r: Ref::new(vars.clone()), st: St::Input, neutral: false, solved: false, n_res: [0; 3], cached: 0, n_added: 0, n_tmp: 0, sum_len: 0,
        max_lo: 0, max_hi: 0, tmp: None, armed: false, armed_forever: false, frozen: Default::default(), learned: Default::default(), learn_max: None, term: None,
        flipped: false, ever_flipped: false, may_flip: c.rng.chance(1, 4), worked: false, intr: false, what,
    };
    c.log(format!("solver {name}, variables {vars:?}"));
    if extras {
        h.d.configure(c)?;
    }
    let nops = c.rng.us(4, 40);
    let seed_clauses = c.rng.below(3 * vars.len() + 1);
    for _ in 0..seed_clauses {
        let cl = h.rand_clause(c);
        let mode = c.rng.below(5);
        add(c, &mut h, mode, &cl)?;
    }
    for _ in 0..nops {
        let x = c.rng.below(if extras { 40 } else { 22 });
        // kissat cannot be used after solving
        if !h.d.incremental() && h.solved && x < 10 {
            // adding must be refused, reading stays possible
            if x < 3 && !matches!(h.st, St::Input) {
                let cl = clause(&h.rand_clause(c));
                let d = &mut h.d;
                let r = c.run("add", || d.add(0, &cl))?;
                check!(matches!(&r, Err(e) if is_state_err(e)), h.sig("add-after-solve"), "adding a clause to the non-incremental solver gives {r:?}");
            }
            if matches!(h.st, St::Input) {
                // undecided: nothing more can be asked
                break;
            }
            h.read(c)?;
            continue;
        }
        match x {
            0..=3 => {
                let cl = h.rand_clause(c);
                let mode = c.rng.below(5);
                add(c, &mut h, mode, &cl)?;
            }
            4 => {
                let cls: Vec<Vec<i32>> = (0..c.rng.us(0, 4)).map(|_| h.rand_clause(c)).collect();
                let mode = c.rng.below(4);
                if h.gone(&cls.concat()) {
                    continue;
                }
                c.log(format!("add_many({mode}) {cls:?}"));
                let k: Vec<Clause> = cls.iter().map(|c| clause(c)).collect();
                let d = &mut h.d;
                if let Err(e) = c.run("add_many", || d.add_many(mode, &k))? {
                    fail!(h.sig("add-error"), "{e:#}");
                }
                for cl in &cls {
                    h.added(cl);
                }
            }
            5 => {
                if h.d.incremental() || !h.solved {
                    let v = if c.rng.bool() { *c.rng.pick(&vars) } else { c.rng.us(1, 150) as i32 };
                    c.log(format!("reserve x{v}"));
                    let d = &mut h.d;
                    if let Err(e) = c.run("reserve", || d.reserve(lit(v).var()))? {
                        fail!(h.sig("reserve-error"), "{e:#}");
                    }
                    h.touch(&[v]);
                    h.neutral = true;
                }
            }
            6 | 7 => {
                let l = h.universe_lit(c);
                let un = c.rng.chance(1, 3);
                c.log(format!("{}phase {l}", if un { "un" } else { "" }));
                let d = &mut h.d;
                let r = c.run("phase", || if un { d.unphase(lit(l).var()) } else { d.phase(lit(l)) })?;
                match r {
                    None => {}
                    Some(Ok(())) => {
                        h.touch(&[l]);
                        h.neutral = true;
                    }
                    Some(Err(e)) => fail!(h.sig("phase-error"), "{e:#}"),
                }
            }
            8..=11 => {
                c.log("solve()");
                h.solve(c, None)?;
                h.solved = true;
                if c.rng.chance(3, 4) {
                    h.read(c)?;
                }
            }
            12..=17 => {
                let a = h.rand_assumps(c);
                if h.d.incremental() {
                    c.log(format!("solve_assumps({a:?})"));
                    h.solve(c, Some(&a))?;
                    if c.rng.chance(3, 4) {
                        h.read(c)?;
                    }
                }
            }
            18 | 19 => h.read(c)?,
            20 | 21 => h.stats(c)?,
            _ => extra(c, &mut h, x)?,
        }
        c.nontrivial(&format!("{name}:{x}:{:?}:{}:{}", std::mem::discriminant(&h.st), h.neutral, h.r.models.len()));
    }
    h.read(c)?;
    h.stats(c)?;
    if let Some(t) = h.term.clone() {
        let d = std::mem::replace(&mut h.d, make(5));
        drop(d);
        check!(t.dropped.get(), format!("{what}:{name}:callback-leaked"), "the terminator callback outlives the solver");
    }
    Ok(())
}

fn add(c: &mut Case, h: &mut Hist, mode: usize, cl: &[i32]) -> Res {
    c.log(format!("add({mode}) {cl:?}"));
    let k = clause(cl);
    let d = &mut h.d;
    if let Err(e) = c.run("add", || d.add(mode, &k))? {
        if h.gone(cl) {
            c.count("refused for eliminated variables", 1);
            return Ok(());
        }
        fail!(h.sig("add-error"), "adding {cl:?}: {e:#}");
    }
    check!(!h.gone(cl), h.sig("eliminated-clause"), "clause {cl:?} over eliminated variables accepted");
    h.added(cl);
    c.count("clauses added", 1);
    Ok(())
}

fn extra(c: &mut Case, h: &mut Hist, x: usize) -> Res {
    match x {
        22..=25 => {
            let a = h.rand_assumps(c);
            let ps = c.rng.bool();
            let d = &mut h.d;
            let al: Vec<Lit> = a.iter().map(|&l| lit(l)).collect();
            if let Some(t) = &h.term {
                t.solving.set(true);
            }
            let Some(r) = c.run("propagate", || d.propagate(&al, ps))? else { return Ok(()) };
            let r = match r {
                Ok(r) => r,
                Err(_) if h.gone(&a) => return Ok(()),
                Err(e) => fail!(h.sig("propagate-error"), "{e:#}"),
            };
            h.touch(&a);
            if let Some(t) = &h.term {
                t.solving.set(false);
            }
            let props: Vec<i32> = r.propagated.iter().map(|&l| int(l)).collect();
            c.log(format!("propagate({a:?}, {ps}) -> {props:?} conflict {}", r.conflict));
            // the temporary clause takes part
            let tmp = h.tmp.take();
            let truth = h.r.sat(&a, tmp.as_deref());
            check!(!(r.conflict && truth), h.sig("propagate-conflict"), "propagating {a:?} reports a conflict, but there is a model");
            if !r.conflict {
                for &l in &props {
                    let mut aa = a.clone();
                    aa.push(-l);
                    let known = h.r.vars.binary_search(&l.abs()).is_ok();
                    if !(known && !h.r.sat(&aa, tmp.as_deref())) {
                        let f = Fail { sig: h.sig(if tmp.is_some() { "propagate-lit-tmp" } else { "propagate-lit" }), msg: format!("propagating {a:?} (temporary clause {tmp:?}) returns {l}, which does not follow") };
                        if c.known(&f.sig) {
                            break;
                        }
                        return Err(f);
                    }
                }
                // everything the plain rule gives (and that is not fixed anyway) is returned
                // (unless interrupted)
                // (and a solver that has rewritten its clauses only returns a subset)
                let vars = h.r.vars.clone();
                let cut = h.armed || h.intr || h.armed_forever || (h.d.is_cadical() && h.worked) || h.gone(&vars);
                match vcore::oracle::unit_propagate(&h.r.clauses, &a) {
                    _ if cut => {}
                    None => fail!(h.sig("propagate-missed-conflict"), "propagating {a:?} reports no conflict, but unit propagation gives one"),
                    Some(up) => {
                        for l in up {
                            if !props.contains(&l) && h.r.sat(&[-l], None) {
                                fail!(h.sig("propagate-missed"), "propagating {a:?} does not return {l}");
                            }
                        }
                    }
                }
            }
            c.count("propagations checked", 1);
            h.st = St::Input;
            // the state after propagating is not specified
            h.neutral = true;
            settle(c, h)?;
        }
        26 | 27 => {
            let cl = h.rand_clause(c);
            let k = clause(&cl);
            match h.d.add_tmp(&k) {
                None => return Ok(()),
                Some(Ok(())) => {}
                Some(Err(e)) => fail!(h.sig("tmp-error"), "{e:#}"),
            }
            c.log(format!("add_tmp_clause {cl:?}"));
            h.touch(&cl);
            h.n_tmp += 1;
            h.tmp = Some(cl);
            h.st = St::Input;
            h.neutral = false;
            if c.rng.chance(3, 4) {
                let a = h.rand_assumps(c);
                if c.rng.bool() {
                    c.log("solve()");
                    h.solve(c, None)?;
                } else {
                    c.log(format!("solve_assumps({a:?})"));
                    h.solve(c, Some(&a))?;
                }
                h.read(c)?;
                if c.rng.bool() {
                    c.log("solve()");
                    h.solve(c, None)?;
                    h.read(c)?;
                }
            }
        }
        28 | 29 => {
            // flipping
            if !matches!(h.st, St::Sat(..)) || h.neutral {
                let l = lit(h.universe_lit(c));
                if matches!(h.st, St::Sat(..)) {
                    return Ok(());
                }
                if let Some(r) = h.d.flip(l) {
                    check!(matches!(&r, Err(e) if is_state_err(e)), h.sig("flip-state"), "flipping outside of the satisfied state gives {r:?}");
                }
                if let Some(r) = h.d.flippable(l) {
                    check!(matches!(&r, Err(e) if is_state_err(e)), h.sig("flip-state"), "is_flippable outside of the satisfied state gives {r:?}");
                }
                return Ok(());
            }
            if !h.may_flip {
                return Ok(());
            }
            for _ in 0..c.rng.us(1, 4) {
                let l = h.universe_lit(c);
                let d = &mut h.d;
                let Some(f) = c.run("is_flippable", || d.flippable(lit(l)))? else { return Ok(()) };
                let v0 = h.d.lit_val(lit(l)).ok();
                let d = &mut h.d;
                let Some(r) = c.run("flip_lit", || d.flip(lit(l)))? else { return Ok(()) };
                let v1 = h.d.lit_val(lit(l)).ok();
                c.log(format!("flip {l}: flippable {f:?} -> {r:?}: {v0:?} -> {v1:?}"));
                match (f, r) {
                    (Ok(f), Ok(r)) => {
                        check!(!f || r, h.sig("flippable"), "{l} is flippable but cannot be flipped");
                        if r {
                            if v1 != v0.map(neg) {
                                let f = Fail { sig: h.sig("flip-reverted"), msg: format!("flipping {l} succeeds, but its value goes from {v0:?} to {v1:?}") };
                                if v1 != v0 || !c.known(&f.sig) {
                                    return Err(f);
                                }
                            }
                            h.flipped = true;
                            h.ever_flipped = true;
                        } else {
                            check!(v1 == v0, h.sig("flip-val"), "not flipping {l} changes its value from {v0:?} to {v1:?}");
                        }
                        c.count("flips", 1);
                    }
                    x => fail!(h.sig("flip-error"), "{x:?}"),
                }
                h.read(c)?;
            }
        }
        30 | 31 => {
            let rounds = c.rng.below(4) as u32;
            let a = if c.rng.bool() { Some(h.rand_assumps(c)) } else { None };
            if !h.d.is_cadical() {
                return Ok(());
            }
            let tmp = h.tmp.take();
            let d = &mut h.d;
            let al: Vec<Lit> = a.iter().flatten().map(|&l| lit(l)).collect();
            h.worked = true;
            if let Some(t) = &h.term {
                t.solving.set(true);
            }
            let r = c.run("simplify", || d.simplify(a.as_ref().map(|_| &al[..]), rounds).expect("cadical"))?;
            c.log(format!("simplify({a:?}, {rounds}) -> {r:?}"));
            if let Some(t) = &h.term {
                t.solving.set(false);
            }
            let a = a.unwrap_or_default();
            h.touch(&a);
            let truth = h.r.sat(&a, tmp.as_deref());
            let was = std::mem::replace(&mut h.st, St::Input);
            if matches!(was, St::Input) {
                h.armed = h.armed_forever;
                h.intr = false;
            }
            h.flipped = false;
            match r {
                Ok(SolverResult::Sat) => {
                    check!(truth, h.sig("simplify-sat"), "simplify answers Sat under {a:?} ({tmp:?}), but there is no model");
                    h.st = match was {
                        St::Sat(..) if a.is_empty() => St::Sat(vec![], None),
                        _ => St::Sat(a, tmp),
                    };
                    h.neutral = false;
                    h.read(c)?;
                }
                Ok(SolverResult::Unsat) => {
                    check!(!truth, h.sig("simplify-unsat"), "simplify answers Unsat under {a:?} ({tmp:?}), but there is a model");
                    h.st = St::Unsat(a, tmp);
                    h.neutral = false;
                    h.read(c)?;
                }
                Ok(SolverResult::Interrupted) => {
                    h.neutral = false;
                    h.read(c)?;
                }
                Err(e) => fail!(h.sig("simplify-error"), "{e:#}"),
            }
            c.count("simplifications", 1);
        }
        32 | 33 => {
            let v = *c.rng.pick(&h.r.vars);
            let melt = c.rng.bool();
            let n = h.frozen.get(&v).copied().unwrap_or(0);
            if melt && n == 0 {
                return Ok(());
            }
            let d = &mut h.d;
            let var = lit(v).var();
            let Some(r) = c.run("freeze", || if melt { d.melt(var) } else { d.freeze(var) })? else { return Ok(()) };
            c.log(format!("{} x{v}", if melt { "melt" } else { "freeze" }));
            if let Err(e) = r {
                fail!(h.sig("freeze-error"), "{e:#}");
            }
            h.touch(&[v]);
            // cadical counts, the others set and reset
            let counts = h.d.is_cadical();
            let n = if melt { if counts { n - 1 } else { 0 } } else { n + 1 };
            h.frozen.insert(v, n);
            let d = &mut h.d;
            match c.run("is_frozen", || d.is_frozen(var))? {
                Some(Ok(f)) => check_eq!(f, n > 0, h.sig("is-frozen"), "is_frozen(x{v}) after {n} more freezes than melts"),
                x => fail!(h.sig("is-frozen"), "{x:?}"),
            }
            h.neutral = true;
            c.count("freezes and melts", 1);
        }
        34 | 35 => {
            let k = if c.rng.chance(2, 3) { Some(c.rng.below(6) as u32) } else { None };
            let which = c.rng.below(3);
            let d = &mut h.d;
            let Some(r) = c.run("limit", || match which {
                0 => d.lim_conf(k),
                1 => d.lim_dec(k),
                _ => d.lim_prop(k),
            })?
            else {
                return Ok(());
            };
            c.log(format!("limit {which} {k:?}"));
            if let Err(e) = r {
                fail!(h.sig("limit-error"), "{e:#}");
            }
            h.neutral = true;
            let one_shot = h.d.is_cadical();
            if k.is_some() {
                h.armed = true;
                h.armed_forever |= !one_shot;
            }
            if !one_shot && c.rng.bool() {
                // run with the limit, then remove it
                if h.d.incremental() {
                    let a = h.rand_assumps(c);
                    c.log(format!("solve_assumps({a:?})"));
                    h.solve(c, Some(&a))?;
                    h.read(c)?;
                }
                let d = &mut h.d;
                c.run("limit", || (d.lim_conf(None), d.lim_prop(None)))?;
                c.log("limits removed");
                h.armed = h.term.is_some();
                h.armed_forever = h.term.is_some();
                if h.d.incremental() {
                    let a = h.rand_assumps(c);
                    c.log(format!("solve_assumps({a:?})"));
                    h.solve(c, Some(&a))?;
                    h.read(c)?;
                }
            }
            c.count("limits set", 1);
        }
        36 => {
            // terminator
            let old = h.term.take();
            let attach = c.rng.chance(2, 3);
            if attach {
                let t = Rc::new(TermState { calls: Cell::new(0), stop_at: if c.rng.bool() { c.rng.below(4) } else { usize::MAX }, solving: Cell::new(false), stray: Cell::new(false), dropped: Cell::new(false) });
                let tt = DropFlag(t.clone());
                let ok = h.d.attach_term(Box::new(move || {
                    let t = &tt.0;
                    if !t.solving.get() {
                        t.stray.set(true);
                    }
                    let n = t.calls.get();
                    t.calls.set(n + 1);
                    if n >= t.stop_at {
                        ControlSignal::Terminate
                    } else {
                        ControlSignal::Continue
                    }
                }));
                if !ok {
                    return Ok(());
                }
                c.log(format!("attach_terminator stopping at call {}", t.stop_at));
                h.armed |= t.stop_at != usize::MAX;
                h.armed_forever = t.stop_at != usize::MAX;
                h.term = Some(t);
            } else if old.is_some() {
                c.log("detach_terminator");
                h.d.detach_term();
                h.armed_forever = false;
            }
            if let Some(o) = old {
                check!(o.dropped.get(), h.sig("callback-leaked"), "the replaced or detached terminator is still alive");
            }
            h.neutral = true;
            c.count("terminators attached or detached", 1);
        }
        37 => {
            let attach = c.rng.chance(2, 3);
            if attach {
                let max = c.rng.us(1, 6);
                let l = h.learned.clone();
                if h.d.attach_learn(Box::new(move |cl| l.borrow_mut().push(cl.iter().map(|&l| int(l)).collect())), max) {
                    c.log(format!("attach_learner up to {max}"));
                    h.learn_max = Some(max);
                }
            } else if h.learn_max.is_some() {
                c.log("detach_learner");
                h.d.detach_learn();
                h.learn_max = None;
                check!(Rc::strong_count(&h.learned) == 1, h.sig("learner-leaked"), "the detached learner is still alive");
                h.learned.borrow_mut().clear();
            }
            h.neutral = true;
        }
        38 => {
            if let Some(i) = h.d.interrupter() {
                c.log("interrupt");
                i.interrupt();
                h.intr = true;
                drop(i);
            }
        }
        _ => {
            for &v in &h.r.vars {
                match h.d.fixed(lit(v)) {
                    Some(TernaryVal::True) => check!(h.r.entails(&[v]), "C17:cadical:fixed", "x{v} reported true at the root"),
                    Some(TernaryVal::False) => check!(h.r.entails(&[-v]), "C17:cadical:fixed", "x{v} reported false at the root"),
                    _ => {}
                }
            }
            check!(h.d.numbers().iter().all(|&n| n >= 0), "C17:cadical:numbers", "negative numbers");
            if let Some((p, d, cf)) = h.d.internal() {
                c.count("internal statistics", 1);
                let _ = (p, d, cf);
            }
        }
    }
    Ok(())
}

/// after an operation that leaves the state open: bring it into a known one
fn settle(c: &mut Case, h: &mut Hist) -> Res {
    if c.rng.bool() {
        let a = h.rand_assumps(c);
        c.log(format!("solve_assumps({a:?})"));
        h.solve(c, Some(&a))?;
    } else {
        c.log("solve()");
        h.solve(c, None)?;
    }
    h.read(c)
}

pub fn c16_small(c: &mut Case) -> Res {
    history(c, "C16", false)
}
pub fn c17_small(c: &mut Case) -> Res {
    history(c, "C17", true)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new("C16", "every answer, model, core, refusal and statistic of a history is judged against the set of all models of what was added", vec![
            Sub::new("small", 70, c16_small).max(0, 0).hang(20, true),
            Sub::new("kissat", 70, c16_small).max(20_000, 1_000_000).hang(20, true).exe("vkis"),
        ])
        .workers(6)
        .alt("vkis", 2)
        .quick(20)
        .thorough(400),
        Prop::new("C17", "every result of propagation, limits, callbacks and extras is judged against the set of all models of what was added", vec![
            Sub::new("small", 70, c17_small).max(0, 0).hang(20, true),
            Sub::new("stop", 15, crate::m_hard::stop).hang(30, true),
            Sub::new("threads", 15, crate::m_hard::threads).hang(60, false),
            Sub::new("kissat", 70, c17_small).max(20_000, 1_000_000).hang(20, true).exe("vkis"),
            Sub::new("kissat-stop", 15, crate::m_hard::stop).hang(30, true).exe("vkis"),
            Sub::new("kissat-threads", 15, crate::m_hard::threads).hang(60, false).exe("vkis"),
        ])
        .workers(6)
        .alt("vkis", 2)
        .quick(20)
        .thorough(400),
    ]
}
#[allow(dead_code)]
fn unused(_: Fail) {}
