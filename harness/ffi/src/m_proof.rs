//! Monitors for proofs (C28): everything CaDiCaL reports to connected proof tracers is checked
//! online against an independent clause database, and proof files are parsed and checked.
use crate::m_solve::{clause, int, lit};
use crate::proofdb::{has_conflict, Db};
use rustsat::solvers::*;
use rustsat::types::*;
use rustsat_cadical::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use vcore::{check, check_eq, fail, Case, Fail, Prop, Res, Sub};

type Cad = CaDiCaL<'static, 'static>;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Orig(i64, bool, Vec<i32>, bool),
    Derived(i64, bool, Vec<i32>),
    Delete(i64, bool, Vec<i32>),
    Weaken(i64, Vec<i32>),
    Strengthen(i64),
    Status(SolverResult, i64),
    Finalize(i64, Vec<i32>),
    Begin(i64),
    Query,
    Assume(i32),
    Constraint(Vec<i32>),
    Reset,
    AssumClause(i64, Vec<i32>),
    Unsat(Conclusion, Vec<i64>),
    Sat(Vec<i32>),
    Unknown(Vec<i32>),
    Equiv(i32, i32),
}

/// What one tracer has been told, and what is expected to come
struct Log {
    id: usize,
    antecedents: bool,
    /// connected before anything was added
    full: bool,
    db: Db,
    redundant: BTreeMap<i64, bool>,
    strengthened: BTreeSet<i64>,
    weak: BTreeMap<i64, Vec<i32>>,
    used: BTreeSet<i64>,
    assum: BTreeMap<i64, Vec<i32>>,
    /// clauses that are being added through the interface
    expect: VecDeque<Vec<i32>>,
    /// everything that was added through the interface
    orig: Vec<Vec<i32>>,
    /// derived clauses that are not implied
    ext: Vec<Vec<i32>>,
    assumps: Vec<i32>,
    constraint: Option<Vec<i32>>,
    in_solve: bool,
    seen_assumps: Vec<i32>,
    seen_constraint: Option<Vec<i32>>,
    status: Vec<(SolverResult, i64)>,
    concl: Vec<Ev>,
    evs: Vec<Ev>,
    err: Option<Fail>,
    counts: BTreeMap<&'static str, u64>,
    dropped: Rc<Cell<usize>>,
    /// derivations are only checked up to here (cost)
    budget: usize,
}

pub fn norm(c: &[i32]) -> Vec<i32> {
    let mut c = c.to_vec();
    c.sort_unstable();
    c.dedup();
    c
}
fn lits(c: &CaDiCaLClause) -> Vec<i32> {
    c.iter().map(int).collect()
}
fn asg(a: &CaDiCaLAssignment) -> Vec<i32> {
    a.iter().map(int).collect()
}

impl Log {
    fn bad(&mut self, sig: &str, msg: String) {
        if self.err.is_none() {
            self.err = Some(Fail { sig: format!("C28:tracer:{sig}"), msg: format!("tracer {}: {msg}", self.id) });
        }
    }
    fn n(&mut self, what: &'static str) {
        *self.counts.entry(what).or_insert(0) += 1;
    }
    /// a clause with a new identifier
    fn fresh(&mut self, id: i64) {
        if self.full && !self.used.insert(id) {
            self.bad("id-reused", format!("identifier {id} was used before"));
        }
        if id <= 0 {
            self.bad("id-invalid", format!("identifier {id}"));
        }
    }
    fn justify(&mut self, id: i64, c: &[i32], ants: &[i64], what: &str) {
        if !self.full || self.budget == 0 {
            return;
        }
        self.budget -= 1;
        let taut = c.iter().any(|l| c.contains(&-l));
        if !self.antecedents && !ants.is_empty() {
            self.n("antecedents given unasked");
        }
        if !taut && !self.db.rup(c) {
            // satisfiability-preserving steps: the clause has to be RAT on one of its literals
            let weak: Vec<Vec<i32>> = self.weak.values().cloned().collect();
            if what == "assumption" || !c.iter().any(|&p| self.db.rat(c, p, &weak)) {
                self.bad("not-implied", format!("{what} clause {id} {c:?} does not follow from the clauses before it"));
            } else {
                self.n("RAT steps");
                self.ext.push(c.to_vec());
            }
            return;
        }
        self.n("RUP steps");
        if self.antecedents && !taut {
            if (ants.is_empty() || ants.iter().any(|&a| a < 0)) && what != "assumption" {
                // definitions of extension variables come without antecedents
                let weak: Vec<Vec<i32>> = self.weak.values().cloned().collect();
                if c.iter().any(|&p| self.db.rat(c, p, &weak)) {
                    self.n("RAT steps");
                    self.ext.push(c.to_vec());
                    return;
                }
            }
            if let Err(e) = self.db.hints(c, ants) {
                self.bad("antecedents", format!("{what} clause {id} {c:?} with antecedents {ants:?}: {e}"));
            }
            self.n("antecedent lists checked");
        }
    }
}

struct Tracer(Rc<RefCell<Log>>, usize);
impl Drop for Tracer {
    fn drop(&mut self) {
        let d = self.0.borrow().dropped.clone();
        d.set(d.get() + 1);
    }
}
impl TraceProof for Tracer {
    fn add_original_clause(&mut self, id: ClauseId, redundant: bool, cl: &CaDiCaLClause, restored: bool) {
        let l = &mut *self.0.borrow_mut();
        let (id, c) = (id.0, lits(cl));
        if cl.len() != c.len() || cl.is_empty() != c.is_empty() || cl.to_owned().iter().map(|&x| int(x)).ne(c.iter().copied()) {
            l.bad("clause-api", format!("{c:?}"));
        }
        l.evs.push(Ev::Orig(id, redundant, c.clone(), restored));
        if redundant {
            l.bad("original-redundant", format!("{id} {c:?}"));
        }
        if !l.full {
            l.expect.clear();
            return;
        }
        if restored {
            l.n("restored");
            match l.weak.remove(&id) {
                None => l.bad("restored-unknown", format!("{id} {c:?} restored without having been weakened")),
                Some(w) => {
                    if norm(&w) != norm(&c) {
                        l.bad("restored-changed", format!("{id} {w:?} -> {c:?}"))
                    }
                }
            }
        } else {
            match l.expect.pop_front() {
                None => l.bad("original-unexpected", format!("{id} {c:?} was not added")),
                Some(e) => {
                    if e != c {
                        l.bad("original-changed", format!("added {e:?}, traced {c:?}"))
                    }
                }
            }
            l.fresh(id);
            l.n("original clauses");
        }
        if l.db.live.contains_key(&id) {
            l.bad("id-live", format!("{id}"));
        }
        l.redundant.insert(id, false);
        l.db.insert(id, c);
    }
    fn add_derived_clause(&mut self, id: ClauseId, redundant: bool, cl: &CaDiCaLClause, ants: &[ClauseId]) {
        let l = &mut *self.0.borrow_mut();
        let (id, c) = (id.0, lits(cl));
        let ants: Vec<i64> = ants.iter().map(|a| a.0).collect();
        l.evs.push(Ev::Derived(id, redundant, c.clone()));
        l.n("derived clauses");
        l.fresh(id);
        l.justify(id, &c, &ants, "derived");
        l.redundant.insert(id, redundant);
        l.db.insert(id, c);
    }
    fn delete_clause(&mut self, id: ClauseId, redundant: bool, cl: &CaDiCaLClause) {
        let l = &mut *self.0.borrow_mut();
        let (id, c) = (id.0, lits(cl));
        l.evs.push(Ev::Delete(id, redundant, c.clone()));
        l.n("deleted clauses");
        if !l.full {
            return;
        }
        match l.db.remove(id) {
            None => l.bad("delete-unknown", format!("{id} {c:?} is not there")),
            Some(w) => {
                if norm(&w) != norm(&c) {
                    l.bad("delete-changed", format!("{id} is {w:?}, deleted as {c:?}"))
                }
            }
        }
        // (some redundant clauses become irredundant without notice)
        let was = l.redundant.remove(&id);
        l.strengthened.remove(&id);
        if was == Some(false) && redundant {
            l.bad("delete-flag", format!("{id} {c:?} redundant: {was:?} then {redundant}"));
        }
    }
    fn weaken_minus(&mut self, id: ClauseId, cl: &CaDiCaLClause) {
        let l = &mut *self.0.borrow_mut();
        let (id, c) = (id.0, lits(cl));
        l.evs.push(Ev::Weaken(id, c.clone()));
        l.n("weakened clauses");
        if !l.full {
            return;
        }
        match l.db.live.get(&id) {
            None => l.bad("weaken-unknown", format!("{id} {c:?} is not there")),
            Some(w) => {
                if norm(w) != norm(&c) {
                    let m = format!("{id} is {w:?}, weakened as {c:?}");
                    l.bad("weaken-changed", m)
                }
            }
        }
        l.weak.insert(id, c);
    }
    fn strengthen(&mut self, id: ClauseId) {
        let l = &mut *self.0.borrow_mut();
        l.evs.push(Ev::Strengthen(id.0));
        l.n("strengthened");
        if l.full && !l.db.live.contains_key(&id.0) {
            l.bad("strengthen-unknown", format!("{}", id.0));
        }
        l.strengthened.insert(id.0);
    }
    fn report_status(&mut self, status: SolverResult, id: ClauseId) {
        let l = &mut *self.0.borrow_mut();
        l.evs.push(Ev::Status(status, id.0));
        l.n("statuses");
        if l.full && id.0 != 0 && l.db.live.get(&id.0).is_none_or(|c| !c.is_empty()) {
            l.bad("status-id", format!("{status} with id {} which is no empty clause", id.0));
        }
        l.status.push((status, id.0));
    }
    fn finalize_clause(&mut self, id: ClauseId, cl: &CaDiCaLClause) {
        let l = &mut *self.0.borrow_mut();
        let (id, c) = (id.0, lits(cl));
        l.evs.push(Ev::Finalize(id, c.clone()));
        l.n("finalized");
        if l.full && l.db.live.get(&id).is_none_or(|w| norm(w) != norm(&c)) {
            let m = format!("{id} {c:?}, there is {:?}", l.db.live.get(&id));
            l.bad("finalize", m);
        }
    }
    fn begin_proof(&mut self, id: ClauseId) {
        self.0.borrow_mut().evs.push(Ev::Begin(id.0));
    }
    fn solve_query(&mut self) {
        let l = &mut *self.0.borrow_mut();
        l.evs.push(Ev::Query);
        l.n("queries");
        if !l.in_solve {
            l.bad("query-unexpected", String::new());
        }
        let (a, b) = (l.seen_assumps.clone(), l.assumps.clone());
        if l.full && a != b {
            l.bad("assumptions", format!("traced {a:?} of {b:?}"));
        }
        let (a, b) = (l.seen_constraint.clone(), l.constraint.clone());
        if l.full && a != b {
            l.bad("constraint", format!("traced {a:?} of {b:?}"));
        }
    }
    fn add_assumption(&mut self, a: Lit) {
        let l = &mut *self.0.borrow_mut();
        l.evs.push(Ev::Assume(int(a)));
        l.n("assumptions");
        l.seen_assumps.push(int(a));
    }
    fn add_constraint(&mut self, cl: &CaDiCaLClause) {
        let l = &mut *self.0.borrow_mut();
        l.evs.push(Ev::Constraint(lits(cl)));
        l.n("constraints");
        l.seen_constraint = Some(lits(cl));
    }
    fn reset_assumptions(&mut self) {
        let l = &mut *self.0.borrow_mut();
        l.evs.push(Ev::Reset);
        l.n("resets");
        l.seen_assumps.clear();
        l.seen_constraint = None;
        l.assum.clear();
    }
    fn add_assumption_clause(&mut self, id: ClauseId, cl: &CaDiCaLClause, ants: &[ClauseId]) {
        let l = &mut *self.0.borrow_mut();
        let (id, c) = (id.0, lits(cl));
        let ants: Vec<i64> = ants.iter().map(|a| a.0).collect();
        l.evs.push(Ev::AssumClause(id, c.clone()));
        l.n("assumption clauses");
        l.fresh(id);
        if l.full {
            let over = |x: &i32| l.assumps.contains(&-x) || l.constraint.as_ref().is_some_and(|k| k.contains(&-x));
            if !c.iter().all(over) {
                let m = format!("{id} {c:?} under {:?} {:?}", l.assumps, l.constraint);
                l.bad("assumption-clause", m);
            }
        }
        l.justify(id, &c, &ants, "assumption");
        l.assum.insert(id, c);
    }
    fn conclude_unsat(&mut self, kind: Conclusion, ids: &[ClauseId]) {
        let l = &mut *self.0.borrow_mut();
        let ids: Vec<i64> = ids.iter().map(|a| a.0).collect();
        let ev = Ev::Unsat(kind, ids.clone());
        l.evs.push(ev.clone());
        l.concl.push(ev);
        if !l.full {
            return;
        }
        match kind {
            Conclusion::Conflict => {
                l.n("concluded: conflict");
                if ids.len() != 1 || l.db.live.get(&ids[0]).is_none_or(|c| !c.is_empty()) {
                    l.bad("conclude-conflict", format!("{ids:?}"));
                }
            }
            Conclusion::Assumptions => {
                l.n("concluded: assumptions");
                if ids.is_empty() || !ids.iter().all(|i| l.assum.get(i).is_some_and(|c| c.iter().all(|x| l.assumps.contains(&-x)))) {
                    let m = format!("{ids:?} of {:?} under {:?}", l.assum, l.assumps);
                    l.bad("conclude-assumptions", m);
                }
            }
            Conclusion::Constraint => {
                l.n("concluded: constraint");
                let mut cls: Vec<Vec<i32>> = vec![];
                for i in &ids {
                    match l.assum.get(i) {
                        Some(c) => cls.push(c.clone()),
                        None => {
                            let m = format!("{ids:?} of {:?}", l.assum);
                            l.bad("conclude-constraint", m);
                            return;
                        }
                    }
                }
                cls.extend(l.constraint.clone());
                if l.constraint.is_none() || !has_conflict(&cls, &l.assumps) {
                    let m = format!("{cls:?} under {:?}", l.assumps);
                    l.bad("conclude-constraint", m);
                }
            }
        }
    }
    fn conclude_sat(&mut self, sol: &CaDiCaLAssignment) {
        let l = &mut *self.0.borrow_mut();
        let m = asg(sol);
        let owned = sol.to_owned();
        if sol.len() != m.len() || sol.is_empty() != m.is_empty() || m.iter().any(|&x| owned.lit_value(lit(x)) != TernaryVal::True) {
            l.bad("assignment-api", format!("{m:?}"));
        }
        l.evs.push(Ev::Sat(m.clone()));
        l.concl.push(Ev::Sat(m.clone()));
        l.n("concluded: model");
        let s: BTreeSet<i32> = m.iter().copied().collect();
        if s.iter().any(|x| s.contains(&-x)) {
            l.bad("model-inconsistent", format!("{m:?}"));
        }
        let all: Vec<Vec<i32>> = l.orig.iter().cloned().chain(l.constraint.clone()).chain(l.assumps.iter().map(|&a| vec![a])).collect();
        for c in all {
            if !c.iter().any(|x| s.contains(x)) {
                l.bad("model", format!("{m:?} does not satisfy {c:?}"));
                return;
            }
        }
    }
    fn conclude_unknown(&mut self, sol: &CaDiCaLAssignment) {
        let l = &mut *self.0.borrow_mut();
        let m = asg(sol);
        l.evs.push(Ev::Unknown(m.clone()));
        l.n("concluded: trail");
        let s: BTreeSet<i32> = m.iter().copied().collect();
        if s.iter().any(|x| s.contains(&-x)) {
            l.bad("trail-inconsistent", format!("{m:?}"));
        }
        l.concl.push(Ev::Unknown(m));
    }
    fn notify_equivalence(&mut self, a: Lit, b: Lit) {
        let l = &mut *self.0.borrow_mut();
        let (a, b) = (int(a), int(b));
        l.evs.push(Ev::Equiv(a, b));
        l.n("equivalences");
        if !l.full {
            return;
        }
        let mut s = vcore::oracle::Sat::from_clauses(l.orig.iter().chain(&l.ext));
        if s.solve(&[a, -b]) || s.solve(&[-a, b]) {
            l.bad("equivalence", format!("{a} = {b} does not follow"));
        }
    }
}

struct Conn {
    log: Rc<RefCell<Log>>,
    handle: Option<ProofTracerHandle<Tracer>>,
    /// position of the first event in the events of the first tracer
    from: usize,
    id: usize,
    /// disconnected
    gone: bool,
}

const OPTS: &[(&str, i64, i64)] = &[
    ("elim", 0, 1), ("vivify", 0, 1), ("probe", 0, 1), ("lucky", 0, 1), ("walk", 0, 1), ("chrono", 0, 2), ("restartint", 1, 4), ("ilb", 0, 2),
    ("subsume", 0, 1), ("ternary", 0, 1), ("condition", 0, 1), ("conditionint", 1, 3), ("cover", 0, 1), ("decompose", 0, 1), ("block", 0, 1),
    ("elimint", 1, 4), ("inprobeint", 1, 4), ("reduceint", 2, 10), ("reduceinit", 1, 10), ("compactint", 1, 4), ("compactmin", 1, 2),
    ("congruence", 0, 1), ("sweep", 0, 1), ("backbone", 0, 1), ("instantiate", 0, 1), ("elimdef", 0, 1), ("restoreall", 0, 2), ("otfs", 0, 1),
    ("shrink", 0, 3), ("lrat", 0, 1), ("seed", 0, 1000), ("transred", 0, 1), ("elimboundmin", 0, 8), ("externallrat", 0, 1),
];

pub fn configure(c: &mut Case, s: &mut Cad, factor: bool, lrat: bool) -> Res {
    let mut set = |c: &mut Case, o: &str, v: i64| -> Res {
        c.log(format!("option {o}={v}"));
        match s.set_option(o, v as i32) {
            Ok(()) => Ok(()),
            Err(e) => fail!("C28:set-option", "{o}={v}: {e:#}"),
        }
    };
    if factor {
        for (o, v) in [("factor", 1), ("factorcheck", 0), ("factordelay", 0), ("factorthresh", 0), ("factoriniticks", 1000)] {
            set(c, o, v)?;
        }
    }
    if c.rng.chance(3, 4) {
        for (o, hi) in [("elimint", 2), ("inprobeint", 2), ("reduceint", 3), ("reduceinit", 3), ("restartint", 2)] {
            let v = c.rng.range(if o == "reduceint" { 2 } else { 1 }, hi);
            set(c, o, v)?;
        }
    }
    for _ in 0..c.rng.below(7) {
        let &(o, lo, hi) = c.rng.pick(OPTS);
        if !lrat && (o == "lrat" || o == "externallrat") {
            continue;
        }
        let v = c.rng.range(lo, hi);
        set(c, o, v)?;
    }
    if c.rng.chance(1, 4) {
        let cfg = *c.rng.pick(&[Config::Default, Config::Plain, Config::Sat, Config::Unsat]);
        c.log(format!("configuration {cfg}"));
        if let Err(e) = s.set_configuration(cfg) {
            fail!("C28:set-configuration", "{e:#}");
        }
    }
    Ok(())
}

/// Clauses of a small instance
pub fn instance(c: &mut Case) -> (i32, Vec<Vec<i32>>) {
    match c.rng.below(8) {
        0 => {
            // pigeons
            let h = c.rng.range(2, 4) as i32;
            let p = h + 1;
            let v = |i: i32, j: i32| i * h + j + 1;
            let mut cls: Vec<Vec<i32>> = (0..p).map(|i| (0..h).map(|j| v(i, j)).collect()).collect();
            for j in 0..h {
                for a in 0..p {
                    for b in 0..a {
                        cls.push(vec![-v(a, j), -v(b, j)]);
                    }
                }
            }
            (p * h, cls)
        }
        1 => {
            // parity chains and equivalences
            let n = c.rng.range(4, 12) as i32;
            let mut cls = vec![];
            for i in 1..n {
                if c.rng.bool() {
                    cls.push(vec![-i, i + 1]);
                    cls.push(vec![i, -i - 1]);
                } else if i + 2 <= n {
                    for (a, b, d) in [(1, 1, -1), (1, -1, 1), (-1, 1, 1), (-1, -1, -1)] {
                        cls.push(vec![a * i, b * (i + 1), d * (i + 2)]);
                    }
                }
            }
            if c.rng.bool() {
                cls.push(vec![1, n]);
                cls.push(vec![-1, -n]);
            }
            (n, cls)
        }
        2 => {
            // a product of two sets of clauses (to be factored)
            let n = c.rng.range(8, 14) as i32;
            let mut cls = vec![];
            for a in 1..=c.rng.range(2, 4) as i32 {
                for b in 5..=c.rng.range(6, 8) as i32 {
                    cls.push(vec![a, b, n]);
                }
            }
            for _ in 0..c.rng.below(20) {
                cls.push(c.rng.distinct_lits(n as usize, 3));
            }
            (n, cls)
        }
        _ => {
            let n = c.rng.us(3, if c.thorough { 26 } else { 18 });
            let ratio = c.rng.us(20, 52);
            let m = n * ratio / 10;
            let mut cls = vec![];
            for _ in 0..m {
                let k = match c.rng.below(30) {
                    0 => 1,
                    1..=5 => 2,
                    6 => 4,
                    7 => 6,
                    _ => 3,
                };
                if c.rng.chance(1, 25) {
                    // repeated literals and tautologies
                    cls.push((0..k).map(|_| c.rng.lit(n)).collect());
                } else {
                    cls.push(c.rng.distinct_lits(n, k.min(n)));
                }
            }
            (n as i32, cls)
        }
    }
}

struct Run {
    s: Option<Cad>,
    conns: Vec<Conn>,
    dropped: Rc<Cell<usize>>,
    made: usize,
    /// all events that a tracer would have seen, from the first tracer
    added: Vec<Vec<i32>>,
}

impl Run {
    fn connect(&mut self, c: &mut Case, antecedents: bool) {
        let full = self.added.is_empty();
        let id = self.made;
        self.made += 1;
        c.log(format!("connect tracer {id} (antecedents: {antecedents})"));
        let log = Rc::new(RefCell::new(Log {
            id,
            antecedents,
            full,
            db: Db::default(),
            redundant: Default::default(),
            strengthened: Default::default(),
            weak: Default::default(),
            used: Default::default(),
            assum: Default::default(),
            expect: Default::default(),
            orig: self.added.clone(),
            ext: vec![],
            assumps: vec![],
            constraint: None,
            in_solve: false,
            seen_assumps: vec![],
            seen_constraint: None,
            status: vec![],
            concl: vec![],
            evs: vec![],
            err: None,
            counts: Default::default(),
            dropped: self.dropped.clone(),
            budget: if c.thorough { 20_000 } else { 3_000 },
        }));
        let h = self.s.as_mut().unwrap().connect_proof_tracer(Tracer(log.clone(), id), antecedents);
        let from = self.conns.first().map_or(0, |f| f.log.borrow().evs.len());
        self.conns.push(Conn { log, handle: Some(h), from, id, gone: false });
    }
    fn each(&self, f: impl Fn(&mut Log)) {
        for k in self.conns.iter().filter(|k| !k.gone) {
            f(&mut k.log.borrow_mut());
        }
    }
    fn verdict(&self) -> Res {
        for k in &self.conns {
            if let Some(e) = k.log.borrow_mut().err.take() {
                return Err(e);
            }
        }
        Ok(())
    }
    fn add(&mut self, c: &mut Case, cl: &[i32]) -> Res {
        c.log(format!("add {cl:?}"));
        self.each(|l| {
            l.expect.push_back(cl.to_vec());
            l.orig.push(cl.to_vec());
        });
        self.added.push(cl.to_vec());
        let s = self.s.as_mut().unwrap();
        match c.run("C28:add", || s.add_clause_ref(&clause(cl)))? {
            Ok(()) => (),
            Err(e) => fail!("C28:add", "{e:#}"),
        }
        self.verdict()?;
        for k in self.conns.iter().filter(|k| !k.gone) {
            let l = k.log.borrow();
            check!(!l.full || l.expect.is_empty(), "C28:tracer:original-missing", "tracer {} was not told about {cl:?}", k.id);
        }
        Ok(())
    }
}

pub fn tracer(c: &mut Case) -> Res {
    let (n, cls) = instance(c);
    let dropped = Rc::new(Cell::new(0));
    let mut r = Run { s: Some(Cad::default()), conns: vec![], dropped: dropped.clone(), made: 0, added: vec![] };
    let factor = c.rng.chance(1, 4);
    configure(c, r.s.as_mut().unwrap(), factor, true)?;
    for _ in 0..c.rng.us(1, 2) {
        let a = c.rng.bool();
        r.connect(c, a);
    }
    if factor {
        // no variable of the user may appear later than an extension variable
        r.add(c, &[n, -n])?;
    }
    // in chunks, with queries in between
    let mut at = 0;
    let mut answers = String::new();
    let mut calls = 0;
    // a conflict limit is in effect until the solver really searches
    let mut limited = false;
    // the answer without assumptions is known
    let mut cached = false;
    let mut handles_lost: Vec<ProofTracerHandle<Tracer>> = vec![];
    loop {
        let k = if c.rng.chance(1, 3) { cls.len() - at } else { c.rng.below(cls.len() - at + 1) };
        for cl in &cls[at..at + k] {
            r.add(c, cl)?;
            cached = false;
        }
        at += k;
        for _ in 0..c.rng.us(1, 3) {
            calls += 1;
            let assumps: Vec<i32> = match c.rng.below(3) {
                0 => vec![],
                _ => (0..c.rng.us(1, 4)).map(|_| c.rng.lit(n as usize)).collect(),
            };
            let constraint: Option<Vec<i32>> = if c.rng.chance(1, 4) { Some((0..c.rng.us(1, 3)).map(|_| c.rng.lit(n as usize)).collect()) } else { None };
            c.log(format!("solve under {assumps:?} with {constraint:?}"));
            r.each(|l| {
                l.assumps = assumps.clone();
                l.constraint = constraint.clone();
                l.in_solve = true;
                l.status.clear();
                l.concl.clear();
            });
            let s = r.s.as_mut().unwrap();
            if let Some(k) = &constraint {
                if let Err(e) = s.add_tmp_clause(&clause(k)) {
                    fail!("C28:add-tmp", "{e:#}");
                }
            }
            if c.rng.chance(1, 12) {
                limited = true;
                if let Err(e) = s.limit_conflicts(Some(c.rng.below(3) as u32)) {
                    fail!("C28:limit", "{e:#}");
                }
                c.log("with a conflict limit");
            }
            let al: Vec<Lit> = assumps.iter().map(|&l| lit(l)).collect();
            let may_skip = cached && assumps.is_empty() && constraint.is_none();
            let plain = assumps.is_empty() && c.rng.bool();
            let res = c.run("C28:solve", || if plain { s.solve() } else { s.solve_assumps(&al) })?;
            let res = match res {
                Ok(x) => x,
                Err(e) => fail!("C28:solve", "{e:#}"),
            };
            c.log(format!("-> {res}"));
            r.each(|l| l.in_solve = false);
            r.verdict()?;
            let want = {
                let mut extra = vcore::oracle::Sat::from_clauses(r.added.iter().chain(&constraint));
                let w = extra.solve(&assumps);
                if w {
                    SolverResult::Sat
                } else {
                    SolverResult::Unsat
                }
            };
            check!(res == want || limited && res == SolverResult::Interrupted, "C28:answer", "{res} instead of {want}");
            answers.push(match res {
                SolverResult::Sat => 's',
                SolverResult::Unsat => 'u',
                SolverResult::Interrupted => '?',
            });
            let skipped = may_skip && r.conns.iter().all(|k| k.gone || k.log.borrow().status.is_empty());
            if !skipped {
                limited = false;
            } else {
                c.count("answers from the cache", 1);
            }
            cached = res == SolverResult::Sat || res == SolverResult::Unsat && r.s.as_mut().unwrap().core().is_ok_and(|k| k.is_empty()) && r.s.as_mut().unwrap().tmp_clause_in_core().is_ok_and(|t| !t);
            // what the connected tracers were told about the answer
            let s = r.s.as_mut().unwrap();
            let core: Option<Vec<i32>> = if res == SolverResult::Unsat { s.core().ok().map(|k| k.into_iter().map(int).collect()) } else { None };
            let model: Option<Assignment> = if res == SolverResult::Sat { s.full_solution().ok() } else { None };
            r.verdict()?;
            for k in r.conns.iter().filter(|k| !k.gone && !skipped) {
                let l = k.log.borrow();
                let want: &[SolverResult] = &[res];
                let st: Vec<SolverResult> = l.status.iter().map(|s| s.0).collect();
                check_eq!(st, want, "C28:tracer:status", "tracer {}: reported status(es)", k.id);
                match (res, l.concl.as_slice()) {
                    (SolverResult::Sat, [Ev::Sat(m)]) => {
                        let Some(model) = &model else { fail!("C28:model", "no solution after {res}") };
                        for &x in m {
                            if x.abs() <= n {
                                check!(model.lit_value(lit(x)) == TernaryVal::True, "C28:tracer:model-differs", "concluded {m:?}, solution {model}");
                            }
                        }
                        let have: BTreeSet<i32> = m.iter().map(|x| x.abs()).collect();
                        for v in r.added.iter().flatten() {
                            check!(have.contains(&v.abs()), "C28:tracer:model-incomplete", "concluded {m:?} without {v}");
                        }
                    }
                    (SolverResult::Unsat, [Ev::Unsat(kind, ids)]) => {
                        let Some(core) = &core else { fail!("C28:core", "no core after {res}") };
                        if *kind == Conclusion::Conflict {
                            check!(core.is_empty(), "C28:tracer:core-differs", "conflict without assumptions, core {core:?}");
                        } else if *kind == Conclusion::Assumptions && l.full {
                            let neg: BTreeSet<i32> = ids.iter().flat_map(|i| l.assum[i].iter().copied()).collect();
                            let have: BTreeSet<i32> = core.iter().copied().collect();
                            // (the core may be larger)
                            check!(have.is_superset(&neg), "C28:tracer:core-differs", "core {have:?} against concluded clause {neg:?}");
                        }
                    }
                    (SolverResult::Interrupted, [Ev::Unknown(_)]) => (),
                    (_, k2) => fail!("C28:tracer:conclusion", "tracer {}: {res} but concluded {k2:?}", k.id),
                }
            }
            for k in &r.conns {
                k.log.borrow_mut().concl.clear();
            }
            // changes to the connections
            match c.rng.below(12) {
                1 | 2 => {
                    // disconnect
                    let live: Vec<usize> = (0..r.conns.len()).filter(|&i| r.conns[i].handle.is_some()).collect();
                    if !live.is_empty() {
                        let i = *c.rng.pick(&live);
                        let h = r.conns[i].handle.take().unwrap();
                        c.log(format!("disconnect tracer {}", r.conns[i].id));
                        r.conns[i].gone = true;
                        let h = if c.rng.chance(1, 4) {
                            // through another solver: refused
                            let mut other = Cad::default();
                            let h2 = other.connect_proof_tracer(Tracer(r.conns[i].log.clone(), 77), false);
                            r.made += 1;
                            match r.s.as_mut().unwrap().disconnect_proof_tracer(h2) {
                                Err(_) => (),
                                Ok(_) => fail!("C28:foreign-handle", "tracer of another solver disconnected"),
                            }
                            drop(other);
                            check_eq!(dropped.get(), r.made - alive(&r), "C28:ownership", "tracers dropped together with another solver");
                            h
                        } else {
                            h
                        };
                        let before = r.conns[i].log.borrow().evs.len();
                        let s = r.s.as_mut().unwrap();
                        match c.run("C28:disconnect", || s.disconnect_proof_tracer(h))? {
                            Ok(t) => {
                                check_eq!(t.1, r.conns[i].id, "C28:disconnect", "the tracer returned");
                                check!(Rc::ptr_eq(&t.0, &r.conns[i].log), "C28:disconnect", "another tracer returned");
                                let n = dropped.get();
                                drop(t);
                                check_eq!(dropped.get(), n + 1, "C28:ownership", "returned tracer dropped");
                            }
                            Err(e) => fail!("C28:disconnect", "tracer {}: {e}", r.conns[i].id),
                        }
                        check_eq!(r.conns[i].log.borrow().evs.len(), before, "C28:disconnect", "events while disconnecting");
                        c.count("disconnected tracers", 1);
                    }
                }
                3 => {
                    // lose the handle: the tracer stays connected
                    let live: Vec<usize> = (0..r.conns.len()).filter(|&i| r.conns[i].handle.is_some()).collect();
                    if !live.is_empty() {
                        let i = *c.rng.pick(&live);
                        let n = dropped.get();
                        if let Some(h) = r.conns[i].handle.take() {
                            handles_lost.push(h);
                        }
                        check_eq!(dropped.get(), n, "C28:ownership", "tracer dropped with its handle");
                        let h = handles_lost.pop().unwrap();
                        let s = r.s.as_mut().unwrap();
                        let t = s.proof_tracer_mut(&h);
                        check_eq!(t.1, r.conns[i].id, "C28:tracer-mut", "another tracer");
                        r.conns[i].handle = Some(h);
                    }
                }
                _ => (),
            }
            check_eq!(dropped.get() + alive(&r), r.made, "C28:ownership", "tracers dropped");
        }
        if at == cls.len() || calls > 12 {
            break;
        }
    }
    // all tracers that were connected together saw the same
    let first = r.conns[0].log.borrow();
    for k in &r.conns[1..] {
        let l = k.log.borrow();
        let m = l.evs.len().min(first.evs.len() - k.from.min(first.evs.len()));
        check!(l.evs[..m] == first.evs[k.from..k.from + m], "C28:tracer:differ", "tracers {} and {} were told different things", r.conns[0].id, k.id);
    }
    let mut desc = String::new();
    for k in &r.conns {
        for (n, v) in &k.log.borrow().counts {
            c.count(n, *v);
        }
        desc += &format!(" {}ev", k.log.borrow().evs.len());
    }
    drop(first);
    // the solver owns what is still connected
    let lost = c.rng.bool();
    if lost {
        for k in &mut r.conns {
            k.handle = None;
        }
    }
    r.s = None;
    r.verdict()?;
    check_eq!(dropped.get(), r.made, "C28:ownership", "tracers dropped after dropping the solver");
    c.nontrivial(&format!("n={n} {answers}{desc}"));
    Ok(())
}

/// tracers that are connected (or held) by now
fn alive(r: &Run) -> usize {
    r.conns.iter().filter(|k| Rc::strong_count(&k.log) > 1).count()
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C28",
        "everything reported to the connected proof tracers is consistent with what was added and answered, every derived clause follows, and proof files are accepted by independent checkers",
        vec![Sub::new("tracer", 60, tracer).max(0, 0).hang(60, false), Sub::new("file", 40, crate::m_pfile::file).max(0, 0).hang(60, false)],
    )
    .quick(35)
    .thorough(420)
    .mem(3000)
    .workers(6)
    .assume(&["the forward checkers of the harness (unit propagation, RAT, hints, VeriPB steps) are right"])]
}
