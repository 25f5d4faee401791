//! One dynamic interface over all bundled solver interfaces
use rustsat::solvers::*;
use rustsat::types::*;

pub type R<T> = anyhow::Result<T>;
pub type TermCb = Box<dyn FnMut() -> ControlSignal>;
pub type LearnCb = Box<dyn FnMut(Clause)>;
#[cfg(feature = "cad")]
pub type Cad = rustsat_cadical::CaDiCaL<'static, 'static>;

pub trait Drv: Send {
    fn name(&self) -> &'static str;
    /// clauses may be added after solving
    fn incremental(&self) -> bool {
        true
    }
    /// the interface counts the clauses itself
    fn exact_clause_count(&self) -> bool;
    fn add(&mut self, mode: usize, cl: &Clause) -> R<()>;
    fn add_many(&mut self, mode: usize, cls: &[Clause]) -> R<()>;
    fn reserve(&mut self, v: Var) -> R<()>;
    fn solve(&mut self) -> R<SolverResult>;
    fn lit_val(&self, l: Lit) -> R<TernaryVal>;
    fn var_val(&self, v: Var) -> R<TernaryVal>;
    fn solution(&self, v: Var) -> R<Assignment>;
    fn full_solution(&self) -> R<Assignment>;
    fn stats(&self) -> SolverStats;
    fn stat_methods(&self) -> (usize, usize, usize, usize, usize, Option<Var>, usize, f32);
    fn solve_assumps(&mut self, _: &[Lit]) -> Option<R<SolverResult>> {
        None
    }
    fn core(&mut self) -> Option<R<Vec<Lit>>> {
        None
    }
    fn phase(&mut self, _: Lit) -> Option<R<()>> {
        None
    }
    fn unphase(&mut self, _: Var) -> Option<R<()>> {
        None
    }
    fn freeze(&mut self, _: Var) -> Option<R<()>> {
        None
    }
    fn melt(&mut self, _: Var) -> Option<R<()>> {
        None
    }
    fn is_frozen(&mut self, _: Var) -> Option<R<bool>> {
        None
    }
    fn flip(&mut self, _: Lit) -> Option<R<bool>> {
        None
    }
    fn flippable(&mut self, _: Lit) -> Option<R<bool>> {
        None
    }
    fn lim_conf(&mut self, _: Option<u32>) -> Option<R<()>> {
        None
    }
    fn lim_dec(&mut self, _: Option<u32>) -> Option<R<()>> {
        None
    }
    fn lim_prop(&mut self, _: Option<u32>) -> Option<R<()>> {
        None
    }
    fn internal(&self) -> Option<(usize, usize, usize)> {
        None
    }
    fn propagate(&mut self, _: &[Lit], _: bool) -> Option<R<PropagateResult>> {
        None
    }
    fn attach_term(&mut self, _: TermCb) -> bool {
        false
    }
    fn detach_term(&mut self) {}
    fn attach_learn(&mut self, _: LearnCb, _: usize) -> bool {
        false
    }
    fn detach_learn(&mut self) {}
    fn interrupter(&mut self) -> Option<Box<dyn InterruptSolver + Send>> {
        None
    }
    fn is_cadical(&self) -> bool {
        false
    }
    fn add_tmp(&mut self, _: &Clause) -> Option<R<()>> {
        None
    }
    fn tmp_in_core(&mut self) -> Option<R<bool>> {
        None
    }
    fn simplify(&mut self, _: Option<&[Lit]>, _: u32) -> Option<R<SolverResult>> {
        None
    }
    fn configure(&mut self, _: &mut vcore::Case) -> vcore::Res {
        Ok(())
    }
    /// value at the root
    fn fixed(&self, _: Lit) -> Option<TernaryVal> {
        None
    }
    fn numbers(&self) -> [i64; 3] {
        [0; 3]
    }
    fn eliminated(&mut self, _: Var) -> bool {
        false
    }
}

macro_rules! basic {
    () => {
        fn add(&mut self, mode: usize, cl: &Clause) -> R<()> {
            match (mode % 5, cl.len()) {
                (0, _) => self.0.add_clause_ref(cl),
                (1, 1) => self.0.add_unit(cl[0]),
                (1, 2) => self.0.add_binary(cl[0], cl[1]),
                (1, 3) => self.0.add_ternary(cl[0], cl[1], cl[2]),
                (2, _) => self.0.add_clause_ref::<[Lit]>(cl.as_ref()),
                (3, _) => self.0.add_clause_ref::<Cl>(cl.as_ref()),
                _ => self.0.add_clause(cl.clone()),
            }
        }
        fn add_many(&mut self, mode: usize, cls: &[Clause]) -> R<()> {
            let cnf: rustsat::instances::Cnf = cls.iter().cloned().collect();
            match mode % 4 {
                0 => self.0.add_cnf_ref(&cnf),
                1 => self.0.add_cnf(cnf),
                2 => {
                    self.0.extend(cls.iter().cloned());
                    Ok(())
                }
                _ => {
                    self.0.extend(cls.iter());
                    Ok(())
                }
            }
        }
        fn reserve(&mut self, v: Var) -> R<()> {
            Solve::reserve(&mut self.0, v)
        }
        fn solve(&mut self) -> R<SolverResult> {
            Solve::solve(&mut self.0)
        }
        fn lit_val(&self, l: Lit) -> R<TernaryVal> {
            Solve::lit_val(&self.0, l)
        }
        fn var_val(&self, v: Var) -> R<TernaryVal> {
            Solve::var_val(&self.0, v)
        }
        fn solution(&self, v: Var) -> R<Assignment> {
            Solve::solution(&self.0, v)
        }
        fn full_solution(&self) -> R<Assignment> {
            Solve::full_solution(&self.0)
        }
        fn stats(&self) -> SolverStats {
            SolveStats::stats(&self.0)
        }
        fn stat_methods(&self) -> (usize, usize, usize, usize, usize, Option<Var>, usize, f32) {
            (
                self.0.n_sat_solves(),
                self.0.n_unsat_solves(),
                self.0.n_terminated(),
                self.0.n_solves(),
                SolveStats::n_clauses(&self.0),
                self.0.max_var(),
                self.0.n_vars(),
                self.0.avg_clause_len(),
            )
        }
    };
}
macro_rules! incr {
    () => {
        fn solve_assumps(&mut self, a: &[Lit]) -> Option<R<SolverResult>> {
            Some(SolveIncremental::solve_assumps(&mut self.0, a))
        }
        fn core(&mut self) -> Option<R<Vec<Lit>>> {
            Some(SolveIncremental::core(&mut self.0))
        }
    };
}
macro_rules! phase {
    () => {
        fn phase(&mut self, l: Lit) -> Option<R<()>> {
            Some(self.0.phase_lit(l))
        }
        fn unphase(&mut self, v: Var) -> Option<R<()>> {
            Some(self.0.unphase_var(v))
        }
    };
}
macro_rules! freeze {
    () => {
        fn freeze(&mut self, v: Var) -> Option<R<()>> {
            Some(self.0.freeze_var(v))
        }
        fn melt(&mut self, v: Var) -> Option<R<()>> {
            Some(self.0.melt_var(v))
        }
        fn is_frozen(&mut self, v: Var) -> Option<R<bool>> {
            Some(FreezeVar::is_frozen(&mut self.0, v))
        }
    };
}
macro_rules! internal {
    () => {
        fn internal(&self) -> Option<(usize, usize, usize)> {
            Some((self.0.propagations(), self.0.decisions(), self.0.conflicts()))
        }
    };
}
macro_rules! prop {
    () => {
        fn propagate(&mut self, a: &[Lit], p: bool) -> Option<R<PropagateResult>> {
            Some(Propagate::propagate(&mut self.0, a, p))
        }
    };
}
macro_rules! interrupt {
    () => {
        fn interrupter(&mut self) -> Option<Box<dyn InterruptSolver + Send>> {
            Some(Box::new(Interrupt::interrupter(&mut self.0)))
        }
    };
}
macro_rules! term {
    () => {
        fn attach_term(&mut self, cb: TermCb) -> bool {
            self.0.attach_terminator(cb);
            true
        }
        fn detach_term(&mut self) {
            self.0.detach_terminator()
        }
    };
}

#[cfg(feature = "cad")]
pub struct DCad(pub Cad);
#[cfg(feature = "cad")]
impl Drv for DCad {
    fn name(&self) -> &'static str {
        "cadical"
    }
    fn exact_clause_count(&self) -> bool {
        true
    }
    basic!();
    incr!();
    phase!();
    freeze!();
    internal!();
    prop!();
    interrupt!();
    term!();
    fn attach_learn(&mut self, cb: LearnCb, n: usize) -> bool {
        self.0.attach_learner(cb, n);
        true
    }
    fn detach_learn(&mut self) {
        self.0.detach_learner()
    }
    fn flip(&mut self, l: Lit) -> Option<R<bool>> {
        Some(self.0.flip_lit(l))
    }
    fn flippable(&mut self, l: Lit) -> Option<R<bool>> {
        Some(self.0.is_flippable(l))
    }
    fn lim_conf(&mut self, n: Option<u32>) -> Option<R<()>> {
        Some(self.0.limit_conflicts(n))
    }
    fn lim_dec(&mut self, n: Option<u32>) -> Option<R<()>> {
        Some(self.0.limit_decisions(n))
    }
    fn is_cadical(&self) -> bool {
        true
    }
    fn add_tmp(&mut self, cl: &Clause) -> Option<R<()>> {
        Some(self.0.add_tmp_clause(cl).map_err(Into::into))
    }
    fn tmp_in_core(&mut self) -> Option<R<bool>> {
        Some(self.0.tmp_clause_in_core())
    }
    fn simplify(&mut self, a: Option<&[Lit]>, n: u32) -> Option<R<SolverResult>> {
        Some(match a {
            Some(a) => self.0.simplify_assumps(a, n),
            None => self.0.simplify(n),
        })
    }
    fn configure(&mut self, c: &mut vcore::Case) -> vcore::Res {
        let cad = &mut self.0;
        if c.rng.chance(1, 3) {
            let cfg = *c.rng.pick(&[rustsat_cadical::Config::Default, rustsat_cadical::Config::Plain, rustsat_cadical::Config::Sat, rustsat_cadical::Config::Unsat]);
            c.log(format!("configuration {cfg}"));
            if let Err(e) = cad.set_configuration(cfg) {
                vcore::fail!("C17:cadical:set-configuration", "{e:#}");
            }
        }
        if c.rng.chance(1, 2) {
            for _ in 0..c.rng.us(1, 5) {
                let &(o, lo, hi) = c.rng.pick(OPTS);
                let v = c.rng.range(lo as i64, hi as i64) as i32;
                c.log(format!("option {o} = {v}"));
                if let Err(e) = cad.set_option(o, v) {
                    vcore::fail!("C17:cadical:set-option", "{o}={v}: {e:#}");
                }
                vcore::check_eq!(cad.get_option(o).ok(), Some(v), "C17:cadical:get-option", "option {o}");
            }
        }
        vcore::check!(cad.set_option("no-such-option", 1).is_err(), "C17:cadical:set-option", "unknown option accepted");
        Ok(())
    }
    fn fixed(&self, l: Lit) -> Option<TernaryVal> {
        Some(self.0.current_lit_val(l))
    }
    fn numbers(&self) -> [i64; 3] {
        [self.0.get_active() as i64, self.0.get_irredundant() as i64, self.0.get_redundant() as i64]
    }
}

/// the IPASIR interface, over CaDiCaL
#[cfg(feature = "cad")]
pub struct DIpa(pub rustsat_ipasir::IpasirSolver<'static, 'static>);
#[cfg(feature = "cad")]
impl Drv for DIpa {
    fn name(&self) -> &'static str {
        "ipasir"
    }
    fn exact_clause_count(&self) -> bool {
        true
    }
    basic!();
    incr!();
    term!();
    fn attach_learn(&mut self, cb: LearnCb, n: usize) -> bool {
        self.0.attach_learner(cb, n);
        true
    }
    fn detach_learn(&mut self) {
        self.0.detach_learner()
    }
}

macro_rules! minilike {
    ($d:ident, $t:ty, $n:literal, $($extra:tt)*) => {
        pub struct $d(pub $t);
        impl Drv for $d {
            fn name(&self) -> &'static str {
                $n
            }
            fn exact_clause_count(&self) -> bool {
                false
            }
            basic!();
            incr!();
            phase!();
            internal!();
            prop!();
            interrupt!();
            fn lim_conf(&mut self, n: Option<u32>) -> Option<R<()>> {
                Some(self.0.limit_conflicts(n))
            }
            fn lim_prop(&mut self, n: Option<u32>) -> Option<R<()>> {
                Some(self.0.limit_propagations(n))
            }
            $($extra)*
        }
    };
}
minilike!(DMini, rustsat_minisat::core::Minisat, "minisat",);
minilike!(DMiniSimp, rustsat_minisat::simp::Minisat, "minisat-simp", freeze!(); fn eliminated(&mut self, v: Var) -> bool { self.0.var_eliminated(v) });
minilike!(DGluc, rustsat_glucose::core::Glucose, "glucose",);
minilike!(DGlucSimp, rustsat_glucose::simp::Glucose, "glucose-simp", freeze!(); fn eliminated(&mut self, v: Var) -> bool { self.0.var_eliminated(v) });

pub struct DBat(pub rustsat_batsat::BasicSolver);
impl Drv for DBat {
    fn name(&self) -> &'static str {
        "batsat"
    }
    fn exact_clause_count(&self) -> bool {
        false
    }
    basic!();
    incr!();
}
// the callbacks of the basic solver are only reached from the thread that owns the solver
unsafe impl Send for DBat {}

#[cfg(feature = "kis")]
pub struct DKis(pub rustsat_kissat::Kissat<'static>);
#[cfg(feature = "kis")]
impl Drv for DKis {
    fn name(&self) -> &'static str {
        "kissat"
    }
    fn incremental(&self) -> bool {
        false
    }
    fn exact_clause_count(&self) -> bool {
        true
    }
    basic!();
    interrupt!();
    term!();
}

macro_rules! sim {
    ($d:ident, $t:ty, $n:literal) => {
        pub struct $d(pub simulators::Incremental<$t>);
        impl Drv for $d {
            fn name(&self) -> &'static str {
                $n
            }
            fn exact_clause_count(&self) -> bool {
                true
            }
            basic!();
            incr!();
        }
    };
}
#[cfg(feature = "kis")]
sim!(DSimKis, rustsat_kissat::Kissat<'static>, "sim-kissat");
sim!(DSimMini, rustsat_minisat::core::Minisat, "sim-minisat");

type Make = fn() -> Box<dyn Drv>;
/// the solvers linked into this binary
pub const MAKE: &[Make] = &[
    #[cfg(feature = "cad")]
    || Box::new(DCad(Default::default())),
    #[cfg(feature = "cad")]
    || Box::new(DMini(Default::default())),
    #[cfg(feature = "cad")]
    || Box::new(DMiniSimp(Default::default())),
    #[cfg(feature = "cad")]
    || Box::new(DGluc(Default::default())),
    #[cfg(feature = "cad")]
    || Box::new(DGlucSimp(Default::default())),
    #[cfg(feature = "cad")]
    || Box::new(DBat(Default::default())),
    #[cfg(feature = "cad")]
    || Box::new(DSimMini(Default::default())),
    #[cfg(feature = "cad")]
    || Box::new(DIpa(Default::default())),
    #[cfg(feature = "kis")]
    || Box::new(DKis(Default::default())),
    #[cfg(feature = "kis")]
    || Box::new(DSimKis(Default::default())),
];
pub fn make(i: usize) -> Box<dyn Drv> {
    MAKE[i % MAKE.len()]()
}

/// an IPASIR library: CaDiCaL's interface under the names of the standard
#[cfg(feature = "cad")]
mod ipasir {
    use std::ffi::{c_char, c_int, c_void};
    type P = *mut c_void;
    type Term = Option<unsafe extern "C" fn(*const c_void) -> c_int>;
    type Learn = Option<unsafe extern "C" fn(*const c_void, *const c_int)>;
    macro_rules! forward {
        ($($ip:ident $cc:ident ($($a:ident : $t:ty),*) $(-> $r:ty)?;)*) => {
            extern "C" { $(fn $cc($($a: $t),*) $(-> $r)?;)* }
            $(#[no_mangle] unsafe extern "C" fn $ip($($a: $t),*) $(-> $r)? { $cc($($a),*) })*
        };
    }
    forward! {
        ipasir_signature ccadical_signature() -> *const c_char;
        ipasir_release ccadical_release(s: P);
        ipasir_add ccadical_add(s: P, l: c_int);
        ipasir_assume ccadical_assume(s: P, l: c_int);
        ipasir_solve ccadical_solve(s: P) -> c_int;
        ipasir_val ccadical_val(s: P, l: c_int) -> c_int;
        ipasir_failed ccadical_failed(s: P, l: c_int) -> c_int;
        ipasir_set_terminate ccadical_set_terminate(s: P, d: *const c_void, f: Term);
        ipasir_set_learn ccadical_set_learn(s: P, d: *const c_void, n: c_int, f: Learn);
    }
    extern "C" {
        fn ccadical_init() -> P;
        fn ccadical_set_option(s: P, name: *const c_char, val: c_int);
    }
    #[no_mangle]
    unsafe extern "C" fn ipasir_init() -> P {
        let s = ccadical_init();
        ccadical_set_option(s, c"quiet".as_ptr(), 1);
        s
    }
}

#[cfg(feature = "cad")]
const OPTS: &[(&str, i32, i32)] = &[
    ("elim", 0, 1), ("vivify", 0, 1), ("probe", 0, 1), ("walk", 0, 1), ("lucky", 0, 1), ("chrono", 0, 2), ("restartint", 1, 10),
    ("ilb", 0, 2), ("inprocessing", 0, 1), ("phase", 0, 1), ("shuffle", 0, 1), ("subsume", 0, 1), ("ternary", 0, 1),
    ("transred", 0, 1), ("condition", 0, 1), ("cover", 0, 1), ("decompose", 0, 1), ("block", 0, 1), ("compact", 0, 1), ("minimize", 0, 1),
    ("shrink", 0, 3), ("restoreall", 0, 2), ("congruence", 0, 1), ("sweep", 0, 1), ("backbone", 0, 1), ("forcephase", 0, 1), ("stabilize", 0, 1),
    ("elimint", 1, 10), ("inprobeint", 1, 10), ("reduceint", 10, 50), ("seed", 0, 1000), ("externallrat", 0, 1), ("lrat", 0, 1),
];
