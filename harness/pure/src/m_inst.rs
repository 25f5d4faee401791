//! Monitors for instances (C13), objectives (C14), variable managers (C21) and atomic
//! implications (C25)
use crate::enc::{fromlit, tolit};
use rustsat::encodings::{atomics, CollectClauses};
use rustsat::instances::{
    BasicVarManager, Cnf, ManageVars, MultiOptInstance, ObjectVarManager, Objective, OptInstance, RandReindVarManager,
    ReindexVars, ReindexingVarManager, SatInstance,
};
use rustsat::types::constraints::{CardConstraint, ConstraintRef, PbConstraint};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use std::collections::{BTreeMap, BTreeSet};
use vcore::oracle::{assumps, clause_true, lit_true, Sat};
use vcore::{check, check_eq, fail, Case, Fail, Prop, Res, Sub};

type Cl = Vec<i32>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Le,
    Ge,
    Eq,
}

#[derive(Clone, Debug)]
struct Lin {
    terms: Vec<(i32, i128)>,
    op: Op,
    b: i128,
}
impl Lin {
    fn holds(&self, bits: u64) -> bool {
        let s: i128 = self.terms.iter().filter(|t| lit_true(t.0, bits)).map(|t| t.1).sum();
        match self.op {
            Op::Le => s <= self.b,
            Op::Ge => s >= self.b,
            Op::Eq => s == self.b,
        }
    }
}

/// Names: small variable `i` (1-based) has index `.0[i - 1]`
#[derive(Clone, Debug)]
struct Nm(Vec<u32>);
impl Nm {
    fn gen(c: &mut Case, n: usize) -> Self {
        match c.rng.below(3) {
            0 => Nm((0..n as u32).collect()),
            1 => {
                let mut v: Vec<u32> = vec![];
                while v.len() < n {
                    let x = c.rng.below(3 * n + 2) as u32;
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
                Nm(v)
            }
            _ => {
                let off = c.rng.below(40) as u32;
                let mut v: Vec<u32> = (off..off + n as u32).collect();
                c.rng.shuffle(&mut v);
                Nm(v)
            }
        }
    }
    fn lit(&self, l: i32) -> Lit {
        Lit::new(self.0[l.unsigned_abs() as usize - 1], l < 0)
    }
    fn lits(&self, ls: &[i32]) -> Vec<Lit> {
        ls.iter().map(|l| self.lit(*l)).collect()
    }
    /// variables from `lim` on are unknown (and may be taken for something else)
    fn cut(&self, lim: u32) -> Self {
        Nm(self.0.iter().map(|x| if *x < lim { *x } else { u32::MAX }).collect())
    }
    fn assumps(&self, bits: u64, n: usize) -> Vec<i32> {
        assumps(bits, n).into_iter().filter(|l| self.0[l.unsigned_abs() as usize - 1] != u32::MAX).map(|l| fromlit(self.lit(l))).collect()
    }
    fn cl(&self, c: &[i32]) -> Clause {
        c.iter().map(|l| self.lit(*l)).collect()
    }
    fn small(&self, l: Lit) -> Option<i32> {
        let p = self.0.iter().position(|x| *x == l.vidx32())? as i32 + 1;
        Some(if l.is_neg() { -p } else { p })
    }
    fn assign(&self, bits: u64, n: usize) -> Assignment {
        let mut a = Assignment::default();
        for i in 1..=n as i32 {
            a.assign_lit(self.lit(if lit_true(i, bits) { i } else { -i }));
        }
        a
    }
}

/// Value of an (unsigned) PB constraint of the library read independently of its evaluation
fn pb_true(pb: &PbConstraint, val: &dyn Fn(Lit) -> bool) -> bool {
    let s: i128 = pb.iter().filter(|(l, _)| val(*l)).map(|(_, w)| *w as i128).sum();
    let b = pb.bound() as i128;
    match pb {
        PbConstraint::Ub(_) => s <= b,
        PbConstraint::Lb(_) => s >= b,
        PbConstraint::Eq(_) => s == b,
    }
}

#[derive(Clone, Debug, Default)]
struct Sm {
    cls: Vec<Cl>,
    cards: Vec<Lin>,
    pbs: Vec<Lin>,
    /// one past the largest index used
    next: u32,
}
impl Sm {
    fn holds(&self, bits: u64) -> bool {
        self.cls.iter().all(|c| clause_true(c, bits)) && self.cards.iter().all(|l| l.holds(bits)) && self.pbs.iter().all(|l| l.holds(bits))
    }
    fn vars(&self) -> BTreeSet<i32> {
        let mut s = BTreeSet::new();
        s.extend(self.cls.iter().flatten().map(|l| l.abs()));
        for l in self.cards.iter().chain(&self.pbs) {
            s.extend(l.terms.iter().map(|t| t.0.abs()));
        }
        s
    }
    fn mark_lits(&mut self, ls: impl Iterator<Item = Lit>) {
        for l in ls {
            self.next = self.next.max(l.vidx32() + 1);
        }
    }
    fn mark(&mut self, nm: &Nm, ls: &[i32]) {
        for l in ls {
            self.next = self.next.max(nm.lit(*l).vidx32() + 1);
        }
    }
    fn add_cl(&mut self, nm: &Nm, cl: Cl) {
        self.mark(nm, &cl);
        self.cls.push(cl);
    }
}

fn some_lits(c: &mut Case, n: usize, max: usize) -> Vec<i32> {
    let k = c.rng.below(max + 1);
    if c.rng.chance(2, 3) {
        let k = k.min(n);
        c.rng.distinct_lits(n, k)
    } else {
        (0..k).map(|_| c.rng.lit(n)).collect()
    }
}

fn card(c: &mut Case, n: usize, nm: &Nm) -> (Lin, CardConstraint) {
    let ls = some_lits(c, n, 6);
    let b = if c.rng.chance(1, 8) { *c.rng.pick(&[7usize, 100, 1 << 40]) } else { c.rng.below(ls.len() + 2) };
    let op = *c.rng.pick(&[Op::Le, Op::Ge, Op::Eq]);
    let lits = nm.lits(&ls);
    let cc = match op {
        Op::Le => CardConstraint::new_ub(lits, b),
        Op::Ge => CardConstraint::new_lb(lits, b),
        Op::Eq => CardConstraint::new_eq(lits, b),
    };
    (Lin { terms: ls.into_iter().map(|l| (l, 1)).collect(), op, b: b as i128 }, cc)
}

fn pb(c: &mut Case, n: usize, nm: &Nm) -> (Lin, PbConstraint) {
    let ls = some_lits(c, n, 5);
    let mode = c.rng.below(5);
    let unit = c.rng.range(1, 4);
    let terms: Vec<(i32, i128)> = ls
        .into_iter()
        .map(|l| {
            let w = match mode {
                0 => 1,
                1 => unit,
                2 => c.rng.range(1, 6),
                3 => c.rng.range(-5, 6),
                _ => *c.rng.pick(&[-unit, unit]),
            };
            (l, i128::from(w))
        })
        .collect();
    let hi: i128 = terms.iter().map(|t| t.1.max(0)).sum();
    let lo: i128 = terms.iter().map(|t| t.1.min(0)).sum();
    let b = c.rng.range(lo as i64 - 2, hi as i64 + 3);
    let op = *c.rng.pick(&[Op::Le, Op::Ge, Op::Eq]);
    let wl: Vec<(Lit, isize)> = terms.iter().map(|(l, w)| (nm.lit(*l), *w as isize)).collect();
    let pc = match op {
        Op::Le => PbConstraint::new_ub(wl, b as isize),
        Op::Ge => PbConstraint::new_lb(wl, b as isize),
        Op::Eq => PbConstraint::new_eq(wl, b as isize),
    };
    (Lin { terms, op, b: i128::from(b) }, pc)
}

/// the implications: name, clauses from the definition
fn implication(k: usize, a: &[i32], b: &[i32]) -> (&'static str, Vec<Cl>) {
    let neg = |xs: &[i32]| xs.iter().map(|l| -l).collect::<Vec<_>>();
    let cat = |x: Vec<i32>, y: &[i32]| {
        let mut z = x;
        z.extend(y);
        z
    };
    match k {
        0 => ("lit_impl_lit", vec![vec![-a[0], b[0]]]),
        1 => ("lit_impl_clause", vec![cat(vec![-a[0]], b)]),
        2 => ("lit_impl_cube", b.iter().map(|l| vec![-a[0], *l]).collect()),
        3 => ("cube_impl_lit", vec![cat(neg(a), &b[..1])]),
        4 => ("clause_impl_lit", a.iter().map(|l| vec![-l, b[0]]).collect()),
        5 => ("cube_impl_clause", vec![cat(neg(a), b)]),
        6 => ("clause_impl_clause", a.iter().map(|l| cat(vec![-l], b)).collect()),
        7 => ("clause_impl_cube", a.iter().flat_map(|x| b.iter().map(move |y| vec![-x, *y])).collect()),
        _ => ("cube_impl_cube", b.iter().map(|y| cat(neg(a), &[*y])).collect()),
    }
}
/// truth of the implication from its name alone
fn impl_true(k: usize, a: &[i32], b: &[i32], bits: u64) -> bool {
    let t = |l: &i32| lit_true(*l, bits);
    let lhs = match k {
        0..=2 => t(&a[0]),
        3 | 5 | 8 => a.iter().all(t),
        _ => a.iter().any(t),
    };
    let rhs = match k {
        0 | 3 | 4 => t(&b[0]),
        1 | 5 | 6 => b.iter().any(t),
        _ => b.iter().all(t),
    };
    !lhs || rhs
}
macro_rules! add_impl {
    ($x:expr, $k:expr, $a:expr, $b:expr) => {
        match $k {
            0 => $x.add_lit_impl_lit($a[0], $b[0]),
            1 => $x.add_lit_impl_clause($a[0], &$b),
            2 => $x.add_lit_impl_cube($a[0], &$b),
            3 => $x.add_cube_impl_lit(&$a, $b[0]),
            4 => $x.add_clause_impl_lit(&$a, $b[0]),
            5 => $x.add_cube_impl_clause(&$a, &$b),
            6 => $x.add_clause_impl_clause(&$a, &$b),
            7 => $x.add_clause_impl_cube(&$a, &$b),
            _ => $x.add_cube_impl_cube(&$a, &$b),
        }
    };
}

/// one step of building an instance and its model
fn build_step<VM: ManageVars>(c: &mut Case, inst: &mut SatInstance<VM>, m: &mut Sm, nm: &Nm, n: usize) -> Res {
    match c.rng.below(16) {
        0 | 1 => {
            let cl = some_lits(c, n, 4);
            c.log(format!("add_clause {cl:?}"));
            if c.rng.bool() {
                inst.add_clause(nm.cl(&cl));
            } else {
                inst.add_nary(&nm.lits(&cl));
            }
            m.add_cl(nm, cl);
        }
        2 => {
            let l = c.rng.lit(n);
            c.log(format!("add_unit {l}"));
            inst.add_unit(nm.lit(l));
            m.add_cl(nm, vec![l]);
        }
        3 => {
            let (x, y) = (c.rng.lit(n), c.rng.lit(n));
            c.log(format!("add_binary {x} {y}"));
            inst.add_binary(nm.lit(x), nm.lit(y));
            m.add_cl(nm, vec![x, y]);
        }
        4 => {
            let (x, y, z) = (c.rng.lit(n), c.rng.lit(n), c.rng.lit(n));
            c.log(format!("add_ternary {x} {y} {z}"));
            inst.add_ternary(nm.lit(x), nm.lit(y), nm.lit(z));
            m.add_cl(nm, vec![x, y, z]);
        }
        5 | 6 => {
            let k = c.rng.below(9);
            let (mut a, mut b) = (some_lits(c, n, 4), some_lits(c, n, 4));
            if k <= 2 || a.is_empty() && k == 0 {
                a = vec![c.rng.lit(n)];
            }
            if matches!(k, 0 | 3 | 4) {
                b = vec![c.rng.lit(n)];
            }
            let (name, cls) = implication(k, &a, &b);
            c.log(format!("{name} {a:?} {b:?}"));
            let (la, lb) = (nm.lits(&a), nm.lits(&b));
            add_impl!(inst, k, la, lb);
            // all variables named count as used
            m.mark(nm, &a);
            m.mark(nm, &b);
            for cl in cls {
                m.cls.push(cl);
            }
        }
        7..=9 => {
            let (l, cc) = card(c, n, nm);
            c.log(format!("add_card {l:?}"));
            inst.add_card_constr(cc);
            m.mark(nm, &l.terms.iter().map(|t| t.0).collect::<Vec<_>>());
            m.cards.push(l);
        }
        10..=12 => {
            let (l, pc) = pb(c, n, nm);
            c.log(format!("add_pb {l:?}"));
            // terms of weight zero may be dropped
            m.mark_lits(pc.iter().map(|x| x.0));
            inst.add_pb_constr(pc);
            m.pbs.push(l);
        }
        13 => {
            let v = inst.new_var();
            c.log(format!("new_var {v}"));
            check_eq!(v.idx32(), m.next, "new-var-used", "variable handed out while the next free one is");
            m.next += 1;
        }
        14 => {
            let l = inst.new_lit();
            c.log(format!("new_lit {l}"));
            check!(l.is_pos() && l.vidx32() == m.next, "new-var-used", "literal {l} handed out while the next free variable is {}", m.next);
            m.next += 1;
        }
        _ => {
            let cls: Vec<Cl> = (0..c.rng.below(3)).map(|_| some_lits(c, n, 3)).collect();
            c.log(format!("extend {cls:?}"));
            inst.extend_iter(cls.iter().map(|x| nm.cl(x)).collect());
            for cl in cls {
                m.add_cl(nm, cl);
            }
        }
    }
    Ok(())
}
trait ExtIter {
    fn extend_iter(&mut self, cls: Vec<Clause>);
}
impl<VM: ManageVars> ExtIter for SatInstance<VM> {
    fn extend_iter(&mut self, cls: Vec<Clause>) {
        Extend::extend(self, cls);
    }
}

/// build an instance with a random history
fn build(c: &mut Case, nm: &Nm, n: usize) -> Result<(SatInstance, Sm), Fail> {
    let mut m = Sm::default();
    let mut inst: SatInstance = match c.rng.below(7) {
        0 => {
            let cls: Vec<Cl> = (0..c.rng.below(5)).map(|_| some_lits(c, n, 4)).collect();
            c.log(format!("from clauses {cls:?}"));
            let inst = if c.rng.bool() {
                cls.iter().map(|x| nm.cl(x)).collect()
            } else {
                let mut cnf = Cnf::new();
                for x in &cls {
                    cnf.add_clause(nm.cl(x));
                }
                SatInstance::from(cnf)
            };
            cls.into_iter().for_each(|x| m.add_cl(nm, x));
            inst
        }
        1 => {
            let v: Vec<_> = (0..c.rng.below(4)).map(|_| card(c, n, nm)).collect();
            c.log(format!("from cards {:?}", v.iter().map(|x| &x.0).collect::<Vec<_>>()));
            for x in &v {
                m.mark(nm, &x.0.terms.iter().map(|t| t.0).collect::<Vec<_>>());
                m.cards.push(x.0.clone());
            }
            v.into_iter().map(|x| x.1).collect()
        }
        2 => {
            let v: Vec<_> = (0..c.rng.below(4)).map(|_| pb(c, n, nm)).collect();
            c.log(format!("from pbs {:?}", v.iter().map(|x| &x.0).collect::<Vec<_>>()));
            for x in &v {
                m.mark_lits(x.1.iter().map(|x| x.0));
                m.pbs.push(x.0.clone());
            }
            v.into_iter().map(|x| x.1).collect()
        }
        3 => {
            let k = c.rng.below(20) as u32;
            c.log(format!("manager {k}"));
            m.next = k;
            SatInstance::new_with_manager(BasicVarManager::from_next_free(Var::new(k)))
        }
        _ => SatInstance::new(),
    };
    for _ in 0..c.rng.below(8) {
        crate::rt::maybe(c, "SatInstance", &mut inst)?;
        build_step(c, &mut inst, &mut m, nm, n)?;
        if c.rng.chance(1, 8) {
            let cls: Vec<Cl> = (0..c.rng.below(3)).map(|_| some_lits(c, n, 3)).collect();
            c.log(format!("extend_clauses {cls:?}"));
            check!(inst.extend_clauses(cls.iter().map(|x| nm.cl(x))).is_ok(), "oom", "out of memory reported");
            for cl in cls {
                m.add_cl(nm, cl);
            }
        }
    }
    Ok((inst, m))
}

fn tern(b: Option<bool>) -> TernaryVal {
    match b {
        None => TernaryVal::DontCare,
        Some(true) => TernaryVal::True,
        Some(false) => TernaryVal::False,
    }
}

/// Sizes, variables, models of an instance without auxiliary variables
fn check_inst(c: &mut Case, what: &str, inst: &SatInstance<impl ManageVars + Clone>, m: &Sm, nm: &Nm, n: usize, sizes: bool) -> Res {
    if sizes {
        check_eq!((inst.n_clauses(), inst.n_cards(), inst.n_pbs()), (m.cls.len(), m.cards.len(), m.pbs.len()), "sizes", "{what}: numbers of clauses, cardinality and PB constraints");
        check_eq!(inst.n_constraints(), m.cls.len() + m.cards.len() + m.pbs.len(), "sizes", "{what}: n_constraints");
        let want: BTreeSet<Var> = m.vars().iter().map(|v| nm.lit(*v).var()).collect();
        let got = inst.var_set();
        check!(got.is_subset(&want), "var-set", "{what}: variables {got:?} of an instance over {want:?}");
        let need: BTreeSet<Var> = m.cls.iter().flatten().chain(m.cards.iter().flat_map(|l| l.terms.iter().map(|t| &t.0))).map(|l| nm.lit(*l).var()).collect();
        check!(need.is_subset(&got), "var-set", "{what}: variables {got:?} lack some of {need:?}");
    }
    check_eq!(inst.n_vars(), m.next, "n-vars", "{what}: number of variables");
    check_eq!(inst.max_var(), m.next.checked_sub(1).map(Var::new), "n-vars", "{what}: maximum variable");
    check_eq!(inst.n_clauses(), inst.cnf().len(), "sizes", "{what}: n_clauses and the clauses themselves");
    for v in inst.var_set() {
        check!(v.idx32() < inst.n_vars(), "unmarked", "{what}: {v} occurs but the manager thinks it is free");
    }
    let (pbs, _) = inst.clone().into_pbs();
    check_eq!(pbs.len(), inst.n_constraints(), "into-pbs", "{what}: number of constraints as PB constraints");
    for bits in 0..1u64 << n {
        let want = m.holds(bits);
        let val = |l: Lit| nm.small(l).is_some_and(|s| lit_true(s, bits));
        for pb in &pbs {
            for (l, _) in pb.iter() {
                check!(nm.small(*l).is_some(), "foreign-variable", "{what}: {l} in {pb}");
            }
        }
        check_eq!(pbs.iter().all(|p| pb_true(p, &val)), want, "into-pbs", "{what}: as PB constraints on assignment {bits:b}");
        let a = nm.assign(bits, n);
        check_eq!(inst.evaluate(&a), tern(Some(want)), "evaluate", "{what}: value under assignment {bits:b}");
        let u = inst.unsat_constraint(&a);
        check_eq!(u.is_none(), want, "unsat-constraint", "{what}: {} under {bits:b}", u.map_or("none".into(), |u| match u {
            ConstraintRef::Clause(x) => x.to_string(),
            ConstraintRef::Card(x) => x.to_string(),
            ConstraintRef::Pb(x) => x.to_string(),
        }));
        if let Some(u) = u {
            let t = match u {
                ConstraintRef::Clause(x) => x.iter().any(|l| val(*l)),
                ConstraintRef::Card(x) => pb_true(&PbConstraint::from(x.clone()), &val),
                ConstraintRef::Pb(x) => pb_true(x, &val),
            };
            check!(!t, "unsat-constraint", "{what}: a constraint satisfied by {bits:b} is named as unsatisfied");
        }
    }
    // partial assignments: a decided value must hold for all completions
    for _ in 0..4 {
        let keep = c.rng.next();
        let bits = c.rng.next() & ((1 << n) - 1);
        let mut a = Assignment::default();
        for i in 1..=n as i32 {
            if lit_true(i, keep) {
                a.assign_lit(nm.lit(if lit_true(i, bits) { i } else { -i }));
            }
        }
        let v = inst.evaluate(&a);
        if v != TernaryVal::DontCare {
            let mask = (1u64 << n) - 1;
            let free = !keep & mask;
            let mut s = free;
            loop {
                let w = (bits & keep & mask) | s;
                check_eq!(v, tern(Some(m.holds(w))), "evaluate-partial", "{what}: value under a partial assignment against completion {w:b}");
                if s == 0 {
                    break;
                }
                s = (s - 1) & free;
            }
        }
    }
    Ok(())
}

/// clauses of the library as clauses over 1-based indices
fn raw(cnf: &Cnf) -> Vec<Cl> {
    cnf.iter().map(|x| x.iter().map(|l| fromlit(*l)).collect()).collect()
}

/// models of clauses projected to the instance's variables
fn check_proj(what: &str, cls: &[Cl], nm: &Nm, n: usize, want: &dyn Fn(u64) -> bool) -> Res {
    let mut s = Sat::from_clauses(cls);
    for bits in 0..1u64 << n {
        let a = nm.assumps(bits, n);
        check_eq!(s.solve(&a), want(bits), "models", "{what}: assignment {bits:b} extends to a model");
    }
    Ok(())
}

/// reindexed model and names
fn check_reindexed<R: ReindexVars + Clone>(c: &mut Case, what: &str, inst: &SatInstance<R>, m: &Sm, nm: &Nm, n: usize) -> Result<(Nm, Sm), Fail> {
    let mut r = inst.var_manager_ref().clone();
    let mut to = vec![];
    let used = m.vars();
    for i in 1..=n as i32 {
        let v = nm.lit(i).var();
        let w = r.reindex(v);
        check_eq!(r.reindex(v), w, "reindex-map", "{what}: mapping of {v} changes");
        check_eq!(r.reverse(w), Some(v), "reindex-map", "{what}: inverse of {v} -> {w}");
        if inst.var_set().contains(&w) {
            check!(used.contains(&i), "reindex-map", "{what}: {w} occurs, but {v} did not");
        }
        to.push(w.idx32());
    }
    let d: BTreeSet<u32> = to.iter().copied().collect();
    check_eq!(d.len(), n, "reindex-map", "{what}: not one variable per variable {to:?}");
    let nm2 = Nm(to);
    let mut m2 = m.clone();
    m2.next = inst.n_vars();
    check_inst(c, what, inst, &m2, &nm2, n, true)?;
    Ok((nm2, m2))
}

pub fn c13_sat(c: &mut Case) -> Res {
    let n = c.rng.us(1, 6);
    let mut nm = Nm::gen(c, n);
    c.log(format!("names {:?}", nm.0));
    let (mut inst, mut m) = c.run("build", || ())
        .and_then(|()| build(c, &nm, n))?;
    crate::rt::maybe(c, "SatInstance", &mut inst)?;
    check_inst(c, "built", &inst, &m, &nm, n, true)?;
    let mut sizes = true;
    for _ in 0..c.rng.us(1, 4) {
        crate::rt::maybe(c, "SatInstance", &mut inst)?;
        let k = c.rng.below(9);
        match k {
            0 => {
                c.log("sanitize");
                let i2 = inst.clone();
                let s = c.run("sanitize", || i2.sanitize())?;
                // an unsatisfiable instance may mark the first variable
                let nx = s.n_vars();
                check!(nx == m.next || nx == m.next.max(1) && nx == 1, "n-vars", "sanitize: {nx} variables, had {}", m.next);
                m.next = nx;
                let unsat = (0..1u64 << n).all(|b| !m.holds(b));
                let mut nm2 = nm.clone();
                let mut n2 = n;
                if !s.var_set().is_subset(&inst.var_set()) {
                    // only the canonical contradiction
                    check!(unsat, "foreign-variable", "sanitize: new variables {:?}", s.var_set());
                    check_eq!(s.var_set(), [Var::new(0)].into_iter().collect(), "foreign-variable", "sanitize: variables");
                    if nm2.small(Lit::new(0, false)).is_none() {
                        nm2.0.push(0);
                        n2 += 1;
                    }
                }
                check_inst(c, "sanitize", &s, &m, &nm2, n2, false)?;
                for cl in s.cnf().iter() {
                    check!(!cl.is_tautology(), "sanitize", "a tautology is left: {cl}");
                }
                sizes = false;
                if n2 > n {
                    break;
                }
                inst = s;
                c.count("sanitize", 1);
            }
            1 => {
                let (other, m2) = {
                    c.log("extend by {");
                    let r = build(c, &nm, n)?;
                    c.log("}");
                    r
                };
                c.run("extend", || inst.extend(other))?;
                m.cls.extend(m2.cls);
                m.cards.extend(m2.cards);
                m.pbs.extend(m2.pbs);
                m.next = m.next.max(m2.next);
                check_inst(c, "extend", &inst, &m, &nm, n, sizes)?;
            }
            2 => {
                c.log("shuffle");
                let i = std::mem::take(&mut inst);
                inst = c.run("shuffle", || i.shuffle())?;
                check_inst(c, "shuffle", &inst, &m, &nm, n, sizes)?;
            }
            3 => {
                c.log("reindex");
                let i2 = inst.clone();
                let ord = c.rng.bool();
                let r = if c.rng.bool() { ReindexingVarManager::default() } else { ReindexingVarManager::from_next_free(Var::new(c.rng.below(10) as u32)) };
                let fresh = r.n_used() == 0;
                let (old_next, used) = (inst.n_vars(), inst.var_set());
                let i2 = c.run("reindex", || if ord { i2.reindex_ordered(r) } else { i2.reindex(r) })?;
                let _ = old_next;
                let mm = if sizes { m.clone() } else { model_of(&inst, &nm)? };
                let wrapped = CloneRe::from(i2);
                let (nm2, _) = check_reindexed(c, if ord { "reindex_ordered" } else { "reindex" }, &wrapped, &mm, &nm, n)?;
                if fresh {
                    // gaps are closed
                    check_eq!(wrapped.var_set(), (0..used.len() as u32).map(Var::new).collect(), "reindex-gaps", "reindexing leaves gaps");
                    if ord {
                        let v: Vec<u32> = used.iter().map(|v| nm2.0[nm.small(v.pos_lit()).unwrap() as usize - 1]).collect();
                        check!(v.windows(2).all(|w| w[0] < w[1]), "reindex-order", "order of {used:?} becomes {v:?}");
                    }
                }
                c.count("reindex", 1);
            }
            4 => {
                c.log("rand reindex");
                let i2 = inst.clone();
                let nv = c.rng.us(0, inst.n_vars() as usize + 2) as u32;
                let i2 = c.run("rand-reindex", || i2.reindex(RandReindVarManager::init(nv)))?;
                let mm = if sizes { m.clone() } else { model_of(&inst, &nm)? };
                let wrapped = CloneRe::from(i2);
                check_reindexed(c, "rand reindex", &wrapped, &mm, &nm, n)?;
            }
            5 => {
                c.log("change_var_manager");
                let extra = c.rng.below(5) as u32;
                let i = std::mem::take(&mut inst);
                let nv = i.n_vars();
                let (i, old) = i.change_var_manager(|vm| BasicVarManager::from_next_free(Var::new(vm.n_used() + extra)));
                check_eq!(old.n_used(), nv, "n-vars", "change_var_manager: the old manager");
                inst = i;
                m.next += extra;
                check_inst(c, "change_var_manager", &inst, &m, &nm, n, sizes)?;
            }
            6 => {
                c.log("into_cnf");
                let i2 = inst.clone();
                let n_cls = inst.n_clauses();
                let (cnf, vm) = c.run("into_cnf", || i2.into_cnf())?;
                for v in cnf.iter().flatten() {
                    check!(v.vidx32() < vm.n_used(), "unmarked", "into_cnf: {v} is not marked as used");
                    check!(v.vidx32() >= m.next || nm.small(*v).is_some(), "aux-clash", "into_cnf: {v} is neither original nor new");
                }
                check!(cnf.len() >= n_cls, "into-cnf", "clauses are lost");
                check_proj("into_cnf", &raw(&cnf), &nm.cut(m.next), n, &|b| m.holds(b))?;
            }
            7 => {
                c.log("convert_to_cnf");
                let which = c.rng.below(3);
                let mut i2 = inst.clone();
                let before = m.next;
                c.run("convert_to_cnf", || match which {
                    0 => i2.convert_to_cnf(),
                    1 => i2.convert_to_cnf_with_encoders(
                        |cc, cnf, vm| rustsat::encodings::card::encode_cardinality_constraint::<rustsat::encodings::card::Totalizer, _>(cc, cnf, vm).unwrap(),
                        |pc, cnf, vm| rustsat::encodings::pb::encode_pb_constraint::<rustsat::encodings::pb::DoubleGeneralizedTotalizer, _>(pc, cnf, vm).unwrap(),
                    ),
                    _ => i2.convert_to_cnf_with_encoders(
                        |cc, cnf, vm| rustsat::encodings::card::encode_cardinality_constraint::<rustsat::encodings::card::Totalizer, _>(cc, cnf, vm).unwrap(),
                        |pc, cnf, vm| rustsat::encodings::pb::encode_pb_constraint::<rustsat::encodings::pb::BinaryAdder, _>(pc, cnf, vm).unwrap(),
                    ),
                })?;
                check_eq!((i2.n_cards(), i2.n_pbs()), (0, 0), "convert", "non-clausal constraints are left");
                for v in i2.cnf().iter().flatten() {
                    check!(v.vidx32() < i2.n_vars(), "unmarked", "convert_to_cnf: {v} is not marked as used");
                    check!(v.vidx32() >= before || nm.small(*v).is_some(), "aux-clash", "convert_to_cnf: {v} is neither original nor new");
                }
                check_proj("convert_to_cnf", &raw(i2.cnf()), &nm.cut(m.next), n, &|b| m.holds(b))?;
                // a second instance may be added afterwards: its variables and the auxiliary ones do not clash
                if c.rng.chance(1, 3) {
                    let v = i2.new_var();
                    check!(!i2.var_set().contains(&v), "new-var-used", "{v} handed out, but it occurs");
                }
                c.count("converted", 1);
            }
            _ => {
                // rename in place (with the map applied to the model)
                c.log("rename");
                let (i2, map) = {
                    let i2 = inst.clone().reindex_ordered(ReindexingVarManager::default());
                    let mut r = ReindexingVarManager::default();
                    for v in inst.var_set() {
                        r.reindex(v);
                    }
                    (i2, r)
                };
                let mut map = map;
                nm = Nm((1..=n as i32).map(|i| map.reindex(nm.lit(i).var()).idx32()).collect());
                let (i2, _) = i2.change_var_manager(|vm| BasicVarManager::from_next_free(Var::new(vm.n_used())));
                inst = i2;
                m.next = inst.n_vars();
                check_inst(c, "renamed", &inst, &m, &nm, n, false)?;
            }
        }
    }
    let sat = (0..1u64 << n).filter(|b| m.holds(*b)).count();
    if sat > 0 && sat < 1 << n {
        c.count("mixed truth", 1);
    }
    c.nontrivial(c.log_text().to_string().as_str());
    Ok(())
}

/// managers cannot be cloned in general: clone by rebuilding
#[derive(Clone)]
struct CloneRe {
    used: u32,
    fwd: BTreeMap<Var, Var>,
}
impl CloneRe {
    fn from<R: ReindexVars>(i: SatInstance<R>) -> SatInstance<CloneRe> {
        let (i, r) = i.change_var_manager(|r| {
            let mut fwd = BTreeMap::new();
            for w in 0..r.n_used() {
                if let Some(v) = r.reverse(Var::new(w)) {
                    fwd.insert(v, Var::new(w));
                }
            }
            CloneRe { used: r.n_used(), fwd }
        });
        let _ = r;
        i
    }
}
impl ManageVars for CloneRe {
    fn new_var(&mut self) -> Var {
        self.used += 1;
        Var::new(self.used - 1)
    }
    fn max_var(&self) -> Option<Var> {
        self.used.checked_sub(1).map(Var::new)
    }
    fn increase_next_free(&mut self, v: Var) -> bool {
        let r = v.idx32() > self.used;
        self.used = self.used.max(v.idx32());
        r
    }
    fn combine(&mut self, _: Self) {}
    fn n_used(&self) -> u32 {
        self.used
    }
    fn forget_from(&mut self, _: Var) {}
}
impl ReindexVars for CloneRe {
    fn reindex(&mut self, in_var: Var) -> Var {
        if let Some(v) = self.fwd.get(&in_var) {
            return *v;
        }
        let v = self.new_var();
        self.fwd.insert(in_var, v);
        v
    }
    fn reverse(&self, out_var: Var) -> Option<Var> {
        self.fwd.iter().find(|x| *x.1 == out_var).map(|x| *x.0)
    }
}

/// the model an instance (already checked) states
fn model_of(inst: &SatInstance, nm: &Nm) -> Result<Sm, Fail> {
    let (pbs, _) = inst.clone().into_pbs();
    let mut m = Sm { next: inst.n_vars(), ..Sm::default() };
    let lin = |p: &PbConstraint| -> Result<Lin, Fail> {
        let mut terms = vec![];
        for (l, w) in p.iter() {
            match nm.small(*l) {
                Some(s) => terms.push((s, *w as i128)),
                None => fail!("foreign-variable", "{l}"),
            }
        }
        Ok(Lin {
            terms,
            op: match p {
                PbConstraint::Ub(_) => Op::Le,
                PbConstraint::Lb(_) => Op::Ge,
                PbConstraint::Eq(_) => Op::Eq,
            },
            b: p.bound() as i128,
        })
    };
    // into_pbs: PB constraints first, then cards, then clauses (only the numbers matter here)
    for (i, p) in pbs.iter().enumerate() {
        if i < inst.n_pbs() {
            m.pbs.push(lin(p)?);
        } else if i < inst.n_pbs() + inst.n_cards() {
            m.cards.push(lin(p)?);
        }
    }
    for cl in inst.cnf().iter() {
        m.cls.push(cl.iter().map(|l| nm.small(*l).unwrap_or(1)).collect());
    }
    Ok(m)
}

/// clause sets
pub fn c13_cnf(c: &mut Case) -> Res {
    let n = c.rng.us(1, 7);
    let nm = Nm((0..n as u32).collect());
    let mut cnf = if c.rng.bool() { Cnf::new() } else { Cnf::with_capacity(c.rng.below(20)) };
    let mut m: Vec<Cl> = vec![];
    let norm = |v: Vec<Cl>| {
        let mut v = v;
        for x in &mut v {
            x.sort_unstable();
        }
        v.sort();
        v
    };
    let mut exact = true;
    for _ in 0..c.rng.us(1, 14) {
        match c.rng.below(16) {
            0 | 1 => {
                let cl = some_lits(c, n, 5);
                c.log(format!("clause {cl:?}"));
                cnf.add_clause(nm.cl(&cl));
                m.push(cl);
            }
            2 => {
                let cl = some_lits(c, n, 5);
                c.log(format!("nary {cl:?}"));
                cnf.add_nary(&nm.lits(&cl));
                m.push(cl);
            }
            3 => {
                let l: Vec<i32> = (0..c.rng.us(1, 3)).map(|_| c.rng.lit(n)).collect();
                c.log(format!("fixed {l:?}"));
                match l.len() {
                    1 => cnf.add_unit(nm.lit(l[0])),
                    2 => cnf.add_binary(nm.lit(l[0]), nm.lit(l[1])),
                    _ => cnf.add_ternary(nm.lit(l[0]), nm.lit(l[1]), nm.lit(l[2])),
                }
                m.push(l);
            }
            4 | 5 => {
                let k = c.rng.below(9);
                let (mut a, mut b) = (some_lits(c, n, 4), some_lits(c, n, 4));
                if k <= 2 {
                    a = vec![c.rng.lit(n)];
                }
                if matches!(k, 0 | 3 | 4) {
                    b = vec![c.rng.lit(n)];
                }
                let (name, cls) = implication(k, &a, &b);
                c.log(format!("{name} {a:?} {b:?}"));
                let (la, lb) = (nm.lits(&a), nm.lits(&b));
                add_impl!(cnf, k, la, lb);
                m.extend(cls);
            }
            6 => {
                let cls: Vec<Cl> = (0..c.rng.below(4)).map(|_| some_lits(c, n, 4)).collect();
                let it = cls.iter().map(|x| nm.cl(x)).collect::<Vec<_>>();
                let k = c.rng.below(4);
                c.log(format!("extend[{k}] {cls:?}"));
                match k {
                    0 => cnf.extend(it),
                    1 => check!(cnf.extend_clauses(it).is_ok(), "oom", "out of memory"),
                    2 => cnf = cnf.join(it.into_iter().collect()),
                    _ => cnf = cnf & it.into_iter().collect::<Cnf>(),
                }
                m.extend(cls);
            }
            7 => {
                let k = c.rng.below(8);
                c.log(format!("operator {k}"));
                let (x, y) = (c.rng.lit(n), c.rng.lit(n));
                let cl = some_lits(c, n, 3);
                let v = Var::new(x.unsigned_abs() - 1);
                match k {
                    0 => cnf &= nm.lit(x),
                    1 => cnf &= nm.cl(&cl),
                    2 => cnf &= v,
                    3 => cnf = cnf & nm.lit(x),
                    4 => cnf = cnf & nm.cl(&cl),
                    5 => cnf = nm.lit(x) & cnf,
                    6 => cnf = nm.cl(&cl) & cnf,
                    _ => {
                        cnf = cnf & (nm.lit(x) & nm.lit(y));
                        m.push(vec![y]);
                    }
                }
                m.push(match k {
                    1 | 4 | 6 => cl,
                    2 => vec![x.abs()],
                    _ => vec![x],
                });
            }
            8 => {
                c.log("normalize");
                cnf = c.run("normalize", || cnf.normalize())?;
                exact = false;
            }
            9 => {
                c.log("sanitize");
                cnf = c.run("sanitize", || cnf.sanitize())?;
                for cl in cnf.iter() {
                    check!(!cl.is_tautology(), "sanitize", "a tautology is left: {cl}");
                    check!(cl.iter().collect::<BTreeSet<_>>().len() == cl.len(), "sanitize", "a repeated literal is left: {cl}");
                }
                exact = false;
            }
            10 => {
                c.log("shuffle");
                cnf = c.run("shuffle", || cnf.shuffle())?;
            }
            11 => {
                cnf.shrink_to_fit();
                check!(cnf.capacity() >= cnf.len(), "capacity", "capacity");
                check!(cnf.try_reserve(c.rng.below(100)).is_ok(), "oom", "out of memory");
            }
            12 if c.rng.chance(1, 4) => {
                c.log("clear");
                cnf.clear();
                m.clear();
                exact = true;
            }
            _ => {
                let cl: Vec<i32> = c.rng.distinct_lits(n, n.min(3));
                c.log(format!("clause {cl:?}"));
                cnf.add_clause(nm.cl(&cl));
                m.push(cl);
            }
        }
        check_eq!((cnf.is_empty(), cnf.n_clauses()), (cnf.len() == 0, cnf.len()), "sizes", "sizes");
        if exact {
            check_eq!(norm(raw(&cnf)), norm(m.clone()), "clauses", "clauses");
            check_eq!(cnf.len(), m.len(), "sizes", "number of clauses");
        }
        check_eq!(raw(&cnf), (0..cnf.len()).map(|i| cnf[i].iter().map(|l| fromlit(*l)).collect()).collect::<Vec<Cl>>(), "index", "indexing");
        check_eq!(raw(&cnf), cnf.clone().into_iter().map(|x| x.iter().map(|l| fromlit(*l)).collect()).collect::<Vec<Cl>>(), "index", "iteration");
        let now = raw(&cnf);
        for bits in 0..1u64 << n {
            let want = m.iter().all(|x| clause_true(x, bits));
            check_eq!(now.iter().all(|x| clause_true(x, bits)), want, "models", "models: assignment {bits:b}");
            check_eq!(cnf.evaluate(&nm.assign(bits, n)), tern(Some(want)), "evaluate", "value of the clauses under {bits:b}");
        }
    }
    c.nontrivial(c.log_text().to_string().as_str());
    Ok(())
}

// --------------------------------------------------------------------------------------------
// objectives

#[derive(Clone, Debug, Default)]
struct Om {
    lits: BTreeMap<i32, u128>,
    cls: BTreeMap<Cl, u128>,
    off: i128,
}
impl Om {
    fn val(&self, bits: u64) -> i128 {
        self.off
            + self.lits.iter().filter(|x| lit_true(*x.0, bits)).map(|x| *x.1 as i128).sum::<i128>()
            + self.cls.iter().filter(|x| !clause_true(x.0, bits)).map(|x| *x.1 as i128).sum::<i128>()
    }
    fn total(&self) -> u128 {
        self.lits.values().sum::<u128>() + self.cls.values().sum::<u128>()
    }
    fn vars(&self) -> BTreeSet<i32> {
        self.lits.keys().chain(self.cls.keys().flatten()).map(|l| l.abs()).collect()
    }
    fn add_lit(&mut self, w: u128, l: i32) -> Option<u128> {
        if w == 0 {
            self.lits.remove(&l)
        } else {
            self.lits.insert(l, w)
        }
    }
    fn inc_lit(&mut self, w: u128, l: i32) {
        if w > 0 {
            *self.lits.entry(l).or_default() += w;
        }
    }
    fn add_cl(&mut self, w: u128, cl: Cl) -> Option<u128> {
        match cl.len() {
            0 => {
                self.off += w as i128;
                None
            }
            1 => self.add_lit(w, -cl[0]),
            _ if w == 0 => self.cls.remove(&cl),
            _ => self.cls.insert(cl, w),
        }
    }
    fn inc_cl(&mut self, w: u128, cl: Cl) {
        match cl.len() {
            0 => self.off += w as i128,
            1 => self.inc_lit(w, -cl[0]),
            _ if w == 0 => {}
            _ => *self.cls.entry(cl).or_default() += w,
        }
    }
}

struct ObjGen {
    mode: usize,
    unit: u64,
}
impl ObjGen {
    fn new(c: &mut Case) -> Self {
        ObjGen { mode: c.rng.below(5), unit: c.rng.us(1, 5) as u64 }
    }
    fn w(&self, c: &mut Case) -> usize {
        (match self.mode {
            0 => 1,
            1 => self.unit,
            2 => *c.rng.pick(&[self.unit, self.unit, self.unit, self.unit, self.unit + 1]),
            3 => c.rng.us(0, 6) as u64,
            _ => *c.rng.pick(&[0u64, 1, 2, 7, 1 << 33, (1 << 56) - 1]),
        }) as usize
    }
}

/// old value reported by add_soft_*: only the exact model answer
fn obj_step(c: &mut Case, o: &mut Objective, m: &mut Om, g: &ObjGen, nm: &Nm, n: usize) -> Res {
    match c.rng.below(10) {
        0 | 1 => {
            let (w, l) = (g.w(c), c.rng.lit(n));
            c.log(format!("add_soft_lit {w} {l}"));
            let r = c.run("add_soft_lit", || o.add_soft_lit(w, nm.lit(l)))?;
            check_eq!(r.map(|x| x as u128), m.add_lit(w as u128, l), "old-weight", "add_soft_lit {w} {l}: old weight");
        }
        2 | 3 => {
            let w = g.w(c);
            let cl = some_lits(c, n, 3);
            c.log(format!("add_soft_clause {w} {cl:?}"));
            let x = nm.cl(&cl);
            let r = c.run("add_soft_clause", || o.add_soft_clause(w, x))?;
            check_eq!(r.map(|x| x as u128), m.add_cl(w as u128, cl.clone()), "old-weight", "add_soft_clause {w} {cl:?}: old weight");
        }
        4 => {
            let (w, l) = (g.w(c), c.rng.lit(n));
            c.log(format!("increase_soft_lit {w} {l}"));
            c.run("increase_soft_lit", || o.increase_soft_lit(w, nm.lit(l)))?;
            m.inc_lit(w as u128, l);
        }
        5 => {
            let l = c.rng.lit(n);
            let w = g.w(c) as isize * if c.rng.bool() { 1 } else { -1 };
            c.log(format!("increase_soft_lit_int {w} {l}"));
            c.run("increase_soft_lit_int", || o.increase_soft_lit_int(w, nm.lit(l)))?;
            if w < 0 {
                // w*l = w + |w|*~l
                m.off += w as i128;
                m.inc_lit(w.unsigned_abs() as u128, -l);
            } else {
                m.inc_lit(w as u128, l);
            }
        }
        6 | 7 => {
            let w = g.w(c);
            let cl = some_lits(c, n, 3);
            c.log(format!("increase_soft_clause {w} {cl:?}"));
            let x = nm.cl(&cl);
            c.run("increase_soft_clause", || o.increase_soft_clause(w, x))?;
            m.inc_cl(w as u128, cl);
        }
        8 => {
            let d = c.rng.range(-20, 20) as isize;
            c.log(format!("increase_offset {d}"));
            o.increase_offset(d);
            m.off += d as i128;
        }
        _ => {
            let d = c.rng.range(-20, 20) as isize;
            c.log(format!("set_offset {d}"));
            o.set_offset(d);
            m.off = d as i128;
        }
    }
    Ok(())
}

fn build_obj(c: &mut Case, nm: &Nm, n: usize) -> Result<(Objective, Om), Fail> {
    let g = ObjGen::new(c);
    let mut m = Om::default();
    let k = c.rng.below(5);
    let mut o = match c.rng.below(6) {
        0 => {
            let v: Vec<(i32, usize)> = (0..k).map(|_| (c.rng.lit(n), g.w(c))).collect();
            c.log(format!("from (lit, usize) {v:?}"));
            for (l, w) in &v {
                m.inc_lit(*w as u128, *l);
            }
            v.iter().map(|(l, w)| (nm.lit(*l), *w)).collect::<Objective>()
        }
        1 => {
            let v: Vec<(i32, isize)> = (0..k).map(|_| (c.rng.lit(n), g.w(c) as isize * if c.rng.bool() { 1 } else { -1 })).collect();
            c.log(format!("from (lit, isize) {v:?}"));
            for (l, w) in &v {
                if *w < 0 {
                    m.off += *w as i128;
                    m.inc_lit(w.unsigned_abs() as u128, -l);
                } else {
                    m.inc_lit(*w as u128, *l);
                }
            }
            v.iter().map(|(l, w)| (nm.lit(*l), *w)).collect::<Objective>()
        }
        2 => {
            let v: Vec<(Cl, usize)> = (0..k).map(|_| (some_lits(c, n, 3), g.w(c))).collect();
            c.log(format!("from (clause, usize) {v:?}"));
            for (l, w) in &v {
                m.inc_cl(*w as u128, l.clone());
            }
            v.iter().map(|(l, w)| (nm.cl(l), *w)).collect::<Objective>()
        }
        _ => Objective::new(),
    };
    for _ in 0..c.rng.below(8) {
        obj_step(c, &mut o, &mut m, &g, nm, n)?;
        crate::rt::maybe(c, "Objective", &mut o)?;
    }
    Ok((o, m))
}

fn check_obj(what: &str, o: &Objective, m: &Om, nm: &Nm, n: usize, exact: bool) -> Res {
    // entries as the iterator gives them
    let mut lits: BTreeMap<i32, u128> = BTreeMap::new();
    let mut cls: BTreeMap<Cl, u128> = BTreeMap::new();
    let (mut nl, mut nc, mut sl, mut sc, mut ml, mut mc) = (0, 0, 0u128, 0u128, 0, 0);
    let (mut minl, mut minc) = (usize::MAX, usize::MAX);
    for (cl, w) in o.iter_soft_cls() {
        let mut x = vec![];
        for l in cl.iter() {
            match nm.small(*l) {
                Some(s) => x.push(s),
                None => fail!("foreign-variable", "{what}: {l} in the objective"),
            }
        }
        check!(w > 0, "zero-weight", "{what}: {cl} with weight 0");
        if x.len() == 1 {
            *lits.entry(-x[0]).or_default() += w as u128;
            nl += 1;
            sl += w as u128;
            ml = ml.max(w);
            minl = minl.min(w);
        } else {
            *cls.entry(x).or_default() += w as u128;
            nc += 1;
            sc += w as u128;
            mc = mc.max(w);
            minc = minc.min(w);
        }
    }
    check_eq!(o.offset() as i128, m.off, "offset", "{what}: offset");
    if exact {
        check_eq!(lits, m.lits, "soft-lits", "{what}: soft literals");
        check_eq!(cls, m.cls, "soft-clauses", "{what}: soft clauses");
    }
    check_eq!((o.n_lits(), o.n_clauses(), o.n_softs()), (nl, nc, nl + nc), "counts", "{what}: numbers of soft literals and clauses");
    check_eq!((o.lit_weight_sum() as u128, o.clause_weight_sum() as u128, o.weight_sum() as u128), (sl, sc, sl + sc), "sums", "{what}: weight sums");
    check_eq!((o.max_lit_weight(), o.max_clause_weight(), o.max_weight()), (ml, mc, ml.max(mc)), "max", "{what}: maximum weights");
    if nl > 0 {
        check_eq!(o.min_lit_weight(), minl, "min", "{what}: minimum literal weight");
    }
    if nc > 0 {
        check_eq!(o.min_clause_weight(), minc, "min", "{what}: minimum clause weight");
    }
    if nl > 0 && nc > 0 {
        check_eq!(o.min_weight(), minl.min(minc), "min", "{what}: minimum weight");
    }
    check_eq!(o.constant(), nl + nc == 0, "constant", "{what}: constant()");
    check_eq!(o.is_empty(), nl + nc == 0 && m.off == 0, "empty", "{what}: is_empty()");
    if !o.weighted() && nl + nc > 0 {
        check!(ml == 0 || mc == 0 || ml == mc, "unweighted", "{what}: unweighted with weights {ml} {mc}");
    }
    for (l, w) in &lits {
        check_eq!(o.lit_weight(nm.lit(*l)).map(|x| x as u128), Some(*w), "lit-weight", "{what}: weight of {l}");
    }
    for i in (1..=n as i32).flat_map(|i| [i, -i]) {
        if !lits.contains_key(&i) {
            check_eq!(o.lit_weight(nm.lit(i)), None, "lit-weight", "{what}: weight of {i}");
        }
    }
    for (cl, w) in &cls {
        check_eq!(o.clause_weight(&nm.cl(cl)).map(|x| x as u128), Some(*w), "clause-weight", "{what}: weight of {cl:?}");
    }
    let mx = lits.keys().chain(cls.keys().flatten()).map(|l| nm.lit(*l).var()).max();
    check_eq!(o.max_var(), mx, "max-var", "{what}: maximum variable");
    match o.iter_soft_lits() {
        Ok(it) => {
            check!(nc == 0, "soft-lit-iter", "{what}: soft clauses skipped");
            let mut x: BTreeMap<i32, u128> = BTreeMap::new();
            for (l, w) in it {
                let Some(s) = nm.small(l) else { fail!("foreign-variable", "{what}: {l}") };
                *x.entry(s).or_default() += w as u128;
            }
            check_eq!(x, lits, "soft-lit-iter", "{what}: iter_soft_lits");
        }
        Err(_) => check!(nc > 0, "soft-lit-iter", "{what}: refused without soft clauses"),
    }
    for bits in 0..1u64 << n {
        let a = nm.assign(bits, n);
        check_eq!(o.evaluate(&a) as i128, m.val(bits), "value", "{what}: value under {bits:b}");
        check_eq!(o.evaluate_no_offset(&a) as i128, m.val(bits) - m.off, "value", "{what}: value without offset under {bits:b}");
    }
    Ok(())
}

/// cost of given soft clauses for every assignment
fn cost_cls(what: &str, softs: &[(Clause, u128)], off: i128, m: &Om, nm: &Nm, n: usize) -> Res {
    let mut s: Vec<(Cl, u128)> = vec![];
    for (cl, w) in softs {
        let mut x = vec![];
        for l in cl.iter() {
            match nm.small(*l) {
                Some(l) => x.push(l),
                None => fail!("foreign-variable", "{what}: {l}"),
            }
        }
        s.push((x, *w));
    }
    for bits in 0..1u64 << n {
        let v: i128 = s.iter().filter(|x| !clause_true(&x.0, bits)).map(|x| x.1 as i128).sum::<i128>() + off;
        check_eq!(v, m.val(bits), "value", "{what}: value under {bits:b}");
    }
    Ok(())
}

/// cost of soft literals minimised over the auxiliary variables of the clauses
fn cost_lits(what: &str, hard: &[Cl], softs: &[(Lit, u128)], off: i128, want: &dyn Fn(u64) -> i128, nm: &Nm, n: usize, limit: u32) -> Res {
    // auxiliary variables
    let mut aux: BTreeSet<i32> = BTreeSet::new();
    let orig = |l: i32| nm.small(tolit(l)).is_some();
    for l in hard.iter().flatten().copied().chain(softs.iter().map(|x| fromlit(x.0))) {
        if !orig(l) {
            check!(l.unsigned_abs() > limit, "aux-clash", "{what}: {l} is neither original nor new");
            aux.insert(l.abs());
        }
    }
    let aux: Vec<i32> = aux.into_iter().collect();
    if aux.len() > 10 {
        return Ok(());
    }
    for bits in 0..1u64 << n {
        let mut best: Option<i128> = None;
        for ab in 0..1u64 << aux.len() {
            let val = |l: i32| match nm.small(tolit(l)) {
                Some(s) => lit_true(s, bits),
                None => {
                    let p = aux.iter().position(|x| *x == l.abs()).unwrap();
                    ((ab >> p) & 1 == 1) == (l > 0)
                }
            };
            if hard.iter().all(|x| x.iter().any(|l| val(*l))) {
                let v: i128 = softs.iter().filter(|x| val(fromlit(x.0))).map(|x| x.1 as i128).sum::<i128>() + off;
                best = Some(best.map_or(v, |b| b.min(v)));
            }
        }
        check_eq!(best, Some(want(bits)), "value", "{what}: value under {bits:b}, minimised over {aux:?}");
    }
    Ok(())
}

pub fn c14(c: &mut Case) -> Res {
    let n = c.rng.us(1, 5);
    let nm = Nm::gen(c, n);
    c.log(format!("names {:?}", nm.0));
    let (mut o, mut m) = build_obj(c, &nm, n)?;
    let g = ObjGen::new(c);
    check_obj("built", &o, &m, &nm, n, true)?;
    let mut exact = true;
    for _ in 0..c.rng.us(1, 5) {
        crate::rt::maybe(c, "Objective", &mut o)?;
        let top = nm.0.iter().max().unwrap() + 1 + c.rng.below(3) as u32;
        match c.rng.below(11) {
            0 => {
                c.log("normalize");
                let o2 = o.clone();
                o = c.run("normalize", || o2.normalize())?;
                exact = false;
                // normalisation may move weight into the offset
                let off = o.offset() as i128;
                let mut m2 = model_obj(&o, &nm)?;
                m2.off = off;
                for bits in 0..1u64 << n {
                    check_eq!(m2.val(bits), m.val(bits), "value", "normalize: value under {bits:b}");
                }
                m = m2;
                check_obj("normalized", &o, &m, &nm, n, true)?;
            }
            1 => {
                c.log("into_soft_cls");
                let o2 = o.clone();
                let (s, off) = c.run("into_soft_cls", || {
                    let (s, off) = o2.into_soft_cls();
                    (s.into_iter().map(|(cl, w)| (cl, w as u128)).collect::<Vec<_>>(), off)
                })?;
                cost_cls("into_soft_cls", &s, off as i128, &m, &nm, n)?;
            }
            2 if m.total() < 3000 => {
                c.log("into_unweighted_soft_cls");
                let o2 = o.clone();
                let (s, w, off) = c.run("into_unweighted_soft_cls", || {
                    let (s, w, off) = o2.into_unweighted_soft_cls();
                    (s.into_iter().collect::<Vec<_>>(), w, off)
                })?;
                let s: Vec<_> = s.into_iter().map(|cl| (cl, w as u128)).collect();
                cost_cls("into_unweighted_soft_cls", &s, off as i128, &m, &nm, n)?;
            }
            3 => {
                c.log("into_soft_lits");
                let o2 = o.clone();
                let mut vm = BasicVarManager::from_next_free(Var::new(top));
                let (cnf, s, off) = c.run("into_soft_lits", || {
                    let (cnf, (s, off)) = o2.into_soft_lits(&mut vm);
                    (cnf, s.into_iter().map(|(l, w)| (l, w as u128)).collect::<Vec<_>>(), off)
                })?;
                cost_lits("into_soft_lits", &raw(&cnf), &s, off as i128, &|b| m.val(b), &nm, n, top)?;
            }
            4 if m.total() < 3000 => {
                c.log("into_unweighted_soft_lits");
                let o2 = o.clone();
                let mut vm = BasicVarManager::from_next_free(Var::new(top));
                let (cnf, s, w, off) = c.run("into_unweighted_soft_lits", || {
                    let (cnf, s, w, off) = o2.into_unweighted_soft_lits(&mut vm);
                    (cnf, s.into_iter().collect::<Vec<_>>(), w, off)
                })?;
                let s: Vec<_> = s.into_iter().map(|l| (l, w as u128)).collect();
                cost_lits("into_unweighted_soft_lits", &raw(&cnf), &s, off as i128, &|b| m.val(b), &nm, n, top)?;
            }
            5 => {
                c.log("convert_to_soft_lits");
                let mut o2 = o.clone();
                let mut vm = BasicVarManager::from_next_free(Var::new(top));
                let cnf = c.run("convert_to_soft_lits", || o2.convert_to_soft_lits(&mut vm))?;
                check_eq!(o2.n_clauses(), 0, "soft-clauses", "soft clauses are left");
                let Ok(it) = o2.iter_soft_lits() else { fail!("soft-lit-iter", "refused after convert_to_soft_lits") };
                let s: Vec<_> = it.into_iter().map(|(l, w)| (l, w as u128)).collect();
                cost_lits("convert_to_soft_lits", &raw(&cnf), &s, o2.offset() as i128, &|b| m.val(b), &nm, n, top)?;
            }
            6 => {
                c.log("reindex");
                let o2 = o.clone();
                let mut r = ReindexingVarManager::from_next_free(Var::new(c.rng.below(6) as u32));
                let o2 = c.run("reindex", || o2.reindex(&mut r))?;
                let nm2 = Nm((1..=n as i32).map(|i| r.reindex(nm.lit(i).var()).idx32()).collect());
                check_obj("reindexed", &o2, &m, &nm2, n, exact)?;
            }
            7 => {
                c.log("shuffle");
                let o2 = o.clone();
                o = c.run("shuffle", || o2.shuffle())?;
                check_obj("shuffled", &o, &m, &nm, n, exact)?;
            }
            8 => {
                // as an optimisation instance
                let (s, cost) = proof_obj(&o);
                for bits in 0..1u64 << n {
                    let Some(v) = pig_val(&s, &nm, bits) else { break };
                    if let Some(k) = cost {
                        check_eq!(v + k as i128, m.val(bits), "proof-objective", "value of the objective as a proof objective under {bits:b}");
                    }
                }
            }
            _ => {
                for _ in 0..c.rng.us(1, 4) {
                    obj_step(c, &mut o, &mut m, &g, &nm, n)?;
                }
                check_obj("extended", &o, &m, &nm, n, exact)?;
            }
        }
    }
    c.nontrivial(c.log_text().to_string().as_str());
    Ok(())
}

/// objective as the proof library sees it (only if it has no soft clauses)
fn proof_obj(o: &Objective) -> (Vec<(isize, String)>, Option<isize>) {
    use pigeons::ObjectiveLike;
    if o.n_clauses() > 0 {
        return (vec![], None);
    }
    (o.sum_iter().map(|(w, a)| (w, a.to_string())).collect(), Some(ObjectiveLike::offset(o)))
}
fn pig_val(s: &[(isize, String)], nm: &Nm, bits: u64) -> Option<i128> {
    let mut v = 0i128;
    for (w, a) in s {
        let (neg, r) = a.strip_prefix('~').map_or((false, a.as_str()), |r| (true, r));
        let i: u32 = r.strip_prefix('x')?.parse().ok()?;
        let l = nm.small(Lit::new(i - 1, neg))?;
        if lit_true(l, bits) {
            v += *w as i128;
        }
    }
    Some(v)
}

fn model_obj(o: &Objective, nm: &Nm) -> Result<Om, Fail> {
    let mut m = Om::default();
    for (cl, w) in o.iter_soft_cls() {
        let mut x = vec![];
        for l in cl.iter() {
            match nm.small(*l) {
                Some(s) => x.push(s),
                None => fail!("foreign-variable", "{l} in the objective"),
            }
        }
        m.inc_cl(w as u128, x);
    }
    Ok(m)
}

/// optimisation instances with any number of objectives
pub fn c13_opt(c: &mut Case) -> Res {
    let n = c.rng.us(1, 5);
    let nm = Nm::gen(c, n);
    c.log(format!("names {:?}", nm.0));
    let (s, mut m) = build(c, &nm, n)?;
    let k = if c.rng.bool() { 1 } else { c.rng.below(4) };
    let multi = k != 1 || c.rng.bool();
    let mut os = vec![];
    for i in 0..k {
        c.log(format!("objective {i}"));
        os.push(build_obj(c, &nm, n)?);
    }
    let late = c.rng.bool();
    c.log(format!("multi {multi} late {late}"));
    let need: u32 = os.iter().flat_map(|o| o.1.vars()).map(|v| nm.lit(v).vidx32() + 1).max().unwrap_or(0);
    let (objs, ms): (Vec<Objective>, Vec<Om>) = os.into_iter().unzip();
    let used: BTreeSet<Var> = m.vars().into_iter().chain(ms.iter().flat_map(|o| o.vars())).map(|v| nm.lit(v).var()).collect();
    let costs = |bits: u64| -> Option<Vec<isize>> { m.holds(bits).then(|| ms.iter().map(|o| o.val(bits) as isize).collect()) };
    macro_rules! common {
        ($x:ident, $cost:expr) => {{
            check_eq!($x.var_set().is_subset(&used), true, "var-set", "variables {:?} of {used:?}", $x.var_set());
            for o in &ms {
                for v in o.vars() {
                    check!($x.var_set().contains(&nm.lit(v).var()), "var-set", "objective variable {} is missing", nm.lit(v).var());
                }
            }
            for bits in 0..1u64 << n {
                let a = nm.assign(bits, n);
                let got: Option<Vec<isize>> = $cost(&$x, &a);
                check_eq!(got, costs(bits), "cost", "cost of assignment {bits:b}");
            }
        }};
    }
    let after = if late { m.next } else { m.next.max(need) };
    let check_hs = |c: &mut Case, what: &str, cnf: &Cnf, vm: &BasicVarManager| -> Res {
        let lim = m.next.max(need);
        for l in cnf.iter().flatten() {
            check!(l.vidx32() < vm.n_used(), "unmarked", "{what}: {l} is not marked as used");
            check!(l.vidx32() >= lim || nm.small(*l).is_some(), "aux-clash", "{what}: {l} is neither original nor new");
        }
        let _ = c;
        check_proj(what, &raw(cnf), &nm.cut(lim), n, &|b| m.holds(b))
    };
    if multi {
        let mut x: MultiOptInstance = if late {
            let mut x = MultiOptInstance::new(k);
            *x.constraints_mut() = s;
            for (i, o) in objs.into_iter().enumerate() {
                *x.objective_mut(i) = o;
            }
            x
        } else {
            MultiOptInstance::compose(s, objs)
        };
        crate::rt::maybe(c, "MultiOptInstance", &mut x)?;
        check_eq!(x.n_objectives(), k, "n-objectives", "number of objectives");
        check_eq!(x.iter_obj().count(), k, "n-objectives", "objectives iterated");
        check_eq!(x.max_var(), after.checked_sub(1).map(Var::new), "n-vars", "maximum variable");
        common!(x, |x: &MultiOptInstance, a: &Assignment| x.cost(a));
        for i in 0..k {
            check_obj("of the instance", x.objective_ref(i), &ms[i], &nm, n, true)?;
        }
        match c.rng.below(6) {
            0 => {
                c.log("decompose");
                let (s, o) = x.decompose();
                let nx = m.next.max(need);
                check!(s.n_vars() == nx || s.n_vars() == nx.max(1), "n-vars", "decompose: {} variables, {nx} are used", s.n_vars());
                m.next = s.n_vars();
                check_inst(c, "decomposed", &s, &m, &nm, n, true)?;
                for i in 0..k {
                    check_obj("decomposed", &o[i], &ms[i], &nm, n, true)?;
                }
            }
            1 => {
                c.log("into_hard_cls_soft_cls");
                let (cnf, softs, vm) = c.run("into_hard_cls_soft_cls", || {
                    let (cnf, softs, vm) = x.into_hard_cls_soft_cls();
                    (cnf, softs.into_iter().map(|(i, o)| (i.into_iter().map(|(cl, w)| (cl, w as u128)).collect::<Vec<_>>(), o)).collect::<Vec<_>>(), vm)
                })?;
                check_hs(c, "into_hard_cls_soft_cls", &cnf, &vm)?;
                check_eq!(softs.len(), k, "n-objectives", "number of objectives");
                for (i, (s, off)) in softs.iter().enumerate() {
                    cost_cls("into_hard_cls_soft_cls", s, *off as i128, &ms[i], &nm, n)?;
                }
            }
            2 => {
                c.log("into_hard_cls_soft_lits");
                let (cnf, softs, vm) = c.run("into_hard_cls_soft_lits", || {
                    let (cnf, softs, vm) = x.into_hard_cls_soft_lits();
                    (cnf, softs.into_iter().map(|(i, o)| (i.into_iter().map(|(l, w)| (l, w as u128)).collect::<Vec<_>>(), o)).collect::<Vec<_>>(), vm)
                })?;
                check_hs(c, "into_hard_cls_soft_lits", &cnf, &vm)?;
                check_eq!(softs.len(), k, "n-objectives", "number of objectives");
                let r = raw(&cnf);
                for (i, (s, off)) in softs.iter().enumerate() {
                    soft_lits_cost(&r, s, *off as i128, &m, &ms[i], &nm.cut(m.next.max(need)), n, m.next.max(need))?;
                }
            }
            3 => {
                c.log("reindex");
                let ord = c.rng.bool();
                let y = c.run("reindex", || if ord { x.reindex_ordered(ReindexingVarManager::default()) } else { x.reindex(ReindexingVarManager::default()) })?;
                let (s, o) = y.decompose();
                let w = CloneRe::from(s);
                let mut r = w.var_manager_ref().clone();
                check_reindexed(c, "reindexed", &w, &m, &nm, n)?;
                let nm2 = Nm((1..=n as i32).map(|i| r.reindex(nm.lit(i).var()).idx32()).collect());
                for i in 0..k {
                    check_obj("reindexed", &o[i], &ms[i], &nm2, n, true)?;
                }
            }
            4 => {
                c.log("shuffle");
                x = c.run("shuffle", || x.shuffle())?;
                common!(x, |x: &MultiOptInstance, a: &Assignment| x.cost(a));
            }
            _ => {
                c.log("change_var_manager");
                let (y, old) = x.change_var_manager(|vm| BasicVarManager::from_next_free(Var::new(vm.n_used() + 3)));
                check_eq!((old.n_used(), y.constraints_ref().n_vars()), (after, after + 3), "n-vars", "change_var_manager");
                common!(y, |x: &MultiOptInstance, a: &Assignment| x.cost(a));
            }
        }
    } else {
        let mut x: OptInstance = if late {
            let mut x = OptInstance::new();
            *x.constraints_mut() = s;
            *x.objective_mut() = objs.into_iter().next().unwrap();
            x
        } else {
            OptInstance::compose(s, objs.into_iter().next().unwrap())
        };
        check_eq!(x.max_var(), after.checked_sub(1).map(Var::new), "n-vars", "maximum variable");
        let f = |x: &OptInstance, a: &Assignment| x.cost(a).map(|v| vec![v]);
        common!(x, f);
        check_obj("of the instance", x.objective_ref(), &ms[0], &nm, n, true)?;
        match c.rng.below(6) {
            0 => {
                c.log("decompose");
                let (s, o) = x.decompose();
                check_eq!(s.n_vars(), m.next.max(need), "n-vars", "decompose");
                m.next = s.n_vars();
                check_inst(c, "decomposed", &s, &m, &nm, n, true)?;
                check_obj("decomposed", &o, &ms[0], &nm, n, true)?;
            }
            1 => {
                c.log("into_hard_cls_soft_cls");
                let (cnf, (s, off), vm) = c.run("into_hard_cls_soft_cls", || {
                    let (cnf, (i, o), vm) = x.into_hard_cls_soft_cls();
                    (cnf, (i.into_iter().map(|(cl, w)| (cl, w as u128)).collect::<Vec<_>>(), o), vm)
                })?;
                check_hs(c, "into_hard_cls_soft_cls", &cnf, &vm)?;
                cost_cls("into_hard_cls_soft_cls", &s, off as i128, &ms[0], &nm, n)?;
            }
            2 => {
                c.log("into_hard_cls_soft_lits");
                let (cnf, (s, off), vm) = c.run("into_hard_cls_soft_lits", || {
                    let (cnf, (i, o), vm) = x.into_hard_cls_soft_lits();
                    (cnf, (i.into_iter().map(|(l, w)| (l, w as u128)).collect::<Vec<_>>(), o), vm)
                })?;
                check_hs(c, "into_hard_cls_soft_lits", &cnf, &vm)?;
                soft_lits_cost(&raw(&cnf), &s, off as i128, &m, &ms[0], &nm.cut(m.next.max(need)), n, m.next.max(need))?;
            }
            3 => {
                c.log("reindex");
                let ord = c.rng.bool();
                let y = c.run("reindex", || if ord { x.reindex_ordered(ReindexingVarManager::default()) } else { x.reindex(ReindexingVarManager::default()) })?;
                let (s, o) = y.decompose();
                let w = CloneRe::from(s);
                let mut r = w.var_manager_ref().clone();
                check_reindexed(c, "reindexed", &w, &m, &nm, n)?;
                let nm2 = Nm((1..=n as i32).map(|i| r.reindex(nm.lit(i).var()).idx32()).collect());
                check_obj("reindexed", &o, &ms[0], &nm2, n, true)?;
            }
            4 => {
                c.log("shuffle");
                x = c.run("shuffle", || x.shuffle())?;
                common!(x, f);
            }
            _ => {
                c.log("change_var_manager");
                let (y, old) = x.change_var_manager(|vm| BasicVarManager::from_next_free(Var::new(vm.n_used() + 3)));
                check_eq!((old.n_used(), y.constraints_ref().n_vars()), (after, after + 3), "n-vars", "change_var_manager");
                common!(y, f);
            }
        }
    }
    c.nontrivial(c.log_text().to_string().as_str());
    Ok(())
}

/// costs of soft literals next to hard clauses with further auxiliary variables: for every model
/// the cost is at least the stated one and it is reached
fn soft_lits_cost(hard: &[Cl], softs: &[(Lit, u128)], off: i128, m: &Sm, om: &Om, nm: &Nm, n: usize, lim: u32) -> Res {
    // soft literals over new variables can be chosen false one by one: try the ideal choice
    let mut s = Sat::from_clauses(hard);
    let fresh: Vec<(Lit, u128)> = softs.iter().filter(|x| nm.small(x.0).is_none()).copied().collect();
    for x in &fresh {
        check!(x.0.vidx32() >= lim, "aux-clash", "soft literal {} is neither original nor new", x.0);
    }
    let d: BTreeSet<Var> = fresh.iter().map(|x| x.0.var()).collect();
    check_eq!(d.len(), fresh.len(), "aux-clash", "two soft clauses share a relaxation variable");
    for bits in 0..1u64 << n {
        if !m.holds(bits) {
            continue;
        }
        let base: i128 = softs.iter().filter_map(|x| nm.small(x.0).map(|l| (l, x.1))).filter(|x| lit_true(x.0, bits)).map(|x| x.1 as i128).sum::<i128>() + off;
        let a = nm.assumps(bits, n);
        // those which cannot be false on their own have to be paid
        let mut pay = 0i128;
        let mut asm = a.clone();
        for x in &fresh {
            let l = fromlit(x.0);
            let mut t = a.clone();
            t.push(-l);
            if s.solve(&t) {
                asm.push(-l);
            } else {
                pay += x.1 as i128;
            }
        }
        check!(s.solve(&asm), "value", "soft literals cannot be avoided together under {bits:b}");
        check_eq!(base + pay, om.val(bits), "value", "cost of assignment {bits:b} with soft literals");
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------
// variable managers

/// reference: which variables are taken, and named variables
#[derive(Default, Clone)]
struct Rm {
    next: u32,
    fwd: BTreeMap<u64, u32>,
}

fn vm_common<VM: ManageVars>(c: &mut Case, vm: &mut VM, r: &mut Rm) -> Res {
    match c.rng.below(7) {
        0 | 1 => {
            let v = vm.new_var();
            c.log(format!("new_var {v}"));
            check_eq!(v.idx32(), r.next, "new-var", "variable handed out");
            r.next += 1;
        }
        2 => {
            let l = vm.new_lit();
            c.log(format!("new_lit {l}"));
            check!(l.is_pos() && l.vidx32() == r.next, "new-var", "literal {l} handed out, next is {}", r.next);
            r.next += 1;
        }
        3 => {
            let v = (r.next as i64 + c.rng.range(-4, 6)).max(0) as u32;
            let g = vm.increase_next_free(Var::new(v));
            c.log(format!("increase_next_free {v} {g}"));
            check_eq!(g, v > r.next, "increase", "increase_next_free({v}) with {} used", r.next);
            r.next = r.next.max(v);
        }
        4 => {
            let v = (r.next as i64 + c.rng.range(-5, 5)).max(0) as u32;
            let g = vm.mark_used(Var::new(v));
            c.log(format!("mark_used {v} {g}"));
            check_eq!(g, v >= r.next, "mark", "mark_used({v}) with {} used", r.next);
            r.next = r.next.max(v + 1);
        }
        _ => {}
    }
    Ok(())
}
fn vm_state<VM: ManageVars>(vm: &VM, r: &Rm) -> Res {
    check_eq!(vm.n_used(), r.next, "n-used", "number of variables used");
    check_eq!(vm.max_var(), r.next.checked_sub(1).map(Var::new), "max-var", "maximum variable");
    Ok(())
}
fn forget<VM: ManageVars>(c: &mut Case, vm: &mut VM, r: &mut Rm) {
    let v = (r.next as i64 + c.rng.range(-6, 4)).max(0) as u32;
    c.log(format!("forget_from {v}"));
    vm.forget_from(Var::new(v));
    r.next = r.next.min(v);
    r.fwd.retain(|_, x| *x < v);
}

pub fn c21_basic(c: &mut Case) -> Res {
    let mut r = Rm::default();
    let mut vm = if c.rng.bool() {
        BasicVarManager::default()
    } else {
        r.next = c.rng.below(50) as u32;
        BasicVarManager::from_next_free(Var::new(r.next))
    };
    c.log(format!("start {}", r.next));
    for _ in 0..c.rng.us(1, 40) {
        crate::rt::maybe(c, "BasicVarManager", &mut vm)?;
        match c.rng.below(8) {
            0 => forget(c, &mut vm, &mut r),
            1 => {
                let o = c.rng.below(60) as u32;
                c.log(format!("combine {o}"));
                vm.combine(BasicVarManager::from_next_free(Var::new(o)));
                r.next = r.next.max(o);
            }
            _ => vm_common(c, &mut vm, &mut r)?,
        }
        vm_state(&vm, &r)?;
    }
    // as a trait object behind a reference
    {
        let d: &mut dyn ManageVars = &mut vm;
        check_eq!(d.new_var().idx32(), r.next, "new-var", "variable handed out by the trait object");
    }
    c.nontrivial(c.log_text().to_string().as_str());
    Ok(())
}

fn obj_var(vm: &mut ObjectVarManager, k: u64) -> Var {
    // keys of different types, some with equal text or bits
    let x = k / 6;
    match k % 6 {
        0 => vm.object_var(x),
        1 => vm.object_var(x as u32),
        2 => vm.object_var(x.to_string()),
        3 => vm.object_var((x, x)),
        4 => vm.object_var(vec![x as u16]),
        _ => vm.object_var(Lit::new(x as u32, false)),
    }
}

fn c21_object(c: &mut Case) -> Res {
    let mut r = Rm::default();
    let mut vm = if c.rng.bool() {
        ObjectVarManager::default()
    } else {
        r.next = c.rng.below(50) as u32;
        ObjectVarManager::from_next_free(Var::new(r.next))
    };
    c.log(format!("start {}", r.next));
    for _ in 0..c.rng.us(1, 60) {
        match c.rng.below(12) {
            0 => forget(c, &mut vm, &mut r),
            1 if c.rng.chance(1, 3) => {
                // another manager whose objects and variables are distinct from ours
                let mut o = ObjectVarManager::from_next_free(Var::new(r.next));
                let mut k2 = BTreeMap::new();
                let base = 1000 + c.rng.below(1000) as u64 * 6;
                for i in 0..c.rng.below(4) as u64 {
                    let key = base + i;
                    if r.fwd.contains_key(&key) {
                        continue;
                    }
                    k2.insert(key, obj_var(&mut o, key).idx32());
                }
                c.log(format!("combine {k2:?}"));
                r.next = r.next.max(o.n_used());
                vm.combine(o);
                r.fwd.extend(k2);
            }
            2..=7 => {
                let k = if c.rng.chance(1, 4) && !r.fwd.is_empty() {
                    let ks: Vec<u64> = r.fwd.keys().copied().collect();
                    *c.rng.pick(&ks)
                } else {
                    c.rng.below(40) as u64
                };
                let v = obj_var(&mut vm, k).idx32();
                c.log(format!("object {k} -> {v}"));
                match r.fwd.get(&k) {
                    Some(w) => check_eq!(v, *w, "object-map", "variable of object {k}"),
                    None => {
                        check_eq!(v, r.next, "new-var", "variable of new object {k}");
                        r.fwd.insert(k, v);
                        r.next += 1;
                    }
                }
            }
            _ => vm_common(c, &mut vm, &mut r)?,
        }
        vm_state(&vm, &r)?;
    }
    for (k, v) in r.fwd.clone() {
        check_eq!(obj_var(&mut vm, k).idx32(), v, "object-map", "variable of object {k} at the end");
    }
    c.nontrivial(c.log_text().to_string().as_str());
    Ok(())
}

pub fn c21_reindex(c: &mut Case) -> Res {
    let mut r = Rm::default();
    let mut vm = if c.rng.bool() {
        ReindexingVarManager::default()
    } else {
        r.next = c.rng.below(12) as u32;
        r.fwd = (0..r.next).map(|i| (u64::from(i), i)).collect();
        ReindexingVarManager::from_next_free(Var::new(r.next))
    };
    c.log(format!("start {}", r.next));
    for _ in 0..c.rng.us(1, 50) {
        crate::rt::maybe(c, "ReindexingVarManager", &mut vm)?;
        match c.rng.below(12) {
            0 => forget(c, &mut vm, &mut r),
            1 if c.rng.chance(1, 3) => {
                // distinct inputs and outputs
                let mut o = ReindexingVarManager::default();
                o.increase_next_free(Var::new(r.next));
                let mut k2 = BTreeMap::new();
                for _ in 0..c.rng.below(4) {
                    let k = 1000 + c.rng.below(5000) as u32;
                    if !r.fwd.contains_key(&u64::from(k)) {
                        k2.insert(u64::from(k), o.reindex(Var::new(k)).idx32());
                    }
                }
                c.log(format!("combine {k2:?}"));
                r.next = r.next.max(o.n_used());
                vm.combine(o);
                r.fwd.extend(k2);
            }
            2..=7 => {
                let k = c.rng.below(30) as u32;
                let neg = c.rng.bool();
                let l = vm.reindex_lit(Lit::new(k, neg));
                c.log(format!("reindex {k} -> {l}"));
                check_eq!(l.is_neg(), neg, "reindex-polarity", "polarity of {k}");
                let v = l.vidx32();
                match r.fwd.get(&u64::from(k)) {
                    Some(w) => check_eq!(v, *w, "reindex-map", "variable of {k}"),
                    None => {
                        check_eq!(v, r.next, "new-var", "variable of new input {k}");
                        r.fwd.insert(u64::from(k), v);
                        r.next += 1;
                    }
                }
            }
            _ => vm_common(c, &mut vm, &mut r)?,
        }
        vm_state(&vm, &r)?;
        for o in 0..r.next + 2 {
            let want = r.fwd.iter().find(|x| *x.1 == o).map(|x| Var::new(*x.0 as u32));
            check_eq!(vm.reverse(Var::new(o)), want, "reverse", "original of {o}");
            check_eq!(vm.reverse_lit(Lit::new(o, true)), want.map(|v| v.neg_lit()), "reverse", "original of the literal ~{o}");
            check_eq!(vm.reverse_lit(Lit::new(o, false)), want.map(|v| v.pos_lit()), "reverse", "original of the literal {o}");
        }
    }
    for (k, v) in r.fwd.clone() {
        check_eq!(vm.reindex(Var::new(k as u32)).idx32(), v, "reindex-map", "variable of {k} at the end");
    }
    c.nontrivial(c.log_text().to_string().as_str());
    Ok(())
}

pub fn c21_rand(c: &mut Case) -> Res {
    let n = c.rng.below(20) as u32;
    let mut vm = RandReindVarManager::init(n);
    let mut r = Rm { next: n, ..Rm::default() };
    c.log(format!("start {n}"));
    let mut seen: BTreeMap<u32, u32> = BTreeMap::new();
    for _ in 0..c.rng.us(1, 30) {
        crate::rt::maybe(c, "RandReindVarManager", &mut vm)?;
        match c.rng.below(6) {
            0 if c.rng.chance(1, 3) => {
                let k = c.rng.below(25) as u32;
                c.log(format!("combine {k}"));
                vm.combine(RandReindVarManager::init(k));
                r.next = r.next.max(k);
                // which of the mappings is kept is not specified, but it is a mapping
                seen.clear();
            }
            1..=3 => {
                let k = c.rng.below(n as usize + 4) as u32;
                let neg = c.rng.bool();
                let l = vm.reindex_lit(Lit::new(k, neg));
                c.log(format!("reindex {k} -> {l}"));
                check_eq!(l.is_neg(), neg, "reindex-polarity", "polarity of {k}");
                let v = l.vidx32();
                if let Some(w) = seen.insert(k, v) {
                    check_eq!(v, w, "reindex-map", "variable of {k}");
                }
                check!(seen.iter().all(|(a, b)| *a == k || *b != v), "reindex-map", "{v} stands for two variables");
                check_eq!(vm.reverse(Var::new(v)), Some(Var::new(k)), "reverse", "original of {v}");
                check_eq!(vm.reverse_lit(l), Some(Lit::new(k, neg)), "reverse", "original of {l}");
                // inputs beyond the initial range are marked when they are seen
                check!(v < vm.n_used(), "n-used", "{v} is in use, but {} are reported", vm.n_used());
                r.next = r.next.max(v + 1);
            }
            _ => vm_common(c, &mut vm, &mut r)?,
        }
        vm_state(&vm, &r)?;
    }
    // permutation of the initial range
    let mut vm = RandReindVarManager::init(n);
    let img: BTreeSet<u32> = (0..n).map(|i| vm.reindex(Var::new(i)).idx32()).collect();
    check_eq!(img, (0..n).collect(), "reindex-map", "image of the initial range");
    c.nontrivial(c.log_text().to_string().as_str());
    Ok(())
}

// --------------------------------------------------------------------------------------------
// atomic implications

fn c25_clauses(c: &mut Case) -> Res {
    let n = c.rng.us(1, 6);
    let k = c.rng.below(9);
    let (mut a, mut b) = (some_lits(c, n, 5), some_lits(c, n, 5));
    if k <= 2 {
        a = vec![c.rng.lit(n)];
    }
    if matches!(k, 0 | 3 | 4) {
        b = vec![c.rng.lit(n)];
    }
    let name = implication(k, &a, &b).0;
    c.log(format!("{name} {a:?} {b:?}"));
    let la: Vec<Lit> = a.iter().map(|l| tolit(*l)).collect();
    let lb: Vec<Lit> = b.iter().map(|l| tolit(*l)).collect();
    let cls: Vec<Clause> = c.run(name, || match k {
        0 => vec![atomics::lit_impl_lit(la[0], lb[0])],
        1 => vec![atomics::lit_impl_clause(la[0], &lb)],
        2 => atomics::lit_impl_cube(la[0], &lb).collect(),
        3 => vec![atomics::cube_impl_lit(&la, lb[0])],
        4 => atomics::clause_impl_lit(&la, lb[0]).collect(),
        5 => vec![atomics::cube_impl_clause(&la, &lb)],
        6 => atomics::clause_impl_clause(&la, &lb).collect(),
        7 => atomics::clause_impl_cube(&la, &lb).collect(),
        _ => atomics::cube_impl_cube(&la, &lb).collect(),
    })?;
    let mut cnf = Cnf::new();
    add_impl!(cnf, k, la, lb);
    let mut inst: SatInstance = SatInstance::new();
    add_impl!(inst, k, la, lb);
    let forms: Vec<(&str, Vec<Cl>)> = vec![
        ("function", cls.iter().map(|x| x.iter().map(|l| fromlit(*l)).collect()).collect()),
        ("Cnf method", raw(&cnf)),
        ("instance method", raw(inst.cnf())),
    ];
    for (f, cls) in &forms {
        for l in cls.iter().flatten() {
            check!(a.iter().chain(&b).any(|x| x.abs() == l.abs()), "foreign-variable", "{name} ({f}): {l}");
        }
        for bits in 0..1u64 << n {
            let got = cls.iter().all(|x| clause_true(x, bits));
            check_eq!(got, impl_true(k, &a, &b, bits), format!("{name}"), "{name} ({f}) under {bits:b}");
        }
    }
    for l in inst.cnf().iter().flatten() {
        check!(l.vidx32() < inst.n_vars(), "unmarked", "{name}: {l} is not marked as used");
    }
    if !a.is_empty() && !b.is_empty() {
        c.nontrivial(&format!("{k}{a:?}{b:?}"));
    }
    Ok(())
}

fn c25_reif(c: &mut Case) -> Res {
    let n = c.rng.us(1, 6);
    let nm = Nm((0..n as u32).collect());
    let l = c.rng.lit(n);
    let fwd = c.rng.bool();
    let (lin, got, name) = if c.rng.bool() {
        let (lin, cc) = card(c, n, &nm);
        c.log(format!("card {lin:?} lit {l} forward {fwd}"));
        if lin.op == Op::Eq || cc.is_unsat() {
            // documented to panic; nothing else may come back
            let r = vcore::engine::guard(|| if fwd { atomics::lit_impl_card(tolit(l), &cc) } else { atomics::card_impl_lit(&cc, tolit(l)) });
            match r {
                Err(_) => return Ok(()),
                Ok(p) => (lin, p, "card"),
            }
        } else {
            let p = c.run("card-reification", || if fwd { atomics::lit_impl_card(tolit(l), &cc) } else { atomics::card_impl_lit(&cc, tolit(l)) })?;
            (lin, p, "card")
        }
    } else {
        let (lin, pc) = pb(c, n, &nm);
        c.log(format!("pb {lin:?} lit {l} forward {fwd}"));
        if lin.op == Op::Eq || pc.is_unsat() {
            let r = vcore::engine::guard(|| if fwd { atomics::lit_impl_pb(tolit(l), &pc) } else { atomics::pb_impl_lit(&pc, tolit(l)) });
            match r {
                Err(_) => return Ok(()),
                Ok(p) => (lin, p, "pb"),
            }
        } else {
            let p = c.run("pb-reification", || if fwd { atomics::lit_impl_pb(tolit(l), &pc) } else { atomics::pb_impl_lit(&pc, tolit(l)) })?;
            (lin, p, "pb")
        }
    };
    c.log(format!("gives {got}"));
    for (x, _) in got.iter() {
        let x = fromlit(*x);
        check!(x.abs() == l.abs() || lin.terms.iter().any(|t| t.0.abs() == x.abs()), "foreign-variable", "{x} in {got}");
    }
    for bits in 0..1u64 << n {
        let t = lit_true(l, bits);
        let h = lin.holds(bits);
        let want = if fwd { !t || h } else { !h || t };
        let v = pb_true(&got, &|x| lit_true(fromlit(x), bits));
        check_eq!(v, want, format!("{name}-{}", if fwd { "forward" } else { "backward" }), "{got} under {bits:b}");
    }
    c.nontrivial(&format!("{name}{fwd}{lin:?}{l}"));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new("C13", "models over the original variables, sizes, variable ranges and costs agree with a reference model after every building and transformation step", vec![
            Sub::new("cnf", 2, c13_cnf).hang(20, true),
            Sub::new("sat", 5, c13_sat).hang(20, true),
            Sub::new("opt", 4, c13_opt).hang(20, true),
        ])
        .quick(14)
        .thorough(240),
        Prop::new("C14", "the value of every assignment equals that of a reference objective after every building and rewriting step", vec![
            Sub::new("obj", 1, c14).hang(20, true),
        ])
        .quick(12)
        .thorough(180)
        .assume(&["sums of weights fit into isize"]),
        Prop::new("C21", "variables handed out, counts and mappings equal those of a reference manager after every step", vec![
            Sub::new("basic", 1, c21_basic).hang(10, true),
            Sub::new("object", 2, c21_object).hang(10, true),
            Sub::new("reindex", 2, c21_reindex).hang(10, true),
            Sub::new("rand", 1, c21_rand).hang(10, true),
        ])
        .quick(8)
        .thorough(90),
        Prop::new("C25", "clauses and constraints are satisfied by exactly the assignments satisfying the implication named", vec![
            Sub::new("clauses", 1, c25_clauses).hang(10, true),
            Sub::new("reif", 1, c25_reif).hang(10, true),
        ])
        .quick(8)
        .thorough(90),
    ]
}
