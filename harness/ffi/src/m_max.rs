//! C15: MaxSAT solving returns true optima
use rustsat::algs::maxsat::{SolutionImprovingSearch, Solve as _};
use rustsat::encodings::pb::{BinaryAdder, GeneralizedTotalizer};
use rustsat::instances::OptInstance;
use rustsat::solvers::{Solve, SolveIncremental, SolveStats};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal};
use vcore::engine::{Case, Prop, Res, Sub};
use vcore::oracle::lit_true;
use vcore::{check, check_eq, fail};

type Found = Option<(Assignment, usize)>;
type FoundI = Option<(Assignment, isize)>;

/// one bundled solver under one encoding
struct Alg {
    name: &'static str,
    /// preprocessing may refuse clauses over variables it eliminated
    simp: bool,
    direct: fn(&[Vec<i32>], &[(Lit, usize)], &dyn Fn(i32) -> Lit, Option<u32>, usize) -> Found,
    inst: fn(OptInstance) -> FoundI,
}

fn fill<S: Solve>(s: &mut S, cls: &[Vec<i32>], nm: &dyn Fn(i32) -> Lit, reserve: Option<u32>, pre: usize) {
    if let Some(r) = reserve {
        s.reserve(rustsat::types::Var::new(r)).expect("reserve");
    }
    for (i, c) in cls.iter().enumerate() {
        if i + 1 == pre {
            // an earlier call on part of the clauses
            s.solve().expect("solve");
        }
        s.add_clause(c.iter().map(|&l| nm(l)).collect::<Clause>()).expect("add");
    }
}

fn direct<S, E>(cls: &[Vec<i32>], obj: &[(Lit, usize)], nm: &dyn Fn(i32) -> Lit, reserve: Option<u32>, pre: usize) -> Found
where
    S: Solve + SolveIncremental + SolveStats + Default,
    E: FromIterator<(Lit, usize)> + rustsat::encodings::pb::BoundUpperIncremental + rustsat::encodings::Monotone,
{
    let mut s = S::default();
    fill(&mut s, cls, nm, reserve, pre);
    SolutionImprovingSearch::<S, E>::solve(&mut s, obj)
}

fn whole<S, E>(i: OptInstance) -> FoundI
where
    S: Solve + SolveIncremental + SolveStats + Default,
    E: FromIterator<(Lit, usize)> + rustsat::encodings::pb::BoundUpperIncremental + rustsat::encodings::Monotone,
{
    i.solve_maxsat::<SolutionImprovingSearch<S, E>>()
}

macro_rules! alg {
    ($n:expr, $simp:expr, $s:ty, $e:ty) => {
        Alg { name: $n, simp: $simp, direct: direct::<$s, $e>, inst: whole::<$s, $e> }
    };
}

#[cfg(feature = "cad")]
type Sim = rustsat::solvers::simulators::Incremental<rustsat_minisat::core::Minisat>;
#[cfg(feature = "kis")]
type SimK = rustsat::solvers::simulators::Incremental<rustsat_kissat::Kissat<'static>>;

const ALGS: &[Alg] = &[
    #[cfg(feature = "cad")]
    alg!("cadical/gte", false, rustsat_cadical::CaDiCaL<'static, 'static>, GeneralizedTotalizer),
    #[cfg(feature = "cad")]
    alg!("cadical/adder", false, rustsat_cadical::CaDiCaL<'static, 'static>, BinaryAdder),
    #[cfg(feature = "cad")]
    alg!("minisat/gte", false, rustsat_minisat::core::Minisat, GeneralizedTotalizer),
    #[cfg(feature = "cad")]
    alg!("minisat/adder", false, rustsat_minisat::core::Minisat, BinaryAdder),
    #[cfg(feature = "cad")]
    alg!("glucose/gte", false, rustsat_glucose::core::Glucose, GeneralizedTotalizer),
    #[cfg(feature = "cad")]
    alg!("batsat/gte", false, rustsat_batsat::BasicSolver, GeneralizedTotalizer),
    #[cfg(feature = "cad")]
    alg!("batsat/adder", false, rustsat_batsat::BasicSolver, BinaryAdder),
    #[cfg(feature = "cad")]
    alg!("simulated minisat/gte", false, Sim, GeneralizedTotalizer),
    #[cfg(feature = "cad")]
    alg!("minisat-simp/gte", true, rustsat_minisat::simp::Minisat, GeneralizedTotalizer),
    #[cfg(feature = "cad")]
    alg!("glucose-simp/gte", true, rustsat_glucose::simp::Glucose, GeneralizedTotalizer),
    #[cfg(feature = "kis")]
    alg!("simulated kissat/gte", false, SimK, GeneralizedTotalizer),
    #[cfg(feature = "kis")]
    alg!("simulated kissat/adder", false, SimK, BinaryAdder),
];

#[derive(Clone, Debug)]
struct Lin {
    terms: Vec<(i32, i64)>,
    op: u8,
    b: i64,
}
impl Lin {
    fn holds(&self, bits: u64) -> bool {
        let s: i64 = self.terms.iter().filter(|t| lit_true(t.0, bits)).map(|t| t.1).sum();
        match self.op {
            0 => s <= self.b,
            1 => s >= self.b,
            _ => s == self.b,
        }
    }
}

fn names(c: &mut Case, n: usize) -> Vec<u32> {
    let mut v: Vec<u32> = match c.rng.below(3) {
        0 => (0..n as u32).collect(),
        1 => {
            let off = c.rng.below(30) as u32;
            (off..off + n as u32).collect()
        }
        _ => {
            let mut all: Vec<u32> = (0..3 * n as u32 + 2).collect();
            c.rng.shuffle(&mut all);
            all.truncate(n);
            all
        }
    };
    if c.rng.bool() {
        c.rng.shuffle(&mut v);
    }
    v
}

fn some_lits(c: &mut Case, n: usize, max: usize) -> Vec<i32> {
    let k = c.rng.below(max + 1);
    if c.rng.chance(3, 4) {
        let k = k.min(n);
        c.rng.distinct_lits(n, k)
    } else {
        (0..k).map(|_| c.rng.lit(n)).collect()
    }
}

fn weight(c: &mut Case) -> usize {
    match c.rng.below(8) {
        0 => 1,
        1 => c.rng.us(10, 40),
        2 => 1000,
        _ => c.rng.us(1, 6),
    }
}

/// Checks a returned assignment: every completion satisfies the constraints at exactly the cost
fn judge(nm: &[u32], a: &Assignment, cost: i128, hard: &dyn Fn(u64) -> bool, val: &dyn Fn(u64) -> i128, best: i128, name: &str) -> Res {
    let n = nm.len();
    let mut fixed = 0u64;
    let mut open: Vec<usize> = vec![];
    for (i, v) in nm.iter().enumerate() {
        match a.var_value(rustsat::types::Var::new(*v)) {
            TernaryVal::True => fixed |= 1 << i,
            TernaryVal::False => (),
            TernaryVal::DontCare => open.push(i),
        }
    }
    check_eq!(cost, best, "optimum", "{name}: reported cost vs. optimum; assignment {a:?}");
    for k in 0..1u64 << open.len() {
        let mut bits = fixed;
        for (j, i) in open.iter().enumerate() {
            if k >> j & 1 == 1 {
                bits |= 1 << i;
            }
        }
        check!(hard(bits), "assignment", "{name}: assignment {a:?} does not satisfy the constraints (values {bits:0n$b})");
        check_eq!(val(bits), cost, "cost", "{name}: cost of the assignment {a:?} (values {bits:0n$b}) vs. reported");
    }
    Ok(())
}

fn done(c: &mut Case, got: Result<FoundI, vcore::engine::Fail>, al: &Alg, nm: &[u32], hard: &dyn Fn(u64) -> bool, val: &dyn Fn(u64) -> i128) -> Res {
    let n = nm.len();
    let best = (0..1u64 << n).filter(|b| hard(*b)).map(|b| val(b)).min();
    let got = match got {
        Ok(x) => x,
        Err(f) if al.simp && f.msg.contains("eliminated") => {
            c.count("searches refused by a preprocessing solver", 1);
            return Ok(());
        }
        Err(f) => return Err(f),
    };
    match (got, best) {
        (None, None) => c.count("unsatisfiable", 1),
        (Some((a, cost)), Some(b)) => {
            judge(nm, &a, cost as i128, hard, val, b, al.name)?;
            c.count("optima", 1);
            if b != (0..1u64 << n).filter(|x| hard(*x)).map(|x| val(x)).max().unwrap() {
                let t = c.log_text().to_string();
                c.nontrivial(&t);
            }
        }
        (None, Some(b)) => fail!("unsat-but-sat", "{}: reported unsatisfiable, but the optimum is {b}", al.name),
        (Some((a, v)), None) => fail!("sat-but-unsat", "{}: returned {a:?} with cost {v}, but the constraints are unsatisfiable", al.name),
    }
    Ok(())
}

pub fn c15_inst(c: &mut Case) -> Res {
    let al = &ALGS[c.idx as usize % ALGS.len()];
    let n = c.rng.us(1, 6);
    let nm = names(c, n);
    let lit = |l: i32| Lit::new(nm[l.unsigned_abs() as usize - 1], l < 0);
    c.log(format!("{}, variables {nm:?}", al.name));
    let mut inst: OptInstance = OptInstance::new();
    let mut cls: Vec<Vec<i32>> = vec![];
    let mut lins: Vec<Lin> = vec![];
    for _ in 0..c.rng.below(2 * n + 1) {
        if c.rng.chance(2, 3) {
            let cl = if c.rng.chance(1, 30) { vec![] } else { let mut x = some_lits(c, n, 3); if x.is_empty() { x.push(c.rng.lit(n)) } x };
            c.log(format!("hard {cl:?}"));
            inst.constraints_mut().add_clause(cl.iter().map(|&l| lit(l)).collect());
            cls.push(cl);
        } else {
            let ls = some_lits(c, n, 4);
            let op = c.rng.below(3) as u8;
            if c.rng.bool() {
                let b = c.rng.below(ls.len() + 1);
                let x: Vec<Lit> = ls.iter().map(|&l| lit(l)).collect();
                inst.constraints_mut().add_card_constr(match op {
                    0 => CardConstraint::new_ub(x, b),
                    1 => CardConstraint::new_lb(x, b),
                    _ => CardConstraint::new_eq(x, b),
                });
                lins.push(Lin { terms: ls.iter().map(|&l| (l, 1)).collect(), op, b: b as i64 });
            } else {
                let terms: Vec<(i32, i64)> = ls.iter().map(|&l| (l, c.rng.range(-4, 5))).collect();
                let b = c.rng.range(-4, 8);
                let x: Vec<(Lit, isize)> = terms.iter().map(|t| (lit(t.0), t.1 as isize)).collect();
                inst.constraints_mut().add_pb_constr(match op {
                    0 => PbConstraint::new_ub(x, b as isize),
                    1 => PbConstraint::new_lb(x, b as isize),
                    _ => PbConstraint::new_eq(x, b as isize),
                });
                lins.push(Lin { terms, op, b });
            }
            c.log(format!("hard {:?}", lins.last().unwrap()));
        }
    }
    // falsified clauses (a literal that costs when true is the clause of its negation)
    let mut soft: Vec<(i128, Vec<i32>)> = vec![];
    let mut off = 0i128;
    let unw = c.rng.chance(1, 4);
    for _ in 0..c.rng.below(n + 3) {
        let w = if unw { 1 } else { weight(c) };
        match c.rng.below(5) {
            0 | 1 => {
                let l = c.rng.lit(n);
                c.log(format!("soft literal {w} {l}"));
                inst.objective_mut().increase_soft_lit(w, lit(l));
                soft.push((w as i128, vec![-l]));
            }
            2 => {
                let l = c.rng.lit(n);
                c.log(format!("soft literal -{w} {l}"));
                inst.objective_mut().increase_soft_lit_int(-(w as isize), lit(l));
                off -= w as i128;
                soft.push((w as i128, vec![l]));
            }
            _ => {
                let cl = some_lits(c, n, 3);
                c.log(format!("soft clause {w} {cl:?}"));
                inst.objective_mut().increase_soft_clause(w, cl.iter().map(|&l| lit(l)).collect());
                soft.push((w as i128, cl));
            }
        }
    }
    if c.rng.chance(1, 3) {
        let d = c.rng.range(-50, 51);
        c.log(format!("offset {d}"));
        inst.objective_mut().increase_offset(d as isize);
        off += d as i128;
    }
    let cl_true = |cl: &[i32], bits: u64| cl.iter().any(|&l| lit_true(l, bits));
    let hard = |bits: u64| cls.iter().all(|x| cl_true(x, bits)) && lins.iter().all(|x| x.holds(bits));
    let val = |bits: u64| off + soft.iter().filter(|s| !cl_true(&s.1, bits)).map(|s| s.0).sum::<i128>();
    let f = al.inst;
    let got = c.run("solve_maxsat", || f(inst));
    done(c, got, al, &nm, &hard, &val)
}

pub fn c15_search(c: &mut Case) -> Res {
    let al = &ALGS[c.idx as usize % ALGS.len()];
    let n = c.rng.us(1, 8);
    let nm = names(c, n);
    let lit = |l: i32| Lit::new(nm[l.unsigned_abs() as usize - 1], l < 0);
    let ncls = c.rng.below(3 * n + 1);
    let cls: Vec<Vec<i32>> = (0..ncls)
        .map(|_| {
            if c.rng.chance(1, 40) {
                return vec![];
            }
            let mut x = some_lits(c, n, 4);
            if x.is_empty() {
                x.push(c.rng.lit(n));
            }
            x
        })
        .collect();
    let nobj = c.rng.below(n + 3);
    let obj: Vec<(i32, usize)> = if c.rng.chance(2, 3) {
        let k = nobj.min(n);
        c.rng.distinct_lits(n, k).into_iter().map(|l| (l, weight(c))).collect()
    } else {
        (0..nobj).map(|_| (c.rng.lit(n), if c.rng.chance(1, 8) { 0 } else { weight(c) })).collect()
    };
    let reserve = if c.rng.chance(1, 4) { Some(c.rng.below(3 * n + 4) as u32) } else { None };
    let pre = c.rng.below(3 * ncls + 2);
    c.log(format!("{}, variables {nm:?}, reserve {reserve:?}, solving before clause {pre}", al.name));
    c.log(format!("clauses {cls:?}"));
    c.log(format!("objective {obj:?}"));
    let cl_true = |cl: &[i32], bits: u64| cl.iter().any(|&l| lit_true(l, bits));
    let hard = |bits: u64| cls.iter().all(|x| cl_true(x, bits));
    let val = |bits: u64| obj.iter().filter(|t| lit_true(t.0, bits)).map(|t| t.1 as i128).sum::<i128>();
    let wl: Vec<(Lit, usize)> = obj.iter().map(|t| (lit(t.0), t.1)).collect();
    let f = al.direct;
    let got = c.run("search", || f(&cls, &wl, &lit, reserve, pre));
    done(c, got.map(|x| x.map(|(a, v)| (a, v as isize))), al, &nm, &hard, &val)
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C15",
        "the returned assignment satisfies the hard constraints in every completion, its cost is the reported cost and the brute-force minimum; unsatisfiable exactly if there is no assignment",
        vec![
            Sub::new("instance", 4, c15_inst).max(0, 0),
            Sub::new("search", 4, c15_search).max(0, 0),
            Sub::new("kissat-instance", 1, c15_inst).max(4000, 400_000).exe("vkis"),
            Sub::new("kissat-search", 1, c15_search).max(4000, 400_000).exe("vkis"),
        ],
    )
    .quick(20)
    .thorough(600)
    .workers(6)
    .alt("vkis", 2)]
}
