//! Monitors for serialisation (C30): values compared with what is restored from them, and the
//! history monitors of the other properties with round trips at arbitrary points
use crate::enc::tolit;
use crate::m_enc::Mode;
use crate::{canon, rt};
use rustsat::encodings::nodedb::{NodeCon, NodeId};
use rustsat::instances::fio::{dimacs, opb};
use rustsat::instances::{BasicVarManager, ManageVars, Objective, OptInstance, ReindexVars, ReindexingVarManager, SatInstance};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeSet;
use vcore::{check, check_eq, fail, Case, Fail, Prop, Res, Rng, Sub};

const MAX: u32 = (u32::MAX - 1) / 2;

fn any_lit(r: &mut Rng) -> Lit {
    let i = match r.below(5) {
        0 => MAX - r.below(3) as u32,
        1 => (r.next() >> 33) as u32,
        _ => r.below(12) as u32,
    };
    Lit::new(i.min(MAX), r.bool())
}
fn any_usize(r: &mut Rng) -> usize {
    match r.below(5) {
        0 => isize::MAX as usize - r.below(3),
        1 => 1 << r.below(63),
        _ => r.below(20),
    }
}
fn any_isize(r: &mut Rng) -> isize {
    match r.below(6) {
        0 => isize::MAX - r.below(3) as isize,
        1 => isize::MIN + r.below(3) as isize,
        2 => (1 << r.below(62)) * if r.bool() { 1 } else { -1 },
        _ => r.range(-20, 20) as isize,
    }
}
fn lits(r: &mut Rng) -> Vec<Lit> {
    (0..r.below(7)).map(|_| any_lit(r)).collect()
}
/// with a successor of every variable
fn small(r: &mut Rng, l: Vec<Lit>) -> Vec<Lit> {
    l.into_iter().map(|l| Lit::new(l.vidx32() % *r.pick(&[10, 1000, MAX - 1]), l.is_neg())).collect()
}
fn text(r: &mut Rng) -> String {
    let alpha: Vec<char> = "ab \"\\\n\t\u{0}é{}[]():,'\u{1f600}*0".chars().collect();
    (0..r.below(12)).map(|_| *r.pick(&alpha)).collect()
}
fn card(r: &mut Rng) -> CardConstraint {
    let (l, b) = (lits(r), any_usize(r));
    match r.below(3) {
        0 => CardConstraint::new_ub(l, b),
        1 => CardConstraint::new_lb(l, b),
        _ => CardConstraint::new_eq(l, b),
    }
}
fn pb(r: &mut Rng) -> PbConstraint {
    // the sum of the weights has to fit
    let b = r.range(-1_000_000_000_000, 1_000_000_000_000) as isize;
    if r.bool() {
        let l: Vec<(Lit, usize)> = lits(r).into_iter().map(|l| (l, if r.chance(1, 4) { 1 << r.below(58) } else { r.below(30) })).collect();
        match r.below(3) {
            0 => PbConstraint::new_ub_unsigned(l, b),
            1 => PbConstraint::new_lb_unsigned(l, b),
            _ => PbConstraint::new_eq_unsigned(l, b),
        }
    } else {
        let l: Vec<(Lit, isize)> = lits(r).into_iter().map(|l| (l, r.range(-1_000_000, 1_000_000) as isize)).collect();
        match r.below(3) {
            0 => PbConstraint::new_ub(l, b),
            1 => PbConstraint::new_lb(l, b),
            _ => PbConstraint::new_eq(l, b),
        }
    }
}

/// values that cannot be compared: the tree of the restored value and its debug output
fn same<T: Serialize + DeserializeOwned + std::fmt::Debug>(c: &mut Case, what: &str, x: &T, dbg: bool) -> Result<T, Fail> {
    let fmt = c.rng.below(rt::FORMATS);
    let y = c.run(&format!("{what}:roundtrip"), || rt::trip(x, fmt))?;
    match y {
        Ok((y, name)) => {
            c.count("values restored", 1);
            c.count(name, 1);
            if dbg {
                check_eq!(format!("{y:?}"), format!("{x:?}"), format!("roundtrip:{what}"), "{name}");
            }
            Ok(y)
        }
        Err(e) => fail!(format!("roundtrip:{what}"), "{e}"),
    }
}

fn values(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let what = r.below(16);
    match what {
        0 => {
            let l = any_lit(r);
            c.log(format!("{l:?}"));
            rt::eq(c, "Lit", &l)?;
            let v = rt::eq(c, "Var", &l.var())?;
            check_eq!(v.pos_lit().lidx() | usize::from(l.is_neg()), l.lidx(), "meaning", "literal of {v}");
        }
        1 => {
            let t = *r.pick(&[TernaryVal::True, TernaryVal::False, TernaryVal::DontCare]);
            rt::eq(c, "TernaryVal", &t)?;
        }
        2 => {
            let a: Assignment = (0..r.below(30)).map(|_| *r.pick(&[TernaryVal::True, TernaryVal::False, TernaryVal::DontCare])).collect::<Vec<_>>().into();
            c.log(format!("{a}"));
            let b = rt::eq(c, "Assignment", &a)?;
            check_eq!(b.to_string(), a.to_string(), "meaning", "text");
        }
        3 => {
            let cl: Clause = lits(r).into_iter().collect();
            c.log(format!("{cl}"));
            let b = rt::eq(c, "Clause", &cl)?;
            check_eq!(b.to_string(), cl.to_string(), "meaning", "text");
        }
        4 => {
            let x = card(r);
            c.log(format!("{x}"));
            let y = rt::eq(c, "CardConstraint", &x)?;
            check_eq!(y.to_string(), x.to_string(), "meaning", "text");
        }
        5 => {
            let x = pb(r);
            c.log(format!("{x}"));
            let y = rt::eq(c, "PbConstraint", &x)?;
            check_eq!(y.to_string(), x.to_string(), "meaning", "text");
        }
        6 => {
            let d = match r.below(3) {
                0 => opb::Data::Cmt(text(r)),
                1 => opb::Data::Constr(pb(r)),
                _ => opb::Data::Obj(opb::Objective {
                    sense: if r.bool() { opb::ObjectiveSense::Minimize } else { opb::ObjectiveSense::Maximize },
                    terms: (0..r.below(5)).map(|_| (any_usize(r), any_lit(r))).collect(),
                    offset: any_isize(r),
                }),
            };
            c.log(format!("{d:?}"));
            rt::eq(c, "opb::Data", &d)?;
        }
        7 => {
            let clause: Clause = lits(r).into_iter().collect();
            match r.below(5) {
                0 => {
                    rt::eq(c, "CnfData", &dimacs::CnfData::Clause(clause))?;
                }
                1 => {
                    let t = text(r);
                    c.log(&t);
                    rt::eq(c, "CnfData", &dimacs::CnfData::Comment(t))?;
                }
                2 => {
                    rt::eq(c, "WcnfData", &dimacs::WcnfData::HardClause(clause))?;
                }
                3 => {
                    let weight = any_usize(r);
                    rt::eq(c, "WcnfData", &dimacs::WcnfData::SoftClause { weight, clause })?;
                }
                _ => {
                    let (weight, obj_idx) = (any_usize(r), any_usize(r));
                    rt::eq(c, "McnfData", &dimacs::McnfData::SoftClause { obj_idx, weight, clause })?;
                }
            }
        }
        8 => {
            let k = any_usize(r);
            c.log(format!("{k}"));
            rt::eq(c, "NodeId", &NodeId(k))?;
            let r = &mut c.rng;
            let con = match r.below(3) {
                0 => NodeCon::full(NodeId(k)),
                1 => NodeCon::weighted(NodeId(k), r.us(1, 1000)),
                _ => NodeCon::offset_weighted(NodeId(k), r.below(1000), r.us(1, 1000)),
            };
            let y = rt::eq(c, "NodeCon", &con)?;
            for v in 0..20 {
                check_eq!(y.map(v), con.map(v), "meaning", "value {v} through the connection");
            }
        }
        9 => {
            let mut inst: SatInstance = SatInstance::new();
            for _ in 0..r.below(5) {
                match r.below(3) {
                    0 => {
                        let l = lits(r);
                        inst.add_clause(small(r, l).into_iter().collect());
                    },
                    1 => {
                        let (l, b) = (lits(r), r.below(9));
                        inst.add_card_constr(CardConstraint::new_ub(small(r, l), b));
                    },
                    _ => {
                        let (l, b) = (lits(r), r.below(9) as isize);
                        let l: Vec<(Lit, usize)> = small(r, l).into_iter().map(|l| (l, r.below(9))).collect();
                        inst.add_pb_constr(PbConstraint::new_eq_unsigned(l, b));
                    },
                }
            }
            c.log(format!("{inst:?}"));
            let y = rt::eq(c, "SatInstance", &inst)?;
            check_eq!((y.n_vars(), y.n_clauses(), y.n_cards(), y.n_pbs()), (inst.n_vars(), inst.n_clauses(), inst.n_cards(), inst.n_pbs()), "meaning", "numbers");
        }
        10 => {
            let mut o = Objective::new();
            for _ in 0..r.below(5) {
                match r.below(3) {
                    0 => {
                        let (l, w) = (any_lit(r), r.us(1, 100));
                        o.increase_soft_lit(w, small(r, vec![l])[0]);
                    },
                    1 => o.increase_offset(r.range(-100, 100) as isize),
                    _ => {
                        let l = lits(r);
                        let cl: Clause = small(r, l).into_iter().collect();
                        o.increase_soft_clause(r.us(1, 100), cl);
                    }
                }
            }
            c.log(format!("{o:?}"));
            let y = rt::eq(c, "Objective", &o)?;
            check_eq!((y.n_softs(), y.offset(), y.weight_sum()), (o.n_softs(), o.offset(), o.weight_sum()), "meaning", "numbers");
            let mut x: OptInstance = OptInstance::new();
            *x.objective_mut() = o;
            x.constraints_mut().add_clause([Lit::positive(3), Lit::negative(7)].into_iter().collect());
            rt::eq(c, "OptInstance", &x)?;
        }
        11 => {
            // what cannot be a variable is refused
            let i = if r.bool() { u32::MAX - r.below(3) as u32 } else { MAX + 1 + r.below(100) as u32 };
            c.log(format!("variable {i}"));
            let j = serde_json::from_str::<Var>(&format!("{{\"idx\":{i}}}"));
            check!(j.is_err(), "invalid-variable", "JSON index {i} read as {j:?}");
            let b = bincode::deserialize::<Var>(&i.to_le_bytes());
            check!(b.is_err(), "invalid-variable", "bincode index {i} read as {b:?}");
            let b = ron::from_str::<Var>(&format!("(idx:{i})"));
            check!(b.is_err(), "invalid-variable", "RON index {i} read as {b:?}");
            let v = serde_json::from_str::<BasicVarManager>(&format!("{{\"next_var\":{{\"idx\":{i}}}}}"));
            check!(v.is_err(), "invalid-variable", "manager at {i} read as {v:?}");
            // cut off or damaged data never panics
            let cl: Clause = (0..4).map(|k| Lit::new(k, k % 2 == 0)).collect();
            let mut by = bincode::serialize(&cl).unwrap();
            let k = c.rng.below(by.len());
            by.truncate(k);
            let x = c.run("truncated", || bincode::deserialize::<Clause>(&by))?;
            check!(x.is_err(), "truncated", "{k} bytes of a clause read as {x:?}");
        }
        12 => {
            let mut m = ReindexingVarManager::default();
            let mut seen = BTreeSet::new();
            for _ in 0..r.below(8) {
                let v = any_lit(r).var();
                seen.insert(v);
                m.reindex(v);
            }
            let mut y = same(c, "ReindexingVarManager", &m, false)?;
            check_eq!(y.n_used(), m.n_used(), "meaning", "variables used");
            for v in seen {
                check_eq!(y.reindex(v), m.reindex(v), "meaning", "new index of {v}");
            }
        }
        _ => pigeon_values(c)?,
    }
    let t = c.log_text().to_string();
    c.nontrivial(&t);
    Ok(())
}

type Ops = pigeons::OperationSequence<Var>;

fn ops(r: &mut Rng, depth: usize) -> Ops {
    use pigeons::{OperationLike, VarLike};
    if depth == 0 || r.chance(1, 4) {
        return match r.below(4) {
            0 => Ops::empty(),
            1 => {
                let v = any_lit(r).var();
                Ops::from(v.axiom(r.bool()))
            }
            _ => Ops::from(id(r)),
        };
    }
    let a = ops(r, depth - 1);
    match r.below(5) {
        0 | 1 => {
            let b = ops(r, depth - 1);
            a + b
        }
        2 => a * r.us(1, 9),
        3 => a / r.us(1, 9),
        _ => a.saturate(),
    }
}
fn id(r: &mut Rng) -> pigeons::ConstraintId {
    let k = r.us(1, 100_000);
    if r.bool() { pigeons::ConstraintId::abs(k) } else { pigeons::ConstraintId::last(k) }
}
fn derivation(r: &mut Rng) -> pigeons::Derivation<Var, PbConstraint> {
    if r.bool() {
        pigeons::Derivation::Operations(ops(r, 3))
    } else {
        pigeons::Derivation::Rup(pb(r), (0..r.below(4)).map(|_| id(r)).collect())
    }
}
fn goal(r: &mut Rng) -> pigeons::ProofGoal<Var, PbConstraint> {
    let g = if r.bool() { pigeons::ProofGoalId::from(id(r)) } else { pigeons::ProofGoalId::specific(r.us(1, 50)) };
    let ds: Vec<_> = (0..r.below(3)).map(|_| derivation(r)).collect();
    pigeons::ProofGoal::new(g, ds)
}

fn pigeon_values(c: &mut Case) -> Res {
    use pigeons::VarLike;
    let r = &mut c.rng;
    match r.below(8) {
        0 => {
            let x = ops(r, 4);
            c.log(format!("{x:?}"));
            same(c, "OperationSequence", &x, true)?;
        }
        1 => {
            let x = id(r);
            c.log(format!("{x}"));
            let y = rt::eq(c, "ConstraintId", &x)?;
            check_eq!(y.to_string(), x.to_string(), "meaning", "text");
        }
        2 => {
            let v = any_lit(r).var();
            let x = v.axiom(r.bool());
            c.log(format!("{x}"));
            let y = same(c, "Axiom", &x, true)?;
            check_eq!(y.to_string(), x.to_string(), "meaning", "text");
        }
        3 => {
            let v = any_lit(r).var();
            let x: pigeons::Substitution<Var> = match r.below(3) {
                0 => v.substitute_fixed(r.bool()),
                1 => pigeons::Substitution::from(v.axiom(r.bool())),
                _ => {
                    let w = any_lit(r).var();
                    v.substitute_literal(w.axiom(r.bool()))
                }
            };
            let y = same(c, "Substitution", &x, true)?;
            check_eq!(y.to_string(), x.to_string(), "meaning", "text");
        }
        4 => {
            let x = derivation(r);
            c.log(format!("{x:?}"));
            same(c, "Derivation", &x, true)?;
        }
        5 => {
            let x = goal(r);
            c.log(format!("{x:?}"));
            let y = same(c, "ProofGoal", &x, true)?;
            check_eq!(y.n_derivations(), x.n_derivations(), "meaning", "derivations");
        }
        6 => {
            let sol = |r: &mut Rng| -> Vec<pigeons::Axiom<Var>> { lits(r).into_iter().map(|l| l.var().axiom(l.is_neg())).collect() };
            let x: pigeons::Conclusion<Var> = match r.below(4) {
                0 => pigeons::Conclusion::None,
                1 => pigeons::Conclusion::Sat(if r.bool() { Some(sol(r)) } else { None }),
                2 => pigeons::Conclusion::Unsat(if r.bool() { Some(id(r)) } else { None }),
                _ => pigeons::Conclusion::Bounds {
                    range: {
                        let (a, b) = (any_isize(r), any_isize(r));
                        if a == b { a..a.saturating_add(1) } else { a.min(b)..a.max(b) }
                    },
                    lb_id: if r.bool() { Some(id(r)) } else { None },
                    ub_sol: if r.bool() { Some(sol(r)) } else { None },
                },
            };
            let y = same(c, "Conclusion", &x, true)?;
            check_eq!(y.to_string(), x.to_string(), "meaning", "text");
        }
        _ => {
            let t = if r.bool() { pigeons::OutputType::Implicit } else { pigeons::OutputType::File };
            let x = match r.below(4) {
                0 => pigeons::OutputGuarantee::None,
                1 => pigeons::OutputGuarantee::Derivable(t),
                2 => pigeons::OutputGuarantee::Equisatisfiable(t),
                _ => pigeons::OutputGuarantee::Equioptimal(t),
            };
            let y = same(c, "OutputGuarantee", &x, true)?;
            check_eq!(y.to_string(), x.to_string(), "meaning", "text");
            let p = if r_bool(c) { pigeons::ProblemType::Unknown } else { pigeons::ProblemType::Optimization };
            same(c, "ProblemType", &p, true)?;
        }
    }
    let _ = canon::tree(&0u8);
    Ok(())
}
fn r_bool(c: &mut Case) -> bool {
    c.rng.bool()
}

fn encoders(c: &mut Case) -> Res {
    rt::with(|| match c.rng.below(8) {
        0 => crate::m_enc::shared(c),
        1 => crate::m_enc::dpw(c),
        2 => crate::m_enc::history(c, true, Mode::Audit),
        3 => crate::m_enc::history(c, false, Mode::Audit),
        k => crate::m_enc::history(c, k % 2 == 0, Mode::Semantics),
    })
}
fn am1(c: &mut Case) -> Res {
    rt::with(|| if c.rng.bool() { crate::m_am1::semantics(c) } else { crate::m_am1::audit(c) })
}
fn database(c: &mut Case) -> Res {
    rt::with(|| crate::m_totdb::c23(c))
}
fn instances(c: &mut Case) -> Res {
    rt::with(|| match c.rng.below(3) {
        0 => crate::m_inst::c13_sat(c),
        1 => crate::m_inst::c13_opt(c),
        _ => crate::m_inst::c14(c),
    })
}
fn managers(c: &mut Case) -> Res {
    rt::with(|| match c.rng.below(3) {
        0 => crate::m_inst::c21_basic(c),
        1 => crate::m_inst::c21_reindex(c),
        _ => crate::m_inst::c21_rand(c),
    })
}

#[must_use]
pub fn props() -> Vec<Prop> {
    let _ = tolit;
    vec![Prop::new(
        "C30",
        "random values of every serialisable type, and the histories of the monitors of C07-C14, C21 and C23 with round trips (bincode, RON, JSON text, JSON value tree) at random points; after a round trip the serialised trees, the answers of encoders to every query and all later meaning are compared with the model; distinct by value or history",
        vec![
            Sub::new("values", 25, values),
            Sub::new("encoders", 35, encoders).hang(30, false),
            Sub::new("am1", 8, am1),
            Sub::new("database", 12, database).hang(30, false),
            Sub::new("instances", 15, instances),
            Sub::new("managers", 5, managers),
        ],
    )
    .quick(30)
    .thorough(600)
    .assume(&["bincode, RON and serde_json restore what the derived implementations hand to them"])]
}
