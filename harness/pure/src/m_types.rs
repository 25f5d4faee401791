//! Monitors for literals and variables (C01), constraints (C02) and solver output (C03)
use crate::enc::{fromlit, tolit};
use rustsat::instances::fio;
use rustsat::types::constraints::{CardConstraint, ConstraintRef, PbConstraint, PbToCardError};
use rustsat::types::{Assignment, Cl, Clause, Lit, RsHashMap, RsHashSet, TernaryVal, Var};
use std::collections::{BTreeMap, BTreeSet};
use vcore::oracle::lit_true;
use vcore::{check, check_eq, fail, Case, Fail, Prop, Res, Sub};

const MAX: u32 = (u32::MAX - 1) / 2;

/// interesting indices: small, powers of two and their neighbours, the maximum, random
fn idx(c: &mut Case) -> u32 {
    let i = match c.rng.below(6) {
        0 => c.rng.below(20) as u32,
        1 => MAX - c.rng.below(4) as u32,
        2 => (1u64 << c.rng.below(31)).wrapping_add(c.rng.below(3) as u64).wrapping_sub(1) as u32,
        3 => 10u64.pow(c.rng.below(10) as u32) as u32,
        4 => c.rng.below(100_000) as u32,
        _ => (c.rng.next() >> 33) as u32,
    };
    i.min(MAX)
}

fn conv(c: &mut Case) -> Res {
    let i = idx(c);
    let neg = c.rng.bool();
    c.log(format!("idx {i} neg {neg}"));
    let (v, l) = c.run("new", || (Var::new(i), Lit::new(i, neg)))?;
    check_eq!(Var::MAX_IDX, MAX, "const", "MAX_IDX");
    // index forms
    check_eq!((v.idx(), v.idx32()), (i as usize, i), "var-idx", "variable index");
    check_eq!((l.vidx(), l.vidx32()), (i as usize, i), "lit-vidx", "variable index of literal");
    check_eq!(l.var(), v, "lit-var", "variable of literal");
    check_eq!((l.is_pos(), l.is_neg()), (!neg, neg), "polarity", "polarity");
    check_eq!(v.lit(neg), l, "var-lit", "lit()");
    check_eq!((v.pos_lit(), v.neg_lit()), (Lit::new(i, false), Lit::new(i, true)), "var-lit", "pos_lit/neg_lit");
    check_eq!((Lit::positive(i), Lit::negative(i)), (v.pos_lit(), v.neg_lit()), "lit-ctor", "positive/negative");
    check!(Var::new_with_error(i).is_ok_and(|x| x == v), "new_with_error", "Var::new_with_error({i})");
    check!(Lit::new_with_error(i, neg).is_ok_and(|x| x == l), "new_with_error", "Lit::new_with_error({i}, {neg}) {:?}", Lit::new_with_error(i, neg));
    check!(Lit::positive_with_error(i).is_ok_and(|x| x == v.pos_lit()), "new_with_error", "positive_with_error({i})");
    check!(Lit::negative_with_error(i).is_ok_and(|x| x == v.neg_lit()), "new_with_error", "negative_with_error({i})");
    unsafe {
        check_eq!(Var::new_unchecked(i), v, "unchecked", "Var::new_unchecked");
        check_eq!(Lit::new_unchecked(i, neg), l, "unchecked", "Lit::new_unchecked");
        check_eq!(Lit::positive_unchecked(i), v.pos_lit(), "unchecked", "positive_unchecked");
        check_eq!(Lit::negative_unchecked(i), v.neg_lit(), "unchecked", "negative_unchecked");
        check_eq!(Lit::from_lidx(l.lidx32()), l, "lidx", "from_lidx");
    }
    check_eq!((l.lidx(), l.lidx32()), ((i as usize) * 2 + usize::from(neg), i * 2 + u32::from(neg)), "lidx", "literal index");
    // negation
    check_eq!(!l, v.lit(!neg), "not", "!lit");
    check_eq!(-l, v.lit(!neg), "not", "-lit");
    check_eq!(!!l, l, "not", "double negation");
    check_eq!((!v, -v), (v.neg_lit(), v.neg_lit()), "not", "!var");
    check!(l != !l && l.var() == (!l).var(), "not", "negation changes only polarity");
    // signed integers
    let want = if neg { -(i64::from(i) + 1) } else { i64::from(i) + 1 };
    if i < MAX {
        let a = c.run("to_ipasir", || (l.to_ipasir(), v.to_ipasir()))?;
        check_eq!((i64::from(a.0), i64::from(a.1)), (want, i64::from(i) + 1), "ipasir", "signed integer");
        check!(l.to_ipasir_with_error().is_ok_and(|x| i64::from(x) == want), "ipasir", "to_ipasir_with_error");
        check!(v.to_ipasir_with_error().is_ok_and(|x| i64::from(x) == i64::from(i) + 1), "ipasir", "to_ipasir_with_error");
        check!(Lit::from_ipasir(want as i32).is_ok_and(|x| x == l), "ipasir", "from_ipasir({want}) {:?}", Lit::from_ipasir(want as i32));
    } else {
        // not representable (the negative literal would be, both answers are fine if lossless)
        match l.to_ipasir_with_error() {
            Ok(x) => check!(i64::from(x) == want, "ipasir", "wrong integer {x} for the last literal"),
            Err(_) => {}
        }
        check!(v.to_ipasir_with_error().is_err(), "ipasir", "integer for the last variable");
        match Lit::from_ipasir(i32::MIN) {
            Ok(x) => check!(x == v.neg_lit(), "ipasir", "i32::MIN gives {x}"),
            Err(_) => {}
        }
    }
    check!(Lit::from_ipasir(0).is_err(), "ipasir-zero", "0 is a literal");
    // text
    check_eq!(v.to_string(), format!("x{i}"), "display", "variable text");
    check_eq!(l.to_string(), format!("{}x{i}", if neg { "~" } else { "" }), "display", "literal text");
    check_eq!(format!("{v:?}"), format!("x{i}"), "display", "variable debug text");
    check_eq!(format!("{l:?}"), format!("{}x{i}", if neg { "~" } else { "" }), "display", "literal debug text");
    // OPB text (default options: first variable is x1)
    let o = fio::opb::Options::default();
    let t = format!("{}x{}", if neg { "~" } else { "" }, u64::from(i) + u64::from(o.first_var_idx));
    match fio::opb::parse_lit(&t, o) {
        Ok(x) => check_eq!(x, l, "opb-lit", "literal read from {t}"),
        Err(_) => check!(i == MAX, "opb-lit", "literal {t} rejected"),
    }
    // DIMACS text
    let t = format!("{want}");
    match fio::dimacs::parse_lit(&t) {
        Ok(x) => check_eq!(x, l, "dimacs-lit", "literal read from {t}"),
        Err(_) => check!(i == MAX, "dimacs-lit", "literal {t} rejected"),
    }
    // serialised
    let js = serde_json::to_string(&(v, l)).unwrap();
    check!(serde_json::from_str::<(Var, Lit)>(&js).is_ok_and(|x| x == (v, l)), "serde", "{js}");
    // proof text
    let ax: pigeons::Axiom<Var> = l.into();
    check_eq!(ax.to_string(), format!("{}x{}", if neg { "~" } else { "" }, i64::from(i) + 1), "axiom", "proof literal");
    // order against a second literal
    let j = if c.rng.bool() { idx(c) } else { (i64::from(i) + c.rng.range(-2, 2)).clamp(0, i64::from(MAX)) as u32 };
    let neg2 = c.rng.bool();
    let (w, m) = (Var::new(j), Lit::new(j, neg2));
    check_eq!(v.cmp(&w), i.cmp(&j), "order", "variable order {v} {w}");
    check_eq!(l.cmp(&m), (i, neg).cmp(&(j, neg2)), "order", "literal order {l} {m}");
    check_eq!((v == w, l == m), (i == j, (i, neg) == (j, neg2)), "order", "equality");
    // shifting
    let d = (c.rng.next() as u32) % (MAX - i + 1);
    let d = if c.rng.bool() { d } else { d.min(3) };
    let s = c.run("add", || (v + d, l + d))?;
    check_eq!((s.0.idx32(), s.1.vidx32(), s.1.is_neg()), (i + d, i + d, neg), "add", "+{d}");
    let mut z = (v, l);
    z.0 += d;
    z.1 += d;
    check_eq!(z, s, "add", "+= {d}");
    let s = c.run("sub", || (z.0 - d, z.1 - d))?;
    check_eq!(s, (v, l), "sub", "- {d}");
    z.0 -= d;
    z.1 -= d;
    check_eq!(z, (v, l), "sub", "-= {d}");
    c.nontrivial(&format!("{i}{neg}"));
    Ok(())
}

/// values outside the range, malformed text: an error, never another literal
fn reject(c: &mut Case) -> Res {
    let i = match c.rng.below(3) {
        0 => MAX + 1 + c.rng.below(4) as u32,
        1 => u32::MAX - c.rng.below(4) as u32,
        _ => (c.rng.next() as u32) | 0x8000_0000,
    };
    c.log(format!("index {i}"));
    check!(Var::new_with_error(i).is_err(), "accepts", "Var::new_with_error({i})");
    check!(Lit::new_with_error(i, c.rng.bool()).is_err(), "accepts", "Lit::new_with_error({i})");
    check!(Lit::positive_with_error(i).is_err(), "accepts", "positive_with_error({i})");
    check!(Lit::negative_with_error(i).is_err(), "accepts", "negative_with_error({i})");
    check!(vcore::engine::guard(|| Var::new(i)).is_err(), "accepts", "Var::new({i})");
    check!(vcore::engine::guard(|| Lit::new(i, false)).is_err(), "accepts", "Lit::new({i})");
    check!(vcore::engine::guard(|| Lit::positive(i)).is_err(), "accepts", "Lit::positive({i})");
    check!(vcore::engine::guard(|| Lit::negative(i)).is_err(), "accepts", "Lit::negative({i})");
    check!(serde_json::from_str::<Var>(&i.to_string()).is_err(), "accepts", "deserialising Var {i}");
    let big = u64::from(i) << c.rng.below(33);
    if big > u64::from(u32::MAX) {
        check!(serde_json::from_str::<Var>(&big.to_string()).is_err(), "accepts", "deserialising Var {big}");
        check!(serde_json::from_str::<Lit>(&big.to_string()).is_err(), "accepts", "deserialising Lit {big}");
    }
    // over- and underflows must not wrap into another variable
    let k = idx(c);
    let d = (MAX - k).saturating_add(1 + c.rng.below(1000) as u32);
    check!(vcore::engine::guard(|| Var::new(k) + d).is_err(), "add-wraps", "x{k} + {d}");
    check!(vcore::engine::guard(|| Lit::new(k, true) + d).is_err(), "add-wraps", "~x{k} + {d}");
    let d = k + 1 + c.rng.below(1000) as u32;
    check!(vcore::engine::guard(|| Var::new(k) - d).is_err(), "sub-wraps", "x{k} - {d}");
    check!(vcore::engine::guard(|| Lit::new(k, true) - d).is_err(), "sub-wraps", "~x{k} - {d}");
    // text
    let num = *c.rng.pick(&["2147483649", "4294967297", "4294967296", "-4294967295", "99999999999999999999", "9223372036854775809", "0", "-0", "+", "-", "", "1a", "--1", "- 1", "0x1", "१", "1.5", "x1"]);
    check!(fio::dimacs::parse_lit(num).is_err(), "dimacs-text", "{num:?} read as {:?}", fio::dimacs::parse_lit(num));
    let num = *c.rng.pick(&["x2147483649", "x4294967297", "~x4294967297", "x99999999999999999999", "x", "~", "~~x1", "y1", "1", "x-1", "x 1", "x1a", "", "x1 x2", "x1.0", "~ x1"]);
    let o = fio::opb::Options { first_var_idx: c.rng.below(2) as u32, no_negated_lits: false };
    check!(fio::opb::parse_lit(num, o).is_err(), "opb-text", "{num:?} read as {:?}", fio::opb::parse_lit(num, o));
    let fi = 1 + c.rng.below(1000) as u32;
    let under = c.rng.below(fi as usize);
    let o = fio::opb::Options { first_var_idx: fi, no_negated_lits: false };
    let t = format!("x{under}");
    let r = c.run("opb:parse_lit", || fio::opb::parse_lit(&t, o))?;
    check!(r.is_err(), "opb-text", "{t} before the first variable x{fi} read as {r:?}");
    c.nontrivial(&format!("{i}{num}"));
    Ok(())
}

fn maps(c: &mut Case) -> Res {
    let mut m: RsHashMap<Lit, u64> = RsHashMap::default();
    let mut s: RsHashSet<Var> = RsHashSet::default();
    let mut rm: BTreeMap<(u32, bool), u64> = BTreeMap::new();
    let mut rs: BTreeSet<u32> = BTreeSet::new();
    let pool: Vec<u32> = (0..c.rng.us(1, 30)).map(|_| idx(c)).collect();
    for _ in 0..c.rng.us(1, 80) {
        let i = *c.rng.pick(&pool);
        let neg = c.rng.bool();
        match c.rng.below(4) {
            0 | 1 => {
                let x = c.rng.next();
                check_eq!(m.insert(Lit::new(i, neg), x), rm.insert((i, neg), x), "map", "insert");
                check_eq!(s.insert(Var::new(i)), rs.insert(i), "set", "insert");
            }
            2 => {
                check_eq!(m.remove(&Lit::new(i, neg)), rm.remove(&(i, neg)), "map", "remove");
                check_eq!(s.remove(&Var::new(i)), rs.remove(&i), "set", "remove");
            }
            _ => {
                check_eq!(m.get(&Lit::new(i, neg)), rm.get(&(i, neg)), "map", "get");
                check_eq!(s.contains(&Var::new(i)), rs.contains(&i), "set", "contains");
            }
        }
    }
    let mut got: Vec<_> = m.iter().map(|(l, x)| ((l.vidx32(), l.is_neg()), *x)).collect();
    got.sort_unstable();
    check_eq!(got, rm.into_iter().collect::<Vec<_>>(), "map", "contents");
    let mut got: Vec<_> = s.iter().map(|v| v.idx32()).collect();
    got.sort_unstable();
    check_eq!(got, rs.into_iter().collect::<Vec<_>>(), "set", "contents");
    // assignments as maps from variables
    let mut a = Assignment::default();
    let mut ra: BTreeMap<u32, bool> = BTreeMap::new();
    let n = c.rng.us(1, 12);
    for _ in 0..c.rng.below(40) {
        let i = c.rng.below(n) as u32;
        match c.rng.below(6) {
            0..=2 => {
                let neg = c.rng.bool();
                a.assign_lit(Lit::new(i, neg));
                ra.insert(i, !neg);
            }
            3 => {
                let v = *c.rng.pick(&[TernaryVal::True, TernaryVal::False, TernaryVal::DontCare]);
                a.assign_var(Var::new(i), v);
                match v {
                    TernaryVal::DontCare => ra.remove(&i),
                    v => ra.insert(i, v == TernaryVal::True),
                };
            }
            4 if c.rng.chance(1, 4) => {
                a = a.truncate(Var::new(i));
                ra.retain(|k, _| *k <= i);
            }
            5 if c.rng.chance(1, 6) => {
                let d = c.rng.bool();
                for k in 0..a.len() as u32 {
                    ra.entry(k).or_insert(d);
                }
                a.replace_dont_care(d);
            }
            _ => {}
        }
        for k in 0..n as u32 + 2 {
            let w = ra.get(&k).copied();
            let t = |b: Option<bool>| match b {
                None => TernaryVal::DontCare,
                Some(true) => TernaryVal::True,
                Some(false) => TernaryVal::False,
            };
            check_eq!(a.var_value(Var::new(k)), t(w), "assignment", "value of x{k}");
            check_eq!(a.lit_value(Lit::new(k, false)), t(w), "assignment", "value of x{k}");
            check_eq!(a.lit_value(Lit::new(k, true)), t(w.map(|b| !b)), "assignment", "value of ~x{k}");
        }
        let want: Vec<Lit> = ra.iter().map(|(k, b)| Lit::new(*k, !b)).collect();
        check_eq!(a.iter().collect::<Vec<_>>(), want, "assignment", "iter");
        check_eq!((&a).into_iter().collect::<Vec<_>>(), want, "assignment", "into_iter of reference");
        check_eq!(a.clone().into_iter().collect::<Vec<_>>(), want, "assignment", "into_iter");
        check_eq!(a.max_var().map(|v| v.idx() + 1).unwrap_or(0), a.len(), "assignment", "max_var");
        check_eq!(a.is_empty(), a.len() == 0, "assignment", "is_empty");
        check_eq!(a.to_string().len(), a.len(), "assignment", "text length");
    }
    c.nontrivial(&format!("{pool:?}{ra:?}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C02

fn cl(ls: &[i32]) -> Clause {
    ls.iter().map(|&l| tolit(l)).collect()
}
fn ints<'a>(ls: impl IntoIterator<Item = &'a Lit>) -> Vec<i32> {
    ls.into_iter().map(|l| fromlit(*l)).collect()
}

/// partial assignment: (mask of assigned, bits)
fn partial(mask: u64, bits: u64, n: usize) -> Assignment {
    (0..n)
        .map(|i| if mask >> i & 1 == 0 { TernaryVal::DontCare } else { TernaryVal::from(bits >> i & 1 == 1) })
        .collect()
}

/// checks three-valued evaluation against the total assignments extending a partial one
fn eval3(c: &mut Case, n: usize, what: &str, truth: &dyn Fn(u64) -> bool, eval: &dyn Fn(&Assignment) -> TernaryVal) -> Res {
    for bits in 0..1u64 << n {
        let a = partial(!0, bits, n);
        check_eq!(eval(&a), TernaryVal::from(truth(bits)), format!("{what}:evaluate"), "under {a}");
    }
    c.count("evaluations", 1 << n);
    for _ in 0..12 {
        let (mask, bits) = (c.rng.next() & ((1 << n) - 1), c.rng.next());
        let len = if c.rng.bool() { n } else { (64 - mask.leading_zeros()) as usize };
        let a = partial(mask, bits, len);
        let mut t = 0;
        let mut f = 0;
        for free in 0..1u64 << n {
            if free & mask != 0 {
                continue;
            }
            if truth(bits & mask | free) {
                t += 1;
            } else {
                f += 1;
            }
        }
        let r = eval(&a);
        let ok = match r {
            TernaryVal::True => f == 0,
            TernaryVal::False => t == 0,
            TernaryVal::DontCare => true,
        };
        check!(ok, format!("{what}:evaluate-partial"), "{r} under {a} although {t} extensions satisfy and {f} falsify it");
        c.count("partial evaluations", 1);
    }
    Ok(())
}

fn sat_set(n: usize, f: &dyn Fn(u64) -> bool) -> Vec<bool> {
    (0..1u64 << n).map(f).collect()
}

fn clause(c: &mut Case) -> Res {
    let n = c.rng.us(1, 7);
    let k = c.rng.below(9);
    let mut ls: Vec<i32> = if c.rng.chance(1, 3) { let m = k.min(n); c.rng.distinct_lits(n, m) } else { (0..k).map(|_| c.rng.lit(n)).collect() };
    c.log(format!("clause {ls:?}"));
    let mut x = cl(&ls);
    for step in 0..c.rng.us(1, 5) {
        let truth = |ls: &[i32]| sat_set(n, &|b| ls.iter().any(|&l| lit_true(l, b)));
        let set = truth(&ls);
        let l2 = ls.clone();
        eval3(c, n, "clause", &|b| l2.iter().any(|&l| lit_true(l, b)), &|a| x.evaluate(a))?;
        check_eq!((x.len(), x.is_empty(), x.is_unit(), x.is_binary()), (ls.len(), ls.is_empty(), ls.len() == 1, ls.len() == 2), "clause:len", "sizes");
        check_eq!(x.is_tautology(), set.iter().all(|b| *b), "clause:is_tautology", "{x}");
        let mut a: Vec<i32> = ints(x.iter());
        let mut b = ls.clone();
        a.sort_unstable();
        b.sort_unstable();
        check_eq!(a, b, "clause:literals", "multiset of literals of {x}");
        check_eq!(ConstraintRef::Clause(&x).to_string(), x.to_string(), "clause:display", "text");
        for (what, r) in [("normalize", x.clone().normalize()), ("sanitize", x.clone().sanitize())] {
            match r {
                None => check!(set.iter().all(|b| *b), format!("clause:{what}"), "{x} dropped but is no tautology"),
                Some(y) => {
                    check_eq!(truth(&ints(y.iter())), set, format!("clause:{what}"), "{x} became {y}");
                    let d: BTreeSet<i32> = ints(y.iter()).into_iter().collect();
                    check!(d.len() == y.len(), format!("clause:{what}-dup"), "{x} became {y}");
                    check!(!d.iter().any(|l| d.contains(&-l)), format!("clause:{what}-taut"), "{x} became {y}");
                    if what == "normalize" {
                        check!(y.iter().zip(y.iter().skip(1)).all(|(a, b)| a < b), "clause:normalize-order", "{x} became {y}");
                    } else {
                        let mut want = vec![];
                        for &l in &ints(x.iter()) {
                            if !want.contains(&l) {
                                want.push(l);
                            }
                        }
                        check_eq!(ints(y.iter()), want, "clause:sanitize-order", "order of literals");
                    }
                }
            }
        }
        let mut y = x.clone();
        y.sort();
        check_eq!(truth(&ints(y.iter())), set, "clause:sort", "{x} became {y}");
        let card = CardConstraint::from(x.clone());
        check_eq!(sat_set(n, &|b| card.evaluate(&partial(!0, b, n)) == TernaryVal::True), set, "clause:into-card", "{card}");
        let r: &Cl = Cl::new(&x);
        check_eq!(r.to_owned(), x, "clause:cl", "Cl to Clause");
        // next operation
        let l = c.rng.lit(n);
        let lit = tolit(l);
        match c.rng.below(6) {
            0 => {
                x.add(lit);
                ls.push(l);
            }
            1 => {
                let before = ls.iter().filter(|&&k| k == l).count();
                let r = x.remove(lit);
                check_eq!(r, before > 0, "clause:remove", "remove({l})");
                if let Some(p) = ls.iter().position(|&k| k == l) {
                    ls.remove(p);
                }
            }
            2 => {
                let before = ls.iter().filter(|&&k| k == l).count();
                let mut order: Vec<i32> = ints(x.iter());
                order.retain(|&k| k != l);
                let r = x.remove_thorough(lit);
                check_eq!(r, before > 0, "clause:remove_thorough", "remove_thorough({l})");
                ls.retain(|&k| k != l);
                check_eq!(ints(x.iter()), order, "clause:remove_thorough", "remaining literals");
            }
            3 => {
                x = match c.rng.below(5) {
                    0 => x | lit,
                    1 => lit | x,
                    2 => {
                        x |= lit;
                        x
                    }
                    3 => {
                        x.extend([lit]);
                        x
                    }
                    _ => x | cl(&[l]),
                };
                ls.push(l);
            }
            4 => {
                let v = Var::new(l.unsigned_abs() - 1);
                x = match c.rng.below(3) {
                    0 => x | v,
                    1 => v | x,
                    _ => {
                        x |= v;
                        x
                    }
                };
                ls.push(l.abs());
            }
            _ => {
                let other: Vec<i32> = (0..c.rng.below(3)).map(|_| c.rng.lit(n)).collect();
                ls.extend(&other);
                x |= cl(&other);
            }
        }
        c.log(format!("step {step} -> {ls:?}"));
    }
    c.nontrivial(&format!("{n} {ls:?}"));
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Ub,
    Lb,
    Eq,
}
fn holds(op: Op, s: i128, b: i128) -> bool {
    match op {
        Op::Ub => s <= b,
        Op::Lb => s >= b,
        Op::Eq => s == b,
    }
}
fn sum(ls: &[(i32, i128)], bits: u64) -> i128 {
    ls.iter().map(|&(l, w)| if lit_true(l, bits) { w } else { 0 }).sum()
}

fn card_terms(x: &CardConstraint) -> Vec<(i32, i128)> {
    x.iter().map(|l| (fromlit(*l), 1)).collect()
}
fn card_op(x: &CardConstraint) -> Op {
    match x {
        CardConstraint::Ub(_) => Op::Ub,
        CardConstraint::Lb(_) => Op::Lb,
        CardConstraint::Eq(_) => Op::Eq,
    }
}
/// satisfying assignments as denoted by the constraint's contents
fn card_set(x: &CardConstraint, n: usize) -> Vec<bool> {
    let (t, o, b) = (card_terms(x), card_op(x), x.bound() as i128);
    sat_set(n, &|bits| holds(o, sum(&t, bits), b))
}
fn pb_set(x: &PbConstraint, n: usize) -> Vec<bool> {
    let t: Vec<(i32, i128)> = x.iter().map(|(l, w)| (fromlit(*l), *w as i128)).collect();
    let o = match x {
        PbConstraint::Ub(_) => Op::Ub,
        PbConstraint::Lb(_) => Op::Lb,
        PbConstraint::Eq(_) => Op::Eq,
    };
    let b = x.bound() as i128;
    sat_set(n, &|bits| holds(o, sum(&t, bits), b))
}
fn clause_set(x: &Clause, n: usize) -> Vec<bool> {
    let t = ints(x.iter());
    sat_set(n, &|bits| t.iter().any(|&l| lit_true(l, bits)))
}
/// cube (all literals true) as a set
fn cube_set(t: &[i32], n: usize, val: bool) -> Vec<bool> {
    sat_set(n, &|bits| t.iter().all(|&l| lit_true(l, bits) == val))
}

struct Preds {
    taut: bool,
    unsat: bool,
    pos: bool,
    neg: bool,
    clause: bool,
}

/// predicates: whatever is claimed must be true; for distinct variables with positive weights
/// what is true must be claimed (equalities never claim to be tautologies or clauses)
fn preds(what: &str, txt: &str, p: &Preds, set: &[bool], lits: &[i32], op: Op, complete: bool, n: usize, pos_eq: bool) -> Res {
    let taut = set.iter().all(|b| *b);
    let unsat = set.iter().all(|b| !*b);
    check!(!p.taut || taut, format!("{what}:is_tautology"), "{txt} claimed a tautology");
    check!(!p.unsat || unsat, format!("{what}:is_unsat"), "{txt} claimed unsatisfiable");
    check!(!p.pos || cube_set(lits, n, true) == set, format!("{what}:is_positive_assignment"), "{txt} claimed a positive assignment");
    check!(!p.neg || cube_set(lits, n, false) == set, format!("{what}:is_negative_assignment"), "{txt} claimed a negative assignment");
    if complete && !lits.is_empty() {
        let m = op != Op::Eq;
        check!(p.taut == taut || !m, format!("{what}:is_tautology"), "{txt} is a tautology: {taut}");
        check!(p.unsat == unsat || (op == Op::Eq && !pos_eq), format!("{what}:is_unsat"), "{txt} is unsatisfiable: {unsat}");
        check!(p.pos == (cube_set(lits, n, true) == set) || op == Op::Ub || lits.len() == 1, format!("{what}:is_positive_assignment"), "{txt}");
        check!(p.neg == (cube_set(lits, n, false) == set) || op == Op::Lb || lits.len() == 1, format!("{what}:is_negative_assignment"), "{txt}");
        // a clause over the same literals or their negations
        let pos_cl = sat_set(n, &|b| lits.iter().any(|&l| lit_true(l, b))) == *set;
        let neg_cl = sat_set(n, &|b| lits.iter().any(|&l| !lit_true(l, b))) == *set;
        let is = match op {
            Op::Lb => pos_cl,
            Op::Ub => neg_cl,
            Op::Eq => false,
        };
        check!(p.clause == is || lits.len() == 1, format!("{what}:is_clause"), "{txt} is a clause: {is}");
    }
    Ok(())
}

fn card(c: &mut Case) -> Res {
    let n = c.rng.us(1, 6);
    let k = c.rng.below(8);
    let mut ls: Vec<i32> = if c.rng.bool() { let m = k.min(n); c.rng.distinct_lits(n, m) } else { (0..k).map(|_| c.rng.lit(n)).collect() };
    let op = *c.rng.pick(&[Op::Ub, Op::Lb, Op::Eq]);
    let mut b = match c.rng.below(8) {
        0 => *c.rng.pick(&[usize::MAX, usize::MAX / 2, isize::MAX as usize + 1, isize::MAX as usize, 100]),
        _ => c.rng.below(ls.len() + 3),
    };
    let li = || ls.iter().map(|&l| tolit(l)).collect::<Vec<_>>();
    let mut x = match op {
        Op::Ub => CardConstraint::new_ub(li(), b),
        Op::Lb => CardConstraint::new_lb(li(), b),
        Op::Eq => CardConstraint::new_eq(li(), b),
    };
    for _ in 0..c.rng.us(1, 3) {
        c.log(format!("{op:?} {ls:?} {b}"));
        let terms: Vec<(i32, i128)> = ls.iter().map(|&l| (l, 1)).collect();
        let truth = |bits: u64| holds(op, sum(&terms, bits), b as i128);
        let set = sat_set(n, &truth);
        check_eq!((x.bound(), x.len(), x.n_lits(), x.is_empty()), (b, ls.len(), ls.len(), ls.is_empty()), "card:contents", "sizes of {x}");
        check_eq!(card_terms(&x), terms, "card:contents", "literals of {x}");
        check_eq!(ints(&x.clone().into_lits()), ls, "card:contents", "into_lits of {x}");
        eval3(c, n, "card", &truth, &|a| x.evaluate(a))?;
        let distinct = ls.iter().map(|l| l.abs()).collect::<BTreeSet<_>>().len() == ls.len();
        let p = Preds { taut: x.is_tautology(), unsat: x.is_unsat(), pos: x.is_positive_assignment(), neg: x.is_negative_assignment(), clause: x.is_clause() };
        preds("card", &x.to_string(), &p, &set, &ls, op, distinct, n, true)?;
        check_eq!(card_set(&c.run("card:normalize", || x.clone().normalize())?, n), set, "card:normalize", "{x}");
        match c.run("card:into_clause", || x.clone().into_clause())? {
            Ok(y) => {
                check!(p.clause, "card:into_clause", "{x}");
                check_eq!(clause_set(&y, n), set, "card:into_clause", "{x} became {y}");
            }
            Err(_) => check!(!p.clause, "card:into_clause", "{x} refused"),
        }
        // (a bound above isize::MAX is documented to panic here)
        if b <= isize::MAX as usize {
            let y = PbConstraint::from(x.clone());
            check_eq!(pb_set(&y, n), set, "card:into-pb", "{x} became {y}");
        }
        match x.clone() {
            CardConstraint::Ub(u) => {
                let (l, bb) = u.clone().decompose();
                check_eq!((ints(&l), bb), (ls.clone(), b), "card:decompose", "{x}");
                check_eq!(card_set(&CardConstraint::Lb(c.run("card:invert", || u.invert())?), n), set, "card:invert", "{x}");
            }
            CardConstraint::Lb(u) => {
                let (l, bb) = u.clone().decompose();
                check_eq!((ints(&l), bb), (ls.clone(), b), "card:decompose", "{x}");
                if b <= ls.len() {
                    check_eq!(card_set(&CardConstraint::Ub(c.run("card:invert", || u.invert())?), n), set, "card:invert", "{x}");
                }
            }
            CardConstraint::Eq(u) => {
                let (l, bb) = u.clone().decompose();
                check_eq!((ints(&l), bb), (ls.clone(), b), "card:decompose", "{x}");
                let (lb, ub) = u.split();
                let (s1, s2) = (card_set(&CardConstraint::Lb(lb), n), card_set(&CardConstraint::Ub(ub), n));
                check_eq!(s1.iter().zip(&s2).map(|(a, b)| *a && *b).collect::<Vec<_>>(), set, "card:split", "{x}");
            }
        }
        // the form handed to proofs: sum >= rhs
        if op != Op::Eq && b <= ls.len() + 2 {
            use pigeons::ConstraintLike;
            let (r, t) = pig(&x.rhs(), x.sum_iter());
            check_eq!(sat_set(n, &|bits| sum(&t, bits) >= r), set, "card:proof-form", "{x}: {t:?} >= {r}");
        }
        check_eq!(ConstraintRef::Card(&x).to_string(), x.to_string(), "card:display", "text");
        if c.rng.bool() {
            let more: Vec<i32> = (0..c.rng.below(3)).map(|_| c.rng.lit(n)).collect();
            x.add(more.iter().map(|&l| tolit(l)));
            ls.extend(more);
        } else {
            b = c.rng.below(ls.len() + 3);
            x.set_bound(b);
        }
    }
    let u = CardConstraint::new_unit(tolit(c.rng.lit(n)));
    let l = fromlit(*u.iter().next().unwrap());
    check_eq!(card_set(&u, n), cube_set(&[l], n, true), "card:unit", "{u}");
    c.nontrivial(&format!("{op:?}{ls:?}{b}"));
    Ok(())
}

fn pig<'a>(r: &isize, it: impl Iterator<Item = (isize, pigeons::Axiom<Var>)> + 'a) -> (i128, Vec<(i32, i128)>) {
    let t = it
        .map(|(w, a)| {
            let s = a.to_string();
            let (neg, rest) = s.strip_prefix('~').map_or((false, s.as_str()), |r| (true, r));
            let v: i32 = rest[1..].parse().unwrap();
            (if neg { -v } else { v }, w as i128)
        })
        .collect();
    (*r as i128, t)
}

fn pb(c: &mut Case) -> Res {
    let n = c.rng.us(1, 6);
    let k = c.rng.below(8);
    let vars: Vec<i32> = if c.rng.bool() { let m = k.min(n); c.rng.distinct_lits(n, m) } else { (0..k).map(|_| c.rng.lit(n)).collect() };
    let wmode = c.rng.below(5);
    let weight = |c: &mut Case| -> i128 {
        match wmode {
            0 => 1,
            1 => c.rng.range(1, 5) as i128,
            2 => c.rng.range(-5, 5) as i128,
            3 => (c.rng.range(1, 4) * 3) as i128,
            _ => *c.rng.pick(&[0, 1, -1, 2, 1 << 20, -(1 << 40), 7, 1 << 58, -1 << 58]),
        }
    };
    let unit = if c.rng.chance(1, 4) { Some(c.rng.range(1, 4) as i128) } else { None };
    let mut terms: Vec<(i32, i128)> = vars.iter().map(|&l| (l, unit.unwrap_or_else(|| weight(c)))).collect();
    let op = *c.rng.pick(&[Op::Ub, Op::Lb, Op::Eq]);
    let (lo, hi) = (terms.iter().map(|t| t.1.min(0)).sum::<i128>(), terms.iter().map(|t| t.1.max(0)).sum::<i128>());
    let bound = |c: &mut Case, lo: i128, hi: i128, terms: &[(i32, i128)]| -> i128 {
        match c.rng.below(4) {
            0 => lo - 2 + (c.rng.next() as i128) % (hi - lo + 5),
            1 => lo + c.rng.range(-1, 1) as i128,
            2 => hi + c.rng.range(-1, 1) as i128,
            _ => sum(terms, c.rng.next()) + c.rng.range(-1, 1) as i128,
        }
    };
    let mut b = bound(c, lo, hi, &terms);
    let unsigned = terms.iter().all(|t| t.1 >= 0) && c.rng.bool();
    let w: Vec<(Lit, isize)> = terms.iter().map(|t| (tolit(t.0), t.1 as isize)).collect();
    let wu: Vec<(Lit, usize)> = terms.iter().map(|t| (tolit(t.0), t.1.unsigned_abs() as usize)).collect();
    let bb = b as isize;
    c.log(format!("{op:?} {terms:?} {b} unsigned {unsigned}"));
    let mut x = c.run("pb:new", || match (op, unsigned) {
        (Op::Ub, false) => PbConstraint::new_ub(w, bb),
        (Op::Lb, false) => PbConstraint::new_lb(w, bb),
        (Op::Eq, false) => PbConstraint::new_eq(w, bb),
        (Op::Ub, true) => PbConstraint::new_ub_unsigned(wu, bb),
        (Op::Lb, true) => PbConstraint::new_lb_unsigned(wu, bb),
        (Op::Eq, true) => PbConstraint::new_eq_unsigned(wu, bb),
    })?;
    for _ in 0..c.rng.us(1, 3) {
        c.log(format!("  = {x}"));
        let truth = |bits: u64| holds(op, sum(&terms, bits), b);
        let set = sat_set(n, &truth);
        check_eq!(pb_set(&x, n), set, "pb:contents", "{x} for {terms:?} {op:?} {b}");
        check_eq!((x.len(), x.n_lits(), x.is_empty()), (terms.len(), terms.len(), terms.is_empty()), "pb:len", "sizes of {x}");
        check_eq!(x.weight_sum() as i128, x.iter().map(|t| t.1 as i128).sum::<i128>(), "pb:weight_sum", "{x}");
        let its: Vec<(Lit, usize)> = x.iter().copied().collect();
        check_eq!(x.clone().into_lits().into_iter().collect::<Vec<_>>(), its, "pb:into_lits", "{x}");
        eval3(c, n, "pb", &truth, &|a| x.evaluate(a))?;
        let lits: Vec<i32> = its.iter().map(|t| fromlit(t.0)).collect();
        let distinct = lits.iter().map(|l| l.abs()).collect::<BTreeSet<_>>().len() == lits.len() && its.iter().all(|t| t.1 > 0);
        let p = Preds { taut: x.is_tautology(), unsat: x.is_unsat(), pos: x.is_positive_assignment(), neg: x.is_negative_assignment(), clause: x.is_clause() };
        // an equality may be unsatisfiable because no subset has the sum: not claimed
        preds("pb", &x.to_string(), &p, &set, &lits, op, distinct, n, false)?;
        check_eq!(pb_set(&c.run("pb:normalize", || x.clone().normalize())?, n), set, "pb:normalize", "{x}");
        let y = c.run("pb:normalize", || x.clone().normalize())?;
        check_eq!(y.weight_sum() as i128, y.iter().map(|t| t.1 as i128).sum::<i128>(), "pb:normalize-sum", "{y}");
        match c.run("pb:into_clause", || x.clone().into_clause())? {
            Ok(y) => {
                check!(p.clause, "pb:into_clause", "{x}");
                check_eq!(clause_set(&y, n), set, "pb:into_clause", "{x} became {y}");
            }
            Err(_) => check!(!p.clause, "pb:into_clause", "{x} refused"),
        }
        let unit = its.first().is_some_and(|f| f.1 > 0 && its.iter().all(|t| t.1 == f.1));
        if !its.is_empty() && its.iter().all(|t| t.1 > 0) {
            check_eq!(x.is_card(), unit, "pb:is_card", "{x}");
        }
        let conv = c.run("pb:into_card_constr", || x.clone().into_card_constr())?;
        match &conv {
            Ok(y) => check_eq!(card_set(y, n), set, "pb:into_card_constr", "{x} became {y}"),
            Err(PbToCardError::Tautology) => check!(set.iter().all(|b| *b), "pb:into_card_constr", "{x} no tautology"),
            Err(PbToCardError::Unsat) => check!(set.iter().all(|b| !*b), "pb:into_card_constr", "{x} not unsatisfiable"),
            Err(PbToCardError::NotACard) => check!(!unit || its.is_empty(), "pb:into_card_constr", "{x} refused"),
        }
        if !p.taut && !p.unsat && x.weight_sum() < 10_000 {
            let y = c.run("pb:extend_to_card_constr", || x.clone().extend_to_card_constr())?;
            check_eq!(card_set(&y, n), set, "pb:extend_to_card_constr", "{x} became {y}");
        }
        match x.clone() {
            PbConstraint::Ub(u) => {
                check_eq!(u.clone().decompose(), (its.clone(), x.bound()), "pb:decompose", "{x}");
                check_eq!(pb_set(&PbConstraint::Lb(c.run("pb:invert", || u.invert())?), n), set, "pb:invert", "{x}");
            }
            PbConstraint::Lb(u) => {
                check_eq!(u.clone().decompose(), (its.clone(), x.bound()), "pb:decompose", "{x}");
                check_eq!(pb_set(&PbConstraint::Ub(c.run("pb:invert", || u.invert())?), n), set, "pb:invert", "{x}");
            }
            PbConstraint::Eq(u) => {
                check_eq!(u.clone().decompose(), (its.clone(), x.bound()), "pb:decompose", "{x}");
                let (lb, ub) = u.split();
                let (s1, s2) = (pb_set(&PbConstraint::Lb(lb), n), pb_set(&PbConstraint::Ub(ub), n));
                check_eq!(s1.iter().zip(&s2).map(|(a, b)| *a && *b).collect::<Vec<_>>(), set, "pb:split", "{x}");
            }
        }
        if op != Op::Eq {
            use pigeons::ConstraintLike;
            let (r, t) = pig(&x.rhs(), x.sum_iter());
            check_eq!(sat_set(n, &|bits| sum(&t, bits) >= r), set, "pb:proof-form", "{x}: {t:?} >= {r}");
        }
        check_eq!(ConstraintRef::Pb(&x).to_string(), x.to_string(), "pb:display", "text");
        if c.rng.bool() {
            let more: Vec<(i32, i128)> = (0..c.rng.below(3)).map(|_| (c.rng.lit(n), weight(c))).collect();
            let w: Vec<(Lit, isize)> = more.iter().map(|t| (tolit(t.0), t.1 as isize)).collect();
            x.add(w);
            terms.extend(more);
        } else {
            // bounds set later are over the stored, positive form
            let t2: Vec<(i32, i128)> = x.iter().map(|(l, w)| (fromlit(*l), *w as i128)).collect();
            let hi: i128 = t2.iter().map(|t| t.1).sum();
            b = bound(c, 0, hi, &t2);
            terms = t2;
            x.set_bound(b as isize);
            check_eq!(x.bound(), b as isize, "pb:set_bound", "{x}");
        }
    }
    let u = PbConstraint::new_unit(tolit(c.rng.lit(n)));
    let l = fromlit(u.iter().next().unwrap().0);
    check_eq!(pb_set(&u, n), cube_set(&[l], n, true), "pb:unit", "{u}");
    check_eq!(u.weight_sum(), 1, "pb:unit", "{u}");
    let kk = cl(&vars);
    let y = PbConstraint::from(kk.clone());
    check_eq!(pb_set(&y, n), clause_set(&kk, n), "pb:from-clause", "{kk} became {y}");
    c.nontrivial(&format!("{op:?}{terms:?}{b}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C03

#[derive(Debug, Clone, PartialEq)]
pub enum Want {
    Sat(BTreeMap<u32, bool>),
    Unsat,
    Unknown,
    Err,
}

/// how a text with `s` and `v` lines has to be understood
pub fn status(out: &str) -> Option<Want> {
    let mut s: Vec<&str> = vec![];
    for l in out.lines() {
        if let Some(r) = l.strip_prefix("s ") {
            s.push(r.trim());
        }
    }
    s.dedup();
    match s.as_slice() {
        [] => Some(Want::Err),
        ["SATISFIABLE"] => None,
        ["UNSATISFIABLE"] => Some(Want::Unsat),
        ["UNKNOWN"] | ["INDETERMINATE"] => Some(Want::Unknown),
        _ => Some(Want::Err),
    }
}

pub fn asg_map(a: &Assignment) -> BTreeMap<u32, bool> {
    a.iter().map(|l| (l.vidx32(), l.is_pos())).collect()
}

pub fn junk(c: &mut Case) -> String {
    let opts = ["c comment", "c v 1 2 0", "", "o 12", "c s SATISFIABLE", "statistics", "vector 5", "version 1 2", "c", "sat"];
    (*c.rng.pick(&opts)).to_string()
}

/// a correct value section in one of three styles
pub fn vlines(c: &mut Case, style: usize) -> (Vec<String>, BTreeMap<u32, bool>) {
    let n = match c.rng.below(4) {
        0 => c.rng.us(0, 3),
        1 => c.rng.us(10, 200),
        _ => c.rng.us(2, 12),
    };
    let mut m = BTreeMap::new();
    let mut lines = vec![];
    match style {
        0 => {
            // SAT competition
            let mut toks: Vec<String> = vec![];
            let hole = c.rng.below(4) as u64;
            for i in 0..n as u32 {
                if hole > 0 && c.rng.chance(1, hole + 1) {
                    continue;
                }
                let b = c.rng.bool();
                m.insert(i, b);
                toks.push(format!("{}{}", if b { "" } else { "-" }, i + 1));
                if c.rng.chance(1, 12) {
                    toks.push(toks[c.rng.below(toks.len())].clone());
                }
            }
            if c.rng.bool() {
                c.rng.shuffle(&mut toks);
            }
            let zero = c.rng.below(3);
            if zero == 0 || toks.is_empty() {
                toks.push("0".into());
            }
            let mut i = 0;
            while i < toks.len() {
                let k = c.rng.us(1, (toks.len() - i).min(20));
                let sep = *c.rng.pick(&[" ", " ", " ", "  ", "\t"]);
                lines.push(format!("v {}{}", toks[i..i + k].join(sep), if c.rng.chance(1, 4) { " " } else { "" }));
                i += k;
            }
            if zero == 1 {
                lines.push("v 0".into());
            }
            // lines of lone 0/1 strings could as well be in the MaxSAT evaluation format
            if lines.iter().all(|l| l != "v 0" && l[1..].trim().chars().all(|ch| ch == '0' || ch == '1')) {
                lines.push("v 0".into());
            }
        }
        1 => {
            // MaxSAT evaluation
            let n = n.max(2);
            let mut s = String::new();
            for i in 0..n as u32 {
                let b = c.rng.bool();
                m.insert(i, b);
                s.push(if b { '1' } else { '0' });
            }
            let cut = if c.rng.chance(1, 4) { c.rng.us(1, n - 1) } else { n };
            let (a, b) = s.split_at(cut);
            // a lone 0 on a line means the end of a SAT competition section
            if a == "0" || b == "0" || b.is_empty() {
                lines.push(format!("v {s}"));
            } else {
                lines.push(format!("v {a}"));
                lines.push(format!("v {b}"));
            }
        }
        _ => {
            let mut toks: Vec<String> = vec![];
            for i in 0..n.max(1) as u32 {
                if c.rng.chance(1, 5) && i > 0 {
                    continue;
                }
                let b = c.rng.bool();
                m.insert(i, b);
                let neg = *c.rng.pick(&["-", "-", "~"]);
                let _ = neg;
                toks.push(format!("{}x{}", if b { "" } else { "-" }, i + 1));
            }
            if c.rng.bool() {
                c.rng.shuffle(&mut toks);
            }
            let mut i = 0;
            while i < toks.len() {
                let k = c.rng.us(1, (toks.len() - i).min(20));
                lines.push(format!("v {}", toks[i..i + k].join(" ")));
                i += k;
            }
        }
    }
    (lines, m)
}

fn parse(c: &mut Case, out: &str) -> Result<(Want, String), Fail> {
    let r = c.run("parse_sat_solver_output", || fio::parse_sat_solver_output(std::io::Cursor::new(out.to_string())))?;
    Ok(match r {
        Ok(fio::SolverOutput::Sat(a)) => (Want::Sat(asg_map(&a)), format!("{a}")),
        Ok(fio::SolverOutput::Unsat) => (Want::Unsat, String::new()),
        Ok(fio::SolverOutput::Unknown) => (Want::Unknown, String::new()),
        Err(e) => (Want::Err, e.to_string()),
    })
}

fn output(c: &mut Case) -> Res {
    let style = c.rng.below(3);
    let (v, m) = vlines(c, style);
    // faithful text
    let mut lines: Vec<String> = v.clone();
    let stat = match c.rng.below(10) {
        0 => "s UNSATISFIABLE",
        1 => "s UNKNOWN",
        2 => "s INDETERMINATE",
        _ => "s SATISFIABLE",
    };
    if stat != "s SATISFIABLE" && c.rng.bool() {
        lines.clear();
    }
    let at = if c.rng.chance(3, 4) { 0 } else { lines.len() };
    lines.insert(at, stat.to_string());
    for _ in 0..c.rng.below(4) {
        let at = c.rng.below(lines.len() + 1);
        let j = junk(c);
        lines.insert(at, j);
    }
    let nl = *c.rng.pick(&["\n", "\n", "\r\n"]);
    let text = lines.join(nl) + if c.rng.chance(3, 4) { nl } else { "" };
    c.log(&text);
    let want = match status(&text) {
        Some(w) => w,
        None => Want::Sat(m.clone()),
    };
    let (got, msg) = parse(c, &text)?;
    check_eq!(got, want, format!("style{style}:output"), "{msg} reading {text:?}");
    c.count("outputs read exactly", 1);
    // value lines alone
    if c.rng.bool() {
        let t = v.join("\n");
        match c.run("from_vline", || Assignment::from_vline(&t))? {
            Ok(a) => check_eq!(asg_map(&a), m, format!("style{style}:vline"), "{t:?}"),
            Err(e) => fail!(format!("style{style}:vline"), "{t:?} rejected: {e}"),
        }
        if style != 1 && v.len() > 1 {
            let mut a = c.run("from_vline", || Assignment::from_vline(&v[0]))?.map_err(|e| Fail { sig: "vline".into(), msg: e.to_string() })?;
            let rest = v[1..].join("\n");
            // the style of a single line may be ambiguous: only sections of one line each with several tokens
            if v.iter().all(|l| l.split_whitespace().count() > 2) {
                let r = c.run("extend_from_vline", || a.extend_from_vline(&rest))?;
                check!(r.is_ok(), format!("style{style}:extend"), "{r:?}");
                check_eq!(asg_map(&a), m, format!("style{style}:extend"), "{t:?}");
            }
        }
    }
    // printing and reading back
    if !m.is_empty() {
        let top = *m.keys().last().unwrap();
        let total: String = (0..=top).map(|i| if *m.get(&i).unwrap_or(&false) { '1' } else { '0' }).collect();
        let a: Assignment = total.chars().map(|ch| ch == '1').collect();
        let printed = a.to_string();
        check_eq!(printed, total, "print", "text of an assignment");
        if printed != "0" {
            let b = c.run("from_vline", || Assignment::from_vline(&format!("v {printed}")))?;
            check!(b.as_ref().is_ok_and(|b| *b == a), "print-read", "{printed} read as {b:?}");
        }
        let s: Vec<String> = a.iter().map(|l| l.to_ipasir().to_string()).collect();
        let b = c.run("from_vline", || Assignment::from_vline(&format!("v {} 0", s.join(" "))))?;
        check!(b.as_ref().is_ok_and(|b| *b == a), "print-read", "{s:?} read as {b:?}");
    }
    c.nontrivial(&text);
    Ok(())
}

/// corrupted text: an error, or exactly what the corrupted text states
fn corrupt(c: &mut Case) -> Res {
    let style = *c.rng.pick(&[0, 0, 2, 1]);
    let (mut v, m) = vlines(c, style);
    if m.is_empty() {
        return Ok(());
    }
    let var = *c.rng.pick(&m.keys().copied().collect::<Vec<_>>());
    let val = m[&var];
    let kind = c.rng.below(8);
    let name;
    let opposite = |style: usize| match style {
        0 => format!("v {}{} 0", if val { "-" } else { "" }, var + 1),
        _ => format!("v {}x{}", if val { "-" } else { "" }, var + 1),
    };
    let mut s = vec!["s SATISFIABLE".to_string()];
    match kind {
        0 if style != 1 => {
            name = "conflicting literal";
            let at = c.rng.below(v.len() + 1);
            v.insert(at, opposite(style));
        }
        1 => {
            name = "contradictory status";
            s.push((*c.rng.pick(&["s UNSATISFIABLE", "s UNKNOWN"])).to_string());
            c.rng.shuffle(&mut s);
        }
        2 => {
            name = "unknown status";
            s[0] = (*c.rng.pick(&["s SAT", "s MAYBE", "s satisfiable", "s 10", "s "])).to_string();
        }
        3 => {
            name = "no status";
            s.clear();
        }
        4 => {
            name = "no values";
            v.clear();
        }
        5 if style == 1 => {
            name = "bad character";
            let at = c.rng.below(v.len());
            let ch = *c.rng.pick(&["2", "a", "é", "-", "."]);
            // a line of two digits or more that is not a number sequence any more
            v[at] = format!("{}{ch}", v[at]);
            if ch == "2" {
                return Ok(()); // may be read as a SAT competition literal
            }
        }
        5 | 6 if style != 1 => {
            name = "malformed token";
            let at = c.rng.below(v.len());
            let t = *c.rng.pick(&["1a", "--1", "é", "2147483649000", "1.5", "-", "+-1", "99999999999", "4294967297"]);
            let at2 = v[at].len();
            let pos = if c.rng.bool() { 2 } else { at2 };
            let mut l = v[at].clone();
            l.insert_str(pos, &format!(" {t} "));
            v[at] = l;
        }
        7 if style == 2 => {
            name = "malformed variable";
            let t = *c.rng.pick(&["v x", "v x1x2", "v x1 y2", "v -", "v x-1", "v x99999999999", "v x0x"]);
            v.push(t.to_string());
        }
        _ => return Ok(()),
    }
    let mut lines = s;
    if c.rng.bool() {
        lines.extend(v.clone());
    } else {
        lines.splice(0..0, v.clone());
    }
    let text = lines.join("\n") + "\n";
    c.log(format!("{name}: {text}"));
    let (got, _) = parse(c, &text)?;
    check_eq!(got, Want::Err, format!("style{style}:{name}"), "reading {text:?}");
    // the value lines alone
    if kind == 0 || kind >= 5 {
        let t = v.join("\n");
        let r = c.run("from_vline", || Assignment::from_vline(&t))?;
        check!(r.is_err(), format!("style{style}:{name}:vline"), "{t:?} read as {r:?}");
    }
    if c.rng.chance(1, 5) {
        for t in ["", "x 1", "1 2 0", "é1 2", "v 1\n\nv 2", "v 1 2\nw 3", " v 1"] {
            let r = c.run("from_vline", || Assignment::from_vline(t))?;
            check!(r.is_err(), "vline:tag", "{t:?} read as {r:?}");
        }
    }
    c.nontrivial(&text);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C01",
            "indices at and around 0, powers of two and ten, the maximum and random ones, both polarities; pairs for the order; out-of-range indices and malformed texts; random histories on maps, sets and assignments against ordered-map models; distinct by (index, polarity) or history",
            vec![Sub::new("conversions", 3, conv), Sub::new("rejections", 1, reject), Sub::new("maps", 1, maps)],
        )
        .quick(8)
        .thorough(120),
        Prop::new(
            "C02",
            "random clauses, cardinality and PB constraints over up to 7 variables with repeated, opposing, zero-weight and negative terms, bounds at and around the extreme sums, followed by histories of additions and removals; all total assignments and random partial ones; distinct by final constraint",
            vec![Sub::new("clause", 1, clause), Sub::new("card", 1, card), Sub::new("pb", 2, pb)],
        )
        .quick(15)
        .thorough(300),
        Prop::new(
            "C03",
            "value sections in the three competition styles, cut into lines at random with holes, repetitions and surrounding lines, statuses before and after; corruptions of nine kinds; distinct by text",
            vec![Sub::new("output", 2, output), Sub::new("corrupt", 1, corrupt)],
        )
        .quick(12)
        .thorough(200),
    ]
}
