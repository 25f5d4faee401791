//! Monitors for at-most-one encodings (C07)
use crate::enc::*;
use rustsat::encodings::am1::{self, Encode};
use rustsat::encodings::EncodeStats;
use rustsat::types::Lit;
use vcore::oracle::{assumps, unit_propagate, Sat};
use vcore::{check, check_eq, Case, Fail, Prop, Res, Sub};

trait DynAm1 {
    fn extend(&mut self, l: &[i32]);
    fn encode(&mut self, col: &mut Col, vm: &mut Vm) -> Result<(), rustsat::OutOfMemory>;
    fn n_lits(&self) -> usize;
    fn stats(&self) -> (usize, u32);
    fn roundtrip(&mut self, fmt: usize) -> Result<&'static str, String>;
}
struct W<T>(T);
impl<T: Encode + EncodeStats + Extend<Lit> + serde::Serialize + serde::de::DeserializeOwned> DynAm1 for W<T> {
    fn roundtrip(&mut self, fmt: usize) -> Result<&'static str, String> {
        let (y, n) = crate::rt::trip(&self.0, fmt)?;
        self.0 = y;
        Ok(n)
    }
    fn extend(&mut self, l: &[i32]) {
        self.0.extend(l.iter().map(|&l| tolit(l)));
    }
    fn encode(&mut self, col: &mut Col, vm: &mut Vm) -> Result<(), rustsat::OutOfMemory> {
        self.0.encode(col, vm)
    }
    fn n_lits(&self) -> usize {
        self.0.n_lits()
    }
    fn stats(&self) -> (usize, u32) {
        (self.0.n_clauses(), self.0.n_vars())
    }
}
fn mk<T: Encode + EncodeStats + Extend<Lit> + FromIterator<Lit> + serde::Serialize + serde::de::DeserializeOwned + 'static>(l: &[i32]) -> Box<dyn DynAm1> {
    Box::new(W(l.iter().map(|&l| tolit(l)).collect::<T>()))
}
type Make = (&'static str, fn(&[i32]) -> Box<dyn DynAm1>);
const ENCS: [Make; 16] = [
    ("pairwise", mk::<am1::Pairwise>),
    ("ladder", mk::<am1::Ladder>),
    ("bitwise", mk::<am1::Bitwise>),
    ("bimander<1>", mk::<am1::Bimander<1>>),
    ("bimander<2>", mk::<am1::Bimander<2>>),
    ("bimander<3,ladder>", mk::<am1::Bimander<3, am1::Ladder>>),
    ("bimander<4>", mk::<am1::Bimander>),
    ("bimander<5,bitwise>", mk::<am1::Bimander<5, am1::Bitwise>>),
    ("commander<2>", mk::<am1::Commander<2>>),
    ("commander<3,ladder>", mk::<am1::Commander<3, am1::Ladder>>),
    ("commander<4>", mk::<am1::Commander>),
    ("commander<5,bitwise>", mk::<am1::Commander<5, am1::Bitwise>>),
    ("product", mk::<am1::TwoProduct>),
    ("product<ladder>", mk::<am1::TwoProduct<am1::Ladder>>),
    ("commander<3,product>", mk::<am1::Commander<3, am1::TwoProduct>>),
    ("bimander<3,commander>", mk::<am1::Bimander<3, am1::Commander<2>>>),
];

fn restore(c: &mut Case, e: &mut Box<dyn DynAm1>, name: &str) -> Res {
    if crate::rt::now(c) {
        let fmt = c.rng.below(crate::rt::FORMATS);
        let st = (e.stats(), e.n_lits());
        match c.run(&format!("{name}:roundtrip"), || e.roundtrip(fmt))? {
            Ok(n) => c.count(n, 1),
            Err(x) => return Err(Fail { sig: format!("roundtrip:{name}"), msg: x }),
        }
        c.count("encoders restored in their history", 1);
        check_eq!((e.stats(), e.n_lits()), st, format!("answers:{name}"), "numbers after restoring");
    }
    Ok(())
}

fn build(c: &mut Case, max: usize) -> Result<(Box<dyn DynAm1>, Vec<i32>, usize, &'static str), Fail> {
    let (name, make) = ENCS[c.idx as usize % ENCS.len()];
    // walk through the sizes systematically first, then at random
    let round = c.idx as usize / ENCS.len();
    let n = if round < 2 * max { round % (max + 1) } else { c.rng.us(0, max) };
    let nin = (n + c.rng.below(3)).max(1);
    let lits = c.rng.distinct_lits(nin, n);
    // groups in which the literals are added
    let mut groups: Vec<Vec<i32>> = vec![];
    let mut rest = &lits[..];
    match c.rng.below(3) {
        0 => {}
        m => {
            let k = if rest.is_empty() { 0 } else { c.rng.below(rest.len() + 1) };
            groups.push(rest[..k].to_vec());
            rest = &rest[k..];
            while m == 2 && !rest.is_empty() {
                let k = c.rng.us(1, rest.len());
                groups.push(rest[..k].to_vec());
                rest = &rest[k..];
            }
        }
    }
    if !rest.is_empty() || groups.is_empty() {
        groups.push(rest.to_vec());
    }
    c.log(format!("{name} {groups:?}"));
    let mut e = c.run(&format!("{name}:construct"), || make(&groups[0]))?;
    for g in &groups[1..] {
        restore(c, &mut e, name)?;
        let ee = &mut e;
        c.run(&format!("{name}:extend"), || ee.extend(g))?;
    }
    check_eq!(e.n_lits(), n, format!("{name}:n_lits"), "number of literals");
    Ok((e, lits, nin, name))
}

pub fn semantics(c: &mut Case) -> Res {
    let (mut e, lits, nin, name) = build(c, if c.thorough { 40 } else { 26 })?;
    let mut vm = Vm::new(nin + c.rng.below(2));
    let mut col = Col::default();
    restore(c, &mut e, name)?;
    c.run(&format!("{name}:encode"), || e.encode(&mut col, &mut vm))?.map_err(|e| Fail { sig: format!("{name}:error"), msg: format!("{e}") })?;
    let mut sat = Sat::from_clauses(&col.cls);
    let n = lits.len();
    let mut ones: Vec<u64> = vec![];
    if nin <= 9 {
        ones.extend(0..1u64 << nin);
    } else {
        // none, every single one, every pair, random more (over the literals; other variables random)
        let base: u64 = lits.iter().filter(|l| **l < 0).map(|l| 1u64 << (l.unsigned_abs() - 1)).sum();
        let bit = |i: usize| 1u64 << (lits[i].unsigned_abs() - 1);
        ones.push(base);
        for i in 0..n {
            ones.push(base ^ bit(i));
            for j in 0..i {
                ones.push(base ^ bit(i) ^ bit(j));
            }
        }
        for _ in 0..20 {
            ones.push(c.rng.next() & ((1 << nin) - 1));
        }
    }
    for a in ones {
        let t = lits.iter().filter(|&&l| vcore::oracle::lit_true(l, a)).count();
        let got = sat.solve(&assumps(a, nin));
        c.count("projections", 1);
        check!(got == (t <= 1), format!("{name}:{}", if got { "admits" } else { "excludes" }), "{t} of {n} literals true in {:?}: {}", assumps(a, nin), if got { "admitted" } else { "excluded" });
    }
    // propagation: one true input forces the others
    for i in 0..n.min(12) {
        let i = if n > 12 { c.rng.below(n) } else { i };
        c.count("propagations", 1);
        match unit_propagate(&col.cls, &[lits[i]]) {
            None => return Err(Fail { sig: format!("{name}:propagation-conflict"), msg: format!("setting {} alone conflicts", lits[i]) }),
            Some(tr) => {
                for (j, l) in lits.iter().enumerate() {
                    check!(j == i || tr.contains(&-l), format!("{name}:propagation"), "{} does not propagate {}", lits[i], -l);
                }
            }
        }
    }
    c.nontrivial(&format!("{name}|{lits:?}"));
    Ok(())
}

pub fn audit(c: &mut Case) -> Res {
    let (mut e, lits, nin, name) = build(c, 40)?;
    let mut vm = Vm::new(nin + c.rng.below(2));
    let mut col = Col::default();
    let rounds = c.rng.us(1, 2);
    for _ in 0..rounds {
        restore(c, &mut e, name)?;
        c.run(&format!("{name}:encode"), || e.encode(&mut col, &mut vm))?.map_err(|e| Fail { sig: format!("{name}:error"), msg: format!("{e}") })?;
        let own: std::collections::BTreeSet<i32> = vm.out.iter().copied().collect();
        for cl in &col.cls {
            for l in cl {
                check!(own.contains(&l.abs()) || lits.iter().any(|x| x.abs() == l.abs()), format!("{name}:foreign"), "clause {cl:?} uses a foreign variable");
            }
        }
        check_eq!(e.stats(), (col.cls.len(), vm.out.len() as u32), format!("{name}:stats"), "reported vs delivered clauses and variables");
        check!(vm.bad.is_none(), format!("{name}:manager-misuse"), "{:?}", vm.bad);
    }
    c.nontrivial(&format!("{name}|{lits:?}|{rounds}"));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C07",
        "all encodings with several group sizes and sub-encodings, literal lists of size 0..26 (40) with random signs, foreign variables and groupings, all sizes in turn; exhaustive projection up to 9 variables, else all assignments with at most two true literals plus random ones; distinct by (encoding, literals)",
        vec![Sub::new("projection", 1, semantics)],
    )
    .quick(20)]
}
