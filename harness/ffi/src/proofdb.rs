//! A clause database with forward checking of derivations
use std::collections::{BTreeMap, HashMap};

#[derive(Default, Clone)]
pub struct Db {
    pub live: BTreeMap<i64, Vec<i32>>,
}

#[derive(Default)]
struct Asg(HashMap<i32, bool>);
impl Asg {
    /// false on contradiction
    fn set(&mut self, l: i32) -> bool {
        *self.0.entry(l.abs()).or_insert(l > 0) == (l > 0)
    }
    fn val(&self, l: i32) -> Option<bool> {
        self.0.get(&l.abs()).map(|&b| b == (l > 0))
    }
}
enum State {
    Sat,
    False,
    Unit(i32),
    Open,
}
fn state(a: &Asg, c: &[i32]) -> State {
    let mut u = None;
    for &l in c {
        match a.val(l) {
            Some(true) => return State::Sat,
            Some(false) => (),
            None => match u {
                None => u = Some(l),
                Some(x) if x == l => (),
                Some(_) => return State::Open,
            },
        }
    }
    match u {
        None => State::False,
        Some(l) => State::Unit(l),
    }
}
fn conflict<'a>(cls: impl Iterator<Item = &'a Vec<i32>> + Clone, mut a: Asg) -> bool {
    loop {
        let mut changed = false;
        for c in cls.clone() {
            match state(&a, c) {
                State::False => return true,
                State::Unit(l) => {
                    a.set(l);
                    changed = true;
                }
                _ => (),
            }
        }
        if !changed {
            return false;
        }
    }
}
/// whether unit propagation refutes the clauses under the assumptions
pub fn has_conflict(cls: &[Vec<i32>], assumps: &[i32]) -> bool {
    let mut a = Asg::default();
    for &l in assumps {
        if !a.set(l) {
            return true;
        }
    }
    conflict(cls.iter(), a)
}

impl Db {
    pub fn insert(&mut self, id: i64, c: Vec<i32>) {
        self.live.insert(id, c);
    }
    pub fn remove(&mut self, id: i64) -> Option<Vec<i32>> {
        self.live.remove(&id)
    }
    fn negated(c: &[i32]) -> Option<Asg> {
        let mut a = Asg::default();
        for &l in c {
            if !a.set(-l) {
                return None;
            }
        }
        Some(a)
    }
    /// reverse unit propagation
    pub fn rup(&self, c: &[i32]) -> bool {
        let Some(a) = Self::negated(c) else { return true };
        conflict(self.live.values(), a)
    }
    /// resolution asymmetric tautology on a literal, also with regard to further clauses
    pub fn rat(&self, c: &[i32], pivot: i32, more: &[Vec<i32>]) -> bool {
        c.contains(&pivot)
            && self.live.values().chain(more).filter(|d| d.contains(&-pivot)).all(|d| {
                let r: Vec<i32> = c.iter().copied().chain(d.iter().copied().filter(|&l| l != -pivot)).collect();
                r.iter().any(|l| r.contains(&-l)) || self.rup(&r)
            })
    }
    /// a chain of clauses that become unit one after the other, and finally false
    pub fn hints(&self, c: &[i32], hints: &[i64]) -> Result<(), String> {
        let Some(mut a) = Self::negated(c) else { return Ok(()) };
        for &h in hints {
            let Some(d) = self.live.get(&h) else { return Err(format!("no clause {h}")) };
            match state(&a, d) {
                State::False => return Ok(()),
                State::Unit(l) => {
                    a.set(l);
                }
                // superfluous, CaDiCaL rarely does this
                State::Sat => (),
                State::Open => return Err(format!("clause {h} {d:?} is not unit")),
            }
        }
        Err("no conflict".into())
    }
}
