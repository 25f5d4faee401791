//! Reference SAT oracle, independent of the code under test (wraps the batsat crate directly and
//! offers plain enumeration). Literals are nonzero integers.
#[cfg(not(miri))]
pub use with_batsat::Sat;
#[cfg(not(miri))]
mod with_batsat {
use batsat::{lbool, BasicSolver, Lit as BLit, SolverInterface};

pub struct Sat {
    s: BasicSolver,
    nv: usize,
    pub ok: bool,
}

impl Default for Sat {
    fn default() -> Self {
        Self::new()
    }
}

impl Sat {
    pub fn new() -> Self {
        Sat { s: BasicSolver::default(), nv: 0, ok: true }
    }
    pub fn from_clauses<'a>(cls: impl IntoIterator<Item = &'a Vec<i32>>) -> Self {
        let mut s = Self::new();
        for c in cls {
            s.add(c);
        }
        s
    }
    fn lit(&mut self, l: i32) -> BLit {
        let v = l.unsigned_abs() as usize;
        while self.nv < v {
            self.s.new_var_default();
            self.nv += 1;
        }
        BLit::new(batsat::Var::unsafe_from_idx((v - 1) as u32), l > 0)
    }
    pub fn add(&mut self, c: &[i32]) {
        let mut cl: Vec<BLit> = c.iter().map(|&l| self.lit(l)).collect();
        if !self.s.add_clause_reuse(&mut cl) {
            self.ok = false;
        }
    }
    pub fn solve(&mut self, assumps: &[i32]) -> bool {
        if !self.ok {
            return false;
        }
        let a: Vec<BLit> = assumps.iter().map(|&l| self.lit(l)).collect();
        match self.s.solve_limited(&a) {
            x if x == lbool::TRUE => true,
            x if x == lbool::FALSE => false,
            _ => panic!("oracle solver undecided"),
        }
    }
    /// value of a variable in the last model
    pub fn val(&self, v: i32) -> bool {
        if v as usize > self.nv {
            return false;
        }
        self.s.value_var(batsat::Var::unsafe_from_idx((v - 1) as u32)) == lbool::TRUE
    }
}
}

/// work done by the oracles in the current case: an interpreter is to spend its time on the code that is watched
#[cfg(miri)]
pub static WORK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn spend(_n: usize) {
    #[cfg(miri)]
    if WORK.fetch_add(_n, std::sync::atomic::Ordering::Relaxed) > 4_000 {
        panic!("harness/: enough for the interpreter");
    }
}

/// A plain backtracking search, for the interpreter (which objects to the solver used otherwise)
#[cfg(miri)]
pub struct Sat {
    cls: Vec<Vec<i32>>,
    model: Vec<i32>,
    pub ok: bool,
}
#[cfg(miri)]
impl Default for Sat {
    fn default() -> Self {
        Self::new()
    }
}
#[cfg(miri)]
impl Sat {
    pub fn new() -> Self {
        Sat { cls: vec![], model: vec![], ok: true }
    }
    pub fn from_clauses<'a>(cls: impl IntoIterator<Item = &'a Vec<i32>>) -> Self {
        let mut s = Self::new();
        for c in cls {
            s.add(c);
        }
        s
    }
    pub fn add(&mut self, c: &[i32]) {
        self.ok &= !c.is_empty();
        self.cls.push(c.to_vec());
    }
    pub fn solve(&mut self, assumps: &[i32]) -> bool {
        fn go(cls: &[Vec<i32>], a: &[i32]) -> Option<Vec<i32>> {
            let t = unit_propagate(cls, a)?;
            let open = cls.iter().find(|c| !c.iter().any(|l| t.contains(l)));
            let Some(l) = open.and_then(|c| c.iter().find(|l| !t.contains(&-**l))) else { return Some(t) };
            [*l, -*l].iter().find_map(|&l| {
                let mut n = t.clone();
                n.push(l);
                go(cls, &n)
            })
        }
        match go(&self.cls, assumps) {
            Some(m) => {
                self.model = m;
                true
            }
            None => false,
        }
    }
    pub fn val(&self, v: i32) -> bool {
        self.model.contains(&v)
    }
}

/// value of literal under bit assignment (bit v-1 = var v)
pub fn lit_true(l: i32, bits: u64) -> bool {
    let b = bits >> (l.unsigned_abs() - 1) & 1 == 1;
    if l > 0 {
        b
    } else {
        !b
    }
}

pub fn clause_true(c: &[i32], bits: u64) -> bool {
    c.iter().any(|&l| lit_true(l, bits))
}

pub fn cnf_true(cs: &[Vec<i32>], bits: u64) -> bool {
    cs.iter().all(|c| clause_true(c, bits))
}

/// assumptions fixing variables 1..=n to the bits
pub fn assumps(bits: u64, n: usize) -> Vec<i32> {
    (1..=n as i32).map(|v| if bits >> (v - 1) & 1 == 1 { v } else { -v }).collect()
}

/// Unit propagation on a clause list; None on conflict
pub fn unit_propagate(cls: &[Vec<i32>], start: &[i32]) -> Option<Vec<i32>> {
    let mv = cls.iter().flatten().chain(start).map(|l| l.unsigned_abs() as usize).max().unwrap_or(0);
    let mut val = vec![0i8; mv + 1];
    let mut trail = vec![];
    for &l in start {
        let v = l.unsigned_abs() as usize;
        let s = l.signum() as i8;
        if val[v] == -s {
            return None;
        }
        if val[v] == 0 {
            val[v] = s;
            trail.push(l);
        }
    }
    loop {
        let mut changed = false;
        for c in cls {
            spend(c.len());
            let mut unassigned = None;
            let mut n_un = 0;
            let mut sat = false;
            for &l in c {
                let x = val[l.unsigned_abs() as usize] * l.signum() as i8;
                if x > 0 {
                    sat = true;
                    break;
                }
                if x == 0 && unassigned != Some(l) {
                    n_un += 1;
                    unassigned = Some(l);
                }
            }
            if sat {
                continue;
            }
            match n_un {
                0 => return None,
                1 => {
                    let l = unassigned.unwrap();
                    val[l.unsigned_abs() as usize] = l.signum() as i8;
                    trail.push(l);
                    changed = true;
                }
                _ => {}
            }
        }
        if !changed {
            return Some(trail);
        }
    }
}
