//! Monitors for the C interface (C20): a C program compiled against the header and linked with the
//! static library executes the calls; clauses, variables and assumptions are judged as for the Rust
//! interface
use crate::enc::*;
use crate::m_enc::*;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Read, Write};
use std::ops::Bound;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use vcore::oracle::{assumps, Sat};
use vcore::{check, check_eq, fail, Case, Prop, Res, Sub};

struct Drv {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    free: Vec<usize>,
    /// (kind, bytes still allocated) of dropped encodings
    leaks: Vec<(usize, i64)>,
    /// slots handed out so far, to see which encodings were the only one all their life
    made: u64,
    calls: u64,
    dead: bool,
}
thread_local! {
    static DRV: RefCell<Option<Rc<RefCell<Drv>>>> = const { RefCell::new(None) };
}
fn spawn() -> Drv {
    let p = std::env::var_os("VH_CAPI").expect("VH_CAPI names the driver");
    let mut child = Command::new(p)
        .env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:handle_abort=1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("driver starts");
    let inp = child.stdin.take().unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    Drv { child, inp, out, free: (0..64).rev().collect(), leaks: vec![], made: 0, calls: 0, dead: false }
}
fn drv() -> Rc<RefCell<Drv>> {
    DRV.with(|d| {
        let mut d = d.borrow_mut();
        if d.as_ref().is_none_or(|x| x.borrow().dead) {
            *d = Some(Rc::new(RefCell::new(spawn())));
        }
        d.as_ref().unwrap().clone()
    })
}
impl Drop for Drv {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Drv {
    /// sends a call, gives the numbers printed; panics if the process dies
    fn call(&mut self, line: &str) -> Vec<i64> {
        assert!(!self.dead, "the process died in an earlier call");
        self.calls += 1;
        let mut ans = String::new();
        let ok = self.inp.write_all(line.as_bytes()).and_then(|()| self.inp.write_all(b"\n")).and_then(|()| self.inp.flush()).is_ok() && self.out.read_line(&mut ans).is_ok_and(|n| n > 0) && ans.ends_with('\n');
        if !ok {
            self.dead = true;
            let _ = self.child.kill();
            let mut err = String::new();
            if let Some(mut e) = self.child.stderr.take() {
                let mut b = vec![];
                let _ = e.read_to_end(&mut b);
                err = String::from_utf8_lossy(&b).chars().take(1500).collect();
            }
            panic!("process calling the C interface died in `{line}`: {err}");
        }
        ans.split_whitespace().map(|x| x.parse().expect("driver prints numbers")).collect()
    }
}

const AM1: [&str; 6] = ["pairwise", "ladder", "bitwise", "commander", "bimander", "twoproduct"];
const TOT: usize = 7;
const GTE: usize = 8;
const ADDER: usize = 9;
const DPW: usize = 10;

struct Obj {
    d: Rc<RefCell<Drv>>,
    id: usize,
    kind: usize,
    /// number in order, if it was the only one when it was made
    alone: Option<u64>,
}
impl Obj {
    fn new(kind: usize) -> Self {
        let d = drv();
        let id = d.borrow_mut().free.pop().expect("slots");
        let r = d.borrow_mut().call(&format!("N {id} {kind}"));
        assert_eq!(r, [1], "new returns an object");
        let alone = {
            let mut d = d.borrow_mut();
            d.made += 1;
            (d.free.len() == 63).then_some(d.made)
        };
        Obj { d, id, kind, alone }
    }
    fn call(&self, op: &str, args: &str) -> Vec<i64> {
        self.d.borrow_mut().call(&format!("{op} {} {args}", self.id))
    }
    fn add(&self, l: i32, w: usize) -> i64 {
        self.call("A", &format!("{l} {w}"))[0]
    }
    fn encode(&self, op: &str, a: usize, b: usize, col: &mut Col, vm: &mut Vm) {
        use rustsat::instances::ManageVars;
        let mut r = self.call(op, &format!("{} {a} {b}", vm.n_used()));
        let n = r.pop().expect("variable count") as u32;
        let mut cl = vec![];
        for l in r {
            if l == 0 {
                col.cls.push(std::mem::take(&mut cl));
            } else {
                cl.push(i32::try_from(l).unwrap());
            }
        }
        assert!(cl.is_empty(), "last clause {cl:?} not terminated");
        assert!(n >= vm.n_used(), "variable count decreased from {} to {n}", vm.n_used());
        while vm.n_used() < n {
            vm.new_var();
        }
    }
    fn enforce(&self, op: &str, b: usize) -> Result<Vec<i32>, EErr> {
        let mut r = self.call(op, &b.to_string());
        match r.pop().expect("status") {
            0 => Ok(r.into_iter().map(|x| i32::try_from(x).unwrap()).collect()),
            1 => Err(EErr::NotEncoded),
            2 => Err(EErr::Unsat),
            s => panic!("status {s} from enforcing"),
        }
    }
}
impl Drop for Obj {
    fn drop(&mut self) {
        if self.d.borrow().dead {
            return;
        }
        let bytes = self.d.borrow_mut().call(&format!("D {}", self.id))[0];
        let mut d = self.d.borrow_mut();
        d.free.push(self.id);
        if self.alone == Some(d.made) {
            d.leaks.push((self.kind, bytes));
        }
    }
}

struct CEnc {
    o: Obj,
    total: usize,
}
fn make(kind: usize, lits: &[(i32, usize)]) -> Box<dyn DynEnc> {
    let mut e = CEnc { o: Obj::new(kind), total: 0 };
    e.extend(lits);
    Box::new(e)
}
impl DynEnc for CEnc {
    fn name(&self) -> &'static str {
        "capi"
    }
    fn kinds(&self) -> &'static [Kind] {
        if matches!(self.o.kind, TOT | ADDER) {
            &[Kind::Ub, Kind::Lb]
        } else {
            &[Kind::Ub]
        }
    }
    fn incremental(&self) -> bool {
        true
    }
    fn extendable(&self) -> bool {
        self.o.kind != DPW
    }
    fn is_card(&self) -> bool {
        self.o.kind == TOT
    }
    fn extend(&mut self, lits: &[(i32, usize)]) {
        for &(l, w) in lits {
            // calls that have to be refused and change nothing
            if (l + self.o.id as i32) % 5 == 0 {
                assert_eq!(self.o.add(0, w), 4, "literal 0 has to be refused as invalid");
            }
            assert_eq!(self.o.add(l, w), 0, "adding literal {l} with weight {w}");
            self.total += w;
        }
    }
    fn encode(&mut self, k: Kind, _change: bool, r: Range, col: &mut Col, vm: &mut Vm) {
        let lo = match r.0 {
            Bound::Included(x) => x,
            Bound::Excluded(x) => x + 1,
            Bound::Unbounded => 0,
        };
        let hi = match r.1 {
            Bound::Included(x) => x,
            Bound::Excluded(0) => return,
            Bound::Excluded(x) => x - 1,
            Bound::Unbounded => usize::MAX,
        };
        if lo > hi {
            // refused by an assertion, as documented
            return;
        }
        self.o.encode(if k == Kind::Ub { "U" } else { "L" }, lo, hi, col, vm);
    }
    fn enforce(&self, k: Kind, b: usize) -> Result<Vec<i32>, EErr> {
        self.o.enforce(if k == Kind::Ub { "u" } else { "l" }, b)
    }
    fn reserve(&mut self, vm: &mut Vm) {
        self.o.encode("R", 0, 0, &mut Col::default(), vm);
    }
    fn stats(&self) -> Option<(usize, u32)> {
        None
    }
    fn total(&self) -> usize {
        self.total
    }
    fn next_higher(&self, v: usize) -> usize {
        v + 1
    }
    fn next_lower(&self, v: usize) -> usize {
        v - 1
    }
    fn coarse(&self, _k: Kind, b: usize) -> usize {
        if self.o.kind == DPW {
            self.o.call("dc", &format!("{b} 0"))[0] as usize
        } else {
            b
        }
    }
}
const BOTH: &[Kind] = &[Kind::Ub, Kind::Lb];
const UB: &[Kind] = &[Kind::Ub];
static MAKERS: [Maker; 4] = [
    Maker { name: "capi/Totalizer", kinds: BOTH, incremental: true, extendable: true, card: true, make: |l| make(TOT, l) },
    Maker { name: "capi/Gte", kinds: UB, incremental: true, extendable: true, card: false, make: |l| make(GTE, l) },
    Maker { name: "capi/BinaryAdder", kinds: BOTH, incremental: true, extendable: true, card: false, make: |l| make(ADDER, l) },
    Maker { name: "capi/Dpw", kinds: UB, incremental: true, extendable: false, card: false, make: |l| make(DPW, l) },
];
fn pick(c: &Case) -> &'static Maker {
    &MAKERS[c.idx as usize % 4]
}

/// after a case: every encoding was dropped, nothing is left
fn settle(c: &mut Case, r: Res) -> Res {
    let d = drv();
    let mut d = d.borrow_mut();
    c.count("calls of the C interface", std::mem::take(&mut d.calls));
    let leaks = std::mem::take(&mut d.leaks);
    r?;
    for (k, bytes) in leaks {
        c.count("encodings freed", 1);
        check!(bytes == 0, format!("leak:{k}"), "{bytes} bytes still allocated after dropping an encoding of kind {k}");
    }
    Ok(())
}
fn tot_after_calls(c: &mut Case, f: impl FnOnce(&mut Case) -> Res) -> Res {
    let r = f(c);
    settle(c, r)
}

fn am1(c: &mut Case) -> Res {
    let kind = c.idx as usize % 6 + 1;
    let name = AM1[kind - 1];
    let round = c.idx as usize / 6;
    let n = if round < 40 { round % 20 } else { c.rng.us(0, 24) };
    let nin = (n + c.rng.below(3)).max(1);
    let lits = c.rng.distinct_lits(nin, n);
    c.log(format!("{name} {lits:?}"));
    let o = c.run("new", || Obj::new(kind))?;
    for &l in &lits {
        if c.rng.chance(1, 6) {
            let s = c.run("add", || o.add(0, 1))?;
            check_eq!(s, 4, "invalid-literal", "status for literal 0");
        }
        let s = c.run("add", || o.add(l, 1))?;
        check_eq!(s, 0, "add-status", "status for literal {l}");
    }
    let used = nin + c.rng.below(3);
    let mut vm = Vm::new(used);
    let mut col = Col::default();
    c.run("encode", || o.encode("U", 0, 0, &mut col, &mut vm))?;
    for cl in &col.cls {
        for l in cl {
            check!(l.unsigned_abs() as usize > used && vm.out.contains(&l.abs()) || lits.iter().any(|x| x.abs() == l.abs()), "foreign", "{name}: clause {cl:?} uses a foreign variable");
        }
    }
    let mut sat = Sat::from_clauses(&col.cls);
    let alphas = all_alphas(&mut c.rng, nin, 300);
    let base: u64 = lits.iter().filter(|l| **l < 0).map(|l| 1u64 << (l.unsigned_abs() - 1)).sum();
    let bit = |l: i32| 1u64 << (l.unsigned_abs() - 1);
    let mut more = vec![base];
    for &a in &lits {
        more.push(base ^ bit(a));
        for &b in &lits {
            if b.abs() < a.abs() {
                more.push(base ^ bit(a) ^ bit(b));
            }
        }
    }
    for a in alphas.into_iter().chain(more) {
        let t = lits.iter().filter(|&&l| vcore::oracle::lit_true(l, a)).count();
        let got = sat.solve(&assumps(a, nin));
        c.count("projections", 1);
        check!(got == (t <= 1), format!("{name}:{}", if got { "admits" } else { "excludes" }), "{t} of {n} literals true in {:?}: {}", assumps(a, nin), if got { "admitted" } else { "excluded" });
    }
    c.nontrivial(&format!("{name}|{lits:?}"));
    Ok(())
}

/// Several objects over one variable counter, all variables apart
fn several(c: &mut Case) -> Res {
    let nin = c.rng.us(2, 6);
    let mut vm = Vm::new(nin);
    let mut col = Col::default();
    let mut hs = vec![];
    for _ in 0..c.rng.us(2, 3) {
        let mk = c.rng.pick(&MAKERS);
        let n = c.rng.us(1, nin);
        let lits = gen_inputs(c, mk, n, nin);
        hs.push(Hist::new(c, mk, lits)?);
    }
    for _ in 0..c.rng.us(2, 7) {
        let i = c.rng.below(hs.len());
        let k = *c.rng.pick(hs[i].mk.kinds);
        let r = gen_range(&mut c.rng, hs[i].total());
        c.log(format!("encoding {i}:"));
        if c.rng.chance(1, 5) {
            hs[i].reserve(c, &mut col, &mut vm, Mode::Audit)?;
        } else {
            hs[i].encode(c, k, true, r, &mut col, &mut vm, Mode::Audit)?;
        }
    }
    let mut feed = Feed::default();
    feed.sync(&col);
    let alphas = all_alphas(&mut c.rng, nin, 64);
    for h in &mut hs {
        h.check_neutral(c, &mut feed, &alphas, nin)?;
        let bounds = interesting(&mut c.rng, &h.lits, 4);
        for &b in &bounds {
            for &k in h.mk.kinds {
                h.check_bound(c, &mut feed, k, b, &alphas, nin, None)?;
            }
        }
    }
    let d = c.log_text().to_string();
    c.nontrivial(&d);
    Ok(())
}

/// reserving is enough for all later encodings
fn reserve(c: &mut Case) -> Res {
    use rustsat::instances::ManageVars;
    let mk = pick(c);
    let n = c.rng.us(1, 7);
    let lits = gen_inputs(c, mk, n, n);
    let mut h = Hist::new(c, mk, lits)?;
    let mut vm = Vm::new(n + c.rng.below(3));
    let mut col = Col::default();
    h.reserve(c, &mut col, &mut vm, Mode::Audit)?;
    let used = vm.n_used();
    for _ in 0..c.rng.us(1, 4) {
        // (promised for upper bounds)
        let r = gen_range(&mut c.rng, h.total());
        h.encode(c, Kind::Ub, true, r, &mut col, &mut vm, Mode::Audit)?;
        if vm.n_used() != used && mk.name.contains("Adder") && c.known("capi/BinaryAdder:reserved") {
            return Ok(());
        }
        check_eq!(vm.n_used(), used, format!("{}:reserved", mk.name), "variables used after encoding what was reserved");
        c.count("encodings within reserved variables", 1);
    }
    let d = c.log_text().to_string();
    c.nontrivial(&d);
    Ok(())
}

/// precision, coarse bounds, limits and statuses of the watchdog
fn dpw(c: &mut Case) -> Res {
    let n = c.rng.us(1, 7);
    let ls = c.rng.distinct_lits(n, n);
    let ws = gen_weights(&mut c.rng, &MAKERS[3], n, 200);
    let lits: Vec<(i32, usize)> = ls.into_iter().zip(ws).collect();
    c.log(format!("dpw {lits:?}"));
    let o = c.run("new", || Obj::new(DPW))?;
    for &(l, w) in &lits {
        check_eq!(c.run("add", || o.add(l, w))?, 0, "add-status", "status for literal {l}");
    }
    let mut vm = Vm::new(n);
    let mut col = Col::default();
    let maxw = lits.iter().map(|x| x.1).max().unwrap();
    let mut prec = 1usize << c.rng.below(maxw.ilog2() as usize + 1);
    let alphas = all_alphas(&mut c.rng, n, 128);
    let real: usize = lits.iter().map(|x| x.1).sum();
    let mut encoded = false;
    let (mut lo_enc, mut hi_enc);
    loop {
        let bad = [3usize, 5, 6, 7, 12, 100][c.rng.below(6)];
        let s = c.run("set_precision", || o.call("ds", &format!("{bad} 0")))?[0];
        check_eq!(s, 5, "precision-not-pow2", "status for divisor {bad}");
        c.log(format!("precision {prec}"));
        let s = c.run("set_precision", || o.call("ds", &format!("{prec} 0")))?[0];
        check_eq!(s, 0, "precision-status", "status for divisor {prec}");
        if encoded && n > 1 {
            let s = c.run("set_precision", || o.call("ds", &format!("{} 0", prec * 2)))?[0];
            check_eq!(s, 6, "precision-decreased", "status for a larger divisor");
            let s = c.run("add", || o.add(1, 3))?;
            check_eq!(s, 3, "late-input", "status for adding to an encoding that was built");
            c.count("refused calls", 2);
        }
        let scaled: Vec<(i32, usize)> = lits.iter().map(|&(l, w)| (l, w / prec)).collect();
        // everything or some range of bounds
        let total: usize = scaled.iter().map(|x| x.1).sum();
        let (elo, ehi) = if c.rng.bool() {
            (0, usize::MAX)
        } else {
            let x = c.rng.us(0, total);
            (x, c.rng.us(x, total))
        };
        c.log(format!("encode {elo}..={ehi}"));
        c.run("encode", || o.encode("U", elo, ehi, &mut col, &mut vm))?;
        (lo_enc, hi_enc) = (elo, ehi);
        encoded = elo < real;
        let mut sat = Sat::from_clauses(&col.cls);
        for b in interesting(&mut c.rng, &scaled, 10) {
            let cu = c.run("coarse", || o.call("dc", &format!("{b} 0")))?[0];
            check!(cu >= 0 && cu as usize <= b, "coarse-ub", "coarse_ub({b}) = {cu}");
            for b in [b, cu as usize] {
                let e = match c.run("enforce", || o.enforce("u", b))? {
                    Ok(e) => e,
                    Err(EErr::NotEncoded) if b < lo_enc || b > hi_enc => continue,
                    Err(e) => fail!("dpw-not-encoded", "precision {prec}: bound {b} gives {e:?}"),
                };
                for &a in &alphas {
                    let mut asm = assumps(a, n);
                    asm.extend_from_slice(&e);
                    let s = wsum(&scaled, a);
                    let got = sat.solve(&asm);
                    c.count("projections", 1);
                    check!(got == (s <= b as u128), format!("dpw-{}", if got { "admits" } else { "excludes" }), "precision {prec}: bound {b}, enforcing {e:?}, inputs {:?} with scaled sum {s}", assumps(a, n));
                }
            }
        }
        c.nontrivial(&format!("{lits:?}|{prec}"));
        let is_max = c.run("is_max", || o.call("dm", "0 0"))?[0] == 1;
        if prec == 1 {
            check!(is_max || elo >= real, "dpw-max-precision", "not at maximum precision after encoding with divisor 1");
            break;
        }
        if c.rng.chance(1, 4) {
            break;
        }
        let next = c.run("next_precision", || o.call("dn", "0 0"))?[0] as usize;
        check!(next.is_power_of_two(), "dpw-next-precision", "next precision {next}");
        prec = if c.rng.bool() { next.min(prec / 2).max(1) } else { 1usize << c.rng.below(prec.ilog2() as usize) };
    }
    if c.rng.chance(2, 3) {
        let mut scaled: Vec<(i32, usize)> = lits.iter().map(|&(l, w)| (l, w / prec)).collect();
        // hardening a range keeps what is in it
        let a = c.rng.us(0, real);
        let b = c.rng.us(a, real);
        let (lo, hi) = (if c.rng.chance(1, 4) { 0 } else { a }, if c.rng.chance(1, 4) { usize::MAX } else { b });
        c.log(format!("limit {lo}..={hi}"));
        let r = c.run("limit_range", || o.call("dl", &format!("{lo} {hi}")))?;
        let mut cl = vec![];
        for &l in &r[..r.len() - 1] {
            if l == 0 {
                c.log(format!("  {cl:?}"));
                col.cls.push(std::mem::take(&mut cl));
            } else {
                cl.push(l as i32);
            }
        }
        loop {
            let mut sat = Sat::from_clauses(&col.cls);
            for b in interesting(&mut c.rng, &scaled, 16) {
                if b < lo.div_ceil(prec) || b * prec > hi || b < lo_enc || b > hi_enc {
                    continue;
                }
                let Ok(e) = c.run("enforce", || o.enforce("u", b))? else { fail!("limit-not-encoded", "bound {b}") };
                for &a in &alphas {
                    let s = wsum(&lits, a);
                    if s < lo as u128 || s > hi as u128 {
                        continue;
                    }
                    let mut asm = assumps(a, n);
                    asm.extend_from_slice(&e);
                    let s = wsum(&scaled, a);
                    let got = sat.solve(&asm);
                    c.count("projections within limits", 1);
                    check!(got == (s <= b as u128), format!("limit-{}", if got { "admits" } else { "excludes" }), "limited to {lo}..={hi}: bound {b}, enforcing {e:?}, inputs {:?} with sum {s}", assumps(a, n));
                }
            }
            if prec == 1 || c.rng.bool() {
                break;
            }
            // what is hardened stays valid at higher precision
            prec /= 2;
            c.log(format!("precision {prec} after limiting"));
            check_eq!(c.run("set_precision", || o.call("ds", &format!("{prec} 0")))?[0], 0, "precision-status", "status for divisor {prec}");
            c.run("encode", || o.encode("U", 0, usize::MAX, &mut col, &mut vm))?;
            (lo_enc, hi_enc) = (0, usize::MAX);
            scaled = lits.iter().map(|&(l, w)| (l, w / prec)).collect();
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C20",
        "a C program compiled against rustsat.h with AddressSanitizer and linked with the static library executes random histories of new/add/reserve/encode/enforce/drop (and the watchdog's precision calls) for every encoding of the C interface; the clauses, variable counts, assumptions, statuses and allocated bytes it reports are judged by the projection oracles of C07-C11; distinct by history",
        vec![
            Sub::new("am1", 1, |c| tot_after_calls(c, am1)),
            Sub::new("scratch", 2, |c| tot_after_calls(c, |c| from_scratch_with(c, pick(c), Mode::Semantics))),
            Sub::new("history", 3, |c| tot_after_calls(c, |c| history_with(c, pick(c), Mode::Semantics))),
            Sub::new("audit", 1, |c| tot_after_calls(c, |c| history_with(c, pick(c), Mode::Audit))),
            Sub::new("repeated", 1, |c| tot_after_calls(c, |c| repeated_with(c, pick(c)))),
            Sub::new("several", 1, |c| tot_after_calls(c, several)),
            Sub::new("reserve", 1, |c| tot_after_calls(c, reserve)),
            Sub::new("dpw", 2, |c| tot_after_calls(c, dpw)),
        ],
    )]
}
