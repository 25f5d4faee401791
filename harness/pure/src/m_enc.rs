//! Monitors for cardinality and pseudo-Boolean encodings (C08, C09, C10, C11)
use crate::enc::*;
use std::ops::Bound;
use vcore::oracle::{assumps, Sat};
use vcore::{check, check_eq, fail, Case, Fail, Prop, Res, Rng, Sub};

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Semantics,
    Audit,
}

/// One monitored encoding with the log of everything it produced
pub struct Hist<'m> {
    pub enc: Box<dyn DynEnc>,
    pub mk: &'m Maker,
    pub lits: Vec<(i32, usize)>,
    pub covered: Vec<(Kind, Range)>,
    /// variables this encoding obtained
    pub own: std::collections::BTreeSet<i32>,
    pub n_cls: usize,
    pub n_vars: usize,
    /// a binary adder was asked for lower bounds after upper ones (as seen by the adder itself)
    pub adder_lb_after_ub: bool,
    adder_ub: bool,
}

pub fn gen_weights(rng: &mut Rng, mk: &Maker, n: usize, max_total: usize) -> Vec<usize> {
    if mk.card {
        return vec![1; n];
    }
    let small = mk.name.contains("Card<");
    let style = rng.below(if small { 4 } else { 7 });
    let mut out: Vec<usize> = match style {
        0 => {
            let w = rng.us(1, 3);
            vec![w; n]
        }
        1 => (0..n).map(|_| rng.us(1, 4)).collect(),
        2 => (0..n).map(|_| rng.us(1, 7)).collect(),
        3 => {
            let g = rng.us(2, 3);
            (0..n).map(|_| g * rng.us(1, 2)).collect()
        }
        4 => (0..n).map(|_| 1usize << rng.below(6)).collect(),
        5 => (0..n).map(|_| rng.us(1, 40)).collect(),
        _ => {
            // the adder's comparator table is as long as the largest encoded bound
            let big = if mk.name.contains("Adder") { [1 << 8, 1 << 9, 511, 300][rng.below(4)] } else { [1 << 20, (1 << 31) - 1, 1 << 33, 1_000_000_007][rng.below(4)] };
            (0..n).map(|_| if rng.chance(1, 3) { big } else if rng.bool() { rng.us(1, 5) } else { big + rng.us(0, 3) }).collect()
        }
    };
    if max_total > 0 {
        for w in &mut out {
            if *w > max_total {
                *w = 1 + *w % max_total;
            }
        }
    }
    out
}

/// inputs with distinct variables (some foreign variables in between), optionally repeated ones
pub fn gen_inputs(c: &mut Case, mk: &Maker, n: usize, nvars: usize) -> Vec<(i32, usize)> {
    let ls = c.rng.distinct_lits(nvars, n.min(nvars));
    let ws = gen_weights(&mut c.rng, mk, ls.len(), 0);
    ls.into_iter().zip(ws).collect()
}

pub fn gen_range(rng: &mut Rng, total: usize) -> Range {
    let t = total;
    let pt = |rng: &mut Rng| match rng.below(10) {
        0 => 0,
        1 => t,
        2 => t + 1,
        3 => t.saturating_sub(1),
        4 => t + rng.us(1, 5),
        _ => rng.us(0, t),
    };
    let a = pt(rng);
    let b = pt(rng);
    let (lo, hi) = if a <= b || rng.chance(1, 20) { (a, b) } else { (b, a) };
    let lo_b = match rng.below(8) {
        0 | 1 => Bound::Unbounded,
        2 => Bound::Excluded(lo),
        _ => Bound::Included(lo),
    };
    let hi_b = match rng.below(8) {
        0 | 1 => Bound::Unbounded,
        2 | 3 => Bound::Excluded(hi),
        _ => Bound::Included(hi),
    };
    if rng.chance(1, 3) {
        return (Bound::Included(lo), Bound::Included(lo));
    }
    (lo_b, hi_b)
}

/// Bounds worth checking: all of 0..=total+2 if few, else around attainable sums
pub fn interesting(rng: &mut Rng, lits: &[(i32, usize)], max: usize) -> Vec<usize> {
    let total: usize = lits.iter().map(|x| x.1).sum();
    if total + 3 <= max {
        return (0..=total + 2).collect();
    }
    let mut out = vec![];
    let mut nv = lits.iter().map(|l| l.0.unsigned_abs()).max().unwrap_or(1) as u64;
    nv = nv.min(62);
    for _ in 0..max {
        let s = wsum(lits, rng.next() & ((1 << nv) - 1)) as usize;
        out.push(match rng.below(4) {
            0 => s.saturating_sub(1),
            1 => s + 1,
            _ => s,
        });
    }
    out.push(0);
    out.push(total);
    out.push(total + 1);
    out.push(total - 1);
    rng.shuffle(&mut out);
    out.truncate(max);
    out.sort_unstable();
    out.dedup();
    out
}

impl<'m> Hist<'m> {
    pub fn new(c: &mut Case, mk: &'m Maker, lits: Vec<(i32, usize)>) -> Result<Self, Fail> {
        c.log(format!("{} from {:?}", mk.name, lits));
        let enc = c.run("construct", || (mk.make)(&lits))?;
        Ok(Hist { enc, mk, lits, covered: vec![], own: std::collections::BTreeSet::new(), n_cls: 0, n_vars: 0, adder_lb_after_ub: false, adder_ub: false })
    }
    pub fn total(&self) -> usize {
        self.lits.iter().map(|x| x.1).sum()
    }
    /// (C30) carries on with a restored encoder
    pub fn restore(&mut self, c: &mut Case) -> Res {
        if !crate::rt::now(c) {
            return Ok(());
        }
        let fmt = c.rng.below(crate::rt::FORMATS);
        let total = self.total();
        let look = |e: &dyn DynEnc| {
            let vals: Vec<usize> = (0..40.min(total)).chain([total.saturating_sub(1), total, total + 1]).collect();
            let mut out = vec![];
            for &k in e.kinds() {
                for &b in &vals {
                    let f = e.enforce(k, b).map(|mut v| {
                        // the order follows a hash map
                        v.sort_unstable();
                        v
                    });
                    out.push((k, b, f, e.coarse(k, b), if b > 0 { e.next_lower(b) } else { 0 }, e.next_higher(b)));
                }
            }
            (e.total(), e.stats(), out)
        };
        let enc = &mut self.enc;
        let before = vcore::engine::guard(|| look(&**enc)).ok();
        let r = c.run(&format!("{}:roundtrip", self.mk.name), || enc.roundtrip(fmt))?;
        match r {
            None => Ok(()),
            Some(Err(e)) => fail!(format!("roundtrip:{}", self.mk.name), "{e}"),
            Some(Ok(n)) => {
                c.log(format!("  (restored from {n})"));
                c.count(n, 1);
                c.count("encoders restored in their history", 1);
                let enc = &self.enc;
                let after = vcore::engine::guard(|| look(&**enc)).ok();
                if before != after {
                    let d = before.as_ref().zip(after.as_ref()).and_then(|(b, a)| b.2.iter().zip(&a.2).find(|x| x.0 != x.1));
                    fail!(format!("answers:{}", self.mk.name), "restored from {n}: {d:?}, total and numbers {:?} {:?}", before.as_ref().map(|x| (x.0, x.1)), after.as_ref().map(|x| (x.0, x.1)));
                }
                Ok(())
            }
        }
    }
    pub fn extend(&mut self, c: &mut Case, more: &[(i32, usize)]) -> Res {
        self.restore(c)?;
        c.log(format!("extend {more:?}"));
        let enc = &mut self.enc;
        c.run("extend", || enc.extend(more))?;
        self.lits.extend_from_slice(more);
        self.covered.clear();
        Ok(())
    }
    /// runs an operation, attributing clauses and variables to this encoding
    fn attributed(&mut self, c: &mut Case, col: &mut Col, vm: &mut Vm, what: &str, mode: Mode, f: impl FnOnce(&mut dyn DynEnc, &mut Col, &mut Vm)) -> Res {
        let (c0, v0) = (col.cls.len(), vm.out.len());
        let enc = &mut self.enc;
        c.run(what, || f(&mut **enc, col, vm))?;
        let newc = col.cls.len() - c0;
        let newv = vm.out.len() - v0;
        self.n_cls += newc;
        self.n_vars += newv;
        self.own.extend(vm.out[v0..].iter().copied());
        c.count("clauses", newc as u64);
        c.count("aux_vars", newv as u64);
        c.log(format!("  -> {newc} clauses, {newv} variables"));
        if mode == Mode::Audit {
            if let Some(b) = &vm.bad {
                fail!(format!("{}:manager-misuse", self.mk.name), "{b}");
            }
            self.audit_lits(col.cls[c0..].iter().flatten().copied(), vm, what)?;
            self.audit_stats(c, what)?;
        }
        Ok(())
    }
    fn audit_lits(&self, ls: impl Iterator<Item = i32>, vm: &Vm, what: &str) -> Res {
        for l in ls {
            let v = l.abs();
            if !self.own.contains(&v) && !self.lits.iter().any(|x| x.0.abs() == v) {
                fail!(format!("{}:foreign-variable", self.mk.name), "{what}: variable {v} is neither an input nor was it obtained by this encoding (manager started at {}, handed out {:?})", vm.start, vm.out);
            }
        }
        Ok(())
    }
    fn audit_stats(&self, c: &mut Case, what: &str) -> Res {
        if let Some((nc, nv)) = self.enc.stats() {
            c.count("stats_compared", 1);
            check_eq!(nc, self.n_cls, format!("{}:n_clauses", self.mk.name), "{what}: reported vs delivered clauses");
            check_eq!(nv as usize, self.n_vars, format!("{}:n_vars", self.mk.name), "{what}: reported vs obtained variables");
        }
        Ok(())
    }
    pub fn reserve(&mut self, c: &mut Case, col: &mut Col, vm: &mut Vm, mode: Mode) -> Res {
        self.restore(c)?;
        c.log("reserve");
        let before = col.cls.len();
        self.attributed(c, col, vm, "reserve", mode, |e, _c, v| e.reserve(v))?;
        check_eq!(before, col.cls.len(), "reserve-clauses", "reserve must not add clauses");
        if self.mk.name.contains("Gte") {
            // reserving takes buffered literals into the tree
            self.covered.clear();
        }
        Ok(())
    }
    pub fn encode(&mut self, c: &mut Case, k: Kind, change: bool, r: Range, col: &mut Col, vm: &mut Vm, mode: Mode) -> Res {
        self.restore(c)?;
        c.log(format!("encode {k:?} change={change} {}", show_range(&r)));
        self.attributed(c, col, vm, "encode", mode, |e, cl, v| e.encode(k, change, r, cl, v))?;
        // a generalised totaliser takes literals heavier than the range into its tree later on, which
        // replaces its outputs: only the last range is promised
        if self.mk.name.contains("Adder") {
            let (ub, lb) = if self.mk.name.contains("Inverted") { (k != Kind::Ub, k != Kind::Lb) } else { (k != Kind::Lb, k != Kind::Ub) };
            self.adder_lb_after_ub |= lb && self.adder_ub;
            self.adder_ub |= ub;
        }
        if !change || self.mk.name.contains("Gte") {
            self.covered.clear();
        }
        self.covered.push((k, r));
        c.count("encodes", 1);
        Ok(())
    }
    fn must(&self, k: Kind, b: usize) -> bool {
        self.covered.iter().any(|(kk, r)| (*kk == k || *kk == Kind::Both) && in_range(r, b))
    }
    /// Checks one bound against the arithmetic oracle; `alphas` are the input assignments tried
    pub fn check_bound(&self, c: &mut Case, feed: &mut Feed, k: Kind, b: usize, alphas: &[u64], nin: usize, audit: Option<&Vm>) -> Res {
        let enc = &self.enc;
        let r = c.run(&format!("{}:enforce", self.mk.name), || enc.enforce(k, b))?;
        let nm = self.mk.name;
        let total = self.total() as u128;
        c.count("bounds", 1);
        match r {
            Err(EErr::NotEncoded) => {
                if audit.is_none() && self.must(k, b) && self.adder_lb_after_ub && (crate::rt::on() || c.known("BinaryAdder:lb-after-ub:not-encoded")) {
                    return Ok(());
                }
                check!(audit.is_some() || !self.must(k, b), format!("{nm}:{k:?}:not-encoded"), "{k:?} {b} was encoded but is reported as not encoded (total {total})");
                c.count("not_encoded", 1);
                Ok(())
            }
            Err(EErr::Unsat) => {
                c.count("unsat", 1);
                // unsatisfiable exactly if no assignment attains it
                let trivially = k != Kind::Ub && b as u128 > total;
                if !trivially {
                    // (equalities with unattainable sums may be reported as unsatisfiable, too)
                    for &a in alphas {
                        check!(!holds(k, wsum(&self.lits, a), b), format!("{nm}:{k:?}:wrong-unsat"), "{k:?} {b} reported unsatisfiable, inputs {a:b} satisfy it");
                    }
                }
                Ok(())
            }
            Ok(e) => {
                check!(k == Kind::Ub || b as u128 <= total, format!("{nm}:{k:?}:unsat-unreported"), "{k:?} {b} exceeds the total {total} but enforcing gives {e:?}");
                if self.must(k, b) && ((k == Kind::Ub && b as u128 >= total) || (k == Kind::Lb && b == 0)) {
                    check!(e.is_empty(), format!("{nm}:{k:?}:trivial-lits"), "trivially true bound {b} (total {total}) needs literals {e:?}");
                }
                if let Some(vm) = audit {
                    self.audit_lits(e.iter().copied(), vm, "enforce")?;
                    return Ok(());
                }
                for &a in alphas {
                    let mut asm = assumps(a, nin);
                    asm.extend_from_slice(&e);
                    let sum = wsum(&self.lits, a);
                    let want = holds(k, sum, b);
                    let got = feed.sat.solve(&asm);
                    c.count("projections", 1);
                    check!(got == want, format!("{nm}:{k:?}:{}", if got { "admits" } else { "excludes" }), "{k:?} {b}: enforcing {e:?}, inputs {:?} with sum {sum} are {}", assumps(a, nin), if got { "wrongly admitted" } else { "wrongly excluded" });
                }
                Ok(())
            }
        }
    }
    pub fn check_neutral(&self, c: &mut Case, feed: &mut Feed, alphas: &[u64], nin: usize) -> Res {
        for &a in alphas {
            c.count("neutral", 1);
            check!(feed.sat.solve(&assumps(a, nin)), format!("{}:clauses-exclude", self.mk.name), "clauses alone exclude inputs {:?}", assumps(a, nin));
        }
        Ok(())
    }
}

pub fn all_alphas(rng: &mut Rng, nin: usize, max: usize) -> Vec<u64> {
    if (1usize << nin.min(40)) <= max {
        (0..1u64 << nin).collect()
    } else {
        let mut v: Vec<u64> = (0..max).map(|_| rng.next() & ((1u64 << nin) - 1)).collect();
        // sparse and dense ones
        for x in v.iter_mut().take(max / 3) {
            *x &= rng.next();
        }
        for x in v.iter_mut().skip(2 * max / 3) {
            *x |= rng.next() & ((1u64 << nin) - 1);
        }
        v.push(0);
        v.push((1 << nin) - 1);
        v
    }
}

fn pick_maker(c: &mut Case, card: bool) -> &'static Maker {
    let i = c.idx as usize / 3;
    if card {
        CARD[i % CARD.len()]
    } else {
        PB[i % PB.len()]
    }
}

/// One encode call from scratch, then every (interesting) bound of every kind
fn from_scratch(c: &mut Case, card: bool, mode: Mode) -> Res {
    let mk = pick_maker(c, card);
    from_scratch_with(c, mk, mode)
}
pub fn from_scratch_with(c: &mut Case, mk: &'static Maker, mode: Mode) -> Res {
    let n = match c.rng.below(12) {
        0 => c.rng.us(0, 2),
        1..=3 => c.rng.us(2, 4),
        _ => c.rng.us(3, if c.thorough { 8 } else { 7 }),
    };
    let nin = n + c.rng.below(3);
    let nin = nin.max(1);
    let lits = gen_inputs(c, mk, n, nin);
    let mut h = Hist::new(c, mk, lits)?;
    // some further variables are in use already
    let mut vm = Vm::new(nin + c.rng.below(3));
    let mut col = Col::default();
    if mk.incremental && c.rng.chance(1, 4) {
        h.reserve(c, &mut col, &mut vm, mode)?;
    }
    let k = *c.rng.pick(mk.kinds);
    let r = gen_range(&mut c.rng, h.total());
    let change = c.rng.chance(1, 4);
    h.encode(c, k, change, r, &mut col, &mut vm, mode)?;
    finish(c, &mut h, &col, &vm, nin, mode)?;
    c.nontrivial(&format!("{}|{:?}|{k:?}|{}", mk.name, h.lits, show_range(&r)));
    Ok(())
}

fn finish(c: &mut Case, h: &mut Hist, col: &Col, vm: &Vm, nin: usize, mode: Mode) -> Res {
    let mut feed = Feed::default();
    let total = h.total();
    check_eq!(h.enc.total(), total, format!("{}:total", h.mk.name), "reported number of literals / weight sum");
    let alphas = all_alphas(&mut c.rng, nin, 160);
    if mode == Mode::Semantics {
        feed.sync(col);
        h.check_neutral(c, &mut feed, &alphas, nin)?;
    }
    let bounds = interesting(&mut c.rng, &h.lits, 14);
    for &b in &bounds {
        for &k in h.mk.kinds {
            h.check_bound(c, &mut feed, k, b, &alphas, nin, if mode == Mode::Audit { Some(vm) } else { None })?;
        }
    }
    Ok(())
}

/// More literals than can be enumerated; assignments sampled around the bound
pub fn large(c: &mut Case, card: bool) -> Res {
    let mk = pick_maker(c, card);
    let n = c.rng.us(9, if card { 40 } else { 16 });
    let ls = c.rng.distinct_lits(n, n);
    let wide = mk.name.contains("Adder") || mk.name.contains("Dpw");
    let ws = gen_weights(&mut c.rng, mk, n, if wide { 0 } else { 12 });
    let lits: Vec<(i32, usize)> = ls.into_iter().zip(ws).collect();
    let mut h = Hist::new(c, mk, lits)?;
    let mut vm = Vm::new(n);
    let mut col = Col::default();
    let k = *c.rng.pick(mk.kinds);
    let total = h.total();
    let lo = c.rng.us(0, total);
    let r = (Bound::Included(lo), Bound::Included((lo + c.rng.below(4)).min(total)));
    h.encode(c, k, false, r, &mut col, &mut vm, Mode::Semantics)?;
    let mut feed = Feed::default();
    feed.sync(&col);
    let mut alphas = all_alphas(&mut c.rng, n, 24);
    // climb towards the bound
    for j in 0..24 {
        let mut order: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut order);
        let mut a = 0u64;
        for &i in &order {
            let (l, _) = h.lits[i];
            if l < 0 {
                a |= 1 << (l.unsigned_abs() - 1);
            }
        }
        for &i in &order {
            let (l, w) = h.lits[i];
            if wsum(&h.lits, a) + w as u128 <= lo as u128 + (j % 3) as u128 {
                a ^= 1 << (l.unsigned_abs() - 1);
            }
        }
        alphas.push(a);
    }
    h.check_neutral(c, &mut feed, &alphas, n)?;
    for b in [lo, lo + 1, lo + 2, total, total + 1] {
        for &k in mk.kinds {
            h.check_bound(c, &mut feed, k, b, &alphas, n, None)?;
        }
    }
    c.nontrivial(&format!("{}|{:?}|{k:?}|{}", mk.name, h.lits, show_range(&r)));
    Ok(())
}

/// Histories of extend / reserve / encode / enforce
pub fn history(c: &mut Case, card: bool, mode: Mode) -> Res {
    let mk = pick_maker(c, card);
    history_with(c, mk, mode)
}
pub fn history_with(c: &mut Case, mk: &'static Maker, mode: Mode) -> Res {
    let nin = c.rng.us(1, if c.thorough { 8 } else { 7 });
    let mut pool = c.rng.distinct_lits(nin, nin);
    let mut vm = Vm::new(nin + c.rng.below(3));
    let mut col = Col::default();
    let mut feed = Feed::default();
    let first = if mk.extendable { c.rng.us(0, pool.len()) } else { pool.len() };
    let ws = gen_weights(&mut c.rng, mk, pool.len(), if mk.name.contains("Card<") { 4 } else { 0 });
    let mut avail: Vec<(i32, usize)> = pool.drain(..).zip(ws).collect();
    let rest = avail.split_off(first);
    let mut h = Hist::new(c, mk, avail)?;
    let mut rest = rest;
    let alphas = all_alphas(&mut c.rng, nin, 128);
    let n_ops = c.rng.us(2, if c.thorough { 10 } else { 7 });
    let mut desc = format!("{}|{:?}", mk.name, h.lits);
    let only = *c.rng.pick(mk.kinds);
    let mixed = c.rng.chance(1, 2);
    for _ in 0..n_ops {
        match c.rng.below(10) {
            0..=2 if !rest.is_empty() => {
                let k = c.rng.us(1, rest.len());
                let more: Vec<_> = rest.drain(..k).collect();
                h.extend(c, &more)?;
                desc.push_str(&format!("+{more:?}"));
            }
            3 => {
                h.reserve(c, &mut col, &mut vm, mode)?;
                desc.push('r');
            }
            _ => {
                let k = if mixed { *c.rng.pick(mk.kinds) } else { only };
                let r = gen_range(&mut c.rng, h.total());
                let change = c.rng.chance(4, 5);
                h.encode(c, k, change, r, &mut col, &mut vm, mode)?;
                desc.push_str(&format!("e{k:?}{change}{}", show_range(&r)));
            }
        }
        if mode == Mode::Semantics {
            feed.sync(&col);
        }
        h.restore(c)?;
        // enforce a few bounds right away
        let bounds = interesting(&mut c.rng, &h.lits, 40);
        for _ in 0..3 {
            let b = *c.rng.pick(&bounds);
            let k = *c.rng.pick(mk.kinds);
            h.check_bound(c, &mut feed, k, b, &alphas, nin, if mode == Mode::Audit { Some(&vm) } else { None })?;
        }
    }
    finish(c, &mut h, &col, &vm, nin, mode)?;
    c.nontrivial(&desc);
    Ok(())
}

/// Several encodings interleaved over one collector and one manager
pub fn shared(c: &mut Case) -> Res {
    let nin = c.rng.us(2, 6);
    let mut vm = Vm::new(nin);
    let mut col = Col::default();
    let n_enc = c.rng.us(2, 3);
    let mut hs = vec![];
    for _ in 0..n_enc {
        let mk = if c.rng.bool() { *c.rng.pick(&CARD) } else { *c.rng.pick(&PB) };
        let n = c.rng.us(1, nin);
        let lits = gen_inputs(c, mk, n, nin);
        hs.push(Hist::new(c, mk, lits)?);
    }
    let ops = c.rng.us(n_enc, 7);
    for _ in 0..ops {
        let i = c.rng.below(hs.len());
        let k = *c.rng.pick(hs[i].mk.kinds);
        let r = gen_range(&mut c.rng, hs[i].total());
        c.log(format!("encoding {i}:"));
        if c.rng.chance(1, 5) {
            hs[i].reserve(c, &mut col, &mut vm, Mode::Audit)?;
        } else {
            let ch = c.rng.chance(3, 4);
            hs[i].encode(c, k, ch, r, &mut col, &mut vm, Mode::Audit)?;
        }
    }
    // nothing handed out twice or already in use
    let mut seen = std::collections::BTreeSet::new();
    for &v in &vm.out {
        check!(v > vm.start && seen.insert(v), "reused-variable", "variable {v} handed out twice or in use ({})", vm.start);
    }
    for i in 0..hs.len() {
        for j in 0..i {
            check!(hs[i].own.is_disjoint(&hs[j].own), "shared-variable", "encodings {i} and {j} share variables");
        }
    }
    // all together: the joint clauses still admit every input assignment
    let mut feed = Feed::default();
    feed.sync(&col);
    let alphas = all_alphas(&mut c.rng, nin, 64);
    for h in &mut hs {
        // (which bounds have to be enforceable is not the matter here)
        h.covered.clear();
        h.check_neutral(c, &mut feed, &alphas, nin)?;
        let bounds = interesting(&mut c.rng, &h.lits, 4);
        for &b in &bounds {
            for &k in h.mk.kinds {
                h.check_bound(c, &mut feed, k, b, &alphas, nin, None)?;
            }
        }
    }
    let d = c.log_text().to_string();
    c.nontrivial(&d);
    Ok(())
}

/// next_higher / next_lower / coarse bounds and weight sums
fn pb_neighbours(c: &mut Case) -> Res {
    let mk = PB[c.idx as usize % PB.len()];
    let n = c.rng.us(1, 7);
    let lits = gen_inputs(c, mk, n, n);
    let mut h = Hist::new(c, mk, lits)?;
    let total = h.total();
    let mut vm = Vm::new(n);
    let mut col = Col::default();
    let mut built = false;
    if c.rng.chance(2, 3) {
        let k = *c.rng.pick(mk.kinds);
        let r = if c.rng.bool() { (Bound::Unbounded, Bound::Unbounded) } else { gen_range(&mut c.rng, total) };
        h.encode(c, k, false, r, &mut col, &mut vm, Mode::Semantics)?;
        built = true;
    }
    let mut sums: Vec<usize> = (0..1u64 << n).map(|a| wsum(&h.lits, a) as usize).collect();
    sums.sort_unstable();
    sums.dedup();
    check_eq!(h.enc.total(), total, format!("{}:weight_sum", mk.name), "weight sum");
    let bounds = interesting(&mut c.rng, &h.lits, 40);
    for &v in &bounds {
        let enc = &h.enc;
        if v < total {
            let nh = c.run("next_higher", || enc.next_higher(v))?;
            // no attainable sum strictly between
            let bad = sums.iter().find(|&&s| s > v && s < nh);
            check!(nh > v && bad.is_none(), format!("{}:next_higher", mk.name), "next_higher({v}) = {nh}, attainable {bad:?} (built {built})");
            c.count("next_higher", 1);
        }
        if v > 0 && v <= total {
            let nl = c.run("next_lower", || enc.next_lower(v))?;
            let bad = sums.iter().find(|&&s| s < v && s > nl);
            check!(nl < v && bad.is_none(), format!("{}:next_lower", mk.name), "next_lower({v}) = {nl}, attainable {bad:?} (built {built})");
            c.count("next_lower", 1);
        }
        for &k in mk.kinds {
            match k {
                Kind::Ub => {
                    let cu = c.run("coarse_ub", || enc.coarse(k, v))?;
                    check!(cu <= v, format!("{}:coarse_ub", mk.name), "coarse_ub({v}) = {cu}");
                    c.count("coarse", 1);
                }
                Kind::Lb => {
                    let cl = c.run("coarse_lb", || enc.coarse(k, v))?;
                    check!(cl >= v, format!("{}:coarse_lb", mk.name), "coarse_lb({v}) = {cl}");
                    c.count("coarse", 1);
                }
                Kind::Both => {}
            }
        }
    }
    c.nontrivial(&format!("{}|{:?}|{built}", mk.name, h.lits));
    Ok(())
}

/// Free functions and constraint encoders: hard clauses equivalent to the constraint
fn card_constraints(c: &mut Case) -> Res {
    use rustsat::encodings::card::{self, simulators, Totalizer};
    use rustsat::encodings::card::BoundBoth as _;
    use rustsat::types::constraints::CardConstraint;
    let nin = c.rng.us(1, 6);
    let n = c.rng.us(0, 7);
    let rep = c.rng.chance(1, 4);
    let lits: Vec<i32> = if rep { (0..n).map(|_| c.rng.lit(nin)).collect() } else { c.rng.distinct_lits(nin, n) };
    let n = lits.len();
    let b = c.rng.us(0, n + 2);
    let k = *c.rng.pick(&[Kind::Ub, Kind::Lb, Kind::Both]);
    let ll = || lits.iter().map(|&l| tolit(l));
    let constr = match k {
        Kind::Ub => CardConstraint::new_ub(ll(), b),
        Kind::Lb => CardConstraint::new_lb(ll(), b),
        Kind::Both => CardConstraint::new_eq(ll(), b),
    };
    let how = c.rng.below(6);
    c.log(format!("{k:?} {lits:?} {b} via {how}"));
    let mut col = Col::default();
    let mut vm = Vm::new(nin);
    type Inv = simulators::Inverted<Totalizer>;
    type Dbl = simulators::Double<Totalizer, Totalizer>;
    type InvDbl = simulators::Inverted<Dbl>;
    let res: Result<(), String> = c.run(&format!("constraint-{how}"), || match how {
        0 => card::default_encode_cardinality_constraint(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
        1 => card::encode_cardinality_constraint::<Inv, _>(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
        2 => card::encode_cardinality_constraint::<Dbl, _>(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
        3 => Totalizer::encode_constr(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
        4 => Inv::encode_constr(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
        _ => InvDbl::encode_constr(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
    })?;
    let w: Vec<(i32, usize)> = lits.iter().map(|&l| (l, 1)).collect();
    constraint_result(c, res, &w, k, b as i64, nin, &col, &vm, how < 3)?;
    c.nontrivial(&format!("{how}|{k:?}|{b}|{lits:?}"));
    Ok(())
}

fn constraint_result(c: &mut Case, res: Result<(), String>, w: &[(i32, usize)], k: Kind, b: i64, nin: usize, col: &Col, vm: &Vm, never_err: bool) -> Res {
    let ok = |a: u64| {
        let s = wsum(w, a) as i128;
        match k {
            Kind::Ub => s <= i128::from(b),
            Kind::Lb => s >= i128::from(b),
            Kind::Both => s == i128::from(b),
        }
    };
    if let Err(e) = res {
        check!(e == "Unsat" && !never_err, "constraint-error", "encoding failed with {e}");
        for a in 0..1u64 << nin {
            check!(!ok(a), "constraint-unsat", "reported unsatisfiable, but inputs {a:b} satisfy it");
        }
        return Ok(());
    }
    for cl in &col.cls {
        for &l in cl {
            check!(w.iter().any(|x| x.0.abs() == l.abs()) || vm.out.contains(&l.abs()), "constraint-foreign", "clause {cl:?} uses a foreign variable");
        }
    }
    let mut sat = Sat::from_clauses(&col.cls);
    for a in 0..1u64 << nin {
        let got = sat.solve(&assumps(a, nin));
        c.count("projections", 1);
        check!(got == ok(a), if got { "constraint-admits" } else { "constraint-excludes" }, "{k:?} {b} over {w:?}: inputs {:?} (sum {}) are {}", assumps(a, nin), wsum(w, a), if got { "admitted" } else { "excluded" });
    }
    Ok(())
}

fn pb_constraints(c: &mut Case) -> Res {
    use rustsat::encodings::pb::{self, simulators, BinaryAdder, BoundBoth as _, DynamicPolyWatchdog, GeneralizedTotalizer};
    use rustsat::types::constraints::PbConstraint;
    let nin = c.rng.us(1, 6);
    let n = c.rng.us(0, 7);
    let rep = c.rng.chance(1, 3);
    let lits: Vec<i32> = if rep { (0..n).map(|_| c.rng.lit(nin)).collect() } else { c.rng.distinct_lits(nin, n) };
    let max = *c.rng.pick(&[1i64, 3, 6, 20]);
    let style = c.rng.below(3);
    let ws: Vec<isize> = lits
        .iter()
        .map(|_| {
            let w = c.rng.range(if style == 0 { 1 } else { 0 }, max);
            if style == 2 && c.rng.bool() {
                -w as isize
            } else {
                w as isize
            }
        })
        .collect();
    let pos: i64 = ws.iter().filter(|w| **w > 0).map(|&w| w as i64).sum();
    let neg: i64 = ws.iter().filter(|w| **w < 0).map(|&w| w as i64).sum();
    let b = c.rng.range(neg - 2, pos + 2);
    let k = *c.rng.pick(&[Kind::Ub, Kind::Lb, Kind::Both]);
    let terms: Vec<(i32, isize)> = lits.iter().copied().zip(ws.iter().copied()).collect();
    c.log(format!("{k:?} {terms:?} {b}"));
    let ll = || terms.iter().map(|&(l, w)| (tolit(l), w));
    let constr = match k {
        Kind::Ub => PbConstraint::new_ub(ll(), b as isize),
        Kind::Lb => PbConstraint::new_lb(ll(), b as isize),
        Kind::Both => PbConstraint::new_eq(ll(), b as isize),
    };
    let how = c.rng.below(8);
    c.log(format!("via {how}"));
    let mut col = Col::default();
    let mut vm = Vm::new(nin);
    type InvGte = simulators::Inverted<GeneralizedTotalizer>;
    type DblGte = simulators::Double<GeneralizedTotalizer, InvGte>;
    type InvAdd = simulators::Inverted<BinaryAdder>;
    type DblDpw = simulators::Double<DynamicPolyWatchdog, simulators::Inverted<DynamicPolyWatchdog>>;
    type Card = simulators::Card<rustsat::encodings::card::Totalizer>;
    let res: Result<(), String> = c.run(&format!("constraint-{how}"), || match how {
        0 => pb::default_encode_pb_constraint(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
        1 => pb::encode_pb_constraint::<BinaryAdder, _>(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
        2 => pb::encode_pb_constraint::<InvAdd, _>(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
        3 => pb::encode_pb_constraint::<DblDpw, _>(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
        4 => DblGte::encode_constr(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
        5 => BinaryAdder::encode_constr(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
        6 => Card::encode_constr(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
        _ => DblDpw::encode_constr(constr, &mut col, &mut vm).map_err(|e| format!("{e:?}")),
    })?;
    // oracle on the original terms
    let ok = |a: u64| {
        let s: i64 = terms.iter().filter(|&&(l, _)| vcore::oracle::lit_true(l, a)).map(|&(_, w)| w as i64).sum();
        match k {
            Kind::Ub => s <= b,
            Kind::Lb => s >= b,
            Kind::Both => s == b,
        }
    };
    if let Err(e) = res {
        check!(e == "Unsat" && how > 3, "constraint-error", "encoding failed with {e}");
        for a in 0..1u64 << nin {
            check!(!ok(a), "constraint-unsat", "reported unsatisfiable, but inputs {a:b} satisfy it");
        }
        return Ok(());
    }
    for cl in &col.cls {
        for &l in cl {
            check!(lits.iter().any(|x| x.abs() == l.abs()) || vm.out.contains(&l.abs()), "constraint-foreign", "clause {cl:?} uses a foreign variable");
        }
    }
    let mut sat = Sat::from_clauses(&col.cls);
    for a in 0..1u64 << nin {
        let got = sat.solve(&assumps(a, nin));
        c.count("projections", 1);
        check!(got == ok(a), if got { "constraint-admits" } else { "constraint-excludes" }, "via {how}: {k:?} {b} over {terms:?}: inputs {:?} are {}", assumps(a, nin), if got { "admitted" } else { "excluded" });
    }
    c.nontrivial(&format!("{how}|{k:?}|{b}|{terms:?}"));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C08",
            "random literal lists (0..40 literals, signs, foreign variables), bound kinds and ranges per cardinality encoding and wrapper; a case is non-trivial if clauses were encoded and bounds enforced, distinct by (encoding, inputs, kind, range)",
            vec![
                Sub::new("scratch", 4, |c| from_scratch(c, true, Mode::Semantics)),
                Sub::new("large", 1, |c| large(c, true)),
                Sub::new("constraints", 2, card_constraints),
                Sub::new("repeated", 1, |c| repeated(c, true)),
            ],
        ),
        Prop::new(
            "C09",
            "random weighted literal lists (equal, small, mixed, power-of-two and huge weights), bound kinds and ranges per pseudo-Boolean encoding and wrapper; distinct by (encoding, inputs, kind, range)",
            vec![
                Sub::new("scratch", 4, |c| from_scratch(c, false, Mode::Semantics)),
                Sub::new("large", 1, |c| large(c, false)),
                Sub::new("constraints", 2, pb_constraints),
                Sub::new("neighbours", 1, pb_neighbours),
                Sub::new("repeated", 1, |c| repeated(c, false)),
                Sub::new("dpw", 2, dpw),
            ],
        ),
        Prop::new(
            "C10",
            "random histories of extend/reserve/encode/encode-change/enforce per incremental encoding; every enforceable bound compared with the arithmetic oracle after every step; distinct by history",
            vec![Sub::new("card", 1, |c| history(c, true, Mode::Semantics)), Sub::new("pb", 2, |c| history(c, false, Mode::Semantics))],
        ),
        Prop::new(
            "C11",
            "histories as for C08-C10 with an auditing collector and variable manager, also several encodings interleaved over shared ones; distinct by history",
            vec![
                Sub::new("card", 2, |c| history(c, true, Mode::Audit)),
                Sub::new("pb", 3, |c| history(c, false, Mode::Audit)),
                Sub::new("shared", 3, shared),
                Sub::new("am1", 1, crate::m_am1::audit),
            ],
        ),
    ]
}

/// inputs with repeated and opposing literals
fn repeated(c: &mut Case, card: bool) -> Res {
    let mk = pick_maker(c, card);
    repeated_with(c, mk)
}
pub fn repeated_with(c: &mut Case, mk: &'static Maker) -> Res {
    let nin = c.rng.us(1, 4);
    let n = c.rng.us(1, 7);
    let ls: Vec<i32> = (0..n).map(|_| c.rng.lit(nin)).collect();
    let ws = gen_weights(&mut c.rng, mk, n, 50);
    let mut lits: Vec<(i32, usize)> = ls.into_iter().zip(ws).collect();
    let later = if mk.extendable && c.rng.bool() { lits.split_off(c.rng.us(0, n)) } else { vec![] };
    let mut h = Hist::new(c, mk, lits)?;
    if !later.is_empty() {
        h.extend(c, &later)?;
    }
    let mut vm = Vm::new(nin);
    let mut col = Col::default();
    let k = *c.rng.pick(mk.kinds);
    let r = gen_range(&mut c.rng, h.total());
    h.encode(c, k, false, r, &mut col, &mut vm, Mode::Semantics)?;
    finish(c, &mut h, &col, &vm, nin, Mode::Semantics)?;
    c.nontrivial(&format!("{}|{:?}|{k:?}|{}", mk.name, h.lits, show_range(&r)));
    Ok(())
}

/// Dynamic polynomial watchdog at varying precisions
pub fn dpw(c: &mut Case) -> Res {
    use rustsat::encodings::pb::{BoundUpper, BoundUpperIncremental, DynamicPolyWatchdog};
    let n = c.rng.us(1, 7);
    let ls = c.rng.distinct_lits(n, n);
    let ws = gen_weights(&mut c.rng, &PDpw::MAKER, n, 200);
    let lits: Vec<(i32, usize)> = ls.into_iter().zip(ws).collect();
    c.log(format!("dpw {lits:?}"));
    let mut dpw: DynamicPolyWatchdog = lits.iter().map(|&(l, w)| (tolit(l), w)).collect();
    let mut vm = Vm::new(n);
    let mut col = Col::default();
    let maxw = lits.iter().map(|x| x.1).max().unwrap();
    let mut prec = 1usize << c.rng.below(maxw.ilog2() as usize + 1);
    let alphas = all_alphas(&mut c.rng, n, 128);
    let mut empty;
    loop {
        let d = &mut dpw;
        let r = c.run("set_precision", || d.set_precision(prec))?;
        check!(r.is_ok(), "dpw-precision", "set_precision({prec}) failed: {r:?}");
        c.log(format!("precision {prec}"));
        crate::rt::maybe(c, "dpw", &mut dpw)?;
        let scaled: Vec<(i32, usize)> = lits.iter().map(|&(l, w)| (l, w / prec)).collect();
        let total: usize = scaled.iter().map(|x| x.1).sum();
        let d = &mut dpw;
        // everything or some range of bounds
        let (lo, hi) = if c.rng.bool() {
            (0, usize::MAX)
        } else {
            let x = c.rng.us(0, total);
            (x, c.rng.us(x, total))
        };
        c.log(format!("encode {lo}..={hi}"));
        empty = lo >= lits.iter().map(|x| x.1).sum();
        c.run("dpw-encode", || d.encode_ub_change(lo..=hi, &mut col, &mut vm))?.expect("memory");
        let mut sat = Sat::from_clauses(&col.cls);
        crate::rt::maybe(c, "dpw", &mut dpw)?;
        // the effective bound: sum of floor(w / prec) <= ub
        let bounds = interesting(&mut c.rng, &scaled, 10);
        for b in bounds {
            let d = &dpw;
            let e = c.run("dpw-enforce", || d.enforce_ub(b))?;
            match e {
                Ok(e) => {
                    let e: Vec<i32> = e.into_iter().map(fromlit).collect();
                    for &a in &alphas {
                        let mut asm = assumps(a, n);
                        asm.extend_from_slice(&e);
                        let s = wsum(&scaled, a);
                        let want = s <= b as u128;
                        let got = sat.solve(&asm);
                        c.count("dpw_projections", 1);
                        check!(got == want, format!("dpw-{}", if got { "admits" } else { "excludes" }), "precision {prec}: bound {b}, enforcing {e:?}, inputs {:?} with scaled sum {s}", assumps(a, n));
                    }
                }
                Err(_) if b < lo || b > hi => c.count("not_encoded", 1),
                Err(e) => fail!("dpw-not-encoded", "precision {prec}: bound {b} gives {e:?}"),
            }
        }
        c.nontrivial(&format!("{lits:?}|{prec}"));
        if prec == 1 {
            break;
        }
        prec = if c.rng.bool() { dpw.next_precision().min(prec / 2).max(1) } else { 1usize << c.rng.below(prec.ilog2() as usize) };
    }
    check!(empty || dpw.is_max_precision(), "dpw-max-precision", "not at maximum precision after encoding with divisor 1");
    Ok(())
}
