//! Monitors for certified encodings (C12) and the proof writing library (C29): every line written
//! is interpreted by an independent proof checker.
use crate::enc::*;
use crate::m_enc::{self, Mode};
use crate::veripb::*;
use rustsat::encodings::{card, pb, CollectClauses};
use rustsat::types::{Clause, Var};
use std::cell::RefCell;
use std::rc::Rc;
use vcore::{check, check_eq, Case, Fail, Prop, Res, Rng, Sub as Sb};

/// A writer into a shared buffer which may write less than asked for
#[derive(Clone, Default)]
pub struct Buf(Rc<RefCell<(Vec<u8>, usize, u64)>>);
impl Buf {
    fn stingy(n: usize) -> Self {
        Buf(Rc::new(RefCell::new((vec![], n, 0))))
    }
    fn take(&self) -> String {
        String::from_utf8(std::mem::take(&mut self.0.borrow_mut().0)).expect("utf8")
    }
}
impl std::io::Write for Buf {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.2 += 1;
        if s.1 > 0 && s.2 % 7 == 3 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = if s.1 == 0 { b.len() } else { b.len().min(s.1) };
        s.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Collector of certified clauses
#[derive(Default)]
pub struct CCol {
    pub cls: Vec<(Vec<i32>, Option<pigeons::AbsConstraintId>)>,
}
impl CollectClauses for CCol {
    fn n_clauses(&self) -> usize {
        self.cls.len()
    }
    fn extend_clauses<T>(&mut self, cl_iter: T) -> Result<(), rustsat::OutOfMemory>
    where
        T: IntoIterator<Item = Clause>,
    {
        self.cls.extend(cl_iter.into_iter().map(|c| (fromcl(&c), None)));
        Ok(())
    }
}
impl rustsat::encodings::cert::CollectClauses for CCol {
    fn extend_cert_clauses<T>(&mut self, cl_iter: T) -> Result<(), rustsat::OutOfMemory>
    where
        T: IntoIterator<Item = (Clause, pigeons::AbsConstraintId)>,
    {
        self.cls.extend(cl_iter.into_iter().map(|(c, i)| (fromcl(&c), Some(i))));
        Ok(())
    }
}

/// A proof under construction together with the checker following it
pub struct State {
    proof: Option<pigeons::Proof<Buf>>,
    buf: Buf,
    checker: Checker,
    err: Option<String>,
    handed: u64,
}
thread_local! {
    static STATE: RefCell<Option<State>> = const { RefCell::new(None) };
}

fn mkfail(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
    Fail { sig: sig.into(), msg: msg.into() }
}

fn xname(v: i32) -> String {
    format!("x{v}")
}
fn lit_name(names: &mut Names, l: i32) -> (u32, bool) {
    (names.get(&xname(l.abs())), l < 0)
}

impl State {
    fn new(formula: Vec<Constr>, names: Names) -> Self {
        let buf = Buf::default();
        let proof = pigeons::Proof::new(buf.clone(), formula.len(), false).expect("in-memory write");
        State { proof: Some(proof), buf, checker: Checker::new(formula, names), err: None, handed: 0 }
    }
    /// checks what was written and the clauses handed over
    fn sync(&mut self, cc: &CCol) {
        if self.err.is_some() {
            return;
        }
        let text = self.buf.take();
        if let Err(e) = self.checker.check(&text) {
            self.err = Some(e);
            return;
        }
        let next = self.proof.as_ref().unwrap().next_id();
        if next != pigeons::AbsConstraintId::new(self.checker.next_id) {
            self.err = Some(format!("the writer continues with id {next}, the checker with {}", self.checker.next_id));
            return;
        }
        for (cl, id) in &cc.cls {
            self.handed += 1;
            let Some(id) = id else {
                self.err = Some(format!("clause {cl:?} handed over without an identifier"));
                return;
            };
            let want = {
                let ls: Vec<(u32, bool)> = cl.iter().map(|&l| lit_name(&mut self.checker.parser.names, l)).collect();
                Constr::from_clause(&ls)
            };
            let idn: usize = format!("{id}").parse().unwrap();
            match self.checker.db.get(&idn) {
                None => {
                    self.err = Some(format!("clause {cl:?} was handed over as {id}, which is not in the database"));
                    return;
                }
                Some(c) => {
                    // (a repeated literal makes no difference)
                    if *c != want && c.saturate() != want.saturate() {
                        self.err = Some(format!("clause {cl:?} was handed over as {id}, which is {c:?}"));
                        return;
                    }
                }
            }
        }
    }
}

fn with_cert(col: &mut Col, f: impl FnOnce(&mut CCol, &mut pigeons::Proof<Buf>) -> Result<(), rustsat::encodings::cert::EncodingError>) {
    // the state is taken out so that an unwinding encoder does not poison the next case
    let mut st = STATE.with(|s| s.borrow_mut().take()).expect("proof state");
    let mut cc = CCol::default();
    let r = f(&mut cc, st.proof.as_mut().unwrap());
    r.expect("writing to memory cannot fail");
    st.sync(&cc);
    col.calls += 1;
    col.cls.extend(cc.cls.into_iter().map(|x| x.0));
    STATE.with(|s| *s.borrow_mut() = Some(st));
}

fn proof_error() -> Option<String> {
    STATE.with(|s| s.borrow().as_ref().and_then(|s| s.err.clone()))
}

macro_rules! cert_enc {
    ($w:ident, $base:ident, $name:expr, $tr:ident, $($k:ident => $e:ident, $ec:ident;)*) => {
        pub struct $w($base);
        impl DynEnc for $w {
            fn name(&self) -> &'static str { $name }
            fn kinds(&self) -> &'static [Kind] { self.0.kinds() }
            fn incremental(&self) -> bool { true }
            fn extendable(&self) -> bool { self.0.extendable() }
            fn is_card(&self) -> bool { self.0.is_card() }
            fn extend(&mut self, lits: &[(i32, usize)]) { self.0.extend(lits) }
            #[allow(unreachable_patterns)]
            fn encode(&mut self, k: Kind, change: bool, r: Range, col: &mut Col, vm: &mut Vm) {
                #[allow(unused_imports)]
                use $tr::cert::{BoundBoth as _, BoundBothIncremental as _, BoundLower as _, BoundLowerIncremental as _, BoundUpper as _, BoundUpperIncremental as _};
                let e = &mut self.0 .0;
                with_cert(col, |cc, p| match (k, change) {
                    $((Kind::$k, false) => e.$e(r, cc, vm, p),
                      (Kind::$k, true) => e.$ec(r, cc, vm, p),)*
                    _ => unreachable!(),
                })
            }
            fn enforce(&self, k: Kind, b: usize) -> Result<Vec<i32>, EErr> { self.0.enforce(k, b) }
            fn reserve(&mut self, vm: &mut Vm) { self.0.reserve(vm) }
            fn stats(&self) -> Option<(usize, u32)> { self.0.stats() }
            fn total(&self) -> usize { self.0.total() }
            fn next_higher(&self, v: usize) -> usize { self.0.next_higher(v) }
            fn next_lower(&self, v: usize) -> usize { self.0.next_lower(v) }
            fn coarse(&self, k: Kind, b: usize) -> usize { self.0.coarse(k, b) }
        }
        impl $w {
            pub const MAKER: Maker = Maker {
                name: $name,
                make: |ls| Box::new($w($base(ls.iter().map(|x| (tolit(x.0), x.1)).collect::<Inputs>().into_enc()))),
                ..$base::MAKER
            };
        }
    };
}

/// inputs to be turned into an encoder over literals or weighted literals
struct Inputs(Vec<(rustsat::types::Lit, usize)>);
impl FromIterator<(rustsat::types::Lit, usize)> for Inputs {
    fn from_iter<T: IntoIterator<Item = (rustsat::types::Lit, usize)>>(i: T) -> Self {
        Inputs(i.into_iter().collect())
    }
}
trait IntoEnc<E> {
    fn into_enc(self) -> E;
}
macro_rules! into_card {
    ($($t:ty),* $(,)?) => { $(impl IntoEnc<$t> for Inputs { fn into_enc(self) -> $t { self.0.into_iter().map(|x| x.0).collect() } })* };
}
macro_rules! into_pb {
    ($($t:ty),* $(,)?) => { $(impl IntoEnc<$t> for Inputs { fn into_enc(self) -> $t { self.0.into_iter().collect() } })* };
}
use card::simulators::{Double as CDouble, Inverted as CInverted};
use card::Totalizer;
use pb::simulators::{Card as PCard, Double as PDouble, Inverted as PInverted};
use pb::GeneralizedTotalizer as Gte;
into_card!(Totalizer, CInverted<Totalizer>, CDouble<Totalizer, Totalizer>, CDouble<CInverted<Totalizer>, CInverted<Totalizer>>, CInverted<CDouble<Totalizer, Totalizer>>, CInverted<CInverted<Totalizer>>);
into_pb!(Gte, PInverted<Gte>, PDouble<Gte, PInverted<Gte>>, PInverted<PDouble<Gte, PInverted<Gte>>>, PCard<Totalizer>, PCard<CInverted<Totalizer>>, PInverted<PCard<Totalizer>>);

macro_rules! cert_all {
    ($w:ident, $base:ident, $name:expr, $tr:ident) => {
        cert_enc!($w, $base, $name, $tr,
            Ub => encode_ub_cert, encode_ub_change_cert;
            Lb => encode_lb_cert, encode_lb_change_cert;
            Both => encode_both_cert, encode_both_change_cert;);
    };
}
cert_all!(XTot, CTot, "cert/card/Totalizer", card);
cert_all!(XInv, CInv, "cert/card/Inverted<Totalizer>", card);
cert_all!(XDbl, CDbl, "cert/card/Double<Totalizer,Totalizer>", card);
cert_all!(XDblInv, CDblInv, "cert/card/Double<Inverted<Totalizer>,Inverted<Totalizer>>", card);
cert_all!(XInvDbl, CInvDbl, "cert/card/Inverted<Double<Totalizer,Totalizer>>", card);
cert_enc!(XGte, PGte, "cert/pb/Gte", pb, Ub => encode_ub_cert, encode_ub_change_cert;);
cert_enc!(XInvGte, PInvGte, "cert/pb/Inverted<Gte>", pb, Lb => encode_lb_cert, encode_lb_change_cert;);
cert_all!(XDblGte, PDblGte, "cert/pb/Double<Gte,Inverted<Gte>>", pb);
cert_all!(XInvDblGte, PInvDblGte, "cert/pb/Inverted<Double<Gte,Inverted<Gte>>>", pb);
cert_all!(XCard, PCardTot, "cert/pb/Card<Totalizer>", pb);
cert_all!(XCardInv, PCardInv, "cert/pb/Card<Inverted<Totalizer>>", pb);
cert_all!(XInvCard, PInvCard, "cert/pb/Inverted<Card<Totalizer>>", pb);

const CERT_CARD: [&Maker; 5] = [&XTot::MAKER, &XInv::MAKER, &XDbl::MAKER, &XDblInv::MAKER, &XInvDbl::MAKER];
const CERT_PB: [&Maker; 7] = [&XGte::MAKER, &XInvGte::MAKER, &XDblGte::MAKER, &XInvDblGte::MAKER, &XCard::MAKER, &XCardInv::MAKER, &XInvCard::MAKER];

/// random input constraints
fn noise(c: &mut Case, names: &mut Names, nin: usize, pre: &str) -> Vec<Constr> {
    let mut out = vec![];
    for _ in 0..c.rng.below(3) {
        let k = c.rng.us(1, nin);
        let ls = c.rng.distinct_lits(nin, k);
        let ls: Vec<(u32, bool)> = ls.iter().map(|&l| (names.get(&format!("{pre}{}", l.abs())), l < 0)).collect();
        out.push(Constr::from_clause(&ls));
    }
    out
}

fn done(c: &mut Case) -> Res {
    let Some(mut st) = STATE.with(|s| s.borrow_mut().take()) else { return Ok(()) };
    if let Some(e) = st.err.take() {
        return Err(mkfail("proof", e));
    }
    let p = st.proof.take().unwrap();
    if c.rng.bool() {
        drop(p);
    } else {
        p.conclude::<Var>(pigeons::OutputGuarantee::None, &pigeons::Conclusion::None).expect("in-memory write");
    }
    let text = st.buf.take();
    let r = st.checker.check(&text).and_then(|()| st.checker.parser.finish());
    check!(r.is_ok(), "proof-end", "{}", r.unwrap_err());
    for (k, n) in &st.checker.steps {
        c.count(&format!("step_{k}"), *n);
    }
    c.count("certified_clauses", st.handed);
    Ok(())
}

/// a history over one certified encoder (the proof starts from unrelated constraints only)
fn bounds(c: &mut Case, card: bool) -> Res {
    let set: &[&'static Maker] = if card { &CERT_CARD } else { &CERT_PB };
    let mk = set[c.idx as usize % set.len()];
    let mut names = Names::default();
    let f = noise(c, &mut names, 3, "y");
    STATE.with(|s| *s.borrow_mut() = Some(State::new(f, names)));
    let how = c.rng.below(4);
    let r = match how {
        0 => m_enc::from_scratch_with(c, mk, Mode::Semantics),
        1 => m_enc::repeated_with(c, mk),
        _ => m_enc::history_with(c, mk, Mode::Semantics),
    };
    if let Some(e) = proof_error() {
        STATE.with(|s| *s.borrow_mut() = None);
        return Err(mkfail(format!("{}:proof", mk.name), e));
    }
    match r {
        Ok(()) => done(c),
        Err(e) => {
            STATE.with(|s| *s.borrow_mut() = None);
            Err(e)
        }
    }
}

/// constraints encoded from their own statement, several in one proof
fn constraints(c: &mut Case, card_only: bool) -> Res {
    use rustsat::types::constraints::{CardConstraint, PbConstraint};
    let nin = c.rng.us(1, 6);
    let n_constr = c.rng.us(1, 3);
    let mut names = Names::default();
    let mut formula = noise(c, &mut names, nin, "x");
    struct Spec {
        terms: Vec<(i32, isize)>,
        k: Kind,
        b: i64,
        id: usize,
    }
    let mut specs = vec![];
    for _ in 0..n_constr {
        let n = c.rng.us(0, 7);
        let rep = c.rng.chance(1, 3);
        let lits: Vec<i32> = if rep { (0..n).map(|_| c.rng.lit(nin)).collect() } else { c.rng.distinct_lits(nin, n) };
        let max = *c.rng.pick(&[1i64, 3, 6, 20]);
        let style = c.rng.below(4);
        let terms: Vec<(i32, isize)> = lits
            .iter()
            .map(|&l| {
                let w = if card_only {
                    1
                } else if style == 3 {
                    max
                } else {
                    c.rng.range(1, max)
                };
                (l, (if !card_only && style == 2 && c.rng.bool() { -w } else { w }) as isize)
            })
            .collect();
        let pos: i64 = terms.iter().filter(|w| w.1 > 0).map(|&w| w.1 as i64).sum();
        let neg: i64 = terms.iter().filter(|w| w.1 < 0).map(|&w| w.1 as i64).sum();
        let b = if card_only { c.rng.range(0, pos + 2) } else { c.rng.range(neg - 2, pos + 2) };
        let k = *c.rng.pick(&[Kind::Ub, Kind::Lb, Kind::Both]);
        let mut lhs = Constr::default();
        for &(l, w) in &terms {
            let (v, s) = lit_name(&mut names, l);
            lhs.add_lit(w as i128, v, s);
        }
        let id = formula.len() + 1;
        let lb = Constr { terms: lhs.terms.clone(), deg: lhs.deg + b as i128 };
        let ub = {
            // -lhs >= -b, the constants moved over by negative literals included
            let m = lhs.mul(-1);
            Constr { terms: m.terms, deg: m.deg - b as i128 }
        };
        match k {
            Kind::Ub => formula.push(ub),
            Kind::Lb => formula.push(lb),
            Kind::Both => {
                formula.push(lb);
                formula.push(ub);
            }
        }
        specs.push(Spec { terms, k, b, id });
    }
    let mut st = State::new(formula, names);
    let mut vm = Vm::new(nin);
    let mut col = Col::default();
    let mut unsat_reported = false;
    c.rng.shuffle(&mut specs);
    let mut desc = String::new();
    for s in &specs {
        let how = c.rng.below(6);
        c.log(format!("constraint {}: {:?} {:?} {} via {how}", s.id, s.k, s.terms, s.b));
        desc.push_str(&format!("{how}{:?}{:?}{};", s.k, s.terms, s.b));
        let mut cc = CCol::default();
        let id = pigeons::AbsConstraintId::new(s.id);
        let p = st.proof.as_mut().unwrap();
        let vmr = &mut vm;
        let ccr = &mut cc;
        let res: Result<(), String> = if card_only {
            use card::cert::{self, BoundBoth as _};
            let ll = || s.terms.iter().map(|&(l, _)| tolit(l));
            let constr = match s.k {
                Kind::Ub => CardConstraint::new_ub(ll(), s.b as usize),
                Kind::Lb => CardConstraint::new_lb(ll(), s.b as usize),
                Kind::Both => CardConstraint::new_eq(ll(), s.b as usize),
            };
            type Inv = CInverted<Totalizer>;
            type Dbl = CDouble<Totalizer, Inv>;
            c.run(&format!("card-constraint-{how}"), || match how {
                0 => cert::default_encode_cardinality_constraint((constr, id), ccr, vmr, p).map_err(|e| format!("{e}")),
                1 => cert::encode_cardinality_constraint::<Inv, _, _>((constr, id), ccr, vmr, p).map_err(|e| format!("{e}")),
                2 => cert::encode_cardinality_constraint::<Dbl, _, _>((constr, id), ccr, vmr, p).map_err(|e| format!("{e}")),
                3 => Totalizer::encode_constr_cert((constr, id), ccr, vmr, p).map_err(|e| format!("{e}")),
                4 => Inv::encode_constr_cert((constr, id), ccr, vmr, p).map_err(|e| format!("{e}")),
                _ => Dbl::encode_constr_cert((constr, id), ccr, vmr, p).map_err(|e| format!("{e}")),
            })?
        } else {
            use pb::cert::{self, BoundBoth as _};
            let ll = || s.terms.iter().map(|&(l, w)| (tolit(l), w));
            let constr = match s.k {
                Kind::Ub => PbConstraint::new_ub(ll(), s.b as isize),
                Kind::Lb => PbConstraint::new_lb(ll(), s.b as isize),
                Kind::Both => PbConstraint::new_eq(ll(), s.b as isize),
            };
            type Inv = PInverted<Gte>;
            type Dbl = PDouble<Gte, Inv>;
            type Crd = PCard<Totalizer>;
            c.run(&format!("pb-constraint-{how}"), || match how {
                0 | 1 => cert::default_encode_pb_constraint((constr, id), ccr, vmr, p).map_err(|e| format!("{e}")),
                2 => cert::encode_pb_constraint::<PInverted<Dbl>, _, _>((constr, id), ccr, vmr, p).map_err(|e| format!("{e}")),
                3 => Dbl::encode_constr_cert((constr, id), ccr, vmr, p).map_err(|e| format!("{e}")),
                4 => Crd::encode_constr_cert((constr, id), ccr, vmr, p).map_err(|e| format!("{e}")),
                _ => cert::encode_pb_constraint::<Dbl, _, _>((constr, id), ccr, vmr, p).map_err(|e| format!("{e}")),
            })?
        };
        st.sync(&cc);
        if let Some(e) = st.err.take() {
            return Err(mkfail(format!("constraint-proof:{}", if card_only { "card" } else { "pb" }), format!("{:?} {:?} {} via {how}: {e}", s.k, s.terms, s.b)));
        }
        c.log(format!("  -> {res:?} {:?}", cc.cls.iter().map(|x| &x.0).collect::<Vec<_>>()));
        col.cls.extend(cc.cls.into_iter().map(|x| x.0));
        if let Err(e) = res {
            check!(e == "constraint is unsat" && how > 2, "constraint-error", "{:?} {:?} {} via {how}: encoding failed with {e}", s.k, s.terms, s.b);
            let sat = (0..1u64 << nin).find(|&a| spec_holds(&s.terms, s.k, s.b, a));
            check!(sat.is_none(), "constraint-unsat", "{:?} {:?} {} reported unsatisfiable, {sat:?} satisfies it", s.k, s.terms, s.b);
            unsat_reported = true;
        }
    }
    // the clauses together mean the constraints together
    if !unsat_reported {
        let mut sat = vcore::oracle::Sat::from_clauses(&col.cls);
        for a in 0..1u64 << nin {
            let want = specs.iter().all(|s| spec_holds(&s.terms, s.k, s.b, a));
            let got = sat.solve(&vcore::oracle::assumps(a, nin));
            c.count("projections", 1);
            check!(got == want, if got { "constraints-admit" } else { "constraints-exclude" }, "inputs {:?} are {}", vcore::oracle::assumps(a, nin), if got { "admitted" } else { "excluded" });
        }
    }
    STATE.with(|s| *s.borrow_mut() = Some(st));
    done(c)?;
    c.nontrivial(&desc);
    Ok(())
}

fn spec_holds(terms: &[(i32, isize)], k: Kind, b: i64, a: u64) -> bool {
    let s: i64 = terms.iter().filter(|&&(l, _)| vcore::oracle::lit_true(l, a)).map(|&(_, w)| w as i64).sum();
    match k {
        Kind::Ub => s <= b,
        Kind::Lb => s >= b,
        Kind::Both => s == b,
    }
}

// ------------------------------------------------------------------------------------------------
// C29

const VARS: [&str; 7] = ["x1", "x2", "x3", "y_4", "z5", "abc", "v[7]"];

#[derive(Clone, Debug)]
struct GC {
    terms: Vec<(isize, bool, &'static str)>,
    rhs: isize,
}
impl pigeons::ConstraintLike<&'static str> for GC {
    fn rhs(&self) -> isize {
        self.rhs
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, pigeons::Axiom<&'static str>)> {
        use pigeons::VarLike;
        self.terms.iter().map(|t| (t.0, t.2.axiom(t.1)))
    }
}
/// constraint over the variables of an order
#[derive(Clone, Debug)]
struct OC {
    terms: Vec<(isize, bool, pigeons::OrderVar<&'static str>)>,
    rhs: isize,
}
impl pigeons::ConstraintLike<pigeons::OrderVar<&'static str>> for OC {
    fn rhs(&self) -> isize {
        self.rhs
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, pigeons::Axiom<pigeons::OrderVar<&'static str>>)> {
        use pigeons::VarLike;
        self.terms.iter().map(|t| (t.0, t.2.axiom(t.1)))
    }
}
#[derive(Clone, Debug)]
struct GO {
    terms: Vec<(isize, bool, &'static str)>,
    offset: isize,
}
impl pigeons::ObjectiveLike<&'static str> for GO {
    fn sum_iter(&self) -> impl Iterator<Item = (isize, pigeons::Axiom<&'static str>)> {
        use pigeons::VarLike;
        self.terms.iter().map(|t| (t.0, t.2.axiom(t.1)))
    }
    fn offset(&self) -> isize {
        self.offset
    }
}

fn gen_coef(r: &mut Rng) -> isize {
    match r.below(12) {
        0 => 0,
        1 => isize::MAX,
        2 => isize::MIN + 1,
        3..=5 => -(r.range(1, 20) as isize),
        _ => r.range(1, 20) as isize,
    }
}
fn gen_terms(r: &mut Rng) -> Vec<(isize, bool, &'static str)> {
    let n = r.below(5);
    (0..n).map(|_| (gen_coef(r), r.bool(), *r.pick(&VARS))).collect()
}
fn gen_constr(r: &mut Rng) -> GC {
    GC { terms: gen_terms(r), rhs: gen_coef(r) }
}
fn model(names: &mut Names, terms: &[(isize, bool, &str)], rhs: isize) -> Constr {
    let mut c = Constr::default();
    for &(k, n, v) in terms {
        let v = names.get(v);
        c.add_lit(k as i128, v, n);
    }
    c.deg += rhs as i128;
    c
}
fn model_obj(names: &mut Names, o: &GO) -> Objective {
    let c = model(names, &o.terms, 0);
    Objective { terms: c.terms, constant: o.offset as i128 - c.deg }
}

/// an identifier, absolute or relative
fn gen_id(r: &mut Rng, next: usize) -> (pigeons::ConstraintId, usize) {
    if next > 1 && r.bool() {
        let k = r.us(1, next - 1);
        (pigeons::ConstraintId::last(k), next - k)
    } else {
        let k = r.us(1, next + 2);
        (pigeons::ConstraintId::abs(k), k)
    }
}

/// meaning of a postfix sequence: constraints are stand-ins determined by their identifier
fn denote(ops: &[Op], next: usize, names: &mut Names) -> Result<Constr, String> {
    let mut st: Vec<Constr> = vec![];
    for o in ops {
        let pop = |st: &mut Vec<Constr>| st.pop().ok_or("too few operands".to_string());
        match o {
            Op::Id(i) => {
                let id = match i {
                    IdRef::Abs(i) => *i,
                    IdRef::Rel(k) => next.checked_sub(*k).ok_or("relative id out of range")?,
                };
                st.push(stand_in(id, names));
            }
            Op::Ax(v, n) => {
                let mut c = Constr::default();
                c.add_lit(1, *v, *n);
                st.push(c);
            }
            Op::Add => {
                let b = pop(&mut st)?;
                let a = pop(&mut st)?;
                st.push(a.add(&b));
            }
            Op::Mul(k) => {
                let a = pop(&mut st)?;
                st.push(a.mul(*k));
            }
            Op::Div(k) => {
                let a = pop(&mut st)?;
                st.push(a.div(*k));
            }
            Op::Sat => {
                let a = pop(&mut st)?;
                st.push(a.saturate());
            }
            Op::Weak => {
                let a = pop(&mut st)?;
                st.push(weak(&a));
            }
        }
    }
    if st.len() != 1 {
        return Err(format!("{} constraints left on the stack", st.len()));
    }
    Ok(st.pop().unwrap())
}
fn stand_in(id: usize, names: &mut Names) -> Constr {
    let mut c = Constr { deg: (id * 7 % 11) as i128 + 1, ..Constr::default() };
    for (k, v) in VARS.iter().enumerate() {
        let co = ((id * (k + 3) * 5 + id / 3 + k) % 13) as i128 - 5;
        let v = names.get(v);
        c.add_lit(co, v, false);
    }
    c
}
/// a stand-in for weakening, which is not commutative with the other operations
fn weak(a: &Constr) -> Constr {
    let mut r = a.clone();
    r.terms.pop_last();
    r.deg = r.deg * 3 - 2;
    r
}

type Seq = pigeons::OperationSequence<&'static str>;

/// builds a sequence together with its meaning (`None`: empty)
fn gen_ops(r: &mut Rng, next: usize, depth: usize, names: &mut Names, log: &mut String) -> (Seq, Option<Constr>) {
    use pigeons::{OperationLike, VarLike};
    let leaf = depth == 0 || r.chance(1, 5);
    if leaf {
        return match r.below(8) {
            0 => {
                log.push('0');
                (Seq::empty(), None)
            }
            1..=3 => {
                let (v, n) = (*r.pick(&VARS), r.bool());
                log.push_str(&format!("{}{v}", if n { "~" } else { "" }));
                let i = names.get(v);
                let mut c = Constr::default();
                c.add_lit(1, i, n);
                let s = if n { v.neg_axiom() } else { v.pos_axiom() };
                // double negation and saturation of an axiom leave it alone
                (if r.chance(1, 4) { Seq::from(!!s) } else { Seq::from(s) }, Some(c))
            }
            _ => {
                let (id, n) = gen_id(r, next);
                log.push_str(&format!("@{n}"));
                let s = if r.bool() { Seq::from(id) } else { Seq::from(pigeons::AbsConstraintId::new(n)) };
                (s, Some(stand_in(n, names)))
            }
        };
    }
    match r.below(7) {
        0..=2 => {
            log.push('(');
            let (a, ca) = gen_ops(r, next, depth - 1, names, log);
            log.push('+');
            // the right operand in one of the forms the operator accepts
            let form = r.below(6);
            let (s, cb) = match form {
                0 => {
                    let (id, n) = gen_id(r, next);
                    log.push_str(&format!("@{n}"));
                    (a + id, Some(stand_in(n, names)))
                }
                1 => {
                    let n = r.us(1, next);
                    log.push_str(&format!("@{n}"));
                    (a + pigeons::AbsConstraintId::new(n), Some(stand_in(n, names)))
                }
                2 => {
                    let (v, n) = (*r.pick(&VARS), r.bool());
                    log.push_str(&format!("{}{v}", if n { "~" } else { "" }));
                    let i = names.get(v);
                    let mut c = Constr::default();
                    c.add_lit(1, i, n);
                    (a + v.axiom(n), Some(c))
                }
                3 => {
                    let (b, cb) = gen_ops(r, next, depth - 1, names, log);
                    let mut a = a;
                    a += b;
                    (a, cb)
                }
                4 => {
                    // left operand a plain axiom, id or absolute id
                    let (b, cb) = gen_ops(r, next, depth - 1, names, log);
                    let s = a + b;
                    let (v, n) = (*r.pick(&VARS), r.bool());
                    let i = names.get(v);
                    let mut c = Constr::default();
                    c.add_lit(1, i, n);
                    let id = r.us(1, next);
                    let joined = match (&ca, &cb) {
                        (Some(x), Some(y)) => Some(x.add(y)),
                        (x, y) => x.clone().or(y.clone()),
                    };
                    log.push_str(&format!(" flip {v}{n} {id})"));
                    let (s, l) = match r.below(3) {
                        0 => (v.axiom(n) + s, c),
                        1 => (pigeons::ConstraintId::abs(id) + s, stand_in(id, names)),
                        _ => (pigeons::AbsConstraintId::new(id) + s, stand_in(id, names)),
                    };
                    return (s, Some(match joined {
                        None => l,
                        Some(j) => l.add(&j),
                    }));
                }
                _ => {
                    let (b, cb) = gen_ops(r, next, depth - 1, names, log);
                    (a + b, cb)
                }
            };
            log.push(')');
            let c = match (ca, cb) {
                (Some(x), Some(y)) => Some(x.add(&y)),
                (x, y) => x.or(y),
            };
            (s, c)
        }
        3 => {
            let (mut a, ca) = gen_ops(r, next, depth - 1, names, log);
            let k = *r.pick(&[0usize, 1, 2, 3, 10, 2, 3, 5]);
            log.push_str(&format!("*{k}"));
            let s = match r.below(3) {
                0 => a * k,
                1 => k * a,
                _ => {
                    a *= k;
                    a
                }
            };
            (s, if k == 0 { None } else { ca.map(|c| c.mul(k as i128)) })
        }
        4 => {
            let (mut a, ca) = gen_ops(r, next, depth - 1, names, log);
            let k = *r.pick(&[1usize, 2, 3, 4, 7]);
            log.push_str(&format!("/{k}"));
            let s = if r.bool() {
                a / k
            } else {
                a /= k;
                a
            };
            (s, ca.map(|c| c.div(k as i128)))
        }
        5 => {
            let (a, ca) = gen_ops(r, next, depth - 1, names, log);
            log.push('s');
            (a.saturate(), ca.map(|c| c.saturate()))
        }
        _ => {
            let (a, ca) = gen_ops(r, next, depth - 1, names, log);
            log.push('w');
            (a.weaken(), ca.map(|c| weak(&c)))
        }
    }
}

fn gen_nonempty(r: &mut Rng, next: usize, names: &mut Names, log: &mut String) -> (Seq, Constr) {
    loop {
        let mut l = String::new();
        let d = r.us(0, 5);
        let (s, c) = gen_ops(r, next, d, names, &mut l);
        if let Some(c) = c {
            log.push_str(&l);
            return (s, c);
        }
    }
}

/// expected derivation: a constraint with hints or the meaning of a sequence
enum XDer {
    Rup(Constr, Vec<usize>),
    Pol(Constr),
}
enum XEl {
    Der(XDer),
    Goal(GoalId, Vec<XDer>),
}

fn abs_id(i: &IdRef, next: usize) -> Result<usize, String> {
    match i {
        IdRef::Abs(i) => Ok(*i),
        IdRef::Rel(k) => next.checked_sub(*k).filter(|x| *x > 0).ok_or("relative id out of range".into()),
    }
}
fn cmp_ids(got: &[IdRef], want: &[usize], next: usize) -> Result<(), String> {
    let g = got.iter().map(|i| abs_id(i, next)).collect::<Result<Vec<_>, _>>()?;
    if g == want {
        Ok(())
    } else {
        Err(format!("ids {g:?} instead of {want:?}"))
    }
}
fn cmp_der(got: &Der, want: &XDer, next: usize, names: &mut Names) -> Result<(), String> {
    match (got, want) {
        (Der::Rup(c, h), XDer::Rup(wc, wh)) => {
            if c != wc {
                return Err(format!("constraint {c:?} instead of {wc:?}"));
            }
            cmp_ids(h, wh, next)
        }
        (Der::Pol(ops), XDer::Pol(w)) => {
            let g = denote(ops, next, names)?;
            if g == *w {
                Ok(())
            } else {
                Err(format!("operations mean {g:?} instead of {w:?}"))
            }
        }
        _ => Err("wrong kind of derivation".into()),
    }
}
/// compares a subproof; `next` is the next id before the step
fn cmp_els(got: &[SubEl], want: &[XEl], mut next: usize, names: &mut Names) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} elements in the subproof instead of {}", got.len(), want.len()));
    }
    for (g, w) in got.iter().zip(want) {
        match (g, w) {
            (SubEl::Der(g), XEl::Der(w)) => {
                cmp_der(g, w, next, names)?;
                next += 1;
            }
            (SubEl::Goal(gi, gd, q), XEl::Goal(wi, wd)) => {
                if gi != wi {
                    return Err(format!("goal {gi:?} instead of {wi:?}"));
                }
                if q != "-1" && !q.is_empty() {
                    return Err(format!("goal ends with {q:?}"));
                }
                if gd.len() != wd.len() {
                    return Err(format!("{} derivations instead of {}", gd.len(), wd.len()));
                }
                next += 1;
                for (g, w) in gd.iter().zip(wd) {
                    cmp_der(g, w, next, names)?;
                    next += 1;
                }
            }
            _ => return Err("wrong kind of subproof element".into()),
        }
    }
    Ok(())
}

type D = pigeons::Derivation<&'static str, GC>;
type El = pigeons::SubproofElement<&'static str, GC>;

fn gen_der(r: &mut Rng, next: usize, names: &mut Names, log: &mut String) -> (D, XDer) {
    if r.bool() {
        let g = gen_constr(r);
        let m = model(names, &g.terms, g.rhs);
        let hints: Vec<_> = (0..r.below(3)).map(|_| gen_id(r, next)).collect();
        log.push_str(&format!("rup {g:?} {hints:?};"));
        (pigeons::Derivation::Rup(g, hints.iter().map(|x| x.0).collect()), XDer::Rup(m, hints.iter().map(|x| x.1).collect()))
    } else {
        log.push_str("pol ");
        let (s, c) = gen_nonempty(r, next, names, log);
        log.push(';');
        (s.into(), XDer::Pol(c))
    }
}
fn gen_goal(r: &mut Rng, next: &mut usize, names: &mut Names, log: &mut String) -> (pigeons::ProofGoal<&'static str, GC>, XEl) {
    let (gid, x) = if r.bool() {
        let k = r.us(1, 9);
        (pigeons::ProofGoalId::specific(k), GoalId::Spec(k))
    } else {
        let k = r.us(1, 20);
        (pigeons::ConstraintId::abs(k).into(), GoalId::Constr(IdRef::Abs(k)))
    };
    log.push_str(&format!("goal {x:?} {{"));
    *next += 1;
    let mut ds = vec![];
    let mut xs = vec![];
    for _ in 0..r.below(4) {
        let (d, x) = gen_der(r, *next, names, log);
        *next += 1;
        ds.push(d);
        xs.push(x);
    }
    log.push('}');
    let goal = if r.bool() {
        pigeons::ProofGoal::new(gid, ds)
    } else {
        let mut g = pigeons::ProofGoal::empty(gid);
        g.extend(ds);
        g
    };
    (goal, XEl::Goal(x, xs))
}
fn gen_subproof(r: &mut Rng, next: usize, names: &mut Names, log: &mut String) -> (Vec<El>, Vec<XEl>) {
    if r.bool() {
        return (vec![], vec![]);
    }
    let mut next = next + 1;
    let mut e = vec![];
    let mut x = vec![];
    for _ in 0..r.us(1, 3) {
        if r.bool() {
            let (d, xd) = gen_der(r, next, names, log);
            next += 1;
            e.push(d.into());
            x.push(XEl::Der(xd));
        } else {
            let (g, xg) = gen_goal(r, &mut next, names, log);
            e.push(g.into());
            x.push(xg);
        }
    }
    (e, x)
}
fn gen_subst(r: &mut Rng, names: &mut Names) -> (Vec<pigeons::Substitution<&'static str>>, std::collections::BTreeMap<u32, Sub>) {
    use pigeons::VarLike;
    let mut vs = VARS.to_vec();
    r.shuffle(&mut vs);
    vs.truncate(r.below(4));
    let mut s = vec![];
    let mut m = std::collections::BTreeMap::new();
    for v in vs {
        let i = names.get(v);
        match r.below(4) {
            0 => {
                let b = r.bool();
                s.push(v.substitute_fixed(b));
                m.insert(i, Sub::Const(b));
            }
            1 => {
                let n = r.bool();
                s.push(pigeons::Substitution::from(v.axiom(n)));
                m.insert(i, Sub::Const(!n));
            }
            _ => {
                let (w, n) = (*r.pick(&VARS), r.bool());
                s.push(v.substitute_literal(w.axiom(n)));
                m.insert(i, Sub::Lit(names.get(w), n));
            }
        }
    }
    (s, m)
}
fn gen_sol(r: &mut Rng, names: &mut Names) -> (Vec<pigeons::Axiom<&'static str>>, Vec<(u32, bool)>) {
    use pigeons::VarLike;
    let mut vs = VARS.to_vec();
    r.shuffle(&mut vs);
    vs.truncate(r.below(5));
    let m: Vec<(&'static str, bool)> = vs.into_iter().map(|v| (v, r.bool())).collect();
    (m.iter().map(|&(v, n)| v.axiom(n)).collect(), m.iter().map(|&(v, n)| (names.get(v), n)).collect())
}

fn conclusion(r: &mut Rng, next: usize) -> (pigeons::Conclusion<&'static str>, String) {
    use pigeons::{Conclusion, VarLike};
    let lits: Vec<(&'static str, bool)> = (0..r.us(1, 3)).map(|k| (VARS[k], r.bool())).collect();
    let ax: Vec<_> = lits.iter().map(|&(v, n)| v.axiom(n)).collect();
    let txt = lits.iter().map(|&(v, n)| format!("{}{v}", if n { "~" } else { "" })).collect::<Vec<_>>().join(" ");
    match r.below(6) {
        0 => (Conclusion::None, "NONE".into()),
        1 => (Conclusion::Sat(None), "SAT".into()),
        2 => (Conclusion::Sat(Some(ax)), format!("SAT : {txt}")),
        3 => (Conclusion::Unsat(None), "UNSAT".into()),
        4 => {
            let (id, n) = gen_id(r, next);
            (Conclusion::Unsat(Some(id)), format!("UNSAT : @{n}"))
        }
        _ => {
            let lo = r.range(-20, 20) as isize;
            let hi = lo + r.range(0, 9) as isize;
            let id = if r.bool() { Some(gen_id(r, next)) } else { None };
            let sol = r.bool();
            let mut s = format!("BOUNDS {lo}");
            if let Some((_, n)) = id {
                s.push_str(&format!(" : @{n}"));
            }
            s.push_str(&format!(" {hi}"));
            if sol {
                s.push_str(&format!(" : {txt}"));
            }
            (Conclusion::Bounds { range: lo..hi + 1, lb_id: id.map(|x| x.0), ub_sol: if sol { Some(ax) } else { None } }, s)
        }
    }
}
/// replaces the identifier in a conclusion by `@<absolute id>`
fn norm_conclusion(c: &str, next: usize) -> String {
    let t: Vec<&str> = c.split_whitespace().collect();
    let mut out: Vec<String> = t.iter().map(|s| s.to_string()).collect();
    let pos = match t.first() {
        Some(&"UNSAT") if t.get(1) == Some(&":") => Some(2),
        Some(&"BOUNDS") if t.get(2) == Some(&":") => Some(3),
        _ => None,
    };
    if let Some(p) = pos {
        if let Some(x) = t.get(p) {
            let id = match x.strip_prefix('-') {
                Some(k) => k.parse::<usize>().ok().and_then(|k| next.checked_sub(k)),
                None => x.strip_prefix('@').unwrap_or(x).parse().ok(),
            };
            out[p] = id.map_or(format!("?{x}"), |i| format!("@{i}"));
        }
    }
    out.join(" ")
}

fn guarantee(r: &mut Rng) -> (pigeons::OutputGuarantee, String) {
    use pigeons::{OutputGuarantee as G, OutputType as T};
    let (t, n) = if r.bool() { (T::Implicit, "IMPLICIT") } else { (T::File, "FILE") };
    match r.below(4) {
        0 => (G::None, "NONE".into()),
        1 => (G::Derivable(t), format!("DERIVABLE {n}")),
        2 => (G::Equisatisfiable(t), format!("EQUISATISFIABLE {n}")),
        _ => (G::Equioptimal(t), format!("EQUIOPTIMAL {n}")),
    }
}

fn writer(c: &mut Case) -> Res {
    use pigeons::{AbsConstraintId as Abs, Proof};
    use std::ops::Bound;
    let stingy = if c.rng.chance(1, 4) { c.rng.us(1, 5) } else { 0 };
    let buf = Buf::stingy(stingy);
    let n = c.rng.below(6);
    let opt = c.rng.chance(2, 3);
    let mut ps = Parser::default();
    let mut next = n + 1;
    let (mut def_g, mut def_c) = ("NONE".to_string(), "NONE".to_string());
    let r = &mut c.rng;
    let mut proof = if r.bool() {
        Proof::new(buf.clone(), n, opt)
    } else {
        let (g, gs) = guarantee(r);
        let (k, ks) = conclusion(r, next);
        // a relative identifier refers to the end of the proof
        let rel = format!("{k}");
        def_g = gs;
        def_c = if rel.contains(": -") { rel } else { ks };
        Proof::new_with_conclusion(buf.clone(), n, opt, g, &k)
    }
    .expect("in-memory write");
    check_eq!(proof.first_proof_id(), Abs::new(n + 1), "first-id", "first proof id");
    macro_rules! step {
        ($what:expr) => {{
            let text = buf.take();
            ps.feed(&text);
            match ps.next() {
                Ok(Some((s, l))) => {
                    match ps.next() {
                        Ok(None) => {}
                        x => return Err(mkfail("extra-line", format!("{}: more than one step in {text:?}: {x:?}", $what))),
                    }
                    (s, l)
                }
                Ok(None) => return Err(mkfail("no-line", format!("{}: nothing written ({text:?})", $what))),
                Err(e) => return Err(mkfail(format!("malformed:{}", $what), format!("{text:?}: {e}"))),
            }
        }};
    }
    let (s, _) = step!("f");
    check_eq!(s, Step::F(n), "wrong:f", "number of constraints");
    let steps = c.rng.us(1, if c.thorough { 25 } else { 14 });
    let mut desc = String::new();
    let mut orders: Vec<String> = vec![];
    for _ in 0..steps {
        let mut log = String::new();
        let before = next;
        let r = &mut c.rng;
        let kind = r.below(28);
        let names = &mut ps.names;
        type NoEl = Vec<El>;
        macro_rules! ret {
            ($id:expr, $what:expr, $s:expr) => {{
                let id = $id.map_err(|e| mkfail("io", format!("{e}")))?;
                let taken = ids_taken(&$s);
                check_eq!(id, Abs::new(before + taken - 1), concat!("id:", $what), "identifier returned for {:?}", $s);
            }};
        }
        macro_rules! wrong {
            ($what:expr, $cond:expr, $s:expr, $want:expr) => {
                check!($cond, concat!("wrong:", $what), "{log}: wrote {:?}, expected {:?}", $s, $want)
            };
        }
        let s = match kind {
            0..=4 => {
                log.push_str("pol ");
                let (o, m) = gen_nonempty(r, before, names, &mut log);
                check!(!o.is_empty(), "is_empty", "{log} is reported as empty");
                let id = c.run("operations", || proof.operations(&o))?;
                let (s, _) = step!("pol");
                match &s {
                    Step::Der(d @ Der::Pol(_)) => {
                        let x = cmp_der(d, &XDer::Pol(m), before, &mut ps.names);
                        check!(x.is_ok(), "wrong:pol", "{log}: {} ({s:?})", x.unwrap_err());
                    }
                    s => return Err(mkfail("wrong:pol", format!("{log}: wrote {s:?}"))),
                }
                ret!(id, "pol", s);
                s
            }
            5 | 6 => {
                let g = gen_constr(r);
                let m = model(names, &g.terms, g.rhs);
                let hints: Vec<_> = (0..r.below(4)).map(|_| gen_id(r, before)).collect();
                log.push_str(&format!("rup {g:?} {hints:?}"));
                let id = c.run("rup", || proof.reverse_unit_prop(&g, hints.iter().map(|x| x.0)))?;
                let (s, _) = step!("rup");
                let want = XDer::Rup(m, hints.iter().map(|x| x.1).collect());
                match &s {
                    Step::Der(d @ Der::Rup(..)) => {
                        let x = cmp_der(d, &want, before, &mut ps.names);
                        check!(x.is_ok(), "wrong:rup", "{log}: {} ({s:?})", x.unwrap_err());
                    }
                    s => return Err(mkfail("wrong:rup", format!("{log}: wrote {s:?}"))),
                }
                ret!(id, "rup", s);
                s
            }
            7 => {
                let ids: Vec<_> = (0..r.us(1, 3)).map(|_| gen_id(r, before)).collect();
                let (e, x) = gen_subproof(r, before, names, &mut log);
                log.insert_str(0, &format!("del {ids:?} "));
                let res = c.run("delete_ids", || proof.delete_ids(ids.iter().map(|x| x.0), e))?;
                check!(res.is_ok(), "io", "{res:?}");
                let (s, _) = step!("del");
                match &s {
                    Step::DelId(gi, ge) => {
                        let want: Vec<usize> = ids.iter().map(|x| x.1).collect();
                        let y = cmp_ids(gi, &want, before).and_then(|()| cmp_els(ge, &x, before + usize::from(!x.is_empty()), &mut ps.names));
                        check!(y.is_ok(), "wrong:del", "{log}: {} ({s:?})", y.unwrap_err());
                    }
                    s => return Err(mkfail("wrong:del", format!("{log}: wrote {s:?}"))),
                }
                s
            }
            8 => {
                let g = gen_constr(r);
                let m = model(names, &g.terms, g.rhs);
                log.push_str(&format!("del spec {g:?}"));
                let res = c.run("delete_constr", || proof.delete_constr(&g))?;
                check!(res.is_ok(), "io", "{res:?}");
                let (s, _) = step!("delspec");
                wrong!("delspec", s == Step::DelSpec(m.clone()), s, m);
                s
            }
            9 | 10 => {
                // ranges of identifiers
                let core = kind == 10;
                let (a, an) = gen_id(r, before);
                let (b, bn) = gen_id(r, before);
                let lo = match r.below(3) {
                    0 => Bound::Included(a),
                    1 => Bound::Excluded(a),
                    _ => Bound::Unbounded,
                };
                let hi = match r.below(3) {
                    0 => Bound::Included(b),
                    1 => Bound::Excluded(b),
                    _ => Bound::Unbounded,
                };
                let ws = match lo {
                    Bound::Included(_) => an,
                    Bound::Excluded(_) => an + 1,
                    Bound::Unbounded => 1,
                };
                let we = match hi {
                    Bound::Included(_) => bn + 1,
                    Bound::Excluded(_) => bn,
                    Bound::Unbounded => before,
                };
                if ws >= we {
                    continue;
                }
                log.push_str(&format!("range core={core} {lo:?} {hi:?}"));
                let res = c.run("id-range", || if core { proof.move_range_to_core((lo, hi)) } else { proof.delete_id_range((lo, hi)) })?;
                check!(res.is_ok(), "io", "{res:?}");
                let (s, _) = step!("range");
                let (x, y) = match (&s, core) {
                    (Step::CoreRange(x, y), true) | (Step::DelRange(x, y), false) => (x, y),
                    _ => return Err(mkfail("wrong:range", format!("{log}: wrote {s:?}"))),
                };
                let got = (abs_id(x, before), abs_id(y, before));
                check!(got == (Ok(ws), Ok(we)), "wrong:range", "{log}: wrote {s:?}, meaning {got:?} instead of {ws}..{we}");
                s
            }
            11 => {
                let ids: Vec<_> = (0..r.us(1, 3)).map(|_| gen_id(r, before)).collect();
                let it = ids.iter().map(|x| x.0);
                let want: Vec<usize> = ids.iter().map(|x| x.1).collect();
                let which = r.below(3);
                log.push_str(&format!("ids {which} {ids:?}"));
                let res = c.run("ids", || match which {
                    0 => proof.delete_core_ids(it),
                    1 => proof.delete_derived_ids(it),
                    _ => proof.move_ids_to_core(it),
                })?;
                check!(res.is_ok(), "io", "{res:?}");
                let (s, _) = step!("ids");
                let got = match (&s, which) {
                    (Step::DelC(i), 0) | (Step::DelD(i), 1) | (Step::CoreId(i), 2) => i,
                    _ => return Err(mkfail("wrong:ids", format!("{log}: wrote {s:?}"))),
                };
                let y = cmp_ids(got, &want, before);
                check!(y.is_ok(), "wrong:ids", "{log}: {y:?}");
                s
            }
            12 | 13 if opt => {
                let o = GO { terms: gen_terms(r), offset: if r.chance(1, 3) { r.range(-9, 9) as isize } else { 0 } };
                let m = model_obj(names, &o);
                let which = r.below(3);
                log.push_str(&format!("objective {which} {o:?} "));
                let mut want_els = vec![];
                let res = match which {
                    0 => {
                        let mut goals = vec![];
                        let mut nx = before;
                        for _ in 0..r.below(3) {
                            let (g, x) = gen_goal(r, &mut nx, names, &mut log);
                            goals.push(g);
                            want_els.push(x);
                        }
                        let u = pigeons::ObjectiveUpdate::<&'static str, GO, GC>::new(o, goals);
                        c.run("update_objective", || proof.update_objective(&u))?
                    }
                    1 => {
                        let u = pigeons::ObjectiveUpdate::<&'static str, GO, GC>::diff(o);
                        c.run("update_objective", || proof.update_objective(&u))?
                    }
                    _ => c.run("obj_equals", || proof.obj_equals(&o))?,
                };
                check!(res.is_ok(), "io", "{res:?}");
                let (s, _) = step!("objective");
                match (&s, which) {
                    (Step::ObjuNew(g, els), 0) => {
                        wrong!("objective", *g == m, s, m);
                        let y = cmp_els(els, &want_els, before, &mut ps.names);
                        check!(y.is_ok(), "wrong:objective", "{log}: {}", y.unwrap_err());
                    }
                    (Step::ObjuDiff(g), 1) | (Step::Eobj(g), 2) => wrong!("objective", *g == m, s, m),
                    _ => return Err(mkfail("wrong:objective", format!("{log}: wrote {s:?}"))),
                }
                s
            }
            14..=17 => {
                let dom = kind == 17;
                let g = gen_constr(r);
                let m = model(names, &g.terms, g.rhs);
                let (w, wm) = gen_subst(r, names);
                let (e, x) = gen_subproof(r, before, names, &mut log);
                log.insert_str(0, &format!("red dom={dom} {g:?} {wm:?} "));
                let id = c.run("red", || if dom { proof.dominated(&g, w, e) } else { proof.redundant(&g, w, e) })?;
                let (s, _) = step!("red");
                match (&s, dom) {
                    (Step::Red(gc, gw, ge), false) | (Step::Dom(gc, gw, ge), true) => {
                        wrong!("red", *gc == m && *gw == wm, s, (m.clone(), wm.clone()));
                        let y = cmp_els(ge, &x, before + 1, &mut ps.names);
                        check!(y.is_ok(), "wrong:red", "{log}: {} ({s:?})", y.unwrap_err());
                    }
                    _ => return Err(mkfail("wrong:red", format!("{log}: wrote {s:?}"))),
                }
                ret!(id, "red", s);
                s
            }
            18 => {
                let (sol, m) = gen_sol(r, names);
                let which = r.below(3);
                log.push_str(&format!("sol {which} {m:?}"));
                match which {
                    0 => {
                        let x = c.run("sol", || proof.solution(sol))?;
                        check!(x.is_ok(), "io", "{x:?}");
                        let (s, _) = step!("sol");
                        wrong!("sol", s == Step::Sol(m.clone()), s, m);
                        s
                    }
                    _ => {
                        let id = c.run("solx", || if which == 1 { proof.exclude_solution(sol) } else { proof.improve_solution(sol) })?;
                        let (s, _) = step!("solx");
                        wrong!("solx", s == if which == 1 { Step::Solx(m.clone()) } else { Step::Soli(m.clone()) }, s, m);
                        ret!(id, "solx", s);
                        s
                    }
                }
            }
            19..=21 => {
                let g = gen_constr(r);
                let m = model(names, &g.terms, g.rhs);
                let of = if r.bool() { Some(gen_id(r, before)) } else { None };
                let i = of.map(|x| x.0);
                let which = r.below(4);
                log.push_str(&format!("check {which} {g:?} {of:?}"));
                let id = c.run("check", || match which {
                    0 => proof.equals(&g, i).map(|()| None),
                    1 => proof.equals_add(&g, i).map(Some),
                    2 => proof.implied(&g, i).map(|()| None),
                    _ => proof.implied_add(&g, i).map(Some),
                })?;
                let (s, _) = step!("check");
                let (gc, gi) = match (&s, which) {
                    (Step::E(a, b), 0) | (Step::Ea(a, b), 1) | (Step::I(a, b), 2) | (Step::Ia(a, b), 3) => (a, b),
                    _ => return Err(mkfail("wrong:check", format!("{log}: wrote {s:?}"))),
                };
                let gid = gi.as_ref().map(|i| abs_id(i, before));
                wrong!("check", *gc == m && gid == of.map(|x| Ok(x.1)), s, (m.clone(), of.map(|x| x.1)));
                if let Some(id) = id.map_err(|e| mkfail("io", format!("{e}")))? {
                    ret!(Ok::<_, std::io::Error>(id), "check", s);
                }
                s
            }
            22 => {
                let l = r.below(100);
                let set = r.bool();
                log.push_str(&format!("level {set} {l}"));
                let x = c.run("level", || if set { proof.set_level(l) } else { proof.wipe_level(l) })?;
                check!(x.is_ok(), "io", "{x:?}");
                let (s, _) = step!("level");
                wrong!("level", s == if set { Step::Level(l) } else { Step::Wipe(l) }, s, l);
                s
            }
            23 => {
                let v = r.bool();
                let x = c.run("s2c", || proof.strengthening_to_core(v))?;
                check!(x.is_ok(), "io", "{x:?}");
                let (s, _) = step!("s2c");
                wrong!("s2c", s == Step::S2c(v), s, v);
                s
            }
            24 => {
                let texts = ["a comment", "rup 1 x1 >= 1 ;", "", "  two\nlines", "three\n\nlines ; end", "tail\n"];
                let t = *r.pick(&texts);
                let multi = t.contains('\n') || r.bool();
                log.push_str(&format!("comment {multi} {t:?}"));
                let x = c.run("comment", || if multi { proof.multiline_comment(t) } else { proof.comment(&t) })?;
                check!(x.is_ok(), "io", "{x:?}");
                let want: Vec<&str> = if multi { t.lines().collect() } else { vec![t] };
                let text = buf.take();
                ps.feed(&text);
                let mut got = vec![];
                loop {
                    match ps.next() {
                        Ok(Some((Step::Comment(x), _))) => got.push(x),
                        Ok(None) => break,
                        x => return Err(mkfail("wrong:comment", format!("{log}: wrote {x:?}"))),
                    }
                }
                check!(got == want, "wrong:comment", "{log}: wrote {text:?}");
                continue;
            }
            25 => {
                let name = format!("ord{}", r.below(100));
                let (o, want) = gen_order(r, name.clone(), names, &mut log);
                let x = c.run("define_order", || proof.define_order(&o))?;
                check!(x.is_ok(), "io", "{x:?}");
                let (s, _) = step!("def_order");
                let Step::Order(got) = &s else { return Err(mkfail("wrong:def_order", format!("{log}: wrote {s:?}"))) };
                let y = cmp_order(got, &want, &mut ps.names);
                check!(y.is_ok(), "wrong:def_order", "{log}: {}", y.unwrap_err());
                orders.push(name);
                s
            }
            26 => {
                let name = if orders.is_empty() { "none".to_string() } else { r.pick(&orders).clone() };
                let mut vs = VARS.to_vec();
                r.shuffle(&mut vs);
                vs.truncate(r.below(5));
                log.push_str(&format!("load_order {name} {vs:?}"));
                let x = c.run("load_order", || proof.load_order(&name, vs.iter().copied()))?;
                check!(x.is_ok(), "io", "{x:?}");
                let (s, _) = step!("load_order");
                let want = Step::LoadOrder(name, vs.iter().map(|v| v.to_string()).collect());
                wrong!("load_order", s == want, s, want);
                s
            }
            27 => {
                if r.bool() {
                    let (g, gs) = guarantee(r);
                    let (k, ks) = conclusion(r, before);
                    let rel = format!("{k}");
                    proof.update_default_conclusion(g, &k);
                    def_g = gs;
                    def_c = if rel.contains(": -") { rel } else { ks };
                } else {
                    let m = r.below(9);
                    let x = proof.verify_num_constraints(m);
                    check!(x.is_ok(), "io", "{x:?}");
                    let (s, _) = step!("f");
                    check_eq!(s, Step::F(m), "wrong:f", "number of constraints");
                }
                continue;
            }
            _ => continue,
        };
        c.log(&log);
        desc.push_str(&log);
        c.count("steps", 1);
        next += ids_taken(&s);
        check_eq!(proof.next_id(), Abs::new(next), "next-id", "next identifier after {log} ({s:?})");
        let _ = NoEl::new();
    }
    let pvs: Vec<_> = (0..3).map(|_| format!("{}", proof.new_proof_var())).collect();
    check!(pvs[0] != pvs[1] && pvs[1] != pvs[2] && pvs[0] != pvs[2], "proof-var", "proof only variables {pvs:?}");
    // the end
    let (want_g, want_c) = if c.rng.bool() {
        let (g, gs) = guarantee(&mut c.rng);
        let (k, ks) = conclusion(&mut c.rng, next);
        let w = c.run("conclude", || proof.conclude(g, &k))?;
        check!(w.is_ok(), "io", "conclude failed");
        (gs, ks)
    } else {
        c.run("drop", || drop(proof))?;
        (def_g, def_c)
    };
    let text = buf.take();
    ps.feed(&text);
    let mut got = vec![];
    loop {
        match ps.next() {
            Ok(Some((s, _))) => got.push(s),
            Ok(None) => break,
            Err(e) => return Err(mkfail("malformed:end", format!("{text:?}: {e}"))),
        }
    }
    let want_n = norm_conclusion(&want_c, next);
    let ok = match got.as_slice() {
        [Step::Output(g), Step::Conclusion(k), Step::End] => *g == want_g && norm_conclusion(k, next) == want_n,
        _ => false,
    };
    check!(ok, "wrong:end", "proof ends with {got:?}, expected output {want_g}, conclusion {want_c}");
    let f = ps.finish();
    check!(f.is_ok(), "wrong:end", "{f:?}");
    c.nontrivial(&desc);
    Ok(())
}

struct XOrder {
    name: String,
    vars: std::collections::BTreeSet<&'static str>,
    def: Vec<Constr>,
    trans: Vec<Vec<Constr>>,
    refl: Vec<(usize, Vec<Constr>)>,
}

fn gen_order(r: &mut Rng, name: String, names: &mut Names, log: &mut String) -> (pigeons::Order<&'static str, OC>, XOrder) {
    use pigeons::OrderVar as V;
    let mut o = pigeons::Order::new(name.clone());
    let mut x = XOrder { name, vars: Default::default(), def: vec![], trans: vec![], refl: vec![] };
    let k = r.us(1, 4);
    for _ in 0..k {
        let v = *r.pick(&VARS);
        let (l, rt) = o.use_var(v);
        assert!(l == V::Left(v) && rt == V::Right(v));
        x.vars.insert(v);
    }
    let vars: Vec<&'static str> = x.vars.iter().copied().collect();
    let gen = |r: &mut Rng, names: &mut Names| {
        let n = r.below(4);
        let terms: Vec<_> = (0..n)
            .map(|_| {
                let v = *r.pick(&vars);
                let ov = match r.below(3) {
                    0 => V::Left(v),
                    1 => V::Right(v),
                    _ => V::FreshRight(v),
                };
                (r.range(-5, 5) as isize, r.bool(), ov)
            })
            .collect();
        let rhs = r.range(-5, 5) as isize;
        let mut m = Constr { deg: 0, ..Constr::default() };
        for (k, n, v) in &terms {
            let nm = match v {
                V::Left(v) => format!("u_{v}"),
                V::Right(v) => format!("v_{v}"),
                V::FreshRight(v) => format!("w_{v}"),
            };
            m.add_lit(*k as i128, names.get(&nm), *n);
        }
        m.deg += rhs as i128;
        (OC { terms, rhs }, m)
    };
    for _ in 0..r.us(1, 3) {
        let (d, m) = gen(r, names);
        x.def.push(m);
        let ders = |r: &mut Rng, names: &mut Names| {
            let mut a = vec![];
            let mut b = vec![];
            for _ in 0..r.below(3) {
                let (c, m) = gen(r, names);
                a.push(pigeons::Derivation::Rup(c, vec![]));
                b.push(m);
            }
            (a, b)
        };
        let (t, tm) = ders(r, names);
        x.trans.push(tm);
        let refl = if r.bool() {
            let (f, fm) = ders(r, names);
            x.refl.push((x.def.len(), fm));
            Some(f)
        } else {
            None
        };
        o.add_definition_constraint(d, t, refl);
    }
    log.push_str(&format!("{o}"));
    (o, x)
}

fn cmp_order(g: &OrderDef, w: &XOrder, _names: &mut Names) -> Result<(), String> {
    if g.name != w.name {
        return Err(format!("name {}", g.name));
    }
    let strip = |v: &[String], p: &str| -> Result<Vec<String>, String> { v.iter().map(|s| s.strip_prefix(p).map(str::to_string).ok_or(format!("{s:?} without {p}"))).collect() };
    let l = strip(&g.left, "u_")?;
    let r = strip(&g.right, "v_")?;
    let f = strip(&g.fresh_right, "w_")?;
    if l != r || l != f {
        return Err(format!("variables {l:?}, {r:?} and {f:?} are not aligned"));
    }
    let mut s = l.clone();
    s.sort();
    let want: Vec<String> = {
        let mut v: Vec<String> = w.vars.iter().map(|s| s.to_string()).collect();
        v.sort();
        v
    };
    if s != want || !g.aux.is_empty() {
        return Err(format!("variables {l:?} instead of {want:?}"));
    }
    if g.def != w.def {
        return Err(format!("definition {:?} instead of {:?}", g.def, w.def));
    }
    let rups = |d: &[Der]| -> Result<Vec<Constr>, String> {
        d.iter()
            .map(|d| match d {
                Der::Rup(c, h) if h.is_empty() => Ok(c.clone()),
                d => Err(format!("unexpected derivation {d:?}")),
            })
            .collect()
    };
    if g.trans.len() != w.trans.len() {
        return Err("transitivity proof has the wrong length".into());
    }
    for (k, ((id, d), w)) in g.trans.iter().zip(&w.trans).enumerate() {
        if *id != GoalId::Spec(k + 1) || rups(d)? != *w {
            return Err(format!("transitivity goal {id:?} {d:?}"));
        }
    }
    let refl = g.refl.clone().unwrap_or_default();
    if refl.len() != w.refl.len() {
        return Err("reflexivity proof has the wrong length".into());
    }
    for ((id, d), (wi, w)) in refl.iter().zip(&w.refl) {
        if *id != GoalId::Spec(*wi) || rups(d)? != *w {
            return Err(format!("reflexivity goal {id:?} {d:?}"));
        }
    }
    Ok(())
}

/// Clauses, constraints and objectives of the library as operands
fn types(c: &mut Case) -> Res {
    use rustsat::types::constraints::{CardConstraint, PbConstraint};
    let buf = Buf::default();
    let mut ps = Parser::default();
    let mut proof = pigeons::Proof::new(buf.clone(), 0, true).expect("in-memory write");
    let _ = buf.take();
    ps.feed("pseudo-Boolean proof version 2.0\n");
    let nv = *c.rng.pick(&[3usize, 6, 1000]);
    let n = c.rng.us(0, 6);
    let lits: Vec<i32> = (0..n).map(|_| c.rng.lit(nv)).collect();
    let ws: Vec<isize> = (0..n).map(|_| c.rng.range(-9, 9) as isize).collect();
    let which = c.rng.below(4);
    let b = c.rng.range(-10, 20);
    let ub = c.rng.bool();
    c.log(format!("{which} {lits:?} {ws:?} {b} ub={ub}"));
    let lin = |names: &mut Names, ts: &[(i32, i128)]| {
        let mut m = Constr::default();
        for &(l, w) in ts {
            let (v, s) = lit_name(names, l);
            m.add_lit(w, v, s);
        }
        m
    };
    let r = match which {
        0 => {
            let cl = tocl(&lits);
            let r = c.run("clause", || proof.reverse_unit_prop(&cl, None))?;
            let ts: Vec<(i32, i128)> = lits.iter().map(|&l| (l, 1)).collect();
            let mut m = lin(&mut ps.names, &ts);
            m.deg += 1;
            r.map(|_| m)
        }
        1 => {
            let bb = b.unsigned_abs() as usize;
            let ll = lits.iter().map(|&l| tolit(l));
            let cc = if ub { CardConstraint::new_ub(ll, bb) } else { CardConstraint::new_lb(ll, bb) };
            if ub && bb > n {
                // the right hand side n - b is negative: a trivial constraint all the same
                c.count("trivial_card", 1);
            }
            let r = c.run("card", || proof.reverse_unit_prop(&cc, None))?;
            let sg = if ub { -1 } else { 1 };
            let ts: Vec<(i32, i128)> = lits.iter().map(|&l| (l, sg)).collect();
            let mut m = lin(&mut ps.names, &ts);
            m.deg += sg * bb as i128;
            r.map(|_| m)
        }
        2 => {
            let ll = lits.iter().map(|&l| tolit(l)).zip(ws.iter().copied());
            let pc = if ub { PbConstraint::new_ub(ll, b as isize) } else { PbConstraint::new_lb(ll, b as isize) };
            let r = c.run("pb", || proof.reverse_unit_prop(&pc, None))?;
            let sg = if ub { -1 } else { 1 };
            let ts: Vec<(i32, i128)> = lits.iter().zip(&ws).map(|(&l, &w)| (l, sg * w as i128)).collect();
            let mut m = lin(&mut ps.names, &ts);
            m.deg += sg * b as i128;
            r.map(|_| m)
        }
        _ => {
            use rustsat::instances::Objective as O;
            let mut o = O::default();
            for (&l, &w) in lits.iter().zip(&ws) {
                o.increase_soft_lit_int(w, tolit(l));
            }
            o.increase_offset(b as isize);
            let r = c.run("objective", || proof.obj_equals(&o))?;
            let ts: Vec<(i32, i128)> = lits.iter().zip(&ws).map(|(&l, &w)| (l, w as i128)).collect();
            let m = lin(&mut ps.names, &ts);
            // soft literals are paid for when true
            r.map(|()| Constr { terms: m.terms, deg: m.deg - b as i128 })
        }
    };
    let m = r.map_err(|e| mkfail("io", format!("{e}")))?;
    let text = buf.take();
    ps.feed(&text);
    match ps.next() {
        Ok(Some((Step::Der(Der::Rup(g, h)), _))) => {
            check!(g == m && h.is_empty() && which < 3, "type-constraint", "{text:?} means {g:?}, expected {m:?}");
        }
        Ok(Some((Step::Eobj(g), _))) => {
            check!(which == 3 && g.terms == m.terms && g.constant == -m.deg, "type-objective", "{text:?} means {g:?}, expected {:?} + {}", m.terms, -m.deg);
        }
        x => return Err(mkfail("malformed:types", format!("{text:?}: {x:?}"))),
    }
    c.count("operands", 1);
    c.nontrivial(&format!("{which}|{lits:?}|{ws:?}|{b}|{ub}"));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C12",
            "random histories of certified encode calls and certified constraint encodings; every proof line checked by an independent cutting planes checker as it is written; distinct by encoder and history",
            vec![
                Sb::new("card", 2, |c| bounds(c, true)),
                Sb::new("pb", 3, |c| bounds(c, false)),
                Sb::new("card-constraints", 2, |c| constraints(c, true)),
                Sb::new("pb-constraints", 3, |c| constraints(c, false)),
            ],
        ),
        Prop::new(
            "C29",
            "random sequences of proof operations with random operands; each line is parsed back and compared with the operation asked for, identifiers with those of a checker; distinct by sequence",
            vec![Sb::new("writer", 4, writer), Sb::new("types", 1, types)],
        ),
    ]
}
