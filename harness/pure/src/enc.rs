//! Common machinery for monitoring CNF encodings: auditing collector and variable manager, type
//! erased encoders, exact projection checks.
use rustsat::encodings::nodedb::{NodeById, NodeCon, NodeId};
use rustsat::encodings::pb::BoundUpper as _;
use rustsat::encodings::totdb::Db;
use rustsat::encodings::{card, pb, CollectClauses, EncodeStats, EnforceError, NotEncoded};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::{Clause, Lit, Var};
use std::ops::Bound;
use vcore::oracle::Sat;

pub fn tolit(l: i32) -> Lit {
    assert!(l != 0);
    Lit::new(l.unsigned_abs() - 1, l < 0)
}
pub fn fromlit(l: Lit) -> i32 {
    let v = l.vidx32() as i32 + 1;
    if l.is_neg() {
        -v
    } else {
        v
    }
}
pub fn tocl(c: &[i32]) -> Clause {
    c.iter().map(|&l| tolit(l)).collect()
}
pub fn fromcl(c: &Clause) -> Vec<i32> {
    c.iter().map(|&l| fromlit(l)).collect()
}

/// Collector recording every clause delivered
#[derive(Default, Clone)]
pub struct Col {
    pub cls: Vec<Vec<i32>>,
    pub calls: usize,
}
impl CollectClauses for Col {
    fn n_clauses(&self) -> usize {
        self.cls.len()
    }
    fn extend_clauses<T>(&mut self, cl_iter: T) -> Result<(), rustsat::OutOfMemory>
    where
        T: IntoIterator<Item = Clause>,
    {
        self.calls += 1;
        for c in cl_iter {
            self.cls.push(fromcl(&c));
        }
        Ok(())
    }
}

/// Variable manager recording every variable handed out
pub struct Vm {
    inner: BasicVarManager,
    pub out: Vec<i32>,
    /// variables handed to somebody else / used before
    pub start: i32,
    pub bad: Option<String>,
}
impl Vm {
    pub fn new(used: usize) -> Self {
        Vm { inner: BasicVarManager::from_next_free(Var::new(used as u32)), out: vec![], start: used as i32, bad: None }
    }
}
impl ManageVars for Vm {
    fn new_var(&mut self) -> Var {
        let v = self.inner.new_var();
        self.out.push(v.idx32() as i32 + 1);
        v
    }
    fn max_var(&self) -> Option<Var> {
        self.inner.max_var()
    }
    fn increase_next_free(&mut self, v: Var) -> bool {
        self.bad = Some("increase_next_free called by an encoding".into());
        self.inner.increase_next_free(v)
    }
    fn combine(&mut self, _other: Self)
    where
        Self: Sized,
    {
        self.bad = Some("combine called by an encoding".into());
    }
    fn n_used(&self) -> u32 {
        self.inner.n_used()
    }
    fn forget_from(&mut self, _min_var: Var) {
        self.bad = Some("forget_from called by an encoding".into());
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Ub,
    Lb,
    Both,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EErr {
    NotEncoded,
    Unsat,
}
impl From<NotEncoded> for EErr {
    fn from(_: NotEncoded) -> Self {
        EErr::NotEncoded
    }
}
impl From<EnforceError> for EErr {
    fn from(e: EnforceError) -> Self {
        match e {
            EnforceError::NotEncoded => EErr::NotEncoded,
            EnforceError::Unsat => EErr::Unsat,
        }
    }
}
pub type Range = (Bound<usize>, Bound<usize>);

/// A type erased encoder
pub trait DynEnc {
    fn name(&self) -> &'static str;
    /// supports upper / lower bounds
    fn kinds(&self) -> &'static [Kind];
    fn incremental(&self) -> bool;
    fn extendable(&self) -> bool;
    fn is_card(&self) -> bool;
    fn extend(&mut self, lits: &[(i32, usize)]);
    fn encode(&mut self, k: Kind, change: bool, r: Range, col: &mut Col, vm: &mut Vm);
    fn enforce(&self, k: Kind, b: usize) -> Result<Vec<i32>, EErr>;
    fn reserve(&mut self, vm: &mut Vm);
    fn stats(&self) -> Option<(usize, u32)>;
    /// number of literals (cardinality) or sum of weights
    fn total(&self) -> usize;
    fn next_higher(&self, v: usize) -> usize;
    fn next_lower(&self, v: usize) -> usize;
    fn coarse(&self, k: Kind, b: usize) -> usize;
    /// replaces the encoder by one restored from its serialised form
    fn roundtrip(&mut self, _fmt: usize) -> Option<Result<&'static str, String>> {
        None
    }
}
fn swap<T: serde::Serialize + serde::de::DeserializeOwned>(x: &mut T, fmt: usize) -> Option<Result<&'static str, String>> {
    Some(crate::rt::trip(x, fmt).map(|(y, n)| {
        *x = y;
        n
    }))
}

fn outl(v: Vec<Lit>) -> Vec<i32> {
    v.into_iter().map(fromlit).collect()
}

/// the factory builds from an initial list
pub struct Maker {
    pub name: &'static str,
    pub kinds: &'static [Kind],
    pub incremental: bool,
    pub extendable: bool,
    pub card: bool,
    pub make: fn(&[(i32, usize)]) -> Box<dyn DynEnc>,
}

macro_rules! card_impl {
    ($w:ident, $name:expr, $ty:ty) => {
        pub struct $w(pub $ty);
        impl DynEnc for $w {
            fn name(&self) -> &'static str {
                $name
            }
            fn kinds(&self) -> &'static [Kind] {
                &[Kind::Ub, Kind::Lb, Kind::Both]
            }
            fn incremental(&self) -> bool {
                true
            }
            fn extendable(&self) -> bool {
                true
            }
            fn is_card(&self) -> bool {
                true
            }
            fn extend(&mut self, lits: &[(i32, usize)]) {
                self.0.extend(lits.iter().map(|&(l, _)| tolit(l)));
            }
            fn encode(&mut self, k: Kind, change: bool, r: Range, col: &mut Col, vm: &mut Vm) {
                use card::{BoundBoth, BoundBothIncremental, BoundLower, BoundLowerIncremental, BoundUpper, BoundUpperIncremental};
                match (k, change) {
                    (Kind::Ub, false) => self.0.encode_ub(r, col, vm),
                    (Kind::Ub, true) => self.0.encode_ub_change(r, col, vm),
                    (Kind::Lb, false) => self.0.encode_lb(r, col, vm),
                    (Kind::Lb, true) => self.0.encode_lb_change(r, col, vm),
                    (Kind::Both, false) => self.0.encode_both(r, col, vm),
                    (Kind::Both, true) => self.0.encode_both_change(r, col, vm),
                }
                .expect("collector never runs out of memory");
            }
            fn enforce(&self, k: Kind, b: usize) -> Result<Vec<i32>, EErr> {
                use card::{BoundBoth, BoundLower, BoundUpper};
                Ok(match k {
                    Kind::Ub => outl(self.0.enforce_ub(b)?),
                    Kind::Lb => outl(self.0.enforce_lb(b)?),
                    Kind::Both => outl(self.0.enforce_eq(b)?),
                })
            }
            fn reserve(&mut self, vm: &mut Vm) {
                card::EncodeIncremental::reserve(&mut self.0, vm);
            }
            fn stats(&self) -> Option<(usize, u32)> {
                Some((self.0.n_clauses(), self.0.n_vars()))
            }
            fn total(&self) -> usize {
                card::Encode::n_lits(&self.0)
            }
            fn next_higher(&self, v: usize) -> usize {
                v + 1
            }
            fn next_lower(&self, v: usize) -> usize {
                v - 1
            }
            fn coarse(&self, _k: Kind, b: usize) -> usize {
                b
            }
            fn roundtrip(&mut self, fmt: usize) -> Option<Result<&'static str, String>> {
                swap(&mut self.0, fmt)
            }
        }
        impl $w {
            pub const MAKER: Maker = Maker {
                name: $name,
                kinds: &[Kind::Ub, Kind::Lb, Kind::Both],
                incremental: true,
                extendable: true,
                card: true,
                make: |ls| Box::new($w(ls.iter().map(|&(l, _)| tolit(l)).collect())),
            };
        }
    };
}

use card::simulators::{Double as CDouble, Inverted as CInverted};
use card::Totalizer;
card_impl!(CTot, "card/Totalizer", Totalizer);
card_impl!(CInv, "card/Inverted<Totalizer>", CInverted<Totalizer>);
card_impl!(CDbl, "card/Double<Totalizer,Totalizer>", CDouble<Totalizer, Totalizer>);
card_impl!(CDblInv, "card/Double<Inverted<Totalizer>,Inverted<Totalizer>>", CDouble<CInverted<Totalizer>, CInverted<Totalizer>>);
card_impl!(CInvDbl, "card/Inverted<Double<Totalizer,Totalizer>>", CInverted<CDouble<Totalizer, Totalizer>>);
card_impl!(CInvInv, "card/Inverted<Inverted<Totalizer>>", CInverted<CInverted<Totalizer>>);

/// Encoders that reference a shared database instead of owning one. The database is filled with
/// further, unrelated trees over the same literals.
pub struct RTot {
    db: std::cell::RefCell<Db>,
    root: Option<NodeId>,
    n: usize,
    cell: bool,
}
macro_rules! with_tot {
    ($self:expr, $t:ident, $e:expr, $none:expr) => {
        match $self.root {
            None => $none,
            Some(root) => {
                let mut db = $self.db.borrow_mut();
                if $self.cell {
                    let cell = std::cell::RefCell::new(&mut *db);
                    #[allow(unused_mut)]
                    let mut $t = card::totalizer::referenced::TotCell::new(root, &cell);
                    $e
                } else {
                    #[allow(unused_mut)]
                    let mut $t = card::totalizer::referenced::Tot::new(root, &mut db);
                    $e
                }
            }
        }
    };
}
impl RTot {
    fn make(ls: &[(i32, usize)], cell: bool) -> Self {
        let mut db = Db::default();
        // something else in the database
        db.lit_tree(ls.iter().rev().take(2).map(|&(l, _)| tolit(l)));
        let root = db.lit_tree(ls.iter().map(|&(l, _)| tolit(l)));
        RTot { db: std::cell::RefCell::new(db), root, n: ls.len(), cell }
    }
}
impl DynEnc for RTot {
    fn name(&self) -> &'static str {
        if self.cell {
            "card/TotCell"
        } else {
            "card/Tot"
        }
    }
    fn kinds(&self) -> &'static [Kind] {
        &[Kind::Ub, Kind::Lb, Kind::Both]
    }
    fn incremental(&self) -> bool {
        true
    }
    fn extendable(&self) -> bool {
        false
    }
    fn is_card(&self) -> bool {
        true
    }
    fn extend(&mut self, lits: &[(i32, usize)]) {
        unreachable!("not extendable: {lits:?}")
    }
    fn encode(&mut self, k: Kind, change: bool, r: Range, col: &mut Col, vm: &mut Vm) {
        use card::{BoundBoth, BoundBothIncremental, BoundLower, BoundLowerIncremental, BoundUpper, BoundUpperIncremental};
        with_tot!(
            self,
            t,
            match (k, change) {
                (Kind::Ub, false) => t.encode_ub(r, col, vm),
                (Kind::Ub, true) => t.encode_ub_change(r, col, vm),
                (Kind::Lb, false) => t.encode_lb(r, col, vm),
                (Kind::Lb, true) => t.encode_lb_change(r, col, vm),
                (Kind::Both, false) => t.encode_both(r, col, vm),
                (Kind::Both, true) => t.encode_both_change(r, col, vm),
            },
            Ok(())
        )
        .expect("collector never runs out of memory");
    }
    fn enforce(&self, k: Kind, b: usize) -> Result<Vec<i32>, EErr> {
        use card::{BoundBoth, BoundLower, BoundUpper};
        Ok(match k {
            Kind::Ub => outl(with_tot!(self, t, t.enforce_ub(b), Totalizer::default().enforce_ub(b))?),
            Kind::Lb => outl(with_tot!(self, t, t.enforce_lb(b), Totalizer::default().enforce_lb(b))?),
            Kind::Both => outl(with_tot!(self, t, t.enforce_eq(b), Totalizer::default().enforce_eq(b))?),
        })
    }
    fn reserve(&mut self, vm: &mut Vm) {
        with_tot!(self, t, card::EncodeIncremental::reserve(&mut t, vm), ())
    }
    fn stats(&self) -> Option<(usize, u32)> {
        None
    }
    fn total(&self) -> usize {
        let n = with_tot!(self, t, card::Encode::n_lits(&t), 0);
        assert_eq!(n, self.n, "number of literals of a referenced totalizer");
        n
    }
    fn next_higher(&self, v: usize) -> usize {
        v + 1
    }
    fn next_lower(&self, v: usize) -> usize {
        v - 1
    }
    fn coarse(&self, _k: Kind, b: usize) -> usize {
        b
    }
    fn roundtrip(&mut self, fmt: usize) -> Option<Result<&'static str, String>> {
        swap(self.db.get_mut(), fmt)
    }
}
const TOT_REF: Maker = Maker {
    name: "card/Tot",
    kinds: &[Kind::Ub, Kind::Lb, Kind::Both],
    incremental: true,
    extendable: false,
    card: true,
    make: |ls| Box::new(RTot::make(ls, false)),
};
const TOT_CELL: Maker = Maker { name: "card/TotCell", make: |ls| Box::new(RTot::make(ls, true)), ..TOT_REF };

/// the same for the generalized totalizer
pub struct RGte {
    db: std::cell::RefCell<Db>,
    root: Option<NodeCon>,
    max: usize,
    cell: bool,
}
macro_rules! with_gte {
    ($self:expr, $t:ident, $e:expr, $none:expr) => {
        match $self.root {
            None => $none,
            Some(root) => {
                let mut db = $self.db.borrow_mut();
                if $self.cell {
                    let cell = std::cell::RefCell::new(&mut *db);
                    #[allow(unused_mut)]
                    let mut $t = pb::gte::referenced::GteCell::new(root, $self.max, &cell);
                    $e
                } else {
                    #[allow(unused_mut)]
                    let mut $t = pb::gte::referenced::Gte::new(root, $self.max, &mut db);
                    $e
                }
            }
        }
    };
}
impl RGte {
    fn make(ls: &[(i32, usize)], cell: bool) -> Self {
        let mut db = Db::default();
        let mut v: Vec<_> = ls.iter().filter(|x| x.1 > 0).map(|&(l, w)| (tolit(l), w)).collect();
        db.lit_tree(v.iter().rev().take(2).map(|x| x.0));
        if ls.len() % 2 == 0 {
            v.sort_by_key(|x| x.1);
        }
        let root = if v.is_empty() { None } else { db.weighted_lit_tree(&v) };
        RGte { db: std::cell::RefCell::new(db), root, max: v.iter().map(|x| x.1).max().unwrap_or(0), cell }
    }
}
impl DynEnc for RGte {
    fn name(&self) -> &'static str {
        if self.cell {
            "pb/GteCell"
        } else {
            "pb/GteRef"
        }
    }
    fn kinds(&self) -> &'static [Kind] {
        &[Kind::Ub]
    }
    fn incremental(&self) -> bool {
        true
    }
    fn extendable(&self) -> bool {
        false
    }
    fn is_card(&self) -> bool {
        false
    }
    fn extend(&mut self, lits: &[(i32, usize)]) {
        unreachable!("not extendable: {lits:?}")
    }
    fn encode(&mut self, k: Kind, change: bool, r: Range, col: &mut Col, vm: &mut Vm) {
        use pb::{BoundUpper, BoundUpperIncremental};
        assert_eq!(k, Kind::Ub);
        with_gte!(self, t, if change { t.encode_ub_change(r, col, vm) } else { t.encode_ub(r, col, vm) }, Ok(()))
            .expect("collector never runs out of memory");
    }
    fn enforce(&self, k: Kind, b: usize) -> Result<Vec<i32>, EErr> {
        assert_eq!(k, Kind::Ub);
        Ok(outl(with_gte!(self, t, pb::BoundUpper::enforce_ub(&t, b), GeneralizedTotalizer::default().enforce_ub(b))?))
    }
    fn reserve(&mut self, vm: &mut Vm) {
        with_gte!(self, t, pb::EncodeIncremental::reserve(&mut t, vm), ())
    }
    fn stats(&self) -> Option<(usize, u32)> {
        None
    }
    fn total(&self) -> usize {
        with_gte!(self, t, pb::Encode::weight_sum(&t), 0)
    }
    fn next_higher(&self, v: usize) -> usize {
        with_gte!(self, t, pb::Encode::next_higher(&t, v), v + 1)
    }
    fn next_lower(&self, v: usize) -> usize {
        with_gte!(self, t, pb::Encode::next_lower(&t, v), v - 1)
    }
    fn coarse(&self, _k: Kind, b: usize) -> usize {
        with_gte!(self, t, pb::BoundUpper::coarse_ub(&t, b), b)
    }
    fn roundtrip(&mut self, fmt: usize) -> Option<Result<&'static str, String>> {
        swap(self.db.get_mut(), fmt)
    }
}
const GTE_REF: Maker = Maker { name: "pb/GteRef", kinds: &[Kind::Ub], incremental: true, extendable: false, card: false, make: |ls| Box::new(RGte::make(ls, false)) };
const GTE_CELL: Maker = Maker { name: "pb/GteCell", make: |ls| Box::new(RGte::make(ls, true)), ..GTE_REF };

pub const CARD: [&Maker; 8] =
    [&CTot::MAKER, &CInv::MAKER, &CDbl::MAKER, &CDblInv::MAKER, &CInvDbl::MAKER, &CInvInv::MAKER, &TOT_REF, &TOT_CELL];

macro_rules! pb_common {
    ($name:expr, $kinds:expr, $ext:expr, $st:tt) => {
        fn name(&self) -> &'static str {
            $name
        }
        fn kinds(&self) -> &'static [Kind] {
            $kinds
        }
        fn incremental(&self) -> bool {
            true
        }
        fn extendable(&self) -> bool {
            $ext
        }
        fn is_card(&self) -> bool {
            false
        }
        fn reserve(&mut self, vm: &mut Vm) {
            pb::EncodeIncremental::reserve(&mut self.0, vm);
        }
        fn stats(&self) -> Option<(usize, u32)> {
            pb_stats!($st, self)
        }
        fn total(&self) -> usize {
            pb::Encode::weight_sum(&self.0)
        }
        fn next_higher(&self, v: usize) -> usize {
            pb::Encode::next_higher(&self.0, v)
        }
        fn next_lower(&self, v: usize) -> usize {
            pb::Encode::next_lower(&self.0, v)
        }
        fn roundtrip(&mut self, fmt: usize) -> Option<Result<&'static str, String>> {
            swap(&mut self.0, fmt)
        }
    };
}
macro_rules! pb_maker {
    ($w:ident, $name:expr, $kinds:expr, $ext:expr) => {
        impl $w {
            pub const MAKER: Maker = Maker {
                name: $name,
                kinds: $kinds,
                incremental: true,
                extendable: $ext,
                card: false,
                make: |ls| Box::new($w(ls.iter().map(|&(l, w)| (tolit(l), w)).collect())),
            };
        }
    };
}
macro_rules! pb_stats {
    (stats, $self:ident) => {
        Some(($self.0.n_clauses(), $self.0.n_vars()))
    };
    (nostats, $self:ident) => {
        None
    };
}
macro_rules! pb_extend {
    (yes, $self:ident, $l:ident) => {
        $self.0.extend($l.iter().map(|&(l, w)| (tolit(l), w)))
    };
    (no, $self:ident, $l:ident) => {
        unreachable!("not extendable: {:?}", $l)
    };
}
macro_rules! ext_bool {
    (yes) => {
        true
    };
    (no) => {
        false
    };
}
macro_rules! pb_both {
    ($w:ident, $name:expr, $ty:ty, $ext:tt, $st:tt) => {
        pub struct $w(pub $ty);
        impl DynEnc for $w {
            pb_common!($name, &[Kind::Ub, Kind::Lb, Kind::Both], ext_bool!($ext), $st);
            fn extend(&mut self, lits: &[(i32, usize)]) {
                pb_extend!($ext, self, lits);
            }
            fn encode(&mut self, k: Kind, change: bool, r: Range, col: &mut Col, vm: &mut Vm) {
                use pb::{BoundBoth, BoundBothIncremental, BoundLower, BoundLowerIncremental, BoundUpper, BoundUpperIncremental};
                match (k, change) {
                    (Kind::Ub, false) => self.0.encode_ub(r, col, vm),
                    (Kind::Ub, true) => self.0.encode_ub_change(r, col, vm),
                    (Kind::Lb, false) => self.0.encode_lb(r, col, vm),
                    (Kind::Lb, true) => self.0.encode_lb_change(r, col, vm),
                    (Kind::Both, false) => self.0.encode_both(r, col, vm),
                    (Kind::Both, true) => self.0.encode_both_change(r, col, vm),
                }
                .expect("collector never runs out of memory");
            }
            fn enforce(&self, k: Kind, b: usize) -> Result<Vec<i32>, EErr> {
                use pb::{BoundBoth, BoundLower, BoundUpper};
                Ok(match k {
                    Kind::Ub => outl(self.0.enforce_ub(b)?),
                    Kind::Lb => outl(self.0.enforce_lb(b)?),
                    Kind::Both => outl(self.0.enforce_eq(b)?),
                })
            }
            fn coarse(&self, k: Kind, b: usize) -> usize {
                match k {
                    Kind::Lb => pb::BoundLower::coarse_lb(&self.0, b),
                    _ => pb::BoundUpper::coarse_ub(&self.0, b),
                }
            }
        }
        pb_maker!($w, $name, &[Kind::Ub, Kind::Lb, Kind::Both], ext_bool!($ext));
    };
}
macro_rules! pb_ub {
    ($w:ident, $name:expr, $ty:ty, $ext:tt, $st:tt) => {
        pub struct $w(pub $ty);
        impl DynEnc for $w {
            pb_common!($name, &[Kind::Ub], ext_bool!($ext), $st);
            fn extend(&mut self, lits: &[(i32, usize)]) {
                pb_extend!($ext, self, lits);
            }
            fn encode(&mut self, k: Kind, change: bool, r: Range, col: &mut Col, vm: &mut Vm) {
                use pb::{BoundUpper, BoundUpperIncremental};
                match (k, change) {
                    (Kind::Ub, false) => self.0.encode_ub(r, col, vm),
                    (Kind::Ub, true) => self.0.encode_ub_change(r, col, vm),
                    _ => unreachable!(),
                }
                .expect("collector never runs out of memory");
            }
            fn enforce(&self, k: Kind, b: usize) -> Result<Vec<i32>, EErr> {
                assert_eq!(k, Kind::Ub);
                Ok(outl(pb::BoundUpper::enforce_ub(&self.0, b)?))
            }
            fn coarse(&self, _k: Kind, b: usize) -> usize {
                pb::BoundUpper::coarse_ub(&self.0, b)
            }
        }
        pb_maker!($w, $name, &[Kind::Ub], ext_bool!($ext));
    };
}
macro_rules! pb_lb {
    ($w:ident, $name:expr, $ty:ty, $ext:tt, $st:tt) => {
        pub struct $w(pub $ty);
        impl DynEnc for $w {
            pb_common!($name, &[Kind::Lb], ext_bool!($ext), $st);
            fn extend(&mut self, lits: &[(i32, usize)]) {
                pb_extend!($ext, self, lits);
            }
            fn encode(&mut self, k: Kind, change: bool, r: Range, col: &mut Col, vm: &mut Vm) {
                use pb::{BoundLower, BoundLowerIncremental};
                match (k, change) {
                    (Kind::Lb, false) => self.0.encode_lb(r, col, vm),
                    (Kind::Lb, true) => self.0.encode_lb_change(r, col, vm),
                    _ => unreachable!(),
                }
                .expect("collector never runs out of memory");
            }
            fn enforce(&self, k: Kind, b: usize) -> Result<Vec<i32>, EErr> {
                assert_eq!(k, Kind::Lb);
                Ok(outl(pb::BoundLower::enforce_lb(&self.0, b)?))
            }
            fn coarse(&self, _k: Kind, b: usize) -> usize {
                pb::BoundLower::coarse_lb(&self.0, b)
            }
        }
        pb_maker!($w, $name, &[Kind::Lb], ext_bool!($ext));
    };
}

use pb::simulators::{Card as PCard, Double as PDouble, Inverted as PInverted};
use pb::{BinaryAdder, DynamicPolyWatchdog, GeneralizedTotalizer};
type InvGte = PInverted<GeneralizedTotalizer>;
pb_ub!(PGte, "pb/Gte", GeneralizedTotalizer, yes, stats);
pb_lb!(PInvGte, "pb/Inverted<Gte>", InvGte, yes, stats);
pb_both!(PDblGte, "pb/Double<Gte,Inverted<Gte>>", PDouble<GeneralizedTotalizer, InvGte>, yes, stats);
pb_both!(PInvDblGte, "pb/Inverted<Double<Gte,Inverted<Gte>>>", PInverted<PDouble<GeneralizedTotalizer, InvGte>>, yes, stats);
pb_both!(PAdd, "pb/BinaryAdder", BinaryAdder, yes, stats);
pb_both!(PInvAdd, "pb/Inverted<BinaryAdder>", PInverted<BinaryAdder>, yes, stats);
pb_both!(PDblAdd, "pb/Double<BinaryAdder,Inverted<Gte>>", PDouble<BinaryAdder, InvGte>, yes, stats);
pb_ub!(PDpw, "pb/Dpw", DynamicPolyWatchdog, no, stats);
pb_lb!(PInvDpw, "pb/Inverted<Dpw>", PInverted<DynamicPolyWatchdog>, no, stats);
pb_both!(PDblDpw, "pb/Double<Dpw,Inverted<Dpw>>", PDouble<DynamicPolyWatchdog, PInverted<DynamicPolyWatchdog>>, no, stats);
pb_both!(PCardTot, "pb/Card<Totalizer>", PCard<Totalizer>, yes, nostats);
pb_both!(PCardInv, "pb/Card<Inverted<Totalizer>>", PCard<CInverted<Totalizer>>, yes, nostats);
pb_both!(PInvCard, "pb/Inverted<Card<Totalizer>>", PInverted<PCard<Totalizer>>, yes, nostats);

pub const PB: [&Maker; 15] = [
    &PGte::MAKER, &PInvGte::MAKER, &PDblGte::MAKER, &PInvDblGte::MAKER, &PAdd::MAKER, &PInvAdd::MAKER, &PDblAdd::MAKER,
    &PDpw::MAKER, &PInvDpw::MAKER, &PDblDpw::MAKER, &PCardTot::MAKER, &PCardInv::MAKER, &PInvCard::MAKER,
    &GTE_REF, &GTE_CELL,
];

/// Weighted sum of the inputs under the bits (bit v-1 = variable v)
pub fn wsum(lits: &[(i32, usize)], bits: u64) -> u128 {
    lits.iter().filter(|&&(l, _)| vcore::oracle::lit_true(l, bits)).map(|&(_, w)| w as u128).sum()
}

pub fn holds(k: Kind, sum: u128, b: usize) -> bool {
    let b = b as u128;
    match k {
        Kind::Ub => sum <= b,
        Kind::Lb => sum >= b,
        Kind::Both => sum == b,
    }
}

/// Incrementally fed oracle over a collector
#[derive(Default)]
pub struct Feed {
    pub sat: Sat,
    fed: usize,
}
impl Feed {
    pub fn sync(&mut self, col: &Col) {
        while self.fed < col.cls.len() {
            self.sat.add(&col.cls[self.fed]);
            self.fed += 1;
        }
    }
}

pub fn show_range(r: &Range) -> String {
    let a = match r.0 {
        Bound::Included(x) => format!("{x}"),
        Bound::Excluded(x) => format!("({x})"),
        Bound::Unbounded => String::new(),
    };
    let b = match r.1 {
        Bound::Included(x) => format!("={x}"),
        Bound::Excluded(x) => format!("{x}"),
        Bound::Unbounded => String::new(),
    };
    format!("{a}..{b}")
}

/// Is a value in the range?
pub fn in_range(r: &Range, b: usize) -> bool {
    use std::ops::RangeBounds;
    r.contains(&b)
}
