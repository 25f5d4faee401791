//! Monitors for the totaliser database (C23)
use crate::enc::{fromlit, tolit, Col, Vm};
use rustsat::encodings::nodedb::{NodeById, NodeCon, NodeId, NodeLike};
use rustsat::encodings::totdb::{Db, Node, Semantics};
use rustsat::types::{Assignment, Lit};
use std::collections::{BTreeMap, BTreeSet};
use vcore::oracle::{assumps, lit_true, Sat};
use vcore::{check, check_eq, fail, Case, Fail, Prop, Res, Sub};

/// A connection as it was asked for
#[derive(Clone, Copy, Debug, PartialEq)]
struct Con {
    id: usize,
    off: usize,
    div: usize,
    mult: usize,
    lim: Option<usize>,
}
impl Con {
    fn map(&self, v: usize) -> usize {
        let x = v.saturating_sub(self.off) / self.div;
        self.lim.map_or(x, |l| x.min(l)) * self.mult
    }
}
#[derive(Clone, Debug, PartialEq)]
enum M {
    Leaf(i32),
    Dummy,
    Int(Con, Con),
}

/// how the library sees a connection (its limit is not public: found through `map`)
fn con_of(c: NodeCon) -> Con {
    let big = 1 << 30;
    let (off, div, mult) = (c.offset(), c.divisor(), c.multiplier());
    let m = c.map(big) / mult;
    let lim = (m < (big - off) / div).then_some(m);
    Con { id: c.id.0, off, div, mult, lim }
}

/// Reference model of a database
#[derive(Default, Clone, Debug)]
struct Ref {
    nodes: Vec<M>,
}
impl Ref {
    fn value(&self, id: usize, bits: u64) -> usize {
        match &self.nodes[id] {
            M::Leaf(l) => usize::from(lit_true(*l, bits)),
            M::Dummy => 0,
            M::Int(l, r) => l.map(self.value(l.id, bits)) + r.map(self.value(r.id, bits)),
        }
    }
    fn con_value(&self, c: &Con, bits: u64) -> usize {
        c.map(self.value(c.id, bits))
    }
    /// positive values as the structure implies them
    fn vals(&self, id: usize) -> BTreeSet<usize> {
        match &self.nodes[id] {
            M::Leaf(_) => [1].into(),
            M::Dummy => BTreeSet::new(),
            M::Int(l, r) => {
                let side = |c: &Con| {
                    let mut s: BTreeSet<usize> = self.vals(c.id).into_iter().map(|v| c.map(v)).collect();
                    s.insert(0);
                    s
                };
                let (a, b) = (side(l), side(r));
                let mut s: BTreeSet<usize> = a.iter().flat_map(|x| b.iter().map(move |y| x + y)).collect();
                s.remove(&0);
                s
            }
        }
    }
    fn depth(&self, id: usize) -> usize {
        match &self.nodes[id] {
            M::Leaf(_) | M::Dummy => 1,
            M::Int(l, r) => 1 + self.depth(l.id).max(self.depth(r.id)),
        }
    }
    fn below(&self, id: usize, out: &mut BTreeSet<usize>) {
        if out.insert(id) {
            if let M::Int(l, r) = &self.nodes[id] {
                self.below(l.id, out);
                self.below(r.id, out);
            }
        }
    }
    fn has_dummy(&self, id: usize) -> bool {
        let mut s = BTreeSet::new();
        self.below(id, &mut s);
        s.iter().any(|i| self.nodes[*i] == M::Dummy)
    }
    /// only connections without offset, divisor, limit below: number of leaves (with repetition)
    fn plain_leaves(&self, id: usize) -> Option<usize> {
        match &self.nodes[id] {
            M::Leaf(_) => Some(1),
            M::Dummy => Some(0),
            M::Int(l, r) => {
                if [l, r].iter().any(|c| c.off > 0 || c.div > 1 || c.lim.is_some()) {
                    return None;
                }
                Some(self.plain_leaves(l.id)? + self.plain_leaves(r.id)?)
            }
        }
    }
    fn unit(&self, id: usize) -> bool {
        match &self.nodes[id] {
            M::Leaf(_) | M::Dummy => true,
            M::Int(l, r) => l.mult == r.mult && self.unit(l.id) && self.unit(r.id),
        }
    }
}

struct H {
    db: Db,
    m: Ref,
    col: Col,
    /// clauses since the last full reset
    fresh: Col,
    vm: Vm,
    n: usize,
    /// asked for since the last full reset
    asked: BTreeMap<(usize, usize), (bool, bool)>,
}

impl H {
    /// read nodes new in the database into the model, checking what is known about them
    fn sync(&mut self, what: &str) -> Res {
        while self.m.nodes.len() < self.db.len() {
            let id = self.m.nodes.len();
            let x = match &self.db[NodeId(id)] {
                Node::Leaf(l) => M::Leaf(fromlit(*l)),
                Node::Dummy => M::Dummy,
                n => {
                    let (Some(l), Some(r)) = (n.left(), n.right()) else { fail!("children", "{what}: #{id} has no children") };
                    let (l, r) = (con_of(l), con_of(r));
                    check!(l.id < id && r.id < id, "children", "{what}: #{id} refers to {} and {}", l.id, r.id);
                    M::Int(l, r)
                }
            };
            self.m.nodes.push(x);
        }
        check_eq!(self.m.nodes.len(), self.db.len(), "len", "{what}: number of nodes");
        check_eq!(self.db.is_empty(), self.m.nodes.is_empty(), "len", "{what}: is_empty");
        Ok(())
    }
    fn node_is(&self, what: &str, id: usize, want: &M) -> Res {
        let got = match &self.db[NodeId(id)] {
            Node::Leaf(l) => M::Leaf(fromlit(*l)),
            Node::Dummy => M::Dummy,
            n => match (n.left(), n.right()) {
                (Some(l), Some(r)) => M::Int(con_of(l), con_of(r)),
                _ => fail!("children", "{what}: #{id} has no children"),
            },
        };
        check_eq!(&got, want, "node", "{what}: node #{id}");
        Ok(())
    }
    fn check_nodes(&self, c: &mut Case, what: &str) -> Res {
        for id in 0..self.m.nodes.len() {
            let n = &self.db[NodeId(id)];
            self.node_is(what, id, &self.m.nodes[id])?;
            let vals: Vec<usize> = self.m.vals(id).into_iter().collect();
            check_eq!(n.vals(..).collect::<Vec<_>>(), vals, "vals", "{what}: values of #{id}");
            check_eq!(n.vals(..).rev().collect::<Vec<_>>(), vals.iter().rev().copied().collect::<Vec<_>>(), "vals", "{what}: values of #{id} backwards");
            check_eq!(n.len(), vals.len(), "node-len", "{what}: length of #{id}");
            check_eq!(n.max_val(), vals.last().copied().unwrap_or(0), "max-val", "{what}: maximum value of #{id}");
            check_eq!(n.depth(), self.m.depth(id), "depth", "{what}: depth of #{id}");
            if let Some(k) = self.m.plain_leaves(id) {
                check_eq!(n.n_leaves(), k, "n-leaves", "{what}: leaves of #{id}");
            }
            check_eq!(n.is_leaf(), matches!(self.m.nodes[id], M::Leaf(_)), "is-leaf", "{what}: is_leaf of #{id}");
            // a range of values
            let hi = vals.last().copied().unwrap_or(0);
            let (a, b) = (c.rng.below(hi + 2), c.rng.below(hi + 3));
            if a <= b {
                check_eq!(n.vals(a..b).collect::<Vec<_>>(), vals.iter().copied().filter(|v| (a..b).contains(v)).collect::<Vec<_>>(), "vals", "{what}: values of #{id} in {a}..{b}");
                check_eq!(n.vals(a..=b).collect::<Vec<_>>(), vals.iter().copied().filter(|v| (a..=b).contains(v)).collect::<Vec<_>>(), "vals", "{what}: values of #{id} in {a}..={b}");
            }
            check_eq!(n.vals(a..).collect::<Vec<_>>(), vals.iter().copied().filter(|v| *v >= a).collect::<Vec<_>>(), "vals", "{what}: values of #{id} in {a}..");
            check_eq!(n.vals(..b).collect::<Vec<_>>(), vals.iter().copied().filter(|v| *v < b).collect::<Vec<_>>(), "vals", "{what}: values of #{id} in ..{b}");
        }
        check_eq!(self.db.iter().count(), self.m.nodes.len(), "len", "{what}: nodes iterated");
        // a literal has one leaf
        let leaves: Vec<i32> = self.m.nodes.iter().filter_map(|m| if let M::Leaf(l) = m { Some(*l) } else { None }).collect();
        check_eq!(leaves.iter().collect::<BTreeSet<_>>().len(), leaves.len(), "leaf-twice", "{what}: leaves {leaves:?}");
        Ok(())
    }
    fn con(&self, c: &Con) -> NodeCon {
        let id = NodeId(c.id);
        match c.lim {
            Some(1) => NodeCon::single(id, c.off + 1, c.mult),
            Some(l) => NodeCon::limited(id, c.off, l, c.mult),
            None if c.off > 0 => NodeCon::offset_weighted(id, c.off, c.mult),
            None if c.mult > 1 => NodeCon::weighted(id, c.mult),
            None => NodeCon::full(id),
        }
    }
    fn full(id: usize, mult: usize) -> Con {
        Con { id, off: 0, div: 1, mult, lim: None }
    }
    /// sum of connections, independently of how the library merges them
    fn is_sum(&self, what: &str, got: NodeCon, cons: &[Con]) -> Res {
        let g = con_of(got);
        for bits in 0..1u64 << self.n {
            let want: usize = cons.iter().map(|x| self.m.con_value(x, bits)).sum();
            check_eq!(self.m.con_value(&g, bits), want, "sum", "{what}: {g:?} over {cons:?} under {bits:b}");
        }
        Ok(())
    }
    /// truth of all reserved output variables under strict semantics
    fn strict(&self, bits: u64) -> BTreeMap<i32, bool> {
        let mut t: BTreeMap<i32, bool> = BTreeMap::new();
        for v in 1..=self.n as i32 {
            t.insert(v, lit_true(v, bits));
        }
        for id in 0..self.m.nodes.len() {
            if let M::Int(..) = self.m.nodes[id] {
                let x = self.m.value(id, bits);
                for v in self.m.vals(id) {
                    if let Some(l) = self.db[NodeId(id)].lit(v) {
                        let l = fromlit(*l);
                        t.insert(l.abs(), (x >= v) == (l > 0));
                    }
                }
            }
        }
        t
    }
    /// clauses against the meaning
    fn check_clauses(&self, what: &str) -> Res {
        // one literal per output
        let mut seen = BTreeSet::new();
        for id in 0..self.m.nodes.len() {
            if let M::Int(..) = self.m.nodes[id] {
                for v in self.m.vals(id) {
                    if let Some(l) = self.db[NodeId(id)].lit(v) {
                        check!(seen.insert(fromlit(*l).abs()) && l.vidx() >= self.n, "olit-shared", "{what}: output {v} of #{id} is {l}, which is something else");
                    }
                }
            }
        }
        let mut s = Sat::from_clauses(&self.fresh.cls);
        for bits in 0..1u64 << self.n {
            let t = self.strict(bits);
            for cl in self.col.cls.iter() {
                let ok = cl.iter().any(|l| t.get(&l.abs()).is_some_and(|x| *x == (*l > 0)));
                let known = cl.iter().all(|l| t.contains_key(&l.abs()));
                check!(ok || !known, "clause-wrong", "{what}: clause {cl:?} excludes the intended values under {bits:b}");
                if !known {
                    // outputs of nodes drained in the meantime
                    continue;
                }
            }
            let a = assumps(bits, self.n);
            for (&(id, v), &(i, oi)) in &self.asked {
                let x = self.m.value(id, bits);
                let Some(l) = self.db[NodeId(id)].lit(v) else { fail!("olit-lost", "{what}: output {v} of #{id} has no literal any more") };
                let l = fromlit(*l);
                let unit = self.m.unit(id);
                if i && (unit && x >= v || x == v) {
                    let mut b = a.clone();
                    b.push(-l);
                    check!(!s.solve(&b), "if-missing", "{what}: #{id} has value {x} under {bits:b}, output {v} ({l}) is not forced");
                }
                if oi && x < v {
                    let mut b = a.clone();
                    b.push(l);
                    check!(!s.solve(&b), "only-if-missing", "{what}: #{id} has value {x} under {bits:b}, output {v} ({l}) can be true");
                }
            }
            check!(s.solve(&a), "clauses-unsat", "{what}: clauses exclude {bits:b}");
        }
        // flags
        for id in 0..self.m.nodes.len() {
            for v in self.m.vals(id) {
                let n = &self.db[NodeId(id)];
                if let Some(&(i, oi)) = self.asked.get(&(id, v)) {
                    check!(!i || n.semantics_if(v), "flags", "{what}: output {v} of #{id} is defined (if), but not marked");
                    check!(!oi || n.semantics_only_if(v), "flags", "{what}: output {v} of #{id} is defined (only if), but not marked");
                }
            }
        }
        Ok(())
    }
    fn check_values(&self, c: &mut Case, what: &str) -> Res {
        for id in 0..self.m.nodes.len() {
            if self.m.has_dummy(id) {
                continue;
            }
            let bits = c.rng.next() & ((1 << self.n) - 1);
            let a: Assignment = assumps(bits, self.n).into_iter().map(tolit).collect();
            let x = self.m.value(id, bits);
            check_eq!(self.db.value(NodeId(id), &a), x, "value", "{what}: value of #{id} under {bits:b}");
            let t = self.strict(bits);
            let mut sub = BTreeSet::new();
            self.m.below(id, &mut sub);
            let mut need: BTreeSet<i32> = BTreeSet::new();
            for j in sub {
                if matches!(self.m.nodes[j], M::Int(..)) {
                    for v in self.m.vals(j) {
                        if let Some(l) = self.db[NodeId(j)].lit(v) {
                            need.insert(fromlit(*l).abs());
                        }
                    }
                }
            }
            let got: BTreeSet<i32> = self.db.strictly_extend_assignment(NodeId(id), &a).map(fromlit).collect();
            for l in &got {
                check_eq!(t.get(&l.abs()), Some(&(*l > 0)), "strict-extension", "{what}: {l} in the extension of {bits:b} at #{id}");
            }
            let gv: BTreeSet<i32> = got.iter().map(|l| l.abs()).collect();
            check_eq!(gv, need, "strict-extension", "{what}: variables assigned at #{id}");
            // leaves
            if self.plain_or_reserved(id) {
                let s: usize = self
                    .db
                    .leaf_iter(NodeId(id))
                    .lits()
                    .map(|(l, w)| {
                        let l = fromlit(l);
                        if t.get(&l.abs()).is_some_and(|b| *b == (l > 0)) {
                            w
                        } else {
                            0
                        }
                    })
                    .sum();
                check_eq!(s, x, "leaf-iter", "{what}: sum over the leaves of #{id} under {bits:b}");
            }
        }
        Ok(())
    }
    fn plain_or_reserved(&self, id: usize) -> bool {
        match &self.m.nodes[id] {
            M::Leaf(_) => true,
            M::Dummy => false,
            M::Int(l, r) => [l, r].iter().all(|c| {
                if c.div > 1 {
                    return false;
                }
                if c.off > 0 || c.lim.is_some() {
                    let vs = self.m.vals(c.id);
                    // the outputs in the range have to exist as well
                    return vs.iter().all(|v| self.db[NodeId(c.id)].lit(*v).is_some());
                }
                self.plain_or_reserved(c.id)
            }),
        }
    }
    /// a random connection to an existing node fit for a parent
    fn some_con(&self, c: &mut Case, weighted: bool) -> Option<Con> {
        let ids: Vec<usize> = (0..self.m.nodes.len()).filter(|i| self.m.nodes[*i] != M::Dummy && (weighted || self.m.unit(*i))).collect();
        if ids.is_empty() {
            return None;
        }
        // prefer recent nodes
        let k = c.rng.below(ids.len());
        let k2 = c.rng.below(ids.len());
        let id = ids[k.max(k2)];
        let vals: Vec<usize> = self.m.vals(id).into_iter().collect();
        let mult = if weighted { c.rng.us(1, 4) } else { 1 };
        let mut x = Self::full(id, mult);
        if vals.len() > 1 && self.m.unit(id) && c.rng.chance(1, 3) {
            match c.rng.below(3) {
                0 => x.off = c.rng.below(vals.len()),
                1 => {
                    x.off = c.rng.below(vals.len());
                    x.lim = Some(1);
                }
                _ if !weighted => {
                    x.off = c.rng.below(vals.len());
                    x.lim = Some(c.rng.us(1, vals.len()));
                }
                _ => {}
            }
        }
        Some(x)
    }
}

fn cap_ok(h: &H, x: &[Con]) -> bool {
    // keep values small
    let m: usize = x.iter().map(|c| c.map(h.m.vals(c.id).last().copied().unwrap_or(0))).sum();
    m <= 40 && m > 0
}

fn insert_lits(c: &mut Case, h: &H, k: usize) -> Vec<i32> {
    if c.rng.chance(3, 4) {
        c.rng.distinct_lits(h.n, k.min(h.n))
    } else {
        (0..k).map(|_| c.rng.lit(h.n)).collect()
    }
}

fn step(c: &mut Case, h: &mut H) -> Res {
    match c.rng.below(16) {
        0 => {
            let l = c.rng.lit(h.n);
            c.log(format!("leaf {l}"));
            let before = h.m.nodes.iter().position(|m| *m == M::Leaf(l));
            let id = h.db.insert(Node::leaf(tolit(l)));
            h.sync("leaf")?;
            if let Some(b) = before {
                check_eq!(id.0, b, "leaf-twice", "the leaf of {l} changes");
            }
            h.node_is("leaf", id.0, &M::Leaf(l))?;
        }
        1 | 2 => {
            let k = c.rng.us(0, 6);
            let ls = insert_lits(c, h, k);
            c.log(format!("lit_tree {ls:?}"));
            let r = c.run("lit_tree", || h.db.lit_tree(ls.iter().map(|l| tolit(*l))))?;
            h.sync("lit_tree")?;
            match r {
                None => check!(ls.is_empty(), "tree-missing", "no tree over {ls:?}"),
                Some(id) => {
                    check!(!ls.is_empty(), "tree-missing", "a tree over nothing");
                    c.log(format!("-> #{}", id.0));
                    for bits in 0..1u64 << h.n {
                        let want = ls.iter().filter(|l| lit_true(**l, bits)).count();
                        check_eq!(h.m.value(id.0, bits), want, "tree-meaning", "lit_tree {ls:?} under {bits:b}");
                    }
                    check_eq!(h.db[id].n_leaves(), ls.len(), "n-leaves", "leaves of the tree over {ls:?}");
                    check!(h.m.unit(id.0), "tree-meaning", "weights in a literal tree");
                }
            }
        }
        3 | 4 => {
            let k = c.rng.us(1, 5);
            let ls = insert_lits(c, h, k);
            let mx = if c.rng.bool() { 3 } else { 9 };
            let mut wl: Vec<(i32, usize)> = ls.into_iter().map(|l| (l, c.rng.us(1, mx))).collect();
            if c.rng.bool() {
                wl.sort_by_key(|x| x.1);
            }
            if wl.iter().map(|x| x.1).sum::<usize>() > 40 {
                return Ok(());
            }
            c.log(format!("weighted_lit_tree {wl:?}"));
            let v: Vec<(Lit, usize)> = wl.iter().map(|x| (tolit(x.0), x.1)).collect();
            let r = c.run("weighted_lit_tree", || h.db.weighted_lit_tree(&v))?;
            h.sync("weighted_lit_tree")?;
            let Some(con) = r else { fail!("tree-missing", "no tree over {wl:?}") };
            let g = con_of(con);
            c.log(format!("-> {g:?}"));
            for bits in 0..1u64 << h.n {
                let want: usize = wl.iter().filter(|l| lit_true(l.0, bits)).map(|x| x.1).sum();
                check_eq!(h.m.con_value(&g, bits), want, "tree-meaning", "weighted_lit_tree {wl:?} under {bits:b}");
            }
        }
        5..=8 => {
            let kind = c.rng.below(3);
            let weighted = c.rng.bool();
            let k = c.rng.us(1, 4);
            let cons: Vec<Con> = (0..k).filter_map(|_| h.some_con(c, weighted)).collect();
            if cons.is_empty() || !cap_ok(h, &cons) {
                return Ok(());
            }
            // a connection with limited length does not go below a weighted one
            if !cons.iter().all(|x| h.m.unit(x.id)) && cons.iter().any(|x| x.lim.is_some_and(|l| l > 1)) {
                return Ok(());
            }
            let name = ["merge", "merge_balanced", "merge_thorough"][kind];
            c.log(format!("{name} {cons:?}"));
            let mut ncs: Vec<NodeCon> = cons.iter().map(|x| h.con(x)).collect();
            for (nc, x) in ncs.iter().zip(&cons) {
                check_eq!(&con_of(*nc), &norm(h, x), "connection", "the connection made");
            }
            let r = c.run(name, || match kind {
                0 => h.db.merge(&mut ncs),
                1 => h.db.merge_balanced(&ncs),
                _ => h.db.merge_thorough(&mut ncs),
            })?;
            h.sync(name)?;
            let Some(con) = r else { fail!("tree-missing", "{name} of {cons:?} is nothing") };
            c.log(format!("-> {:?}", con_of(con)));
            h.is_sum(name, con, &cons)?;
        }
        9..=11 => {
            // unweighted definition
            let ids: Vec<usize> = (0..h.m.nodes.len()).filter(|i| h.m.unit(*i) && !h.m.vals(*i).is_empty()).collect();
            if ids.is_empty() {
                return Ok(());
            }
            let id = *c.rng.pick(&ids);
            if !all_unit(h, id) {
                return Ok(());
            }
            let idx = c.rng.below(h.m.vals(id).len());
            let sem = *c.rng.pick(&[Semantics::If, Semantics::OnlyIf, Semantics::IfAndOnlyIf]);
            c.log(format!("define_unweighted #{id} {idx} {sem:?}"));
            let n0 = h.col.cls.len();
            let l = c.run("define_unweighted", || h.db.define_unweighted(NodeId(id), idx, sem, &mut h.col, &mut h.vm))?;
            let Ok(l) = l else { fail!("oom", "out of memory") };
            h.fresh.cls.extend(h.col.cls[n0..].iter().cloned());
            check_eq!(h.db[NodeId(id)].lit(idx + 1), Some(&l), "olit", "literal returned for output {} of #{id}", idx + 1);
            let e = h.asked.entry((id, idx + 1)).or_default();
            e.0 |= sem.has_if();
            e.1 |= sem.has_only_if();
            c.count("defined", 1);
        }
        12 => {
            let ids: Vec<usize> = (0..h.m.nodes.len()).filter(|i| !h.m.has_dummy(*i)).collect();
            if ids.is_empty() {
                return Ok(());
            }
            let id = *c.rng.pick(&ids);
            if !weighted_ok(h, id) {
                return Ok(());
            }
            let vals: Vec<usize> = h.m.vals(id).into_iter().collect();
            let v = if c.rng.chance(1, 5) { c.rng.us(1, *vals.last().unwrap()) } else { *c.rng.pick(&vals) };
            c.log(format!("define_weighted #{id} {v}"));
            let n0 = h.col.cls.len();
            let l = c.run("define_weighted", || h.db.define_weighted(NodeId(id), v, &mut h.col, &mut h.vm))?;
            let Ok(l) = l else { fail!("oom", "out of memory") };
            h.fresh.cls.extend(h.col.cls[n0..].iter().cloned());
            check_eq!(l.is_some(), vals.contains(&v), "olit", "output {v} of #{id} with values {vals:?}");
            if let Some(l) = l {
                check_eq!(h.db[NodeId(id)].lit(v), Some(&l), "olit", "literal returned for output {v} of #{id}");
                h.asked.entry((id, v)).or_default().0 = true;
            }
            c.count("defined weighted", 1);
        }
        13 => {
            let ids: Vec<usize> = (0..h.m.nodes.len()).filter(|i| !h.m.has_dummy(*i)).collect();
            if ids.is_empty() {
                return Ok(());
            }
            let id = *c.rng.pick(&ids);
            c.log(format!("reserve_vars #{id}"));
            let n0 = h.vm.out.len();
            c.run("reserve_vars", || h.db.reserve_vars(NodeCon::full(NodeId(id)), &mut h.vm))?;
            let _ = n0;
            for v in h.m.vals(id) {
                check!(h.db[NodeId(id)].lit(v).is_some(), "not-reserved", "output {v} of #{id} is not reserved");
            }
            // nothing below needs a new variable
            if all_unit(h, id) {
                let mut db = h.db.clone();
                let n1 = h.vm.out.len();
                let mut scratch = Col::default();
                for v in h.m.vals(id) {
                    c.run("define_unweighted", || db.define_unweighted(NodeId(id), v - 1, Semantics::IfAndOnlyIf, &mut scratch, &mut h.vm).is_ok())?;
                }
                check_eq!(h.vm.out.len(), n1, "not-reserved", "variables needed after all were reserved at #{id}");
            } else if weighted_ok(h, id) {
                let mut db = h.db.clone();
                let n1 = h.vm.out.len();
                let mut scratch = Col::default();
                for v in h.m.vals(id) {
                    c.run("define_weighted", || db.define_weighted(NodeId(id), v, &mut scratch, &mut h.vm).is_ok())?;
                }
                check_eq!(h.vm.out.len(), n1, "not-reserved", "variables needed after all were reserved at #{id}");
            }
        }
        14 => {
            let sem = *c.rng.pick(&[Semantics::If, Semantics::OnlyIf, Semantics::IfAndOnlyIf, Semantics::IfAndOnlyIf]);
            if sem == Semantics::IfAndOnlyIf && c.rng.bool() {
                c.log("reset_vars");
                h.db.reset_vars();
                h.col = Col::default();
                for id in 0..h.m.nodes.len() {
                    if matches!(h.m.nodes[id], M::Int(..)) {
                        for v in h.m.vals(id) {
                            check!(h.db[NodeId(id)].lit(v).is_none(), "reset", "output {v} of #{id} has a literal after a reset");
                        }
                    }
                }
            } else {
                c.log(format!("reset_encoded {sem:?}"));
                h.db.reset_encoded(sem);
                for id in 0..h.m.nodes.len() {
                    if matches!(h.m.nodes[id], M::Int(..)) {
                        for v in h.m.vals(id) {
                            let n = &h.db[NodeId(id)];
                            check!(!(sem.has_if() && n.semantics_if(v)) && !(sem.has_only_if() && n.semantics_only_if(v)), "reset", "output {v} of #{id} still counts as encoded");
                        }
                    }
                }
            }
            if sem == Semantics::IfAndOnlyIf {
                h.fresh = Col::default();
                h.asked.clear();
            } else {
                // the other side stays, the reset one has to be encoded again
                for x in h.asked.values_mut() {
                    x.0 &= !sem.has_if();
                    x.1 &= !sem.has_only_if();
                }
                h.fresh = h.col.clone();
            }
        }
        _ => {
            if c.rng.bool() {
                // dummy and a node above it
                c.log("dummy");
                let before = h.m.nodes.iter().position(|m| *m == M::Dummy);
                let d = h.db.insert(Node::Dummy);
                h.sync("dummy")?;
                check_eq!(h.m.nodes[d.0].clone(), M::Dummy, "node", "the dummy");
                if let Some(b) = before {
                    check_eq!(d.0, b, "dummy-twice", "the dummy changes");
                }
                if let Some(x) = h.some_con(c, false) {
                    if x.lim.is_none() && x.off == 0 && cap_ok(h, &[x]) {
                        let (mut l, mut r) = (h.con(&x), NodeCon::full(d));
                        let right = c.rng.bool();
                        if right {
                            std::mem::swap(&mut l, &mut r);
                        }
                        c.log(format!("dummy with {x:?}, right: {right}"));
                        let n = c.run("internal", || Node::internal(l, r, &h.db))?;
                        h.db.insert(n);
                        h.sync("internal")?;
                    }
                }
            } else if !h.m.nodes.is_empty() {
                drain(c, h)?;
            }
        }
    }
    Ok(())
}

/// equality with what `con_of` can see of a connection
fn norm(_h: &H, x: &Con) -> Con {
    *x
}

fn all_unit(h: &H, id: usize) -> bool {
    let mut s = BTreeSet::new();
    h.m.below(id, &mut s);
    s.iter().all(|i| match &h.m.nodes[*i] {
        M::Int(l, r) => l.mult == 1 && r.mult == 1,
        M::Leaf(_) => true,
        // at the node asked for only with another child
        M::Dummy => *i != id,
    }) && s.iter().all(|i| !matches!(&h.m.nodes[*i], M::Int(l, r) if h.m.nodes[l.id] == M::Dummy && h.m.nodes[r.id] == M::Dummy))
}

/// connections define_weighted is made for
fn weighted_ok(h: &H, id: usize) -> bool {
    let mut s = BTreeSet::new();
    h.m.below(id, &mut s);
    s.iter().all(|i| match &h.m.nodes[*i] {
        M::Int(l, r) => h.m.unit(*i) && l.mult == 1 && r.mult == 1 || [l, r].iter().all(|c| c.lim.is_none_or(|l| l == 1)),
        M::Leaf(_) => true,
        M::Dummy => false,
    })
}

fn drain(c: &mut Case, h: &mut H) -> Res {
    let n = h.m.nodes.len();
    let (a, b) = match c.rng.below(4) {
        0 => {
            let a = c.rng.below(n + 1);
            (a, n)
        }
        1 => (0, c.rng.below(n + 1)),
        _ => {
            let a = c.rng.below(n + 1);
            (a, a + c.rng.below((n - a).min(4) + 1))
        }
    };
    c.log(format!("drain #{a}..#{b}"));
    let old: Vec<Node> = h.db.iter().cloned().collect();
    let refs: Option<(usize, usize)> = (b..n).find_map(|i| match &h.m.nodes[i] {
        M::Int(l, r) => [l.id, r.id].into_iter().find(|x| (a..b).contains(x)).map(|x| (i, x)),
        _ => None,
    });
    let style = c.rng.below(3);
    let res: Result<Vec<Node>, String> = {
        let db = &mut h.db;
        c.run("drain", || {
            match style {
                0 => db.drain(NodeId(a)..NodeId(b)).map(Iterator::collect::<Vec<_>>),
                1 if b > a => db.drain(NodeId(a)..=NodeId(b - 1)).map(Iterator::collect::<Vec<_>>),
                _ if b == n => db.drain(NodeId(a)..).map(Iterator::collect::<Vec<_>>),
                _ => db.drain(NodeId(a)..NodeId(b)).map(|mut d| {
                    // not all taken
                    let mut v: Vec<Node> = d.by_ref().take(1).collect();
                    v.extend(d);
                    v
                }),
            }
            .map_err(|e| e.to_string())
        })?
    };
    match (res, refs) {
        (Err(e), None) => fail!("drain-refused", "{e}"),
        (Ok(_), Some((i, x))) => fail!("drain-dangling", "#{x} is drained while #{i} refers to it"),
        (Err(_), Some(_)) => {
            let now: Vec<Node> = h.db.iter().cloned().collect();
            check!(now == old, "drain-refused-changes", "a refused drain changes the database: {old:?} -> {now:?}");
            c.count("drain refused", 1);
        }
        (Ok(d), None) => {
            check!(d == old[a..b], "drained", "nodes handed out {d:?}");
            let k = b - a;
            let sh = |x: Con| Con { id: if x.id >= b { x.id - k } else { x.id }, ..x };
            let nodes: Vec<M> = h
                .m
                .nodes
                .iter()
                .enumerate()
                .filter(|(i, _)| !(a..b).contains(i))
                .map(|(_, m)| match m {
                    M::Int(l, r) => M::Int(sh(*l), sh(*r)),
                    x => x.clone(),
                })
                .collect();
            h.m.nodes = nodes;
            h.asked = std::mem::take(&mut h.asked)
                .into_iter()
                .filter(|((i, _), _)| !(a..b).contains(i))
                .map(|((i, v), s)| ((if i >= b { i - k } else { i }, v), s))
                .collect();
            check_eq!(h.db.len(), h.m.nodes.len(), "len", "drain: number of nodes");
            // literals kept
            for (i, m) in h.m.nodes.iter().enumerate() {
                if let M::Int(..) = m {
                    let o = &old[if i >= a { i + k } else { i }];
                    for v in h.m.vals(i) {
                        check_eq!(h.db[NodeId(i)].lit(v), o.lit(v), "olit", "output {v} of #{i} after draining");
                    }
                }
            }
            // the lookup of leaves follows
            for l in (1..=h.n as i32).flat_map(|l| [l, -l]) {
                if c.rng.chance(1, 3) {
                    let before = h.m.nodes.iter().position(|m| *m == M::Leaf(l));
                    let id = h.db.insert(Node::leaf(tolit(l)));
                    h.sync("leaf after drain")?;
                    check_eq!(id.0, before.unwrap_or(h.m.nodes.len() - 1), "leaf-lookup", "leaf of {l} after draining");
                }
            }
            if c.rng.chance(1, 3) {
                let before = h.m.nodes.iter().position(|m| *m == M::Dummy);
                let id = h.db.insert(Node::Dummy);
                check!(id.0 < h.db.len(), "dummy-lookup", "the dummy is #{} of {} nodes after draining", id.0, h.db.len());
                h.sync("dummy after drain")?;
                check_eq!(id.0, before.unwrap_or(h.m.nodes.len() - 1), "dummy-lookup", "dummy after draining");
            }
            c.count("drained", 1);
        }
    }
    Ok(())
}

pub fn c23(c: &mut Case) -> Res {
    let n = c.rng.us(1, 5);
    let mut h = H { db: Db::default(), m: Ref::default(), col: Col::default(), fresh: Col::default(), vm: Vm::new(n), n, asked: BTreeMap::new() };
    c.log(format!("n {n}"));
    for _ in 0..c.rng.us(2, 14) {
        crate::rt::maybe(c, "Db", &mut h.db)?;
        step(c, &mut h)?;
        if h.m.nodes.len() > 40 {
            break;
        }
        if c.rng.chance(1, 4) {
            h.check_nodes(c, "after a step")?;
            h.check_clauses("after a step")?;
        }
    }
    crate::rt::maybe(c, "Db", &mut h.db)?;
    h.check_nodes(c, "end")?;
    h.check_clauses("end")?;
    let r: Result<(), Fail> = c.run("values", || ()).and_then(|()| h.check_values(c, "end"));
    r?;
    if let Some(b) = &h.vm.bad {
        fail!("manager", "{b}");
    }
    // a node shared by two parents
    let mut par: BTreeMap<usize, usize> = BTreeMap::new();
    for m in &h.m.nodes {
        if let M::Int(l, r) = m {
            *par.entry(l.id).or_default() += 1;
            *par.entry(r.id).or_default() += 1;
        }
    }
    c.count("shared nodes", par.values().filter(|x| **x > 1).count() as u64);
    if h.m.nodes.len() > 2 {
        c.nontrivial(c.log_text().to_string().as_str());
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C23",
        "random histories over a totaliser database (leaves, trees, merges with weights, offsets and limits, definitions with either semantics, reservations, resets, drains) against a model that interprets every connection; every clause and literal is compared for all assignments of up to 5 variables",
        vec![Sub::new("history", 1, c23).max(4_000_000, 200_000_000).hang(20, true)],
    )
    .quick(12)
    .thorough(300)]
}
