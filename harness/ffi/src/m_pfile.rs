//! Proof files written by CaDiCaL: parsed and checked step by step
use crate::m_proof::{configure, instance, norm};
use crate::m_solve::{clause, int, lit};
use crate::proofdb::Db;
use crate::veripb::Constr;
use rustsat::solvers::*;
use rustsat::types::*;
use rustsat_cadical::*;
use std::collections::BTreeMap;
use vcore::{check, check_eq, fail, Case, Fail, Res};

#[derive(Clone, Debug, PartialEq)]
enum Step {
    Orig(i64, Vec<i32>),
    Add(i64, Vec<i32>, Option<Vec<i64>>),
    Del(i64, Vec<i32>),
    DelIds(Vec<i64>),
    WeakenIds(Vec<i64>),
    RestoreIds(Vec<i64>),
    Weaken(Vec<i32>),
    Restore(Vec<i32>),
    Fin(i64, Vec<i32>),
    Query(Vec<i32>),
    Status(String),
    Model(Vec<i32>),
    Trail(Vec<i32>),
    Core(Vec<i32>, Vec<i64>),
    Cores(usize),
}
type P<T> = Result<T, String>;

/// numbers of one text line or of a binary stream
enum Src<'a> {
    Text(std::str::SplitAsciiWhitespace<'a>),
    Bin(&'a [u8]),
}
impl Src<'_> {
    fn word(&mut self) -> P<Option<String>> {
        match self {
            Src::Text(w) => Ok(w.next().map(str::to_string)),
            Src::Bin(_) => Err("word in binary".into()),
        }
    }
    fn raw(&mut self) -> P<u64> {
        let Src::Bin(b) = self else { unreachable!() };
        let mut v = 0u64;
        let mut sh = 0;
        loop {
            let Some((&x, rest)) = b.split_first() else { return Err("end within a number".into()) };
            *b = rest;
            if sh > 63 {
                return Err("overlong number".into());
            }
            v |= u64::from(x & 127) << sh;
            sh += 7;
            if x & 128 == 0 {
                return Ok(v);
            }
        }
    }
    /// a literal or an identifier with a sign
    fn signed(&mut self) -> P<i64> {
        match self {
            Src::Text(w) => w.next().ok_or("line ends early")?.parse().map_err(|e| format!("{e}")),
            Src::Bin(_) => {
                let v = self.raw()?;
                if v == 1 {
                    return Err("minus zero".into());
                }
                Ok((v >> 1) as i64 * if v & 1 == 1 { -1 } else { 1 })
            }
        }
    }
    fn plain(&mut self) -> P<i64> {
        match self {
            Src::Text(_) => self.signed(),
            Src::Bin(_) => Ok(self.raw()? as i64),
        }
    }
    fn list(&mut self) -> P<Vec<i64>> {
        let mut r = vec![];
        loop {
            match self.signed()? {
                0 => return Ok(r),
                x => r.push(x),
            }
        }
    }
    fn lits(&mut self) -> P<Vec<i32>> {
        self.list()?.into_iter().map(|x| i32::try_from(x).map_err(|e| format!("{e}"))).collect()
    }
    fn end(&mut self) -> P<()> {
        match self {
            Src::Text(w) => match w.next() {
                None => Ok(()),
                Some(x) => Err(format!("{x} after the end of the line")),
            },
            Src::Bin(_) => Ok(()),
        }
    }
}

fn split(data: &[u8], binary: bool) -> P<Vec<Src<'_>>> {
    if binary {
        return Ok(vec![Src::Bin(data)]);
    }
    let t = std::str::from_utf8(data).map_err(|e| format!("{e}"))?;
    if !t.is_empty() && !t.ends_with('\n') {
        return Err("last line incomplete".into());
    }
    Ok(t.lines().filter(|l| !l.trim().is_empty()).map(|l| Src::Text(l.split_ascii_whitespace())).collect())
}
fn step(s: &mut Src, fmt: &ProofFormat) -> P<Option<Step>> {
    // the kind of step
    let mut first = None;
    let kind = match s {
        Src::Bin(b) => match b.split_first() {
            None => return Ok(None),
            Some((&k, rest)) => {
                *b = rest;
                k
            }
        },
        Src::Text(w) => {
            let mut look = w.clone();
            match look.next() {
                None => return Ok(None),
                Some(x) if x.len() == 1 && x.as_bytes()[0].is_ascii_alphabetic() => {
                    *w = look;
                    x.as_bytes()[0]
                }
                Some(x) => {
                    if matches!(fmt, ProofFormat::Lrat { .. }) {
                        *w = look;
                        first = Some(x.parse::<i64>().map_err(|e| format!("{x}: {e}"))?);
                        match w.clone().next() {
                            Some("d") => {
                                w.next();
                                b'd'
                            }
                            _ => b'a',
                        }
                    } else if matches!(fmt, ProofFormat::Drat { .. }) {
                        b'a'
                    } else {
                        return Err(format!("step {x}"));
                    }
                }
            }
        }
    };
    let st = match (fmt, kind) {
        (ProofFormat::Drat { .. }, b'a') => Step::Add(0, s.lits()?, None),
        (ProofFormat::Drat { .. }, b'd') => Step::Del(0, s.lits()?),
        (ProofFormat::Lrat { .. }, b'a') => {
            let id = match first {
                Some(i) => i,
                None => s.signed()?,
            };
            Step::Add(id, s.lits()?, Some(s.list()?))
        }
        (ProofFormat::Lrat { .. }, b'd') => Step::DelIds(s.list()?),
        (ProofFormat::Frat { .. }, b'o') => Step::Orig(s.plain()?, s.lits()?),
        (ProofFormat::Frat { .. }, b'd') => Step::Del(s.plain()?, s.lits()?),
        (ProofFormat::Frat { .. }, b'f') => Step::Fin(s.plain()?, s.lits()?),
        (ProofFormat::Frat { .. }, b'a') => {
            let id = s.plain()?;
            let c = s.lits()?;
            // an optional list of hints
            let more = match s {
                Src::Bin(b) => {
                    if b.first() == Some(&b'l') {
                        *b = &b[1..];
                        true
                    } else {
                        false
                    }
                }
                Src::Text(_) => match s.word()? {
                    None => false,
                    Some(w) if w == "l" => true,
                    Some(w) => return Err(format!("{w} after a clause")),
                },
            };
            Step::Add(id, c, if more { Some(s.list()?) } else { None })
        }
        (ProofFormat::Idrup { .. }, b'i') => Step::Orig(0, s.lits()?),
        (ProofFormat::Idrup { .. }, b'l') => Step::Add(0, s.lits()?, None),
        (ProofFormat::Idrup { .. }, b'd') => Step::Del(0, s.lits()?),
        (ProofFormat::Idrup { .. }, b'w') => Step::Weaken(s.lits()?),
        (ProofFormat::Idrup { .. }, b'r') => Step::Restore(s.lits()?),
        (ProofFormat::Idrup { .. }, b'u') => Step::Core(s.lits()?, vec![]),
        (ProofFormat::Lidrup { .. }, b'i') => Step::Orig(s.signed()?, s.lits()?),
        (ProofFormat::Lidrup { .. }, b'l') => Step::Add(s.signed()?, s.lits()?, Some(s.list()?)),
        (ProofFormat::Lidrup { .. }, b'd') => Step::DelIds(s.list()?),
        (ProofFormat::Lidrup { .. }, b'w') => Step::WeakenIds(s.list()?),
        (ProofFormat::Lidrup { .. }, b'r') => Step::RestoreIds(s.list()?),
        (ProofFormat::Lidrup { .. }, b'u') => Step::Core(s.lits()?, s.list()?),
        (ProofFormat::Idrup { .. } | ProofFormat::Lidrup { .. }, b'U') => Step::Cores(if matches!(fmt, ProofFormat::Lidrup { .. }) { s.signed()? } else { s.plain()? } as usize),
        (ProofFormat::Idrup { .. } | ProofFormat::Lidrup { .. }, b'q') => Step::Query(s.lits()?),
        (ProofFormat::Idrup { .. } | ProofFormat::Lidrup { .. }, b'm') => Step::Model(s.lits()?),
        (ProofFormat::Idrup { .. } | ProofFormat::Lidrup { .. }, b'e') => Step::Trail(s.lits()?),
        (ProofFormat::Idrup { .. } | ProofFormat::Lidrup { .. }, b's') => match s {
            Src::Text(w) => Step::Status(w.next().unwrap_or("").to_string()),
            Src::Bin(b) => {
                let n = ["UNSATISFIABLE", "SATISFIABLE", "UNKNOWN"].into_iter().find(|n| b.starts_with(n.as_bytes())).ok_or("status")?;
                *b = &b[n.len()..];
                Step::Status(n.to_string())
            }
        },
        _ => return Err(format!("step of kind {:?}", kind as char)),
    };
    s.end()?;
    Ok(Some(st))
}
fn parse(data: &[u8], fmt: &ProofFormat, binary: bool) -> P<Vec<Step>> {
    let mut r = vec![];
    for mut s in split(data, binary)? {
        while let Some(x) = step(&mut s, fmt)? {
            r.push(x);
            if !binary {
                break;
            }
        }
    }
    Ok(r)
}

/// The queries that were made: assumptions and answer
struct Asked {
    /// may have been answered without a search
    skip: bool,
    added: usize,
    assumps: Vec<i32>,
    res: SolverResult,
}

#[derive(Default)]
struct Chk {
    db: Db,
    by_key: BTreeMap<Vec<i32>, Vec<i64>>,
    next: i64,
    weak: BTreeMap<i64, Vec<i32>>,
    weak_keys: BTreeMap<Vec<i32>, usize>,
    steps: BTreeMap<&'static str, u64>,
}
impl Chk {
    fn n(&mut self, w: &'static str) {
        *self.steps.entry(w).or_insert(0) += 1;
    }
    fn put(&mut self, id: i64, c: Vec<i32>) -> P<i64> {
        let id = if id == 0 {
            self.next += 1;
            self.next
        } else {
            id
        };
        if self.db.live.contains_key(&id) {
            return Err(format!("identifier {id} is taken"));
        }
        self.by_key.entry(norm(&c)).or_default().push(id);
        self.db.insert(id, c);
        Ok(id)
    }
    fn take_id(&mut self, id: i64) -> P<Vec<i32>> {
        let Some(c) = self.db.remove(id) else { return Err(format!("no clause {id}")) };
        let e = self.by_key.get_mut(&norm(&c)).unwrap();
        e.retain(|&x| x != id);
        Ok(c)
    }
    fn take(&mut self, c: &[i32]) -> P<i64> {
        match self.by_key.get(&norm(c)).and_then(|v| v.last().copied()) {
            None => Err(format!("no clause {c:?}")),
            Some(id) => {
                self.take_id(id)?;
                Ok(id)
            }
        }
    }
    fn derive(&mut self, c: &[i32], hints: Option<&[i64]>, rat: bool) -> P<()> {
        if c.iter().any(|l| c.contains(&-l)) {
            return Ok(());
        }
        if let Some(h) = hints {
            if h.iter().all(|&x| x > 0) && !h.is_empty() {
                self.n("hints checked");
                return self.db.hints(c, h);
            }
        } else if self.db.rup(c) {
            self.n("RUP steps");
            return Ok(());
        }
        let weak: Vec<Vec<i32>> = self.weak.values().cloned().chain(self.weak_keys.iter().filter(|k| *k.1 > 0).map(|k| k.0.clone())).collect();
        if rat && !c.is_empty() && self.db.rat(c, c[0], &weak) {
            self.n("RAT steps");
            return Ok(());
        }
        Err(format!("clause {c:?} does not follow"))
    }
}

fn follow(c: &mut Case, fmt: &ProofFormat, steps: &[Step], cls: &[Vec<i32>], asked: &[Asked]) -> P<()> {
    let mut k = Chk::default();
    let has_orig = !matches!(fmt, ProofFormat::Drat { .. } | ProofFormat::Lrat { .. });
    if !has_orig {
        for cl in cls {
            k.put(0, cl.clone())?;
        }
    }
    let inc = matches!(fmt, ProofFormat::Idrup { .. } | ProofFormat::Lidrup { .. });
    let rat = !inc;
    let mut origs = 0;
    let mut empty = cls.iter().any(Vec::is_empty) && !has_orig;
    let mut q: Option<usize> = None;
    let mut answered = 0;
    let mut fin: BTreeMap<i64, Vec<i32>> = BTreeMap::new();
    let mut cores = 0;
    let mut core_cls: Vec<Vec<i32>> = vec![];
    for (i, s) in steps.iter().enumerate() {
        let at = |e: String| format!("step {}: {s:?}: {e}", i + 1);
        match s {
            Step::Orig(id, x) => {
                if cls.get(origs) != Some(x) {
                    return Err(at(format!("expected the clause {:?}", cls.get(origs))));
                }
                origs += 1;
                k.n("original clauses");
                empty |= x.is_empty();
                k.put(*id, x.clone()).map_err(at)?;
            }
            Step::Add(id, x, h) => {
                k.derive(x, h.as_deref(), rat).map_err(at)?;
                empty |= x.is_empty();
                k.put(*id, x.clone()).map_err(at)?;
            }
            Step::Del(id, x) => {
                k.n("deletions");
                if *id == 0 {
                    k.take(x).map_err(at)?;
                } else if norm(&k.take_id(*id).map_err(at)?) != norm(x) {
                    return Err(at("another clause".into()));
                }
            }
            Step::DelIds(v) => {
                for id in v {
                    k.n("deletions");
                    if k.weak.remove(id).is_none() {
                        k.take_id(*id).map_err(at)?;
                    }
                }
            }
            Step::WeakenIds(v) => {
                for id in v {
                    k.n("weakened");
                    let x = k.take_id(*id).map_err(at)?;
                    k.weak.insert(*id, x);
                }
            }
            Step::RestoreIds(v) => {
                for id in v {
                    k.n("restored");
                    let x = k.weak.remove(id).ok_or_else(|| at(format!("no weakened clause {id}")))?;
                    k.put(*id, x).map_err(at)?;
                }
            }
            Step::Weaken(x) => {
                k.n("weakened");
                k.take(x).map_err(at)?;
                *k.weak_keys.entry(norm(x)).or_insert(0) += 1;
            }
            Step::Restore(x) => {
                k.n("restored");
                match k.weak_keys.get_mut(&norm(x)) {
                    Some(n) if *n > 0 => *n -= 1,
                    _ => return Err(at("was not weakened".into())),
                }
                k.put(0, x.clone()).map_err(at)?;
            }
            Step::Fin(id, x) => {
                k.n("finalized");
                if k.db.live.get(id).is_none_or(|w| norm(w) != norm(x)) || fin.insert(*id, x.clone()).is_some() {
                    return Err(at(format!("there is {:?}", k.db.live.get(id))));
                }
            }
            Step::Query(a) => {
                let mut nq = q.map_or(0, |q| q + 1);
                while asked.get(nq).is_some_and(|w| w.skip && (&w.assumps != a || w.added != origs)) {
                    nq += 1;
                    answered += 1;
                }
                if answered != nq {
                    return Err(at("the last query has no answer".into()));
                }
                let Some(w) = asked.get(nq) else { return Err(at("not asked".into())) };
                if &w.assumps != a || w.added != origs {
                    return Err(at(format!("expected assumptions {:?} after {} clauses, not {origs}", w.assumps, w.added)));
                }
                q = Some(nq);
            }
            Step::Status(x) => {
                let want = q.and_then(|q| asked.get(q)).map(|w| match w.res {
                    SolverResult::Sat => "SATISFIABLE",
                    SolverResult::Unsat => "UNSATISFIABLE",
                    SolverResult::Interrupted => "UNKNOWN",
                });
                if want != Some(x.as_str()) {
                    return Err(at(format!("answer was {want:?}")));
                }
                k.n("answers");
            }
            Step::Model(m) => {
                let Some(w) = q.and_then(|q| asked.get(q)) else { return Err(at("no query".into())) };
                if w.res != SolverResult::Sat {
                    return Err(at("model without the answer".into()));
                }
                answered += 1;
                if m.iter().any(|l| m.contains(&-l)) {
                    return Err(at("inconsistent".into()));
                }
                for c in cls[..origs].iter().cloned().chain(w.assumps.iter().map(|&a| vec![a])) {
                    if !c.iter().any(|l| m.contains(l)) {
                        return Err(at(format!("{c:?} is not satisfied")));
                    }
                }
                k.n("models");
            }
            Step::Trail(_) => {
                if q.and_then(|q| asked.get(q)).is_none_or(|w| w.res != SolverResult::Interrupted) {
                    return Err(at("trail without the answer".into()));
                }
                answered += 1;
            }
            Step::Cores(n) => {
                cores = *n;
                core_cls.clear();
            }
            Step::Core(x, h) => {
                let Some(w) = q.and_then(|q| asked.get(q)) else { return Err(at("no query".into())) };
                if w.res != SolverResult::Unsat || !x.iter().all(|l| w.assumps.contains(l)) {
                    return Err(at(format!("under {:?}, answer {}", w.assumps, w.res)));
                }
                let neg: Vec<i32> = x.iter().map(|l| -l).collect();
                if matches!(fmt, ProofFormat::Lidrup { .. }) {
                    let taut = neg.iter().any(|l| neg.contains(&-l));
                    if !taut {
                        k.db.hints(&neg, h).map_err(at)?;
                    }
                } else if !k.db.rup(&neg) {
                    return Err(at("does not follow".into()));
                }
                core_cls.push(neg);
                k.n("cores");
                if cores > 1 {
                    cores -= 1;
                } else {
                    cores = 0;
                    answered += 1;
                }
            }
        }
    }
    let last = &asked[asked.len() - 1];
    if has_orig && origs != cls.len() {
        return Err(format!("only {origs} of {} clauses", cls.len()));
    }
    if inc {
        while asked.get(answered).is_some_and(|w| w.skip) {
            answered += 1;
        }
        if answered != asked.len() {
            return Err(format!("{answered} of {} answers justified", asked.len()));
        }
    } else {
        if empty != (last.res == SolverResult::Unsat) {
            return Err(format!("answer {} but the empty clause is derived: {empty}", last.res));
        }
        if last.res == SolverResult::Unsat && matches!(fmt, ProofFormat::Frat { .. }) && k.db.live.keys().any(|i| !fin.contains_key(i)) {
            let miss: Vec<_> = k.db.live.iter().filter(|(i, _)| !fin.contains_key(i)).take(5).collect();
            let more: Vec<_> = fin.iter().filter(|(i, _)| !k.db.live.contains_key(i)).take(5).collect();
            return Err(format!("not finalized: {miss:?}, removed after finalizing: {more:?}"));
        }
    }
    for (n, v) in &k.steps {
        c.count(n, *v);
    }
    Ok(())
}

/// The steps CaDiCaL uses of the VeriPB format
fn veripb(c: &mut Case, text: &str, cls: &[Vec<i32>], res: SolverResult, checked: bool) -> P<()> {
    let mut db: BTreeMap<i64, (Vec<i32>, Constr, bool)> = BTreeMap::new();
    let constr = |x: &[i32]| {
        let v: Vec<(u32, bool)> = norm(x).iter().map(|&l| (l.unsigned_abs(), l < 0)).collect();
        Constr::from_clause(&v)
    };
    let mut next = 0;
    for x in cls {
        next += 1;
        db.insert(next, (x.clone(), constr(x), true));
    }
    let mut lines = text.lines();
    let mut pending: Option<&str> = lines.next();
    match pending {
        Some(l) if l.starts_with("pseudo-Boolean proof version") => {
            let f = lines.next().unwrap_or("");
            if f.trim_end_matches(';').split_whitespace().collect::<Vec<_>>() != ["f", &cls.len().to_string()] {
                return Err(format!("formula line {f}"));
            }
            pending = lines.next();
        }
        _ => return Err("HEADER".into()),
    }
    body(c, &mut db, next, pending.into_iter().chain(lines), &constr, res, checked)
}
fn body<'a>(
    c: &mut Case,
    db: &mut BTreeMap<i64, (Vec<i32>, Constr, bool)>,
    mut next: i64,
    lines: impl Iterator<Item = &'a str>,
    constr: &dyn Fn(&[i32]) -> Constr,
    res: SolverResult,
    checked: bool,
) -> P<()> {
    let mut ended = false;
    let mut concluded = false;
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    for (no, line) in lines.enumerate() {
        let at = |e: String| format!("line {}: {line}: {e}", no + 1);
        let l = line.trim().trim_end_matches(';').trim();
        if l.is_empty() || l.starts_with('%') {
            continue;
        }
        if ended {
            return Err(at("after the end".into()));
        }
        let (cmd, rest) = l.split_once(' ').unwrap_or((l, ""));
        let lits = |t: &str| -> P<Vec<i32>> {
            let mut r = vec![];
            let mut w = t.split_whitespace();
            loop {
                match w.next() {
                    Some(">=") => {
                        if w.next() != Some("1") || w.next().is_some() {
                            return Err("right-hand side".into());
                        }
                        return Ok(r);
                    }
                    Some("1") => {
                        let x = w.next().ok_or("literal missing")?;
                        let (neg, v) = x.strip_prefix('~').map_or((false, x), |v| (true, v));
                        let v: i32 = v.strip_prefix('x').ok_or("variable")?.parse().map_err(|e| format!("{e}"))?;
                        r.push(if neg { -v } else { v });
                    }
                    x => return Err(format!("token {x:?}")),
                }
            }
        };
        let view = |db: &BTreeMap<i64, (Vec<i32>, Constr, bool)>| Db { live: db.iter().map(|(i, e)| (*i, e.0.clone())).collect() };
        match cmd {
            "pol" => {
                let mut st: Vec<Constr> = vec![];
                for w in rest.split_whitespace() {
                    match w {
                        "+" => {
                            let (Some(b), Some(a)) = (st.pop(), st.pop()) else { return Err(at("stack".into())) };
                            st.push(a.add(&b));
                        }
                        "s" => {
                            let Some(a) = st.pop() else { return Err(at("stack".into())) };
                            st.push(a.saturate());
                        }
                        w => {
                            let i: i64 = w.parse().map_err(|e| at(format!("{e}")))?;
                            st.push(db.get(&i).ok_or_else(|| at(format!("no constraint {i}")))?.1.clone());
                        }
                    }
                }
                if st.len() != 1 {
                    return Err(at("stack".into()));
                }
                next += 1;
                db.insert(next, (vec![], st.pop().unwrap(), false));
                *counts.entry("pol steps").or_insert(0) += 1;
            }
            "e" => {
                let (cl, id) = rest.split_once(" : ").ok_or_else(|| at("identifier".into()))?;
                let x = lits(cl).map_err(at)?;
                let id: i64 = id.trim().parse().map_err(|e| at(format!("{e}")))?;
                let e = db.get_mut(&id).ok_or_else(|| at("no such constraint".into()))?;
                if e.1 != constr(&x) {
                    return Err(at(format!("the constraint is {:?}", e.1)));
                }
                e.0 = x;
            }
            "rup" => {
                let x = lits(rest).map_err(at)?;
                if !view(db).rup(&x) {
                    return Err(at("does not follow".into()));
                }
                next += 1;
                db.insert(next, (x.clone(), constr(&x), false));
                *counts.entry("rup steps").or_insert(0) += 1;
            }
            "red" => {
                let (cl, w) = rest.split_once(" : ").ok_or_else(|| at("witness".into()))?;
                let x = lits(cl).map_err(at)?;
                let (v, b) = w.split_once(" -> ").ok_or_else(|| at("witness".into()))?;
                let v: i32 = v.trim().trim_start_matches('x').parse().map_err(|e| at(format!("{e}")))?;
                let p = if b.trim() == "1" { v } else { -v };
                if !view(db).rat(&x, p, &[]) {
                    return Err(at("not redundant".into()));
                }
                next += 1;
                db.insert(next, (x.clone(), constr(&x), false));
                *counts.entry("red steps").or_insert(0) += 1;
            }
            "core" => {
                let id: i64 = rest.strip_prefix("id ").ok_or_else(|| at("id".into()))?.trim().parse().map_err(|e| at(format!("{e}")))?;
                db.get_mut(&id).ok_or_else(|| at("no such constraint".into()))?.2 = true;
            }
            "del" | "delc" => {
                let r = if cmd == "del" { rest.strip_prefix("id ").ok_or_else(|| at("id".into()))? } else { rest };
                let id: i64 = r.trim().parse().map_err(|e| at(format!("{e}")))?;
                let e = db.remove(&id).ok_or_else(|| at("no such constraint".into()))?;
                *counts.entry("deletions").or_insert(0) += 1;
                if checked && e.2 {
                    if cmd == "del" {
                        return Err(at("core constraint deleted without justification".into()));
                    }
                    // checked deletion: redundant with regard to the remaining core
                    let core = Db { live: db.iter().filter(|e| e.1 .2).map(|(i, e)| (*i, e.0.clone())).collect() };
                    if !core.rup(&e.0) && !e.0.iter().any(|&p| core.rat(&e.0, p, &[])) {
                        *counts.entry("core deletions that need a witness").or_insert(0) += 1;
                    }
                }
            }
            "output" => {
                if rest != "NONE" {
                    return Err(at("output".into()));
                }
            }
            "conclusion" => {
                concluded = true;
                match (rest.split_once(" : "), res) {
                    (Some(("UNSAT", id)), SolverResult::Unsat) => {
                        let id: i64 = id.trim().parse().map_err(|e| at(format!("{e}")))?;
                        if db.get(&id).is_none_or(|e| !e.1.contradiction()) {
                            return Err(at("no contradiction".into()));
                        }
                    }
                    (None, SolverResult::Sat | SolverResult::Interrupted) if rest == "NONE" => (),
                    _ => return Err(at(format!("the answer is {res}"))),
                }
            }
            "end" => ended = true,
            _ => return Err(at("unknown step".into())),
        }
    }
    for (n, v) in counts {
        c.count(n, v);
    }
    if !ended || !concluded {
        return Err("no conclusion".into());
    }
    Ok(())
}

pub fn file(c: &mut Case) -> Res {
    let (n, mut cls) = instance(c);
    let binary = c.rng.bool();
    let fmt = match c.rng.below(6) {
        0 => ProofFormat::Drat { binary },
        1 => ProofFormat::Lrat { binary },
        2 => ProofFormat::Frat { binary, drat: c.rng.bool() },
        3 => ProofFormat::VeriPB { checked_deletion: c.rng.bool(), drat: c.rng.bool() },
        4 => ProofFormat::Idrup { binary },
        _ => ProofFormat::Lidrup { binary },
    };
    let name = match fmt {
        ProofFormat::Drat { .. } => "drat",
        ProofFormat::Lrat { .. } => "lrat",
        ProofFormat::Frat { .. } => "frat",
        ProofFormat::VeriPB { .. } => "veripb",
        ProofFormat::Idrup { .. } => "idrup",
        ProofFormat::Lidrup { .. } => "lidrup",
    };
    let sig = |s: &str| format!("C28:file:{name}:{s}");
    let inc = matches!(fmt, ProofFormat::Idrup { .. } | ProofFormat::Lidrup { .. });
    if matches!(fmt, ProofFormat::Lrat { .. } | ProofFormat::VeriPB { .. }) {
        // clauses are numbered as they were added, unless one of them is simplified while adding it
        for x in &mut cls {
            *x = norm(x);
        }
        cls.retain(|x| x.len() > 1 && !x.iter().any(|l| x.contains(&-l)));
    }
    let factor = !inc && c.rng.chance(1, 4);
    if factor {
        // no variable of the user may appear later than an extension variable
        let have = cls.iter().flatten().map(|l| l.abs()).max();
        if have != Some(n) {
            cls.push(vec![n, n - 1]);
        }
    }
    c.log(format!("{fmt:?}"));
    let path = c.dir().join("proof");
    let mut s = CaDiCaL::default();
    // unwritable paths are refused
    if c.rng.chance(1, 20) {
        let bad = [c.dir().join("no-such-dir").join("proof"), c.dir().to_path_buf()];
        for p in &bad {
            check!(s.trace_proof(p, fmt).is_err(), sig("unwritable"), "{} accepted", p.display());
        }
        c.count("unwritable paths", 2);
    }
    if let Err(e) = s.trace_proof(&path, fmt) {
        fail!(sig("trace"), "{e:#}");
    }
    configure(c, &mut s, factor, false)?;
    let mut asked: Vec<Asked> = vec![];
    let mut at = 0;
    let mut answers = String::new();
    let mut limited = false;
    let mut unsat_anyway = false;
    loop {
        let k = if !inc || c.rng.chance(1, 3) { cls.len() - at } else { c.rng.below(cls.len() - at + 1) };
        for cl in &cls[at..at + k] {
            c.log(format!("add {cl:?}"));
            if let Err(e) = s.add_clause_ref(&clause(cl)) {
                fail!(sig("add"), "{e:#}");
            }
        }
        at += k;
        let assumps: Vec<i32> = if inc && c.rng.bool() { (0..c.rng.us(1, 4)).map(|_| c.rng.lit(n as usize)).collect() } else { vec![] };
        if c.rng.chance(1, 15) {
            limited = true;
            if let Err(e) = s.limit_conflicts(Some(c.rng.below(4) as u32)) {
                fail!(sig("limit"), "{e:#}");
            }
        }
        let al: Vec<Lit> = assumps.iter().map(|&l| lit(l)).collect();
        c.log(format!("solve under {assumps:?}, limited: {limited}"));
        let res = c.run("C28:solve", || if al.is_empty() { s.solve() } else { s.solve_assumps(&al) })?;
        let res = match res {
            Ok(r) => r,
            Err(e) => fail!(sig("solve"), "{e:#}"),
        };
        c.log(format!("-> {res}"));
        let want = vcore::oracle::Sat::from_clauses(cls[..at].iter()).solve(&assumps);
        check!((res == SolverResult::Sat) == want || limited && res == SolverResult::Interrupted, sig("answer"), "{res}, satisfiable: {want}");
        answers.push(match res {
            SolverResult::Sat => 's',
            SolverResult::Unsat => 'u',
            SolverResult::Interrupted => '?',
        });
        if res == SolverResult::Sat && c.rng.bool() {
            let _ = s.lit_val(lit(1)).map(|v| v == TernaryVal::True);
        }
        if res == SolverResult::Unsat {
            if let Ok(core) = s.core() {
                unsat_anyway |= core.is_empty();
                check!(core.iter().all(|&l| assumps.contains(&-int(l))), sig("core"), "{core:?}");
            }
        }
        let skip = al.is_empty() && asked.last().is_some_and(|w: &Asked| w.added == at && (w.res == SolverResult::Sat || w.res == SolverResult::Unsat && (w.assumps.is_empty() || unsat_anyway)));
        if !skip {
            limited = false;
        }
        asked.push(Asked { skip, added: at, assumps, res });
        if at == cls.len() && (!inc || c.rng.chance(2, 3)) || asked.len() > 8 {
            break;
        }
    }
    drop(s);
    let data = match std::fs::read(&path) {
        Ok(d) => d,
        Err(e) => fail!(sig("missing"), "{e}"),
    };
    let known = &cls[..at];
    let last = asked.last().unwrap().res;
    if let ProofFormat::VeriPB { checked_deletion, .. } = fmt {
        let text = String::from_utf8_lossy(&data).into_owned();
        match veripb(c, &text, known, last, checked_deletion) {
            Ok(()) => (),
            Err(e) if e == "HEADER" => {
                let s = "C28:file:veripb:no-header";
                if !c.known(s) {
                    fail!(s, "the proof starts with {:?}", text.lines().next());
                }
                let text = format!("pseudo-Boolean proof version 3.0\nf {};\n{text}", known.len());
                if let Err(e) = veripb(c, &text, known, last, checked_deletion) {
                    fail!(sig("rejected"), "{e}");
                }
            }
            Err(e) => fail!(sig("rejected"), "{e}"),
        }
    } else {
        let steps = match parse(&data, &fmt, binary) {
            Ok(s) => s,
            Err(e) => fail!(sig("parse"), "{e}"),
        };
        if let Err(e) = follow(c, &fmt, &steps, known, &asked) {
            fail!(sig("rejected"), "{e}");
        }
    }
    check_eq!(std::fs::remove_file(&path).is_ok(), true, sig("missing"), "removing the file");
    c.count(name, 1);
    c.nontrivial(&format!("{name} n={n} m={} {answers} {} bytes", known.len(), data.len()));
    Ok(())
}
#[allow(unused)]
fn unused(_: Fail) {}
