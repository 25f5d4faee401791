//! Monitors for file reading and writing: DIMACS (C04), OPB (C05), hostile input (C06),
//! compression and I/O faults (C22)
use crate::enc::{fromlit, tolit};
use rustsat::instances::fio::{self, dimacs, opb};
use rustsat::instances::{BasicVarManager, Cnf, ManageVars, MultiOptInstance, Objective, OptInstance, SatInstance};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Lit, RsHashMap, Var};
use std::io::{BufRead, BufReader, Cursor, Read, Write};
use vcore::oracle::{clause_true, cnf_true, lit_true};
use vcore::{check, check_eq, fail, Case, Fail, Prop, Res, Sub};

type Cl = Vec<i32>;

/// Abstract clausal instance over variables `1..=n`
#[derive(Clone, Debug, Default)]
pub struct M {
    pub n: usize,
    pub hard: Vec<Cl>,
    pub objs: Vec<Vec<(u64, Cl)>>,
}

pub fn obj_val(o: &[(u64, Cl)], bits: u64) -> i128 {
    o.iter().filter(|(_, c)| !clause_true(c, bits)).map(|(w, _)| i128::from(*w)).sum()
}

/// Names of the variables in a file: small variable -> 0-based index
#[derive(Clone)]
struct Names(Vec<u32>);
impl Names {
    fn id(n: usize) -> Self {
        Names((0..n as u32).collect())
    }
    fn gen(c: &mut Case, n: usize, max: u32) -> Self {
        if c.rng.chance(5, 6) {
            return Self::id(n);
        }
        let mut v: Vec<u32> = vec![];
        while v.len() < n {
            let x = match c.rng.below(4) {
                0 => max - c.rng.below(12) as u32,
                1 => c.rng.below(12) as u32,
                2 => (1u32 << c.rng.us(4, 30)) + c.rng.below(3) as u32 - 1,
                _ => c.rng.below(100_000) as u32,
            };
            if x <= max && !v.contains(&x) {
                v.push(x);
            }
        }
        Names(v)
    }
    fn lit(&self, l: i32) -> Lit {
        Lit::new(self.0[l.unsigned_abs() as usize - 1], l < 0)
    }
    fn small(&self, l: Lit) -> Result<i32, Fail> {
        match self.0.iter().position(|x| *x == l.vidx32()) {
            Some(p) => Ok(if l.is_neg() { -(p as i32 + 1) } else { p as i32 + 1 }),
            None => fail!("foreign-variable", "literal {l} does not belong to the instance"),
        }
    }
    fn dimacs(&self, l: i32) -> String {
        let x = i64::from(self.0[l.unsigned_abs() as usize - 1]) + 1;
        (if l < 0 { -x } else { x }).to_string()
    }
    fn clause(&self, c: &[i32]) -> Clause {
        c.iter().map(|l| self.lit(*l)).collect()
    }
    fn smalls<'a>(&self, c: impl IntoIterator<Item = &'a Lit>) -> Result<Cl, Fail> {
        c.into_iter().map(|l| self.small(*l)).collect()
    }
    fn max(&self) -> u32 {
        self.0.iter().copied().max().unwrap_or(0)
    }
}

fn clause(c: &mut Case, n: usize) -> Cl {
    let len = match c.rng.below(10) {
        0 => 0,
        1 | 2 => 1,
        3 => c.rng.us(1, 12),
        _ => c.rng.us(1, 4),
    };
    let len = if n == 0 { 0 } else { len };
    (0..len).map(|_| c.rng.lit(n)).collect()
}

fn weights(c: &mut Case, k: usize) -> Vec<u64> {
    let style = c.rng.below(8);
    let mut left = isize::MAX as u64;
    (0..k)
        .map(|i| {
            let w = match style {
                0 => 1,
                1 => left / (k - i) as u64,
                2 => (1u64 << c.rng.below(58)) / k as u64 + 1,
                3 => 7,
                _ => c.rng.us(1, 20) as u64,
            };
            left -= w;
            w
        })
        .collect()
}

fn model(c: &mut Case, n_objs: usize) -> M {
    let n = *c.rng.pick(&[0, 1, 2, 3, 4, 5, 6]);
    let nh = if c.rng.chance(1, 8) { 0 } else { c.rng.us(0, 8) };
    let mut hard: Vec<Cl> = (0..nh).map(|_| clause(c, n)).collect();
    if !hard.is_empty() && c.rng.chance(1, 5) {
        let d = c.rng.pick(&hard).clone();
        hard.push(d);
    }
    let objs = (0..n_objs)
        .map(|_| {
            let k = if c.rng.chance(1, 6) { 0 } else { c.rng.us(0, 6) };
            let ws = weights(c, k);
            let mut v: Vec<(u64, Cl)> = ws.into_iter().map(|w| (w, clause(c, n))).collect();
            if v.len() >= 2 && c.rng.chance(1, 4) {
                v[1].1 = v[0].1.clone();
            }
            if v.len() >= 2 && c.rng.chance(1, 6) && v[0].1.len() == 1 {
                v[1].1 = vec![-v[0].1[0]];
            }
            v
        })
        .collect();
    M { n, hard, objs }
}

/// Layout choices for a text file
struct Lay {
    tabs: bool,
    wide: bool,
    crlf: bool,
    blanks: bool,
    comments: bool,
    lead: bool,
    trail: bool,
    final_nl: bool,
    plus: bool,
}
impl Lay {
    fn gen(c: &mut Case) -> Self {
        let plain = c.rng.chance(1, 3);
        let mut b = |n: u64| !plain && c.rng.chance(1, n);
        Lay { tabs: b(4), wide: b(4), crlf: b(5), blanks: b(3), comments: b(2), lead: b(5), trail: b(4), final_nl: !b(4), plus: b(8) }
    }
    fn sp(&self, c: &mut Case) -> String {
        let mut s = String::new();
        loop {
            s.push(if self.tabs && c.rng.bool() { '\t' } else { ' ' });
            if !self.wide || c.rng.chance(2, 3) {
                return s;
            }
        }
    }
}
struct Text<'a> {
    lay: Lay,
    out: String,
    mark: &'a str,
    comments: Vec<String>,
    lines: u64,
}
const CMT: &[&str] = &["", " a comment", "c", " p cnf 3 4", " 1 2 0", "\tx", " h 1 0", " ünïcödé ≥", " min: 1 x1;", " 0", " +1 x1 >= 1;", "#"];
impl<'a> Text<'a> {
    fn new(c: &mut Case, mark: &'a str) -> Self {
        Text { lay: Lay::gen(c), out: String::new(), mark, comments: vec![], lines: 0 }
    }
    fn nl(&mut self) {
        self.lines += 1;
        self.out.push_str(if self.lay.crlf { "\r\n" } else { "\n" });
    }
    fn filler(&mut self, c: &mut Case) {
        while self.lay.blanks && c.rng.chance(1, 4) {
            if c.rng.chance(1, 3) {
                self.out.push_str(" \t");
            }
            self.nl();
        }
        while self.lay.comments && c.rng.chance(1, 3) {
            let t = *c.rng.pick(CMT);
            self.out.push_str(self.mark);
            self.out.push_str(t);
            self.comments.push(format!("{}{t}", self.mark).trim().to_string());
            self.nl();
        }
    }
    /// a line of tokens separated by white-space
    fn line(&mut self, c: &mut Case, toks: &[String]) {
        self.filler(c);
        if self.lay.lead && c.rng.bool() {
            let s = self.lay.sp(c);
            self.out.push_str(&s);
        }
        for (i, t) in toks.iter().enumerate() {
            if i > 0 {
                let s = self.lay.sp(c);
                self.out.push_str(&s);
            }
            self.out.push_str(t);
        }
        if self.lay.trail && c.rng.bool() {
            let s = self.lay.sp(c);
            self.out.push_str(&s);
        }
        self.nl();
    }
    fn finish(mut self, c: &mut Case) -> (String, Vec<String>) {
        self.filler(c);
        if !self.lay.final_nl {
            while self.out.ends_with(['\n', '\r']) {
                self.out.pop();
            }
        }
        c.count("lines", self.lines);
        (self.out, self.comments)
    }
}

fn cl_toks(nm: &Names, cl: &[i32]) -> Vec<String> {
    let mut t: Vec<String> = cl.iter().map(|l| nm.dimacs(*l)).collect();
    t.push("0".into());
    t
}

fn sorted(mut v: Vec<Cl>) -> Vec<Cl> {
    for c in &mut v {
        c.sort_unstable();
    }
    v.sort();
    v
}

fn rd(s: &str) -> Cursor<Vec<u8>> {
    Cursor::new(s.as_bytes().to_vec())
}

fn e2f(what: &str, e: impl std::fmt::Display, text: &str) -> Fail {
    Fail { sig: format!("{what}:rejected"), msg: format!("{what}: valid content rejected: {e}\n--- text:\n{text:?}") }
}

/// Compares a parsed/kept CNF with the model
fn cmp_cnf(what: &str, cnf: &Cnf, nm: &Names, m: &M) -> Res {
    let got: Vec<Cl> = cnf.iter().map(|cl| nm.smalls(cl.iter())).collect::<Result<_, _>>()?;
    check_eq!(sorted(got), sorted(m.hard.clone()), format!("{what}:clauses"), "{what}: clauses");
    Ok(())
}

fn small_obj(o: &Objective, nm: &Names) -> Result<(Vec<(u64, Cl)>, i128), Fail> {
    use rustsat::types::WClsIter;
    fn drive<I: WClsIter>(i: I) -> Vec<(Clause, usize)> {
        i.into_iter().collect()
    }
    let v = drive(o.iter_soft_cls())
        .into_iter()
        .map(|(cl, w)| Ok((w as u64, nm.smalls(cl.iter())?)))
        .collect::<Result<Vec<_>, Fail>>()?;
    Ok((v, o.offset() as i128))
}

fn cmp_obj(what: &str, o: &Objective, nm: &Names, want: &[(u64, Cl)], n: usize, exact: bool) -> Res {
    let (got, off) = small_obj(o, nm)?;
    let mut delta = None;
    for bits in 0..1u64 << n {
        let a = obj_val(&got, bits) + off;
        let b = obj_val(want, bits);
        if exact {
            check!(a == b, format!("{what}:objective"), "{what}: assignment {bits:b} has value {a} instead of {b} ({got:?} + {off} vs {want:?})");
        } else {
            let d = a - b;
            check!(*delta.get_or_insert(d) == d, format!("{what}:objective"), "{what}: objective differs by more than a constant at {bits:b} ({got:?} + {off} vs {want:?})");
        }
    }
    Ok(())
}

fn vars_ok<VM: ManageVars>(what: &str, inst: &SatInstance<VM>, nm: &Names, used: &[&[i32]], declared: u32) -> Res {
    let n = inst.n_vars();
    check!(n >= declared, format!("{what}:n-vars"), "{what}: {n} variables, the file declares {declared}");
    for cl in used {
        for l in *cl {
            let v = nm.lit(*l).var();
            check!(inst.max_var().is_some_and(|m| m >= v), format!("{what}:max-var"), "{what}: variable {v} is not below the next free one ({:?})", inst.max_var());
        }
    }
    Ok(())
}

fn text_cnf(c: &mut Case, m: &M, nm: &Names) -> (String, Vec<String>, u32) {
    let decl = match m.n {
        0 => c.rng.below(4) as u32,
        _ => nm.max() + 1 + if c.rng.chance(1, 4) && nm.max() < 1 << 30 { c.rng.below(5) as u32 } else { 0 },
    };
    let mut t = Text::new(c, "c");
    let h = ["p".into(), "cnf".into(), decl.to_string(), m.hard.len().to_string()];
    t.line(c, &h);
    for cl in &m.hard {
        let toks = cl_toks(nm, cl);
        t.line(c, &toks);
    }
    let (s, cm) = t.finish(c);
    (s, cm, decl)
}

fn text_wcnf(c: &mut Case, m: &M, nm: &Names, old: bool) -> (String, Vec<String>, u32) {
    let mut t = Text::new(c, "c");
    let mut decl = 0;
    let mut top = 0;
    if old {
        decl = if m.n == 0 { 0 } else { nm.max() + 1 };
        let sum: u64 = m.objs[0].iter().map(|x| x.0).sum();
        top = sum + 1 + c.rng.below(3) as u64;
        let h = ["p".into(), "wcnf".into(), decl.to_string(), (m.hard.len() + m.objs[0].len()).to_string(), top.to_string()];
        t.line(c, &h);
    }
    let mut lines: Vec<Vec<String>> = vec![];
    for cl in &m.hard {
        let mut l = vec![if old { top.to_string() } else { "h".into() }];
        l.extend(cl_toks(nm, cl));
        lines.push(l);
    }
    for (w, cl) in &m.objs[0] {
        let mut l = vec![w.to_string()];
        l.extend(cl_toks(nm, cl));
        lines.push(l);
    }
    if c.rng.bool() {
        c.rng.shuffle(&mut lines);
    }
    for l in &lines {
        t.line(c, l);
    }
    let (s, cm) = t.finish(c);
    (s, cm, decl)
}

fn text_mcnf(c: &mut Case, m: &M, nm: &Names) -> (String, Vec<String>) {
    let mut t = Text::new(c, "c");
    let mut lines: Vec<Vec<String>> = vec![];
    for cl in &m.hard {
        let mut l = vec!["h".into()];
        l.extend(cl_toks(nm, cl));
        lines.push(l);
    }
    for (i, o) in m.objs.iter().enumerate() {
        for (w, cl) in o {
            let mut l = if c.rng.bool() { vec![format!("o{}", i + 1)] } else { vec!["o".into(), (i + 1).to_string()] };
            l.push(w.to_string());
            l.extend(cl_toks(nm, cl));
            lines.push(l);
        }
    }
    if c.rng.bool() {
        c.rng.shuffle(&mut lines);
    }
    for l in &lines {
        t.line(c, l);
    }
    t.finish(c)
}

const DMAX: u32 = i32::MAX as u32 - 2;

/// Reading texts with known meaning
fn c04_read(c: &mut Case) -> Res {
    let kind = c.rng.below(3);
    let nobj = [0, 1, c.rng.below(4)][kind];
    let mut m = model(c, nobj);
    let nm = Names::gen(c, m.n, DMAX);
    let n = m.n;
    match kind {
        0 => {
            let (s, cm, decl) = text_cnf(c, &m, &nm);
            c.log(format!("{s:?}"));
            let inst: SatInstance = c.run("SatInstance::from_dimacs", || SatInstance::from_dimacs(rd(&s)))?.map_err(|e| e2f("cnf", e, &s))?;
            cmp_cnf("cnf", inst.cnf(), &nm, &m)?;
            let used: Vec<&[i32]> = m.hard.iter().map(|x| &x[..]).collect();
            vars_ok("cnf", &inst, &nm, &used, decl)?;
            check_eq!(inst.n_clauses(), m.hard.len(), "cnf:n-clauses", "number of clauses");
            // low-level parser: header, comments and clauses in order
            let mut p = dimacs::Parser::<dimacs::CnfHeader, _>::new(rd(&s));
            let mut cms = vec![];
            let iterate = c.rng.bool();
            if iterate {
                while let Some(x) = c.run("cnf header iterator", || p.next())? {
                    cms.push(x.map_err(|e| e2f("cnf-header", e, &s))?.trim().to_string());
                }
            }
            let d = c.run("forward_to_body", || p.forward_to_body())?.map_err(|e| e2f("cnf-header", e, &s))?;
            check_eq!((d.n_vars, d.n_clauses), (decl, m.hard.len()), "cnf:header", "header data");
            let mut got = vec![];
            for x in d.body_parser {
                match x.map_err(|e| e2f("cnf-body", e, &s))? {
                    dimacs::CnfData::Clause(cl) => got.push(nm.smalls(cl.iter())?),
                    dimacs::CnfData::Comment(t) => cms.push(t.trim().to_string()),
                }
            }
            check_eq!(got, m.hard, "cnf-body:order", "clauses of the body parser");
            if iterate {
                check_eq!(cms, cm, "cnf:comments", "comments");
            }
            if !m.hard.is_empty() {
                c.nontrivial(&format!("cnf{s}"));
            }
        }
        1 => {
            let old = c.rng.bool();
            let (s, cm, decl) = text_wcnf(c, &m, &nm, old);
            c.log(format!("{s:?}"));
            let inst: OptInstance = c.run("OptInstance::from_dimacs", || OptInstance::from_dimacs(rd(&s)))?.map_err(|e| e2f("wcnf", e, &s))?;
            cmp_cnf("wcnf", inst.constraints_ref().cnf(), &nm, &m)?;
            cmp_obj("wcnf", inst.objective_ref(), &nm, &m.objs[0], n, true)?;
            let (sat, _) = c.run("decompose", || inst.decompose())?;
            let used: Vec<&[i32]> = m.hard.iter().map(|x| &x[..]).chain(m.objs[0].iter().map(|x| &x.1[..])).collect();
            vars_ok("wcnf", &sat, &nm, &used, decl)?;
            // low-level
            let mut p = dimacs::Parser::<dimacs::WcnfHeader, _>::new(rd(&s));
            let mut cms = vec![];
            let iterate = c.rng.bool();
            if iterate {
                while let Some(x) = c.run("wcnf header iterator", || p.next())? {
                    cms.push(x.map_err(|e| e2f("wcnf-header", e, &s))?.trim().to_string());
                }
            }
            let d = c.run("forward_to_body", || p.forward_to_body())?.map_err(|e| e2f("wcnf-header", e, &s))?;
            let data: Vec<dimacs::WcnfData> = match d {
                dimacs::WcnfHeaderData::Pre22 { n_vars, n_clauses, top, body_parser } => {
                    let sum: u64 = m.objs[0].iter().map(|x| x.0).sum();
                    check!(old && n_vars == decl && n_clauses == m.hard.len() + m.objs[0].len() && top as u64 > sum, "wcnf:header", "header {n_vars} {n_clauses} {top}");
                    body_parser.collect::<Result<_, _>>().map_err(|e| e2f("wcnf-body", e, &s))?
                }
                dimacs::WcnfHeaderData::Post22(p) => {
                    check!(!old, "wcnf:header", "old file recognised as new");
                    p.collect::<Result<_, _>>().map_err(|e| e2f("wcnf-body", e, &s))?
                }
                dimacs::WcnfHeaderData::Empty(_) => {
                    check!(!old && m.hard.is_empty() && m.objs[0].is_empty(), "wcnf:header", "file recognised as empty");
                    vec![]
                }
            };
            let (mut hs, mut ss) = (vec![], vec![]);
            for x in data {
                match x {
                    dimacs::WcnfData::HardClause(cl) => hs.push(nm.smalls(cl.iter())?),
                    dimacs::WcnfData::SoftClause { weight, clause } => ss.push((weight as u64, nm.smalls(clause.iter())?)),
                    dimacs::WcnfData::Comment(t) => cms.push(t.trim().to_string()),
                }
            }
            hs.sort();
            ss.sort();
            m.hard.sort();
            m.objs[0].sort();
            check_eq!(hs, m.hard, "wcnf-body:hard", "hard clauses of the body parser");
            check_eq!(ss, m.objs[0], "wcnf-body:soft", "soft clauses of the body parser");
            if iterate {
                check_eq!(cms, cm, "wcnf:comments", "comments");
            }
            if !m.hard.is_empty() && !m.objs[0].is_empty() {
                c.nontrivial(&format!("wcnf{s}"));
            }
        }
        _ => {
            let (s, cm) = text_mcnf(c, &m, &nm);
            c.log(format!("{s:?}"));
            let inst: MultiOptInstance = c.run("MultiOptInstance::from_dimacs", || MultiOptInstance::from_dimacs(rd(&s)))?.map_err(|e| e2f("mcnf", e, &s))?;
            cmp_cnf("mcnf", inst.constraints_ref().cnf(), &nm, &m)?;
            let n_obj = m.objs.iter().rposition(|o| !o.is_empty()).map_or(0, |p| p + 1);
            check_eq!(inst.n_objectives(), n_obj, "mcnf:n-objs", "number of objectives");
            for i in 0..n_obj {
                cmp_obj("mcnf", inst.objective_ref(i), &nm, &m.objs[i], n, true)?;
            }
            let (mut hs, mut ss, mut cms) = (vec![], vec![vec![]; m.objs.len()], vec![]);
            for x in dimacs::Parser::<dimacs::Mcnf, _>::new(rd(&s)) {
                match x.map_err(|e| e2f("mcnf-body", e, &s))? {
                    dimacs::McnfData::HardClause(cl) => hs.push(nm.smalls(cl.iter())?),
                    dimacs::McnfData::SoftClause { obj_idx, weight, clause } => {
                        check!((1..=m.objs.len()).contains(&obj_idx), "mcnf-body:obj-idx", "objective index {obj_idx}");
                        ss[obj_idx - 1].push((weight as u64, nm.smalls(clause.iter())?));
                    }
                    dimacs::McnfData::Comment(t) => cms.push(t.trim().to_string()),
                }
            }
            hs.sort();
            m.hard.sort();
            check_eq!(hs, m.hard, "mcnf-body:hard", "hard clauses of the parser");
            for (a, b) in ss.iter_mut().zip(&mut m.objs) {
                a.sort();
                b.sort();
                check_eq!(a, b, "mcnf-body:soft", "soft clauses of the parser");
            }
            check_eq!(cms, cm, "mcnf:comments", "comments");
            if m.objs.iter().filter(|o| !o.is_empty()).count() > 1 {
                c.nontrivial(&format!("mcnf{s}"));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- strict readers

fn sfail<T>(msg: String, text: &str) -> Result<T, Fail> {
    Err(Fail { sig: "written-file-illegal".into(), msg: format!("{msg}\n--- text:\n{text}") })
}

/// Strict reader of a written DIMACS file: comments, optional p line, clauses, one per line
fn strict_dimacs(text: &str, kind: usize) -> Result<(Option<(u64, u64)>, Vec<(String, u64, Vec<i64>)>, Vec<String>), Fail> {
    let mut head = None;
    let mut out = vec![];
    let mut cms = vec![];
    if !text.is_empty() && !text.ends_with('\n') {
        return sfail("no final line break".into(), text);
    }
    for line in text.lines() {
        if line.starts_with('c') {
            cms.push(line.to_string());
            continue;
        }
        let t: Vec<&str> = line.split(' ').collect();
        if t.iter().any(|x| x.is_empty()) {
            return sfail(format!("line {line:?} has empty tokens"), text);
        }
        if t[0] == "p" {
            if kind != 0 || head.is_some() || !out.is_empty() || t.len() != 4 || t[1] != "cnf" {
                return sfail(format!("unexpected header {line:?}"), text);
            }
            head = Some((t[2].parse().unwrap(), t[3].parse().unwrap()));
            continue;
        }
        let (tag, w, rest): (String, u64, &[&str]) = match (kind, t[0]) {
            (0, _) => ("h".into(), 0, &t[..]),
            (1 | 2, "h") => ("h".into(), 0, &t[1..]),
            (1, w) => (String::from("1"), w.parse().map_err(|_| Fail { sig: "written-file-illegal".into(), msg: format!("weight in {line:?}") })?, &t[1..]),
            (_, "o") => {
                if t.len() < 3 {
                    return sfail(format!("short line {line:?}"), text);
                }
                (t[1].into(), t[2].parse().map_err(|_| Fail { sig: "written-file-illegal".into(), msg: format!("weight in {line:?}") })?, &t[3..])
            }
            _ => return sfail(format!("line {line:?}"), text),
        };
        if rest.last() != Some(&"0") {
            return sfail(format!("line {line:?} does not end with 0"), text);
        }
        let mut cl = vec![];
        for x in &rest[..rest.len() - 1] {
            match x.parse::<i64>() {
                Ok(v) if v != 0 && (i64::from(i32::MIN)..=i64::from(i32::MAX)).contains(&v) => cl.push(v),
                _ => return sfail(format!("literal {x:?} in {line:?}"), text),
            }
        }
        out.push((tag, w, cl));
    }
    if kind == 0 && head.is_none() && !out.is_empty() {
        return sfail("no header".into(), text);
    }
    Ok((head, out, cms))
}

fn back(nm: &Names, cl: &[i64]) -> Result<Cl, Fail> {
    cl.iter().map(|v| nm.small(Lit::new((v.unsigned_abs() - 1) as u32, *v < 0))).collect()
}

pub fn sat_inst(c: &mut Case, m: &M, nm_: &dyn Fn(&[i32]) -> Clause) -> Result<SatInstance, Fail> {
    let mut inst: SatInstance = SatInstance::new();
    for cl in &m.hard {
        let cl2 = nm_(cl);
        c.run("add_clause", || inst.add_clause(cl2))?;
    }
    Ok(inst)
}

fn build_obj(c: &mut Case, o: &[(u64, Cl)], nm: &Names) -> Result<Objective, Fail> {
    let mut obj = Objective::new();
    for (w, cl) in o {
        let (w, cl) = (*w as usize, nm.clause(cl));
        let lit = cl.len() == 1 && c.rng.bool();
        let l = cl.iter().next().copied();
        c.run("increase_soft", || if lit { obj.increase_soft_lit(w, !l.unwrap()) } else { obj.increase_soft_clause(w, cl) })?;
    }
    if c.rng.chance(1, 4) && o.iter().map(|x| u128::from(x.0)).sum::<u128>() < 1 << 62 {
        let o = c.rng.range(-50, 50) as isize;
        c.run("increase_offset", || obj.increase_offset(o))?;
    }
    Ok(obj)
}

/// Writing instances; the written file is read by an independent strict reader and by the library
fn c04_write(c: &mut Case) -> Res {
    let kind = c.rng.below(3);
    let nobj = [0, 1, c.rng.below(4)][kind];
    let m = model(c, nobj);
    let nm = Names::gen(c, m.n, DMAX);
    c.log(format!("kind {kind} {m:?} names {:?}", nm.0));
    let sat = {
        let nm = nm.clone();
        sat_inst(c, &m, &move |cl| nm.clause(cl))?
    };
    let mut buf: Vec<u8> = vec![];
    let objs: Vec<Objective> = m.objs.iter().map(|o| build_obj(c, o, &nm)).collect::<Result<_, _>>()?;
    match kind {
        0 => {
            let direct = c.rng.chance(1, 4);
            c.run("write_dimacs", || if direct { sat.cnf().write_dimacs(&mut buf, sat.n_vars()).map_err(|e| e.to_string()) } else { sat.write_dimacs(&mut buf).map_err(|e| e.to_string()) })?
                .map_err(|e| e2f("write", e, ""))?;
        }
        1 => {
            let inst = c.run("compose", || OptInstance::compose(sat, objs[0].clone()))?;
            c.run("write_dimacs", || inst.write_dimacs(&mut buf))?.map_err(|e| e2f("write", e, ""))?;
        }
        _ => {
            let inst = c.run("compose", || MultiOptInstance::compose(sat, objs.clone()))?;
            c.run("write_dimacs", || inst.write_dimacs(&mut buf))?.map_err(|e| e2f("write", e, ""))?;
        }
    }
    let text = String::from_utf8(buf).map_err(|_| Fail { sig: "utf8".into(), msg: "written file is not UTF-8".into() })?;
    c.log(&text);
    let (head, cls, _) = strict_dimacs(&text, kind)?;
    let hard: Vec<Cl> = cls.iter().filter(|x| x.0 == "h").map(|x| back(&nm, &x.2)).collect::<Result<_, _>>()?;
    check_eq!(sorted(hard.clone()), sorted(m.hard.clone()), "written:clauses", "hard clauses in the written file");
    if kind == 0 {
        let Some((nv, nc)) = head else { fail!("written:header", "no header in the written file") };
        check_eq!(nc, m.hard.len() as u64, "written:header", "clause count in the header");
        let mx = cls.iter().flat_map(|x| &x.2).map(|l| l.unsigned_abs()).max().unwrap_or(0);
        check!(nv >= mx, "written:header", "header declares {nv} variables, {mx} is used");
    }
    for (i, o) in m.objs.iter().enumerate() {
        let soft: Vec<(u64, Cl)> = cls.iter().filter(|x| x.0 == (i + 1).to_string()).map(|x| Ok((x.1, back(&nm, &x.2)?))).collect::<Result<_, Fail>>()?;
        check!(soft.iter().all(|x| x.0 > 0), "written:zero-weight", "soft clause with weight 0 written");
        let mut d = None;
        for bits in 0..1u64 << m.n {
            let x = obj_val(&soft, bits) - obj_val(o, bits);
            check!(*d.get_or_insert(x) == x, "written:objective", "objective {i} in the written file differs at {bits:b}: {soft:?} vs {o:?}");
        }
    }
    // read back
    match kind {
        0 => {
            let inst: SatInstance = c.run("from_dimacs", || SatInstance::from_dimacs(rd(&text)))?.map_err(|e| e2f("reread", e, &text))?;
            cmp_cnf("reread", inst.cnf(), &nm, &m)?;
        }
        1 => {
            let inst: OptInstance = c.run("from_dimacs", || OptInstance::from_dimacs(rd(&text)))?.map_err(|e| e2f("reread", e, &text))?;
            cmp_cnf("reread", inst.constraints_ref().cnf(), &nm, &m)?;
            cmp_obj("reread", inst.objective_ref(), &nm, &m.objs[0], m.n, false)?;
        }
        _ => {
            let inst: MultiOptInstance = c.run("from_dimacs", || MultiOptInstance::from_dimacs(rd(&text)))?.map_err(|e| e2f("reread", e, &text))?;
            cmp_cnf("reread", inst.constraints_ref().cnf(), &nm, &m)?;
            check!(inst.n_objectives() <= m.objs.len(), "reread:n-objs", "{} objectives read back", inst.n_objectives());
            for (i, o) in m.objs.iter().enumerate() {
                if i < inst.n_objectives() {
                    cmp_obj("reread", inst.objective_ref(i), &nm, o, m.n, false)?;
                } else {
                    // only objectives without any (effective) soft clause may be missing
                    let v = obj_val(o, 0);
                    check!((0..1u64 << m.n).all(|b| obj_val(o, b) == v), "reread:lost-objective", "objective {i} lost");
                }
            }
        }
    }
    if !m.hard.is_empty() {
        c.nontrivial(&text);
    }
    Ok(())
}

/// Line-level writers
fn c04_lines(c: &mut Case) -> Res {
    let kind = c.rng.below(3);
    let nobj = [0, 1, 3][kind];
    let mut m = model(c, nobj);
    let nm = Names::gen(c, m.n, DMAX);
    c.log(format!("kind {kind} {m:?}"));
    let comments: Vec<String> = (0..c.rng.below(4)).map(|_| { let k = c.rng.us(1, 3); (0..k).map(|_| *c.rng.pick(CMT)).collect::<Vec<_>>().join(*c.rng.pick(&["\n", "\r\n", "\r", "\n\n"])) }).collect();
    #[derive(Clone)]
    enum L {
        C(String),
        H(Cl),
        S(usize, u64, Cl),
    }
    let mut lines: Vec<L> = m.hard.iter().cloned().map(L::H).collect();
    for (i, o) in m.objs.iter().enumerate() {
        lines.extend(o.iter().map(|(w, cl)| L::S(i, *w, cl.clone())));
    }
    lines.extend(comments.iter().cloned().map(L::C));
    c.rng.shuffle(&mut lines);
    let mut buf = vec![];
    let decl = if m.n == 0 { 0 } else { nm.max() + 1 };
    match kind {
        0 => {
            let mut v = vec![dimacs::CnfLine::Header(decl, m.hard.len())];
            if c.rng.bool() {
                v.insert(0, dimacs::CnfLine::Comment("first".into()));
            }
            v.extend(lines.into_iter().map(|l| match l {
                L::C(s) => dimacs::CnfLine::Comment(s),
                L::H(cl) | L::S(_, _, cl) => dimacs::CnfLine::Clause(nm.clause(&cl)),
            }));
            c.run("write_cnf", || dimacs::write_cnf(&mut buf, v.into_iter()))?.map_err(|e| e2f("write", e, ""))?;
        }
        1 => {
            let v: Vec<_> = lines
                .into_iter()
                .map(|l| match l {
                    L::C(s) => dimacs::WcnfLine::Comment(s),
                    L::H(cl) => dimacs::WcnfLine::Hard(nm.clause(&cl)),
                    L::S(_, w, cl) => dimacs::WcnfLine::Soft(nm.clause(&cl), w as usize),
                })
                .collect();
            c.run("write_wcnf", || dimacs::write_wcnf(&mut buf, v.into_iter()))?.map_err(|e| e2f("write", e, ""))?;
        }
        _ => {
            let v: Vec<_> = lines
                .into_iter()
                .map(|l| match l {
                    L::C(s) => dimacs::McnfLine::Comment(s),
                    L::H(cl) => dimacs::McnfLine::Hard(nm.clause(&cl)),
                    L::S(i, w, cl) => dimacs::McnfLine::Soft(nm.clause(&cl), w as usize, i),
                })
                .collect();
            c.run("write_mcnf", || dimacs::write_mcnf(&mut buf, v.into_iter()))?.map_err(|e| e2f("write", e, ""))?;
        }
    }
    let text = String::from_utf8(buf).unwrap();
    c.log(&text);
    let (_, cls, _) = strict_dimacs(&text, kind)?;
    let mut hard: Vec<Cl> = cls.iter().filter(|x| x.0 == "h").map(|x| back(&nm, &x.2)).collect::<Result<_, _>>()?;
    hard.sort();
    m.hard.sort();
    check_eq!(hard, m.hard, "lines:clauses", "clauses written line by line");
    for (i, o) in m.objs.iter_mut().enumerate() {
        let mut soft: Vec<(u64, Cl)> = cls.iter().filter(|x| x.0 == (i + 1).to_string()).map(|x| Ok((x.1, back(&nm, &x.2)?))).collect::<Result<_, Fail>>()?;
        soft.sort();
        o.sort();
        check_eq!(&soft, o, "lines:soft", "soft clauses written line by line");
    }
    // comments are kept
    let want: Vec<String> = comments.iter().flat_map(|s| s.split(['\n', '\r']).map(|x| x.trim().to_string())).filter(|x| !x.is_empty()).collect();
    for w in &want {
        check!(text.contains(w.as_str()), "lines:comment", "comment {w:?} lost");
    }
    match kind {
        0 => {
            let i: SatInstance = c.run("from_dimacs", || SatInstance::from_dimacs(rd(&text)))?.map_err(|e| e2f("lines-reread", e, &text))?;
            cmp_cnf("lines-reread", i.cnf(), &nm, &m)?;
        }
        1 => {
            let i: OptInstance = c.run("from_dimacs", || OptInstance::from_dimacs(rd(&text)))?.map_err(|e| e2f("lines-reread", e, &text))?;
            cmp_cnf("lines-reread", i.constraints_ref().cnf(), &nm, &m)?;
            cmp_obj("lines-reread", i.objective_ref(), &nm, &m.objs[0], m.n, true)?;
        }
        _ => {
            let i: MultiOptInstance = c.run("from_dimacs", || MultiOptInstance::from_dimacs(rd(&text)))?.map_err(|e| e2f("lines-reread", e, &text))?;
            cmp_cnf("lines-reread", i.constraints_ref().cnf(), &nm, &m)?;
            for k in 0..i.n_objectives() {
                cmp_obj("lines-reread", i.objective_ref(k), &nm, &m.objs[k], m.n, true)?;
            }
        }
    }
    c.nontrivial(&text);
    Ok(())
}

// ---------------------------------------------------------------- OPB

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Ge,
    Le,
    Gt,
    Lt,
    Eq,
}
#[derive(Clone, Debug)]
struct Lin {
    terms: Vec<(i128, i32)>,
    op: Op,
    rhs: i128,
}
fn sum_of(terms: &[(i128, i32)], bits: u64) -> i128 {
    terms.iter().filter(|(_, l)| lit_true(*l, bits)).map(|(w, _)| *w).sum()
}
fn lin_true(l: &Lin, bits: u64) -> bool {
    let s = sum_of(&l.terms, bits);
    match l.op {
        Op::Ge => s >= l.rhs,
        Op::Le => s <= l.rhs,
        Op::Gt => s > l.rhs,
        Op::Lt => s < l.rhs,
        Op::Eq => s == l.rhs,
    }
}
#[derive(Clone, Debug)]
struct Obj {
    max: bool,
    terms: Vec<(i128, i32)>,
}
fn oval(o: &Obj, bits: u64) -> i128 {
    let s = sum_of(&o.terms, bits);
    if o.max { -s } else { s }
}

fn lin_terms(c: &mut Case, n: usize) -> (Vec<(i128, i32)>, i128) {
    let k = if n == 0 || c.rng.chance(1, 12) { 0 } else { c.rng.us(1, 6) };
    let style = c.rng.below(8);
    let t: Vec<(i128, i32)> = (0..k)
        .map(|_| {
            let w: i128 = match style {
                0 => 1,
                1 => i128::from(c.rng.range(-1, 1)),
                2 => i128::from(c.rng.range(-(1 << 57), 1 << 57)),
                _ => i128::from(c.rng.range(-9, 9)),
            };
            (w, c.rng.lit(n))
        })
        .collect();
    let s: i128 = t.iter().map(|x| x.0.abs()).sum();
    (t, s)
}
fn lin(c: &mut Case, n: usize) -> Lin {
    let (terms, s) = lin_terms(c, n);
    let op = *c.rng.pick(&[Op::Ge, Op::Ge, Op::Le, Op::Gt, Op::Lt, Op::Eq, Op::Eq]);
    // often reachable
    let rhs = match c.rng.below(6) {
        0 => 0,
        1 => s,
        2 => -s,
        3 => i128::from(c.rng.range(-12, 12)),
        _ => {
            let b = c.rng.next() & ((1 << n) - 1);
            sum_of(&terms, b) + i128::from(c.rng.range(-1, 1))
        }
    };
    Lin { terms, op, rhs }
}

fn opts(c: &mut Case) -> opb::Options {
    opb::Options { first_var_idx: *c.rng.pick(&[0, 1, 1, 1, 2, 7, 1000]), no_negated_lits: c.rng.bool() }
}

fn otok(c: &mut Case, lay: &Lay, nm: &Names, o: opb::Options, w: i128, l: i32) -> String {
    let x = u64::from(nm.0[l.unsigned_abs() as usize - 1]) + u64::from(o.first_var_idx);
    let neg = if l < 0 { *c.rng.pick(&["~", "~", "~", "-"]) } else { "" };
    let plus = if w >= 0 && (lay.plus || c.rng.bool()) { "+" } else { "" };
    let sp = lay.sp(c);
    format!("{plus}{w}{sp}{neg}x{x}")
}

fn text_opb(c: &mut Case, nm: &Names, o: opb::Options, cons: &[Lin], objs: &[Obj]) -> (String, Vec<String>) {
    let mut t = Text::new(c, "*");
    if c.rng.chance(1, 2) {
        let s = format!("* #variable= {} #constraint= {}", nm.0.len(), cons.len());
        t.out.push_str(&s);
        t.comments.push(s);
        t.nl();
    }
    let semi_always = c.rng.bool();
    let multi = c.rng.chance(1, 6);
    let mut first = true;
    let mut emit = |c: &mut Case, t: &mut Text, s: String, semi: bool| {
        if multi && !first && semi_always && c.rng.bool() && !t.out.ends_with(['\n', '\r']) {
            t.out.push(' ');
        } else {
            if multi && !first && !t.out.ends_with('\n') {
                t.nl();
            }
            t.filler(c);
        }
        first = false;
        if t.lay.lead && c.rng.bool() {
            t.out.push(' ');
        }
        t.out.push_str(&s);
        if semi {
            t.out.push_str(*c.rng.pick(&[";", " ;"]));
        }
        if t.lay.trail && c.rng.bool() {
            t.out.push(' ');
        }
        if !(multi && semi_always) {
            t.nl();
        }
    };
    for ob in objs {
        let mut s = String::from(if ob.max { "max:" } else { "min:" });
        for (w, l) in &ob.terms {
            s.push_str(&t.lay.sp(c));
            s.push_str(&otok(c, &t.lay, nm, o, *w, *l));
        }
        let semi = semi_always || c.rng.bool();
        emit(c, &mut t, s, semi);
    }
    for co in cons {
        let mut s = String::new();
        for (w, l) in &co.terms {
            s.push_str(&otok(c, &t.lay, nm, o, *w, *l));
            s.push_str(&t.lay.sp(c));
        }
        s.push_str(match co.op {
            Op::Ge => ">=",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Lt => "<",
            Op::Eq => "=",
        });
        if c.rng.chance(4, 5) {
            s.push_str(&t.lay.sp(c));
        }
        if co.rhs >= 0 && (t.lay.plus || c.rng.chance(1, 4)) {
            s.push('+');
        }
        s.push_str(&co.rhs.to_string());
        let semi = semi_always || c.rng.bool();
        emit(c, &mut t, s, semi);
    }
    if multi && !t.out.is_empty() && !t.out.ends_with('\n') {
        t.nl();
    }
    t.finish(c)
}

fn pb_true(pb: &PbConstraint, nm: &Names, bits: u64) -> Result<bool, Fail> {
    let mut s: i128 = 0;
    for (l, w) in pb.iter() {
        if lit_true(nm.small(*l)?, bits) {
            s += *w as i128;
        }
    }
    let b = pb.bound() as i128;
    Ok(match pb {
        PbConstraint::Ub(_) => s <= b,
        PbConstraint::Lb(_) => s >= b,
        PbConstraint::Eq(_) => s == b,
    })
}

fn cmp_lins(what: &str, pbs: &[PbConstraint], nm: &Names, n: usize, want: &dyn Fn(u64) -> bool) -> Res {
    for bits in 0..1u64 << n {
        let mut v = true;
        for p in pbs {
            v &= pb_true(p, nm, bits)?;
        }
        check!(v == want(bits), format!("{what}:constraints"), "{what}: assignment {bits:b} satisfies the constraints: {v}, should be {} ({pbs:?})", want(bits));
    }
    Ok(())
}

fn oobj(o: &Objective, nm: &Names) -> Result<Obj, Fail> {
    let (s, off) = small_obj(o, nm)?;
    check!(s.iter().all(|x| x.1.len() == 1), "opb:soft-clauses", "soft clauses in OPB objective");
    let _ = off;
    Ok(Obj { max: false, terms: s.iter().map(|(w, cl)| (i128::from(*w), -cl[0])).collect() })
}

fn c05_read(c: &mut Case) -> Res {
    let n = c.rng.us(0, 6);
    let o = opts(c);
    let nm = Names::gen(c, n, DMAX - 2000);
    let cons: Vec<Lin> = (0..c.rng.us(0, 6)).map(|_| lin(c, n)).collect();
    let nobj = *c.rng.pick(&[0, 1, 1, 2, 3]);
    let objs: Vec<Obj> = (0..nobj).map(|_| Obj { max: c.rng.chance(1, 3), terms: lin_terms(c, n).0 }).collect();
    let (s, cm) = text_opb(c, &nm, o, &cons, &objs);
    c.log(format!("{s:?} {o:?}"));
    let want = |bits: u64| cons.iter().all(|l| lin_true(l, bits));
    // low-level: every statement, in order
    let (mut k, mut ko, mut cms) = (0, 0, vec![]);
    for d in opb::Parser::new(rd(&s), o) {
        match d.map_err(|e| e2f("opb", e, &s))? {
            opb::Data::Cmt(x) => cms.push(x.trim().to_string()),
            opb::Data::Constr(p) => {
                check!(k < cons.len(), "opb:extra", "additional constraint {p:?}");
                cmp_lins("opb-line", std::slice::from_ref(&p), &nm, n, &|b| lin_true(&cons[k], b))?;
                k += 1;
            }
            opb::Data::Obj(ob) => {
                check!(ko < objs.len(), "opb:extra", "additional objective {ob:?}");
                check_eq!(ob.sense == opb::ObjectiveSense::Maximize, objs[ko].max, "opb:sense", "objective sense");
                for bits in 0..1u64 << n {
                    let mut v = ob.offset as i128;
                    for (w, l) in &ob.terms {
                        if lit_true(nm.small(*l)?, bits) {
                            v += *w as i128;
                        }
                    }
                    check_eq!(v, sum_of(&objs[ko].terms, bits), "opb-line:objective", "objective value at {bits:b}");
                }
                ko += 1;
            }
        }
    }
    check_eq!((k, ko), (cons.len(), objs.len()), "opb:missing", "number of constraints and objectives");
    check_eq!(cms, cm, "opb:comments", "comments");
    // decision
    let r = c.run("SatInstance::from_opb", || SatInstance::<BasicVarManager>::from_opb(rd(&s), o))?;
    if objs.is_empty() {
        let inst = r.map_err(|e| e2f("opb-sat", e, &s))?;
        check_eq!(inst.n_constraints(), cons.len(), "opb-sat:n", "number of constraints");
        let (pbs, _) = c.run("into_pbs", || inst.into_pbs())?;
        cmp_lins("opb-sat", &pbs, &nm, n, &want)?;
    } else {
        check!(r.is_err(), "opb-sat:objective", "decision instance read from a file with objective");
    }
    // single objective
    let r = c.run("OptInstance::from_opb", || OptInstance::<BasicVarManager>::from_opb(rd(&s), o))?;
    if objs.len() == 1 {
        let inst = r.map_err(|e| e2f("opb-opt", e, &s))?;
        let (sat, ob) = c.run("decompose", || inst.decompose())?;
        cmp_oobj("opb-opt", &ob, &nm, &objs[0], n)?;
        let used: Vec<Cl> = vec![cons.iter().flat_map(|l| &l.terms).chain(&objs[0].terms).map(|t| t.1).collect()];
        let cons_used: Vec<Cl> = vec![cons.iter().flat_map(|l| &l.terms).map(|t| t.1).collect()];
        let _ = used;
        vars_ok("opb-opt", &sat, &nm, &[&cons_used[0][..]], 0)?;
        let (pbs, _) = c.run("into_pbs", || sat.into_pbs())?;
        cmp_lins("opb-opt", &pbs, &nm, n, &want)?;
    } else {
        check!(r.is_err(), "opb-opt:objectives", "single-objective instance read from a file with {} objectives", objs.len());
    }
    let inst = c.run("MultiOptInstance::from_opb", || MultiOptInstance::<BasicVarManager>::from_opb(rd(&s), o))?.map_err(|e| e2f("opb-multi", e, &s))?;
    check_eq!(inst.n_objectives(), objs.len(), "opb-multi:n-objs", "number of objectives");
    for (i, ob) in objs.iter().enumerate() {
        cmp_oobj("opb-multi", inst.objective_ref(i), &nm, ob, n)?;
    }
    let (sat, _) = c.run("decompose", || inst.decompose())?;
    let (pbs, _) = c.run("into_pbs", || sat.into_pbs())?;
    cmp_lins("opb-multi", &pbs, &nm, n, &want)?;
    if !cons.is_empty() {
        c.nontrivial(&s);
    }
    Ok(())
}

/// objective value including the offset equals the stated one
fn cmp_oobj(what: &str, ob: &Objective, nm: &Names, want: &Obj, n: usize) -> Res {
    let o = oobj(ob, nm)?;
    for bits in 0..1u64 << n {
        let v = oval(&o, bits) + ob.offset() as i128;
        check!(v == oval(want, bits), format!("{what}:objective"), "{what}: objective value {v} at {bits:b}, should be {} ({ob:?})", oval(want, bits));
    }
    Ok(())
}

/// Strict reader of written OPB files (only `>=` and `=`, explicit coefficients, `;`)
fn strict_opb(text: &str, nm: &Names, o: opb::Options) -> Result<(Vec<Lin>, Vec<Obj>, Vec<String>), Fail> {
    let (mut cons, mut objs, mut cms) = (vec![], vec![], vec![]);
    if !text.is_empty() && !text.ends_with('\n') {
        return sfail("no final line break".into(), text);
    }
    for line in text.lines() {
        if line.starts_with('*') {
            cms.push(line.to_string());
            continue;
        }
        let Some(body) = line.trim_end().strip_suffix(';') else { return sfail(format!("line {line:?} not terminated"), text) };
        let term = |t: &[&str]| -> Result<Vec<(i128, i32)>, Fail> {
            if t.len() % 2 != 0 {
                return sfail(format!("odd number of tokens in {line:?}"), text);
            }
            t.chunks(2)
                .map(|p| {
                    let Ok(w) = p[0].parse::<i128>() else { return sfail(format!("coefficient {:?}", p[0]), text) };
                    let (neg, x) = p[1].strip_prefix('~').map_or((false, p[1]), |x| (true, x));
                    if neg && o.no_negated_lits {
                        return sfail(format!("negated literal in {line:?}"), text);
                    }
                    let Some(x) = x.strip_prefix('x').and_then(|x| x.parse::<u64>().ok()) else { return sfail(format!("variable {:?}", p[1]), text) };
                    let Some(x) = x.checked_sub(u64::from(o.first_var_idx)) else { return sfail(format!("variable index {x}"), text) };
                    Ok((w, nm.small(Lit::new(x as u32, neg))?))
                })
                .collect()
        };
        let toks: Vec<&str> = body.split_whitespace().collect();
        if toks.first() == Some(&"min:") {
            if !cons.is_empty() {
                return sfail("objective after constraints".into(), text);
            }
            objs.push(Obj { max: false, terms: term(&toks[1..])? });
            continue;
        }
        if toks.len() < 2 {
            return sfail(format!("line {line:?}"), text);
        }
        let k = toks.len() - 2;
        let op = match toks[k] {
            ">=" => Op::Ge,
            "=" => Op::Eq,
            "<=" => Op::Le,
            _ => return sfail(format!("operator in {line:?}"), text),
        };
        let Ok(rhs) = toks[k + 1].parse::<i128>() else { return sfail(format!("bound in {line:?}"), text) };
        cons.push(Lin { terms: term(&toks[..k])?, op, rhs });
    }
    Ok((cons, objs, cms))
}

enum Con {
    Cl(Cl),
    Card(CardConstraint),
    Pb(PbConstraint),
}
impl Con {
    fn holds(&self, nm: &Names, bits: u64) -> Result<bool, Fail> {
        Ok(match self {
            Con::Cl(cl) => clause_true(cl, bits),
            Con::Card(cc) => {
                let mut s = 0usize;
                for l in cc.iter() {
                    s += usize::from(lit_true(nm.small(*l)?, bits));
                }
                match cc {
                    CardConstraint::Ub(_) => s <= cc.bound(),
                    CardConstraint::Lb(_) => s >= cc.bound(),
                    CardConstraint::Eq(_) => s == cc.bound(),
                }
            }
            Con::Pb(p) => pb_true(p, nm, bits)?,
        })
    }
}

fn con(c: &mut Case, n: usize, nm: &Names) -> Result<Con, Fail> {
    Ok(match c.rng.below(3) {
        0 => Con::Cl(clause(c, n)),
        1 => {
            let cl = clause(c, n);
            let b = c.rng.us(0, cl.len() + 1);
            let lits: Vec<Lit> = cl.iter().map(|l| nm.lit(*l)).collect();
            let k = c.rng.below(3);
            Con::Card(c.run("CardConstraint::new", || match k {
                0 => CardConstraint::new_ub(lits, b),
                1 => CardConstraint::new_lb(lits, b),
                _ => CardConstraint::new_eq(lits, b),
            })?)
        }
        _ => {
            let l = lin(c, n);
            let lits: Vec<(Lit, isize)> = l.terms.iter().map(|(w, x)| (nm.lit(*x), *w as isize)).collect();
            let b = l.rhs as isize;
            let k = c.rng.below(3);
            Con::Pb(c.run("PbConstraint::new", || match k {
                0 => PbConstraint::new_ub(lits, b),
                1 => PbConstraint::new_lb(lits, b),
                _ => PbConstraint::new_eq(lits, b),
            })?)
        }
    })
}

fn c05_write(c: &mut Case) -> Res {
    let n = c.rng.us(0, 6);
    let o = opts(c);
    let nm = Names::gen(c, n, DMAX - 2000);
    let cons: Vec<Con> = (0..c.rng.us(0, 6)).map(|_| con(c, n, &nm)).collect::<Result<_, _>>()?;
    let mode = c.rng.below(4); // sat, opt, multi, lines
    let nobj = [0, 1, c.rng.below(4), c.rng.below(3)][mode];
    let objs: Vec<Vec<(u64, i32)>> = (0..nobj)
        .map(|_| {
            let k = if n == 0 { 0 } else { c.rng.below(6) };
            let ws = weights(c, k);
            ws.into_iter().map(|w| (w, c.rng.lit(n))).collect()
        })
        .collect();
    let mut buf: Vec<u8> = vec![];
    let mut order: Vec<usize> = (0..cons.len()).collect();
    if mode == 3 {
        // line writer keeps the order given
        let mut v: Vec<opb::FileLine<Vec<(Lit, usize)>>> = vec![];
        let with_cmt = c.rng.bool();
        for ob in &objs {
            v.push(opb::FileLine::Objective(ob.iter().map(|(w, l)| (nm.lit(*l), *w as usize)).collect()));
        }
        c.rng.shuffle(&mut order);
        for i in &order {
            if with_cmt && c.rng.bool() {
                let t = format!("{}\n{}", c.rng.pick(CMT), c.rng.pick(CMT));
                v.push(opb::FileLine::Comment(t));
            }
            v.push(match &cons[*i] {
                Con::Cl(cl) => opb::FileLine::Clause(nm.clause(cl)),
                Con::Card(x) => opb::FileLine::Card(x.clone()),
                Con::Pb(x) => opb::FileLine::Pb(x.clone()),
            });
        }
        c.run("write_opb_lines", || opb::write_opb_lines(&mut buf, v.into_iter(), o))?.map_err(|e| e2f("write", e, ""))?;
    } else {
        let mut inst: SatInstance = SatInstance::new();
        for x in &cons {
            c.run("add", || match x {
                Con::Cl(cl) => inst.add_clause(nm.clause(cl)),
                Con::Card(x) => inst.add_card_constr(x.clone()),
                Con::Pb(x) => inst.add_pb_constr(x.clone()),
            })?;
        }
        let mut obs = vec![];
        for ob in &objs {
            let mut x = Objective::new();
            for (w, l) in ob {
                c.run("increase_soft_lit", || x.increase_soft_lit(*w as usize, nm.lit(*l)))?;
            }
            if c.rng.chance(1, 3) && ob.iter().map(|x| u128::from(x.0)).sum::<u128>() < 1 << 62 {
                let d = c.rng.range(-9, 9) as isize;
                c.run("increase_offset", || x.increase_offset(d))?;
            }
            obs.push(x);
        }
        match mode {
            0 => c.run("write_opb", || inst.write_opb(&mut buf, o).map_err(|e| e.to_string()))?,
            1 => {
                let i = OptInstance::compose(inst, obs[0].clone());
                c.run("write_opb", || i.write_opb(&mut buf, o).map_err(|e| e.to_string()))?
            }
            _ => {
                let i = MultiOptInstance::compose(inst, obs);
                c.run("write_opb", || i.write_opb(&mut buf, o).map_err(|e| e.to_string()))?
            }
        }
        .map_err(|e| e2f("write", e, ""))?;
    }
    let text = String::from_utf8(buf).map_err(|_| Fail { sig: "utf8".into(), msg: "not UTF-8".into() })?;
    c.log(format!("mode {mode} {o:?}\n{text}"));
    let mut truth = vec![];
    for b in 0..1u64 << n {
        let mut v = true;
        for x in &cons {
            v &= x.holds(&nm, b)?;
        }
        truth.push(v);
    }
    let (ls, os, cms) = strict_opb(&text, &nm, o)?;
    check_eq!((ls.len(), os.len()), (cons.len(), objs.len()), "opb-written:n", "number of constraints and objectives in the written file");
    if mode == 3 {
        for (l, i) in ls.iter().zip(&order) {
            for b in 0..1u64 << n {
                check!(lin_true(l, b) == cons[*i].holds(&nm, b)?, "opb-written:line", "written line {l:?} at {b:b}");
            }
        }
    } else {
        let h = cms.first().cloned().unwrap_or_default();
        check!(h.ends_with(&format!("#constraint= {}", ls.len())), "opb-written:header", "header {h:?} with {} constraints", ls.len());
        check!(h.starts_with("* #variable= "), "opb-written:header-form", "first line {h:?} is not a legal OPB header");
    }
    for (b, t) in truth.iter().enumerate() {
        check!(ls.iter().all(|l| lin_true(l, b as u64)) == *t, "opb-written:constraints", "written constraints at {b:b} should be {t}");
    }
    for (i, ob) in objs.iter().enumerate() {
        let mut d = None;
        for b in 0..1u64 << n {
            let w: i128 = ob.iter().filter(|(_, l)| lit_true(*l, b)).map(|(w, _)| i128::from(*w)).sum();
            let x = sum_of(&os[i].terms, b) - w;
            check!(*d.get_or_insert(x) == x, "opb-written:objective", "written objective {i} differs at {b:b}");
        }
    }
    // read back
    let want = |b: u64| truth[b as usize];
    let inst = c.run("MultiOptInstance::from_opb", || MultiOptInstance::<BasicVarManager>::from_opb(rd(&text), o))?.map_err(|e| e2f("opb-reread", e, &text))?;
    check_eq!(inst.n_objectives(), objs.len(), "opb-reread:n-objs", "objectives read back");
    for (i, ob) in objs.iter().enumerate() {
        let got = oobj(inst.objective_ref(i), &nm)?;
        let mut d = None;
        for b in 0..1u64 << n {
            let w: i128 = ob.iter().filter(|(_, l)| lit_true(*l, b)).map(|(w, _)| i128::from(*w)).sum();
            let x = oval(&got, b) - w;
            check!(*d.get_or_insert(x) == x, "opb-reread:objective", "objective {i} differs at {b:b}");
        }
    }
    let (sat, _) = inst.decompose();
    let (pbs, _) = c.run("into_pbs", || sat.into_pbs())?;
    cmp_lins("opb-reread", &pbs, &nm, n, &want)?;
    if !cons.is_empty() {
        c.nontrivial(&text);
    }
    Ok(())
}

// ---------------------------------------------------------------- hostile input (C06)

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
enum Cls {
    Strict,
    Bad,
    Between,
}

fn is_int(s: &str) -> bool {
    let t = s.strip_prefix(['+', '-']).unwrap_or(s);
    !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit())
}
fn strict_int(s: &str) -> bool {
    let t = s.strip_prefix('-').unwrap_or(s);
    is_int(s) && !s.starts_with('+') && (t == "0" || !t.starts_with('0')) && s != "-0"
}

/// Classifies the literal tokens of a clause line
fn cl_tokens(t: &[&str], out: &mut Cl) -> Cls {
    let mut c = Cls::Strict;
    for (i, x) in t.iter().enumerate() {
        if !is_int(x) {
            return Cls::Bad;
        }
        match x.parse::<i64>() {
            Ok(v) if v.unsigned_abs() <= i32::MAX as u64 => {
                if v == 0 {
                    if i + 1 != t.len() {
                        // nothing may be dropped, but what follows could be read as another clause
                        c = Cls::Between;
                    }
                } else {
                    out.push(v as i32);
                }
                if !strict_int(x) {
                    c = if c == Cls::Bad { c } else { Cls::Between };
                }
            }
            _ => return Cls::Bad,
        }
    }
    if t.last() != Some(&"0") {
        c = Cls::Between;
    }
    c
}

/// Reference recogniser for DIMACS texts; the meaning is given for strictly valid files only
fn recognise(text: &str, kind: usize) -> (Cls, M) {
    let mut m = M::default();
    let mut cls = Cls::Strict;
    let worse = |c: &mut Cls, n: Cls| {
        if n == Cls::Bad || *c == Cls::Strict {
            *c = n;
        }
    };
    let mut head: Option<Option<u64>> = None; // Some(None): new WCNF, Some(Some(top)): old
    if kind == 1 {
        m.objs.push(vec![]);
    }
    for line in text.split('\n') {
        let odd = line.trim();
        if line.trim_matches([' ', '\t', '\r']).chars().any(|c| c.is_whitespace() && c != ' ' && c != '\t') {
            worse(&mut cls, Cls::Between);
        }
        if odd.starts_with('c') {
            if odd.contains('\r') {
                worse(&mut cls, Cls::Between);
            }
            continue;
        }
        let t: Vec<&str> = odd.split_whitespace().collect();
        if t.is_empty() {
            continue;
        }
        let mut cl = vec![];
        if t[0] == "p" {
            let want = ["cnf", "wcnf", ""][kind];
            let k = [4, 5, 0][kind];
            if kind == 2 || head.is_some() || t.len() != k || t[1] != want || !t[2..].iter().all(|x| is_int(x)) {
                return (Cls::Bad, m);
            }
            if !t[2..].iter().all(|x| strict_int(x) && x.parse::<u64>().is_ok_and(|v| v < 1 << 31)) {
                worse(&mut cls, Cls::Between);
            }
            head = Some(Some(t.last().unwrap().parse().unwrap_or(0)));
            continue;
        }
        match kind {
            0 => {
                if head.is_none() {
                    return (Cls::Bad, m);
                }
                let r = cl_tokens(&t, &mut cl);
                worse(&mut cls, r);
                m.hard.push(cl);
            }
            1 => {
                let head = *head.get_or_insert(None);
                if t[0] == "h" {
                    if head.is_some() {
                        return (Cls::Bad, m);
                    }
                    let r = cl_tokens(&t[1..], &mut cl);
                    worse(&mut cls, r);
                    m.hard.push(cl);
                } else {
                    if !is_int(t[0]) || t[0].starts_with('-') {
                        return (Cls::Bad, m);
                    }
                    let Ok(w) = t[0].parse::<u64>() else { return (Cls::Bad, m) };
                    if !strict_int(t[0]) || w == 0 || w >= 1 << 50 || t.len() == 1 {
                        worse(&mut cls, Cls::Between);
                    }
                    let r = cl_tokens(&t[1..], &mut cl);
                    worse(&mut cls, r);
                    match head {
                        Some(top) if w == top => m.hard.push(cl),
                        Some(top) if w > top => worse(&mut cls, Cls::Between),
                        _ => m.objs[0].push((w, cl)),
                    }
                }
            }
            _ => {
                if t[0] == "h" {
                    let r = cl_tokens(&t[1..], &mut cl);
                    worse(&mut cls, r);
                    m.hard.push(cl);
                } else if let Some(r) = t[0].strip_prefix('o') {
                    let mut v: Vec<&str> = if r.is_empty() { vec![] } else { vec![r] };
                    v.extend(&t[1..]);
                    if v.len() < 2 || !is_int(v[0]) || !is_int(v[1]) || v[1].starts_with('-') || v[0].starts_with('-') || v[0].parse::<u64>() == Ok(0) {
                        return (Cls::Bad, m);
                    }
                    if !strict_int(v[0]) || !strict_int(v[1]) || v.len() == 2 {
                        worse(&mut cls, Cls::Between);
                    }
                    let (Ok(i), Ok(w)) = (v[0].parse::<u64>(), v[1].parse::<u64>()) else { return (Cls::Bad, m) };
                    let r = cl_tokens(&v[2..], &mut cl);
                    worse(&mut cls, r);
                    if w == 0 || w >= 1 << 50 || i > 1000 {
                        worse(&mut cls, Cls::Between);
                    } else {
                        if m.objs.len() < i as usize {
                            m.objs.resize(i as usize, vec![]);
                        }
                        m.objs[i as usize - 1].push((w, cl));
                    }
                } else {
                    return (Cls::Bad, m);
                }
            }
        }
    }
    if kind == 0 && head.is_none() {
        return (Cls::Bad, m);
    }
    (cls, m)
}

/// Longest run of digits in the text, as far as it names an index to allocate for
fn runs_ok(b: &[u8], lo: usize, hi: usize) -> bool {
    let mut r = 0;
    for x in b.iter().chain(b" ") {
        if x.is_ascii_digit() {
            r += 1;
        } else {
            if (lo..=hi).contains(&r) {
                return false;
            }
            r = 0;
        }
    }
    true
}

const TOK: &[&str] = &[
    "0", "1", "-1", "2147483647", "-2147483648", "2147483648", "-2147483647", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808",
    "-9223372036854775808", "-9223372036854775809", "99999999999999999999999999", "p", "cnf", "wcnf", "h", "o", "o1", "o0", "c", "*", "min:", "max:", ">=", "<=", "=", "<", ">", ";", "x1", "~x1", "x0", "-x2", "x4294967295",
    "x4294967296", "x2147483647", "x2147483648", "+", "-", "~", "+1", "-0", "00", "01", "s", "v", "SATISFIABLE", "UNSATISFIABLE", "UNKNOWN", "\u{a0}", "é", "\0", "1.5", "1e3", "0x10", "--1", "p cnf 1 1", "t", "#",
];

fn mutate(c: &mut Case, b: &mut Vec<u8>) {
    for _ in 0..c.rng.us(1, 4) {
        let n = b.len();
        let p = c.rng.below(n + 1);
        match c.rng.below(12) {
            0 if n > 0 => {
                let q = p.min(n - 1);
                b[q] = c.rng.below(256) as u8;
            }
            1 if n > 0 => {
                b.remove(p.min(n - 1));
            }
            2 => b.insert(p, *c.rng.pick(b" \n\t\r0123456789-+;~xcphosv*<>=:\0\xff\x80")),
            3 => b.truncate(p),
            4 => {
                let t = c.rng.pick(TOK).as_bytes().to_vec();
                b.splice(p..p, t);
            }
            5 if n > 0 => {
                let q = (p + c.rng.us(1, 12)).min(n);
                b.drain(p.min(q)..q);
            }
            6 if n > 0 => {
                let q = (p + c.rng.us(1, 20)).min(n);
                let s = b[p.min(q)..q].to_vec();
                let r = c.rng.below(n + 1);
                b.splice(r..r, s);
            }
            7 | 8 | 9 => {
                // replace a token
                let ws: Vec<usize> = (0..n).filter(|i| !b[*i].is_ascii_whitespace() && (*i == 0 || b[*i - 1].is_ascii_whitespace())).collect();
                if !ws.is_empty() {
                    let s = *c.rng.pick(&ws);
                    let e = (s..n).find(|i| b[*i].is_ascii_whitespace()).unwrap_or(n);
                    let t = c.rng.pick(TOK).as_bytes().to_vec();
                    b.splice(s..e, t);
                }
            }
            10 if n > 0 => {
                // swap line breaks and blanks
                let q = p.min(n - 1);
                if b[q] == b'\n' {
                    b[q] = b' ';
                } else if b[q] == b' ' {
                    b[q] = b'\n';
                }
            }
            _ => {
                if let Some(q) = (0..n).filter(|i| b[*i] == b'0').last() {
                    b.remove(q);
                }
            }
        }
    }
}

/// Drains an iterator of parser results, which has to end within a bounded number of calls even
/// when it is used on after errors
fn drain<T, E>(c: &mut Case, what: &str, mut it: impl Iterator<Item = Result<T, E>>, bound: usize) -> Result<bool, Fail> {
    let mut ok = true;
    for _ in 0..bound {
        match c.run(what, || it.next().map(|x| x.is_ok()))? {
            None => return Ok(ok),
            Some(x) => ok &= x,
        }
    }
    fail!(format!("{what}:endless"), "{what} yields more than {bound} items");
}

fn c06_dimacs(c: &mut Case) -> Res {
    let kind = c.rng.below(3);
    let nobj = [0, 1, c.rng.below(4)][kind];
    let m = model(c, nobj);
    let nm = Names::id(m.n);
    let text = match kind {
        0 => text_cnf(c, &m, &nm).0,
        1 => {
            let old = c.rng.bool();
            text_wcnf(c, &m, &nm, old).0
        }
        _ => text_mcnf(c, &m, &nm).0,
    };
    let mut b = text.into_bytes();
    if c.rng.chance(1, 30) {
        b = (0..c.rng.below(60)).map(|_| c.rng.below(256) as u8).collect();
    } else if c.rng.chance(1, 15) {
        b = (0..c.rng.below(12)).map(|_| *c.rng.pick(TOK)).collect::<Vec<_>>().join(*c.rng.pick(&[" ", "\n"])).into_bytes();
    } else {
        mutate(c, &mut b);
    }
    if kind == 2 && !runs_ok(&b, 6, 11) {
        return Ok(());
    }
    c.log(format!("kind {kind} {:?}", String::from_utf8_lossy(&b)));
    let lines = b.iter().filter(|x| **x == b'\n').count() + 3;
    let s = String::from_utf8(b.clone()).ok();
    let (cls, want) = match &s {
        Some(s) => recognise(s, kind),
        None => (Cls::Bad, M::default()),
    };
    c.count(match cls { Cls::Strict => "strictly valid", Cls::Bad => "invalid", Cls::Between => "lenient" }, 1);
    let verdict = |err: Option<String>| -> Res {
        match (cls, err) {
            (Cls::Bad, None) => fail!(format!("dimacs{kind}:accepted"), "invalid file accepted"),
            (Cls::Strict, Some(e)) => fail!(format!("dimacs{kind}:rejected"), "valid file rejected: {e}"),
            _ => Ok(()),
        }
    };
    let low;
    // all variables as they are
    let bn = |cl: &Clause| -> Cl { cl.iter().map(|l| l.to_ipasir()).collect() };
    match kind {
        0 => {
            let r = c.run("SatInstance::from_dimacs", || SatInstance::<BasicVarManager>::from_dimacs(Cursor::new(&b)).map_err(|e| e.to_string()))?;
            verdict(r.as_ref().err().cloned())?;
            if let (Ok(i), Cls::Strict) = (&r, cls) {
                let got: Vec<Cl> = i.cnf().iter().map(bn).collect();
                check_eq!(sorted(got), sorted(want.hard), "dimacs0:meaning", "clauses");
            }
            let mut p = dimacs::Parser::<dimacs::CnfHeader, _>::new(Cursor::new(&b));
            let h = !c.rng.bool() || drain(c, "cnf header iterator", &mut p, lines)?;
            let body = match c.run("forward_to_body", || p.forward_to_body())? {
                Ok(d) => drain(c, "cnf body iterator", d.body_parser, lines)?,
                Err(_) => false,
            };
            low = h && body;
            // an instance is only returned if every part of the file could be parsed (the header
            // iterator is stricter about stray carriage returns in comments)
            check!(r.is_err() || body || !h, "dimacs0:dropped", "instance returned although the parser reports an error");
        }
        1 => {
            let r = c.run("OptInstance::from_dimacs", || OptInstance::<BasicVarManager>::from_dimacs(Cursor::new(&b)).map_err(|e| e.to_string()))?;
            verdict(r.as_ref().err().cloned())?;
            if let (Ok(i), Cls::Strict) = (&r, cls) {
                let got: Vec<Cl> = i.constraints_ref().cnf().iter().map(bn).collect();
                check_eq!(sorted(got), sorted(want.hard.clone()), "dimacs1:meaning", "clauses");
                cmp_big_obj("dimacs1", i.objective_ref(), &want.objs[0])?;
            }
            let mut p = dimacs::Parser::<dimacs::WcnfHeader, _>::new(Cursor::new(&b));
            let h = !c.rng.bool() || drain(c, "wcnf header iterator", &mut p, lines)?;
            let body = match c.run("forward_to_body", || p.forward_to_body())? {
                Ok(dimacs::WcnfHeaderData::Pre22 { body_parser, .. }) => drain(c, "wcnf body iterator", body_parser, lines)?,
                Ok(dimacs::WcnfHeaderData::Post22(p)) => drain(c, "wcnf body iterator", p, lines)?,
                Ok(_) => true,
                Err(_) => false,
            };
            low = h && body;
            check!(r.is_err() || body || !h, "dimacs1:dropped", "instance returned although the parser reports an error");
        }
        _ => {
            let r = c.run("MultiOptInstance::from_dimacs", || MultiOptInstance::<BasicVarManager>::from_dimacs(Cursor::new(&b)).map_err(|e| e.to_string()))?;
            verdict(r.as_ref().err().cloned())?;
            if let (Ok(i), Cls::Strict) = (&r, cls) {
                let got: Vec<Cl> = i.constraints_ref().cnf().iter().map(bn).collect();
                check_eq!(sorted(got), sorted(want.hard.clone()), "dimacs2:meaning", "clauses");
                check_eq!(i.n_objectives(), want.objs.len(), "dimacs2:meaning", "objectives");
                for (k, o) in want.objs.iter().enumerate() {
                    cmp_big_obj("dimacs2", i.objective_ref(k), o)?;
                }
            }
            low = drain(c, "mcnf iterator", dimacs::Parser::<dimacs::Mcnf, _>::new(Cursor::new(&b)), lines)?;
            check!(r.is_err() || low, "dimacs2:dropped", "instance returned although the parser reports an error");
        }
    }
    if cls == Cls::Bad {
        check!(!low, format!("dimacs{kind}:low-accepted"), "the low-level parser reports no error on an invalid file");
    }
    c.nontrivial(&format!("{b:?}"));
    Ok(())
}

/// Compares objectives over arbitrary (sparse) variables on random assignments
fn cmp_big_obj(what: &str, o: &Objective, want: &[(u64, Cl)]) -> Res {
    use rustsat::types::WClsIter;
    fn drive<I: WClsIter>(i: I) -> Vec<(Clause, usize)> {
        i.into_iter().collect()
    }
    let got: Vec<(u64, Cl)> = drive(o.iter_soft_cls()).into_iter().map(|(cl, w)| (w as u64, cl.iter().map(|l| l.to_ipasir()).collect())).collect();
    for k in 0..16u64 {
        let t = |l: i32| (vcore::rng::mix(u64::from(l.unsigned_abs()) * 31 + k) & 1 == 1) == (l > 0);
        let v = |o: &[(u64, Cl)]| -> i128 { o.iter().filter(|(_, cl)| !cl.iter().any(|l| t(*l))).map(|(w, _)| i128::from(*w)).sum() };
        check!(v(&got) + o.offset() as i128 == v(want), format!("{what}:meaning"), "{what}: objective {got:?} + {} vs {want:?}", o.offset());
    }
    Ok(())
}

fn c06_opb(c: &mut Case) -> Res {
    let n = c.rng.us(0, 6);
    let mut o = opts(c);
    if c.rng.chance(1, 10) {
        o.first_var_idx = *c.rng.pick(&[u32::MAX, u32::MAX - 1, 1 << 31]);
    }
    let nm = Names::id(n);
    let cons: Vec<Lin> = (0..c.rng.us(0, 5)).map(|_| lin(c, n)).collect();
    let nobj = *c.rng.pick(&[0, 1, 1, 2]);
    let objs: Vec<Obj> = (0..nobj).map(|_| Obj { max: c.rng.chance(1, 3), terms: lin_terms(c, n).0 }).collect();
    let mut b = text_opb(c, &nm, o, &cons, &objs).0.into_bytes();
    if c.rng.chance(1, 30) {
        b = (0..c.rng.below(60)).map(|_| c.rng.below(256) as u8).collect();
    } else if c.rng.chance(1, 15) {
        b = (0..c.rng.below(12)).map(|_| *c.rng.pick(TOK)).collect::<Vec<_>>().join(*c.rng.pick(&[" ", "\n"])).into_bytes();
    } else {
        mutate(c, &mut b);
    }
    c.log(format!("{o:?} {:?}", String::from_utf8_lossy(&b)));
    let bad = match std::str::from_utf8(&b) {
        Err(_) => true,
        Ok(s) => s.split('\n').any(|l| {
            let l = l.trim();
            // everything behind a semicolon could be a comment
            if l.contains('*') {
                return false;
            }
            if l.is_empty() {
                return false;
            }
            let legal = l.chars().all(|ch| ch.is_ascii_digit() || ch.is_whitespace() || "x~+-<>=;:minax".contains(ch));
            !legal || !(l.contains(['<', '>', '=']) || l.contains("min:") || l.contains("max:")) || l.contains("x+") || l.contains("~~") || l.contains(":x") || l.contains("=;") || l.contains("= ;")
        }),
    };
    c.count(if bad { "invalid" } else { "other" }, 1);
    let bound = 2 * b.len() + 4;
    let low = drain(c, "opb iterator", opb::Parser::new(Cursor::new(&b), o), bound)?;
    check!(!(bad && low), "opb:accepted", "invalid file accepted by the parser");
    let r = c.run("SatInstance::from_opb", || SatInstance::<BasicVarManager>::from_opb(Cursor::new(&b), o).is_ok())?;
    check!(!r || low, "opb:dropped", "decision instance returned although the parser reports an error");
    let r = c.run("OptInstance::from_opb", || OptInstance::<BasicVarManager>::from_opb(Cursor::new(&b), o).is_ok())?;
    check!(!r || low, "opb:dropped", "optimization instance returned although the parser reports an error");
    let r = c.run("MultiOptInstance::from_opb", || MultiOptInstance::<BasicVarManager>::from_opb(Cursor::new(&b), o).map(|i| drop(i)).map_err(|e| e.to_string()))?;
    check!(r.is_err() || low, "opb:dropped", "multi-objective instance returned although the parser reports an error");
    c.nontrivial(&format!("{b:?}"));
    Ok(())
}

/// Value lines, solver outputs, single literals
fn c06_small(c: &mut Case) -> Res {
    use rustsat::types::Assignment;
    let mut b: Vec<u8> = match c.rng.below(4) {
        0 => {
            let n = c.rng.us(1, 8);
            let bits: String = (1..=n).map(|i| format!("{}{} ", if c.rng.bool() { "" } else { "-" }, i)).collect();
            format!("c x\ns SATISFIABLE\nv {bits}0\n").into_bytes()
        }
        1 => b"s UNSATISFIABLE\n".to_vec(),
        2 => {
            let n = c.rng.us(1, 8);
            let bits: String = (0..n).map(|_| if c.rng.bool() { '1' } else { '0' }).collect();
            format!("s OPTIMUM FOUND\no 3\nv {bits}\n").into_bytes()
        }
        _ => (0..c.rng.us(1, 6)).map(|_| *c.rng.pick(TOK)).collect::<Vec<_>>().join(*c.rng.pick(&[" ", "\n", ""])).into_bytes(),
    };
    if c.rng.chance(4, 5) {
        mutate(c, &mut b);
    }
    if !runs_ok(&b, 7, 10) {
        return Ok(());
    }
    c.log(format!("{:?}", String::from_utf8_lossy(&b)));
    let cur = || Cursor::new(b.clone());
    let r = c.run("parse_sat_solver_output", || fio::parse_sat_solver_output(cur()).map_err(|e| e.to_string()))?;
    let _ = r;
    if let Ok(s) = std::str::from_utf8(&b) {
        for l in s.split('\n').chain([s]) {
            let _ = c.run("Assignment::from_vline", || Assignment::from_vline(l).map_err(|e| e.to_string()))?;
            let mut a = Assignment::default();
            let _ = c.run("Assignment::extend_from_vline", || a.extend_from_vline(l).map_err(|e| e.to_string()))?;
            for t in l.split(' ').chain([l]) {
                let o = opts(c);
                let d = c.run("dimacs::parse_lit", || dimacs::parse_lit(t).map_err(|e| e.to_string()))?;
                let p = c.run("opb::parse_lit", || opb::parse_lit(t, o).map_err(|e| e.to_string()))?;
                match t.parse::<i64>() {
                    Ok(v) if strict_int(t) && v != 0 && v.unsigned_abs() <= i32::MAX as u64 => {
                        check!(d.as_ref().is_ok_and(|l| i64::from(l.to_ipasir()) == v), "parse_lit", "literal {t:?} parsed as {d:?}");
                    }
                    Ok(v) if v == 0 || v.unsigned_abs() > i32::MAX as u64 => check!(d.is_err(), "parse_lit", "literal {t:?} parsed as {d:?}"),
                    Err(_) if !is_int(t) => check!(d.is_err(), "parse_lit", "literal {t:?} parsed as {d:?}"),
                    _ => (),
                }
                let body = t.strip_prefix(['~', '-']).unwrap_or(t);
                match body.strip_prefix('x').filter(|x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()) && (*x == "0" || !x.starts_with('0'))).map(str::parse::<u64>) {
                    Some(Ok(i)) => {
                        let want = i.checked_sub(u64::from(o.first_var_idx)).filter(|i| *i <= u64::from(Var::MAX_IDX) && *i + u64::from(o.first_var_idx) <= u64::from(u32::MAX));
                        match want {
                            Some(i) => check!(p.as_ref().is_ok_and(|l| u64::from(l.vidx32()) == i && l.is_neg() == (body.len() < t.len())), "opb-parse_lit", "{t:?} parsed as {p:?} {o:?}"),
                            None => check!(p.is_err(), "opb-parse_lit", "{t:?} parsed as {p:?} {o:?}"),
                        }
                    }
                    Some(Err(_)) => check!(p.is_err(), "opb-parse_lit", "{t:?} parsed as {p:?}"),
                    None if !body.starts_with('x') => check!(p.is_err(), "opb-parse_lit", "{t:?} parsed as {p:?}"),
                    None => (),
                }
            }
        }
    }
    let p = c.dir().join("sol");
    std::fs::write(&p, &b).unwrap();
    let _ = c.run("Assignment::from_solver_output_path", || Assignment::from_solver_output_path(&p).map_err(|e| e.to_string()))?;
    let _ = std::fs::remove_file(&p);
    c.nontrivial(&format!("{b:?}"));
    Ok(())
}

/// Long lines, deep files, many lines: time has to stay proportional to the size
fn c06_big(c: &mut Case) -> Res {
    let kind = c.rng.below(7);
    let k = if c.thorough { 400_000 } else { 60_000 };
    let tok = *c.rng.pick(&["1 ", "-1 ", "2 x", "+1 x1 ", "c", "\n", "\r\n", "0", "9", "*", " ", "1 2 0\n", "h 1 0\n", "o1 1 1 0\n", "1 1 0\n", "+1 x1 >= 1;\n", "+1 x1 >= 1;", "min: 1 x1;\n", "~", "v 1\n", "s SAT"]);
    let head = *c.rng.pick(&["", "p cnf 2 1\n", "p wcnf 2 1 9\n", "min: ", "h ", "v ", "s SATISFIABLE\n"]);
    let mut s = String::with_capacity(k * 8);
    s.push_str(head);
    for _ in 0..k {
        s.push_str(tok);
    }
    c.log(format!("kind {kind} {head:?} + {k} x {tok:?}"));
    let o = opts(c);
    let r = || Cursor::new(s.as_bytes());
    let t0 = std::time::Instant::now();
    c.run("big", || match kind {
        0 => drop(SatInstance::<BasicVarManager>::from_dimacs(r())),
        1 => drop(OptInstance::<BasicVarManager>::from_dimacs(r())),
        2 => drop(MultiOptInstance::<BasicVarManager>::from_dimacs(r())),
        3 => drop(SatInstance::<BasicVarManager>::from_opb(r(), o)),
        4 => drop(OptInstance::<BasicVarManager>::from_opb(r(), o)),
        5 => drop(MultiOptInstance::<BasicVarManager>::from_opb(r(), o)),
        _ => drop(fio::parse_sat_solver_output(r())),
    })?;
    c.count("big bytes", s.len() as u64);
    c.count("ms", t0.elapsed().as_millis() as u64);
    c.nontrivial(&format!("{kind}{head}{tok}"));
    Ok(())
}

// ---------------------------------------------------------------- compression and faults (C22)

/// Reader with an I/O error after some bytes, short reads and interrupts
struct BadRead<'a> {
    data: &'a [u8],
    pos: usize,
    fail_at: Option<usize>,
    chunk: usize,
    intr: u32,
    calls: u32,
}
impl Read for BadRead<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Err(std::io::Error::other("injected read error"));
            }
            end = end.min(f);
        }
        let n = self.chunk.min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct BadWrite {
    out: Vec<u8>,
    fail_at: Option<usize>,
    chunk: usize,
    intr: u32,
    calls: u32,
    fail_flush: bool,
}
impl Write for BadWrite {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = self.chunk.min(buf.len());
        if let Some(f) = self.fail_at {
            if self.out.len() >= f && !buf.is_empty() {
                return Err(std::io::Error::other("injected write error"));
            }
            n = n.min(f - self.out.len());
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.fail_flush {
            return Err(std::io::Error::other("injected flush error"));
        }
        Ok(())
    }
}

enum Any {
    Sat(SatInstance),
    Opt(OptInstance),
    Multi(MultiOptInstance),
}
type AnyOpb = bool;
impl Any {
    fn write(&self, w: &mut dyn Write, opb: AnyOpb) -> Result<(), String> {
        let o = opb::Options::default();
        match (self, opb) {
            (Any::Sat(i), false) => i.write_dimacs(w).map_err(|e| e.to_string()),
            (Any::Opt(i), false) => i.write_dimacs(w).map_err(|e| e.to_string()),
            (Any::Multi(i), false) => i.write_dimacs(w).map_err(|e| e.to_string()),
            (Any::Sat(i), true) => i.write_opb(w, o).map_err(|e| e.to_string()),
            (Any::Opt(i), true) => i.write_opb(w, o).map_err(|e| e.to_string()),
            (Any::Multi(i), true) => i.write_opb(w, o).map_err(|e| e.to_string()),
        }
    }
    fn write_path(&self, p: &std::path::Path, opb: AnyOpb) -> Result<(), String> {
        let o = opb::Options::default();
        match (self, opb) {
            (Any::Sat(i), false) if i.n_clauses() % 2 == 0 => i.cnf().write_dimacs_path(p, i.n_vars()).map_err(|e| e.to_string()),
            (Any::Sat(i), false) => i.write_dimacs_path(p).map_err(|e| e.to_string()),
            (Any::Opt(i), false) => i.write_dimacs_path(p).map_err(|e| e.to_string()),
            (Any::Multi(i), false) => i.write_dimacs_path(p).map_err(|e| e.to_string()),
            (Any::Sat(i), true) => i.write_opb_path(p, o).map_err(|e| e.to_string()),
            (Any::Opt(i), true) => i.write_opb_path(p, o).map_err(|e| e.to_string()),
            (Any::Multi(i), true) => i.write_opb_path(p, o).map_err(|e| e.to_string()),
        }
    }
    fn read(kind: usize, r: impl BufRead, opb: AnyOpb) -> Result<Any, String> {
        let o = opb::Options::default();
        match (kind, opb) {
            (0, false) => SatInstance::from_dimacs(r).map(Any::Sat).map_err(|e| e.to_string()),
            (1, false) => OptInstance::from_dimacs(r).map(Any::Opt).map_err(|e| e.to_string()),
            (_, false) => MultiOptInstance::from_dimacs(r).map(Any::Multi).map_err(|e| e.to_string()),
            (0, true) => SatInstance::from_opb(r, o).map(Any::Sat).map_err(|e| e.to_string()),
            (1, true) => OptInstance::from_opb(r, o).map(Any::Opt).map_err(|e| e.to_string()),
            (_, true) => MultiOptInstance::from_opb(r, o).map(Any::Multi).map_err(|e| e.to_string()),
        }
    }
    fn read_path(kind: usize, p: &std::path::Path, opb: AnyOpb) -> Result<Any, String> {
        let o = opb::Options::default();
        match (kind, opb) {
            (0, false) => SatInstance::from_dimacs_path(p).map(Any::Sat).map_err(|e| e.to_string()),
            (1, false) => OptInstance::from_dimacs_path(p).map(Any::Opt).map_err(|e| e.to_string()),
            (_, false) => MultiOptInstance::from_dimacs_path(p).map(Any::Multi).map_err(|e| e.to_string()),
            (0, true) => SatInstance::from_opb_path(p, o).map(Any::Sat).map_err(|e| e.to_string()),
            (1, true) => OptInstance::from_opb_path(p, o).map(Any::Opt).map_err(|e| e.to_string()),
            (_, true) => MultiOptInstance::from_opb_path(p, o).map(Any::Multi).map_err(|e| e.to_string()),
        }
    }
    fn text(&self, opb: AnyOpb) -> Result<Vec<u8>, String> {
        let mut v = vec![];
        self.write(&mut v, opb)?;
        Ok(v)
    }
    /// canonical content: what is read, written again, without comments
    fn canon(&self, opb: AnyOpb) -> Result<Vec<String>, String> {
        let t = self.text(opb)?;
        let mut v: Vec<String> = String::from_utf8(t).unwrap().lines().filter(|l| !l.starts_with(if opb { '*' } else { 'c' })).map(|l| canon_line(l)).collect();
        v.sort();
        Ok(v)
    }
}
fn canon_line(l: &str) -> String {
    if l.starts_with("min:") {
        // the order of the terms of an objective is not determined
        let mut t: Vec<String> = l.trim_end_matches(';').split_whitespace().skip(1).collect::<Vec<_>>().chunks(2).map(|p| p.join(" ")).collect();
        t.sort();
        return format!("min: {}", t.join(" "));
    }
    l.to_string()
}

fn any_inst(c: &mut Case, kind: usize, size: usize, opb: bool) -> Result<Any, Fail> {
    let n = c.rng.us(1, 8 + size / 3);
    let mut sat: SatInstance = SatInstance::new();
    for _ in 0..size {
        let k = c.rng.us(1, 4);
        let cl: Clause = (0..k).map(|_| tolit(c.rng.lit(n))).collect();
        sat.add_clause(cl);
    }
    let mut ob = || {
        let mut o = Objective::new();
        for _ in 0..c.rng.us(1, 6) {
            let (w, l) = (c.rng.us(1, 30), tolit(c.rng.lit(n)));
            if opb || c.rng.bool() {
                o.increase_soft_lit(w, l);
            } else {
                let l2 = tolit(c.rng.lit(n));
                o.increase_soft_clause(w, [l, l2].into_iter().collect());
            }
        }
        o
    };
    Ok(match kind {
        0 => Any::Sat(sat),
        1 => Any::Opt(OptInstance::compose(sat, ob())),
        _ => Any::Multi(MultiOptInstance::compose(sat, vec![ob(), ob()])),
    })
}

fn sh(cmd: &str, args: &[&str], file: &std::path::Path) -> Result<Vec<u8>, Fail> {
    let o = std::process::Command::new(cmd).args(args).arg(file).output().map_err(|e| Fail { sig: "tool".into(), msg: format!("{cmd}: {e}") })?;
    if !o.status.success() {
        return Err(Fail { sig: format!("{cmd}:rejects"), msg: format!("{cmd} rejects the file: {}", String::from_utf8_lossy(&o.stderr)) });
    }
    Ok(o.stdout)
}
const TOOLS: &[(&str, &str)] = &[("gz", "gzip"), ("bz2", "bzip2"), ("xz", "xz")];

fn size(c: &mut Case) -> usize {
    let big = if c.thorough { 60_000 } else { 4_000 };
    match c.rng.below(10) {
        0 => 0,
        1 => c.rng.us(big / 2, big),
        2 => c.rng.us(300, 1200),
        _ => c.rng.us(1, 60),
    }
}

fn c22_round(c: &mut Case) -> Res {
    let kind = c.rng.below(3);
    let opb = c.rng.bool();
    let sz = size(c);
    let inst = any_inst(c, kind, sz, opb)?;
    let (ext, tool) = *c.rng.pick(TOOLS);
    let up = c.rng.chance(1, 5);
    let dir = c.dir();
    let ext_s = if up { ext.to_uppercase() } else { ext.to_string() };
    let pz = dir.join(format!("i.cnf.{ext_s}"));
    let pp = dir.join("i.cnf");
    c.log(format!("kind {kind} opb {opb} clauses {sz} ext {ext_s}"));
    c.run("write plain", || inst.write_path(&pp, opb))?.map_err(|e| e2f("write-plain", e, ""))?;
    c.run("write compressed", || inst.write_path(&pz, opb))?.map_err(|e| e2f("write-compressed", e, ""))?;
    let plain = std::fs::read(&pp).unwrap();
    let want = inst.text(opb).map_err(|e| e2f("write", e, ""))?;
    let canon_want = inst.canon(opb).map_err(|e| e2f("write", e, ""))?;
    // bytes on disk are complete when the call returns
    check!(plain.len() == want.len() || canon_bytes(&plain, opb) == canon_want, "plain-file", "plain file has {} bytes instead of {}", plain.len(), want.len());
    let raw = std::fs::read(&pz).unwrap();
    check!(raw != plain, "not-compressed", "file with extension {ext_s} is not compressed");
    let un = sh(tool, &["-dc", if ext == "xz" { "--format=xz" } else { "-q" }], &if up { let q = dir.join(format!("j.cnf.{ext}")); std::fs::copy(&pz, &q).unwrap(); q } else { pz.clone() })?;
    check!(canon_bytes(&un, opb) == canon_want, format!("decompressed-{ext}"), "content of the compressed file ({} bytes decompressed) differs from the plain file ({} bytes)", un.len(), plain.len());
    for p in [&pz, &pp] {
        let r = c.run("read path", || Any::read_path(kind, p, opb))?.map_err(|e| e2f("read-back", e, &p.display().to_string()))?;
        if !opb {
            check!(r.canon(opb).map_err(|e| e2f("rewrite", e, ""))? == canon_want, "read-back", "instance read from {} differs", p.display());
        } else {
            let a = Any::read(kind, Cursor::new(&want), opb).map_err(|e| e2f("read", e, ""))?;
            check!(r.canon(opb).map_err(|e| e2f("rewrite", e, ""))? == a.canon(opb).map_err(|e| e2f("rewrite", e, ""))?, "read-back", "instance read from {} differs", p.display());
        }
    }
    c.count("bytes", plain.len() as u64);
    c.count(ext, 1);
    c.nontrivial(&format!("{kind}{opb}{ext_s}{sz}{}", c.idx));
    Ok(())
}
fn canon_bytes(b: &[u8], opb: bool) -> Vec<String> {
    let mut v: Vec<String> = String::from_utf8_lossy(b).lines().filter(|l| !l.starts_with(if opb { '*' } else { 'c' })).map(canon_line).collect();
    v.sort();
    v
}

/// Archives by external tools: several members, truncation, corruption
fn c22_archive(c: &mut Case) -> Res {
    let kind = c.rng.below(3);
    let opb = c.rng.bool();
    let sz = size(c);
    let inst = any_inst(c, kind, sz, opb)?;
    let text = inst.text(opb).map_err(|e| e2f("write", e, ""))?;
    let want = Any::read(kind, Cursor::new(&text), opb).map_err(|e| e2f("read", e, ""))?.canon(opb).map_err(|e| e2f("rewrite", e, ""))?;
    let (ext, tool) = *c.rng.pick(TOOLS);
    let dir = c.dir();
    let k = *c.rng.pick(&[1, 1, 2, 3]);
    let mut cuts: Vec<usize> = (0..k - 1).map(|_| c.rng.below(text.len() + 1)).collect();
    cuts.push(0);
    cuts.push(text.len());
    cuts.sort_unstable();
    let mut all = vec![];
    let level = *c.rng.pick(&["-1", "-6", "-9"]);
    for w in cuts.windows(2) {
        let p = dir.join("part");
        std::fs::write(&p, &text[w[0]..w[1]]).unwrap();
        all.extend(sh(tool, &[level, "-c"], &p)?);
    }
    let pz = dir.join(format!("a.{ext}"));
    let mode = c.rng.below(3);
    c.log(format!("kind {kind} opb {opb} clauses {sz} {ext} {level} members {k} mode {mode} bytes {}", all.len()));
    match mode {
        0 => {
            std::fs::write(&pz, &all).unwrap();
            let r = c.run("read archive", || Any::read_path(kind, &pz, opb))?.map_err(|e| e2f("archive", e, ""))?;
            check!(r.canon(opb).map_err(|e| e2f("rewrite", e, ""))? == want, format!("archive-{ext}"), "instance read from an archive of {k} members differs");
        }
        1 => {
            // truncated within a member
            if k > 1 || all.is_empty() {
                return Ok(());
            }
            let cut = c.rng.us(1, all.len() - 1);
            std::fs::write(&pz, &all[..cut]).unwrap();
            let r = c.run("read truncated archive", || Any::read_path(kind, &pz, opb))?;
            if let Ok(r) = r {
                check!(r.canon(opb).map_err(|e| e2f("rewrite", e, ""))? == want, format!("truncated-{ext}"), "archive cut after {cut} of {} bytes is read as a different instance", all.len());
                c.count("truncation without effect", 1);
            } else {
                c.count("truncation reported", 1);
            }
        }
        _ => {
            let p = c.rng.below(all.len());
            all[p] ^= 1 << c.rng.below(8);
            std::fs::write(&pz, &all).unwrap();
            let r = c.run("read corrupted archive", || Any::read_path(kind, &pz, opb))?;
            if let Ok(r) = r {
                check!(r.canon(opb).map_err(|e| e2f("rewrite", e, ""))? == want, format!("corrupted-{ext}"), "archive with byte {p} changed is read as a different instance");
                c.count("corruption without effect", 1);
            } else {
                c.count("corruption reported", 1);
            }
        }
    }
    c.nontrivial(&format!("{ext}{k}{mode}{}", c.idx));
    Ok(())
}

/// Readers and writers that fail at any byte, return short counts or are interrupted
fn c22_faults(c: &mut Case) -> Res {
    let kind = c.rng.below(3);
    let opb = c.rng.bool();
    let sz = c.rng.us(0, 30);
    let inst = any_inst(c, kind, sz, opb)?;
    let text = inst.text(opb).map_err(|e| e2f("write", e, ""))?;
    let want = inst.canon(opb).map_err(|e| e2f("write", e, ""))?;
    let chunk = *c.rng.pick(&[1, 2, 3, 7, 64, 8192]);
    let intr = *c.rng.pick(&[0, 0, 2, 3, 5]);
    c.log(format!("kind {kind} opb {opb} bytes {} chunk {chunk} intr {intr}", text.len()));
    // slow but correct
    let mut w = BadWrite { out: vec![], fail_at: None, chunk, intr, calls: 0, fail_flush: false };
    c.run("write to slow writer", || inst.write(&mut w, opb))?.map_err(|e| e2f("slow-writer", e, ""))?;
    check!(canon_bytes(&w.out, opb) == want, "slow-writer", "content written in small pieces differs");
    let rd = |f: Option<usize>| BadRead { data: &text, pos: 0, fail_at: f, chunk, intr, calls: 0 };
    let base = Any::read(kind, Cursor::new(&text), opb).map_err(|e| e2f("read", e, ""))?.canon(opb).map_err(|e| e2f("rewrite", e, ""))?;
    let cap = *c.rng.pick(&[1, 5, 64, 8192]);
    let r = c.run("read from slow reader", || Any::read(kind, BufReader::with_capacity(cap, rd(None)), opb))?.map_err(|e| e2f("slow-reader", e, ""))?;
    check!(r.canon(opb).map_err(|e| e2f("rewrite", e, ""))? == base, "slow-reader", "content read in small pieces differs");
    // failing
    for _ in 0..6 {
        let f = c.rng.below(text.len());
        let mut w = BadWrite { out: vec![], fail_at: Some(f), chunk, intr, calls: 0, fail_flush: false };
        let r = c.run("write to failing writer", || inst.write(&mut w, opb))?;
        check!(r.is_err(), "write-error-lost", "writer failing after {f} bytes goes unreported");
        let f = c.rng.below(text.len() + 1);
        let r = c.run("read from failing reader", || Any::read(kind, BufReader::with_capacity(cap, rd(Some(f))), opb).map(|_| ()))?;
        check!(r.is_err(), "read-error-lost", "reader failing after {f} of {} bytes goes unreported", text.len());
    }
    let mut w = std::io::BufWriter::new(BadWrite { out: vec![], fail_at: Some(c.rng.below(text.len())), chunk, intr, calls: 0, fail_flush: false });
    let r = c.run("write to failing buffered writer", || inst.write(&mut w, opb))?;
    check!(r.is_err(), "buffered-write-error-lost", "error of a buffered writer goes unreported");
    // files: a full device, missing and unwritable paths
    let dir = c.dir();
    let ext = *c.rng.pick(&["cnf", "gz", "bz2", "xz"]);
    let p = dir.join(format!("full.{ext}"));
    if !p.exists() {
        let _ = std::fs::remove_file(&p);
        std::os::unix::fs::symlink("/dev/full", &p).unwrap();
    }
    let r = c.run("write to full device", || inst.write_path(&p, opb))?;
    check!(r.is_err(), format!("full-device-{ext}"), "writing to a full device ({ext}) goes unreported");
    let _ = std::fs::remove_file(&p);
    let missing = dir.join("no").join(format!("such.{ext}"));
    check!(c.run("read missing file", || Any::read_path(kind, &missing, opb).is_err())?, "missing", "missing file is not reported");
    check!(c.run("write to missing directory", || inst.write_path(&missing, opb).is_err())?, "missing", "missing directory is not reported");
    check!(c.run("read directory", || Any::read_path(kind, &dir, opb).is_err())?, "directory", "reading a directory is not reported");
    c.count("injected faults", 16);
    c.nontrivial(&format!("{chunk}{intr}{ext}{}", c.idx));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = (fromlit, cnf_true);
    let _: Option<RsHashMap<u8, u8>> = None;
    vec![
        Prop::new("C04", "a text with known content is read as exactly that content, and what is written is legal and means the instance to an independent reader and to the library", vec![
            Sub::new("read", 4, c04_read).hang(10, true),
            Sub::new("write", 4, c04_write).hang(10, true),
            Sub::new("lines", 2, c04_lines).hang(10, true),
        ])
        .quick(12)
        .thorough(180)
        .assume(&["one clause per line; objective values compared up to a constant when round-tripping, exactly when reading"]),
        Prop::new("C05", "constraints and objectives of an OPB text have exactly the stated meaning on all assignments, and what is written is legal and means the instance", vec![
            Sub::new("read", 5, c05_read).hang(10, true),
            Sub::new("write", 5, c05_write).hang(10, true),
        ])
        .quick(12)
        .thorough(180),
        Prop::new("C06", "no panic, abort or hang; invalid files are errors and valid files keep their meaning (reference recogniser)", vec![
            Sub::new("dimacs", 6, c06_dimacs).hang(10, true),
            Sub::new("opb", 4, c06_opb).hang(10, true),
            Sub::new("small", 3, c06_small).hang(10, true),
            Sub::new("big", 1, c06_big).hang(20, true),
        ])
        .quick(14)
        .thorough(240)
        .mem(3000)
        .workers(7),
        Prop::new("C22", "compressed files contain and give exactly the content of plain files; faults are reported", vec![
            Sub::new("round", 4, c22_round).hang(30, true),
            Sub::new("archive", 3, c22_archive).hang(30, true),
            Sub::new("faults", 3, c22_faults).hang(30, true),
        ])
        .quick(12)
        .thorough(180),
    ]
}
