//! An independent interpreter for VeriPB 2.0 proofs: parses the text of a proof line by line, keeps
//! its own constraint database and identifier counter and checks every step.
//!
//! Constraints are kept as `sum coef * x >= deg` over variables (not literals), so that adding a
//! literal and its negation cancels by itself.
use std::collections::{BTreeMap, HashMap, VecDeque};

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Constr {
    pub terms: BTreeMap<u32, i128>,
    pub deg: i128,
}

impl Constr {
    pub fn add_lit(&mut self, coef: i128, var: u32, neg: bool) {
        // c * ~x = c - c * x
        let (c, d) = if neg { (-coef, coef) } else { (coef, 0) };
        let e = self.terms.entry(var).or_insert(0);
        *e += c;
        if *e == 0 {
            self.terms.remove(&var);
        }
        self.deg -= d;
    }
    /// degree over literals with positive coefficients
    pub fn ndeg(&self) -> i128 {
        self.deg + self.terms.values().filter(|c| **c < 0).map(|c| -c).sum::<i128>()
    }
    pub fn sum_abs(&self) -> i128 {
        self.terms.values().map(|c| c.abs()).sum()
    }
    fn set_ndeg(&mut self, nd: i128) {
        self.deg = nd - self.terms.values().filter(|c| **c < 0).map(|c| -c).sum::<i128>();
    }
    pub fn add(&self, o: &Constr) -> Constr {
        let mut r = self.clone();
        vcore::oracle::spend(o.terms.len());
        for (&v, &c) in &o.terms {
            let e = r.terms.entry(v).or_insert(0);
            *e += c;
            if *e == 0 {
                r.terms.remove(&v);
            }
        }
        r.deg += o.deg;
        r
    }
    pub fn mul(&self, k: i128) -> Constr {
        if k == 0 {
            return Constr::default();
        }
        Constr { terms: self.terms.iter().map(|(&v, &c)| (v, c * k)).collect(), deg: self.deg * k }
    }
    pub fn div(&self, k: i128) -> Constr {
        let nd = self.ndeg();
        let ceil = |a: i128| if a > 0 { (a + k - 1) / k } else { -((-a) / k) };
        let mut r = Constr { terms: self.terms.iter().map(|(&v, &c)| (v, if c > 0 { ceil(c) } else { -ceil(-c) })).collect(), deg: 0 };
        r.set_ndeg(ceil(nd));
        r
    }
    pub fn saturate(&self) -> Constr {
        let nd = self.ndeg();
        if nd <= 0 {
            return Constr::default();
        }
        let mut r = Constr { terms: self.terms.iter().map(|(&v, &c)| (v, c.clamp(-nd, nd))).collect(), deg: 0 };
        r.set_ndeg(nd);
        r
    }
    pub fn negate(&self) -> Constr {
        Constr { terms: self.terms.iter().map(|(&v, &c)| (v, -c)).collect(), deg: 1 - self.deg }
    }
    pub fn trivial(&self) -> bool {
        self.ndeg() <= 0
    }
    pub fn contradiction(&self) -> bool {
        self.ndeg() > self.sum_abs()
    }
    /// `self` implies `o` by weakening and saturation alone
    pub fn syntactically_implies(&self, o: &Constr) -> bool {
        if o.trivial() {
            return true;
        }
        let weak = |a: &Constr| {
            let mut loss = 0;
            for (v, &c) in &a.terms {
                let oc = o.terms.get(v).copied().unwrap_or(0);
                let keep = if c > 0 { oc.max(0).min(c) } else { (-oc).max(0).min(-c) };
                loss += c.abs() - keep;
            }
            a.ndeg() - loss >= o.ndeg()
        };
        weak(self) || weak(&self.saturate())
    }
    pub fn substitute(&self, w: &HashMap<u32, Sub>) -> Constr {
        let mut r = Constr { terms: BTreeMap::new(), deg: self.deg };
        for (&v, &c) in &self.terms {
            match w.get(&v) {
                None => r.add_lit(c, v, false),
                Some(Sub::Const(true)) => r.deg -= c,
                Some(Sub::Const(false)) => {}
                Some(Sub::Lit(u, neg)) => r.add_lit(c, *u, *neg),
            }
        }
        r
    }
    pub fn from_clause(lits: &[(u32, bool)]) -> Constr {
        let mut r = Constr { terms: BTreeMap::new(), deg: 1 };
        for &(v, neg) in lits {
            r.add_lit(1, v, neg);
        }
        r
    }
    pub fn eval(&self, val: &dyn Fn(u32) -> bool) -> bool {
        self.terms.iter().map(|(&v, &c)| if val(v) { c } else { 0 }).sum::<i128>() >= self.deg
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sub {
    Const(bool),
    Lit(u32, bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum IdRef {
    Abs(usize),
    Rel(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Id(IdRef),
    Ax(u32, bool),
    Add,
    Mul(i128),
    Div(i128),
    Sat,
    Weak,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Der {
    Rup(Constr, Vec<IdRef>),
    Pol(Vec<Op>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum GoalId {
    Constr(IdRef),
    Spec(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum SubEl {
    Der(Der),
    Goal(GoalId, Vec<Der>, String),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Objective {
    pub terms: BTreeMap<u32, i128>,
    pub constant: i128,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct OrderDef {
    pub name: String,
    pub left: Vec<String>,
    pub right: Vec<String>,
    pub aux: Vec<String>,
    pub def: Vec<Constr>,
    pub fresh_right: Vec<String>,
    pub trans: Vec<(GoalId, Vec<Der>)>,
    pub refl: Option<Vec<(GoalId, Vec<Der>)>>,
}

/// One step of a proof
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    F(usize),
    Comment(String),
    Der(Der),
    DelId(Vec<IdRef>, Vec<SubEl>),
    DelSpec(Constr),
    DelRange(IdRef, IdRef),
    DelC(Vec<IdRef>),
    DelD(Vec<IdRef>),
    ObjuNew(Objective, Vec<SubEl>),
    ObjuDiff(Objective),
    Red(Constr, BTreeMap<u32, Sub>, Vec<SubEl>),
    Dom(Constr, BTreeMap<u32, Sub>, Vec<SubEl>),
    CoreId(Vec<IdRef>),
    CoreRange(IdRef, IdRef),
    Sol(Vec<(u32, bool)>),
    Solx(Vec<(u32, bool)>),
    Soli(Vec<(u32, bool)>),
    Output(String),
    Conclusion(String),
    End,
    E(Constr, Option<IdRef>),
    Ea(Constr, Option<IdRef>),
    Eobj(Objective),
    I(Constr, Option<IdRef>),
    Ia(Constr, Option<IdRef>),
    Level(usize),
    Wipe(usize),
    Order(OrderDef),
    LoadOrder(String, Vec<String>),
    S2c(bool),
    Subst(BTreeMap<u32, Sub>),
}

/// Names of variables
#[derive(Default, Debug, Clone)]
pub struct Names {
    map: HashMap<String, u32>,
    pub names: Vec<String>,
}
impl Names {
    pub fn get(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.map.get(n) {
            return i;
        }
        let i = self.names.len() as u32;
        self.map.insert(n.to_string(), i);
        self.names.push(n.to_string());
        i
    }
}

/// Splits a text into steps
#[derive(Default)]
pub struct Parser {
    pub names: Names,
    lines: VecDeque<String>,
    partial: String,
    header: bool,
    ended: bool,
}

type P<T> = Result<T, String>;

fn is_var(t: &str) -> bool {
    let mut ch = t.chars();
    matches!(ch.next(), Some(c) if c.is_ascii_alphabetic() || c == '_') && t.len() >= 2 && ch.all(|c| c.is_ascii_alphanumeric() || "_-[]{}@^".contains(c))
}

impl Parser {
    pub fn feed(&mut self, text: &str) {
        self.partial.push_str(text);
        while let Some(p) = self.partial.find('\n') {
            let l: String = self.partial.drain(..=p).collect();
            self.lines.push_back(l[..l.len() - 1].to_string());
        }
    }
    pub fn finish(&self) -> P<()> {
        if !self.partial.is_empty() {
            return Err(format!("last line is not terminated: {:?}", self.partial));
        }
        if !self.ended {
            return Err("no end of the proof".into());
        }
        if let Some(l) = self.lines.iter().find(|l| !l.trim().is_empty()) {
            return Err(format!("text after the end of the proof: {l:?}"));
        }
        Ok(())
    }
    fn line(&mut self) -> P<Vec<String>> {
        let l = self.lines.pop_front().ok_or("proof ends within a block")?;
        Ok(l.split_whitespace().map(str::to_string).collect())
    }
    fn lit(&mut self, t: &str) -> P<(u32, bool)> {
        let (n, neg) = match t.strip_prefix('~') {
            Some(n) => (n, true),
            None => (t, false),
        };
        if !is_var(n) {
            return Err(format!("not a literal: {t:?}"));
        }
        Ok((self.names.get(n), neg))
    }
    fn id(t: &str) -> P<IdRef> {
        match t.strip_prefix('-') {
            Some(r) => r.parse::<usize>().ok().filter(|x| *x > 0).map(IdRef::Rel),
            None => t.parse::<usize>().ok().filter(|x| *x > 0).map(IdRef::Abs),
        }
        .ok_or(format!("not a constraint id: {t:?}"))
    }
    fn ids(t: &[String]) -> P<Vec<IdRef>> {
        t.iter().map(|t| Self::id(t)).collect()
    }
    fn int(t: &str) -> P<i128> {
        t.strip_prefix('+').unwrap_or(t).parse().map_err(|_| format!("not an integer: {t:?}"))
    }
    /// `<coef> <lit> ... >= <rhs>`
    fn constr(&mut self, t: &[String]) -> P<Constr> {
        let mut r = Constr::default();
        let p = t.iter().position(|x| x == ">=").ok_or(format!("no relation in {t:?}"))?;
        if p % 2 != 0 || t.len() != p + 2 {
            return Err(format!("malformed constraint {t:?}"));
        }
        for k in (0..p).step_by(2) {
            let c = Self::int(&t[k])?;
            let (v, neg) = self.lit(&t[k + 1])?;
            r.add_lit(c, v, neg);
        }
        r.deg += Self::int(&t[p + 1])?;
        Ok(r)
    }
    fn objective(&mut self, t: &[String]) -> P<Objective> {
        let mut r = Constr::default();
        let mut constant = 0;
        let mut k = 0;
        while k < t.len() {
            let c = Self::int(&t[k])?;
            if k + 1 < t.len() && !t[k + 1].starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '+') {
                let (v, neg) = self.lit(&t[k + 1])?;
                r.add_lit(c, v, neg);
                k += 2;
            } else {
                constant += c;
                k += 1;
            }
        }
        // add_lit moves constants to the right hand side
        Ok(Objective { constant: constant - r.deg, terms: r.terms })
    }
    fn subst(&mut self, t: &[String]) -> P<BTreeMap<u32, Sub>> {
        let mut r = BTreeMap::new();
        if t.len() % 3 != 0 {
            return Err(format!("malformed substitution {t:?}"));
        }
        for k in (0..t.len()).step_by(3) {
            let (v, neg) = self.lit(&t[k])?;
            if neg || t[k + 1] != "->" {
                return Err(format!("malformed substitution {t:?}"));
            }
            let s = match t[k + 2].as_str() {
                "0" => Sub::Const(false),
                "1" => Sub::Const(true),
                l => {
                    let (v, n) = self.lit(l)?;
                    Sub::Lit(v, n)
                }
            };
            if r.insert(v, s).is_some() {
                return Err(format!("variable substituted twice in {t:?}"));
            }
        }
        Ok(r)
    }
    fn der(&mut self, t: &[String]) -> P<Der> {
        match t[0].as_str() {
            "rup" | "u" => {
                let p = t.iter().position(|x| x == ";").ok_or("rup without ;")?;
                let c = self.constr(&t[1..p])?;
                Ok(Der::Rup(c, Self::ids(&t[p + 1..])?))
            }
            "pol" | "p" => {
                let mut ops = vec![];
                let mut k = 1;
                while k < t.len() {
                    let nxt = t.get(k + 1).map(String::as_str);
                    ops.push(match t[k].as_str() {
                        "+" => Op::Add,
                        "s" => Op::Sat,
                        "w" => Op::Weak,
                        x if nxt == Some("*") => {
                            k += 1;
                            Op::Mul(Self::int(x)?)
                        }
                        x if nxt == Some("d") => {
                            k += 1;
                            Op::Div(Self::int(x)?)
                        }
                        x if x.starts_with(|c: char| c.is_ascii_digit() || c == '-') => Op::Id(Self::id(x)?),
                        x => {
                            let (v, n) = self.lit(x)?;
                            Op::Ax(v, n)
                        }
                    });
                    k += 1;
                }
                Ok(Der::Pol(ops))
            }
            x => Err(format!("unknown derivation {x:?}")),
        }
    }
    fn goal_id(t: &str) -> P<GoalId> {
        match t.strip_prefix('#') {
            Some(n) => n.parse::<usize>().ok().filter(|x| *x > 0).map(GoalId::Spec).ok_or(format!("bad proof goal {t:?}")),
            None => Self::id(t).map(GoalId::Constr),
        }
    }
    /// elements of a subproof up to `end`
    fn subproof(&mut self, close: &str) -> P<Vec<SubEl>> {
        let mut out = vec![];
        loop {
            let t = self.line()?;
            if t.is_empty() || t[0].starts_with('*') {
                continue;
            }
            if t == [close] {
                return Ok(out);
            }
            if t[0] == "proofgoal" {
                if t.len() != 2 {
                    return Err(format!("malformed proof goal {t:?}"));
                }
                let id = Self::goal_id(&t[1])?;
                let mut ders = vec![];
                loop {
                    let t = self.line()?;
                    if t.is_empty() || t[0].starts_with('*') {
                        continue;
                    }
                    if t[0] == "qed" || t[0] == "end" {
                        out.push(SubEl::Goal(id, ders, t[1..].join(" ")));
                        break;
                    }
                    ders.push(self.der(&t)?);
                }
            } else {
                out.push(SubEl::Der(self.der(&t)?));
            }
        }
    }
    fn goals(els: Vec<SubEl>) -> P<Vec<(GoalId, Vec<Der>)>> {
        els.into_iter()
            .map(|e| match e {
                SubEl::Goal(id, d, q) if q == "-1" => Ok((id, d)),
                e => Err(format!("unexpected {e:?} in the proof of an order")),
            })
            .collect()
    }
    fn expect(&mut self, what: &[&str]) -> P<Vec<String>> {
        let t = self.line()?;
        if t.len() < what.len() || t.iter().zip(what).any(|(a, b)| a != b) {
            return Err(format!("expected {what:?}, got {t:?}"));
        }
        Ok(t[what.len()..].to_vec())
    }
    fn order(&mut self, t: &[String]) -> P<OrderDef> {
        if t.len() != 2 {
            return Err(format!("malformed order definition {t:?}"));
        }
        let mut o = OrderDef { name: t[1].clone(), ..OrderDef::default() };
        self.expect(&["vars"])?;
        o.left = self.expect(&["left"])?;
        o.right = self.expect(&["right"])?;
        o.aux = self.expect(&["aux"])?;
        self.expect(&["end"])?;
        self.expect(&["def"])?;
        loop {
            let t = self.line()?;
            if t == ["end"] {
                break;
            }
            if t.last().map(String::as_str) != Some(";") {
                return Err(format!("order constraint without ;: {t:?}"));
            }
            let c = self.constr(&t[..t.len() - 1])?;
            o.def.push(c);
        }
        self.expect(&["transitivity"])?;
        self.expect(&["vars"])?;
        o.fresh_right = self.expect(&["fresh_right"])?;
        self.expect(&["end"])?;
        self.expect(&["proof"])?;
        o.trans = Self::goals(self.subproof("qed")?)?;
        self.expect(&["end"])?;
        let t = self.line()?;
        if t == ["end"] {
            return Ok(o);
        }
        if t != ["reflexivity"] {
            return Err(format!("unexpected {t:?} in an order definition"));
        }
        self.expect(&["proof"])?;
        o.refl = Some(Self::goals(self.subproof("qed")?)?);
        self.expect(&["end"])?;
        self.expect(&["end"])?;
        Ok(o)
    }
    /// the next step, if any
    pub fn next(&mut self) -> P<Option<(Step, String)>> {
        let Some(l) = self.lines.pop_front() else { return Ok(None) };
        if self.ended {
            return if l.trim().is_empty() { self.next() } else { Err(format!("line after the end of the proof: {l:?}")) };
        }
        if !self.header {
            if l != "pseudo-Boolean proof version 2.0" {
                return Err(format!("bad header {l:?}"));
            }
            self.header = true;
            return self.next();
        }
        if let Some(c) = l.strip_prefix('*') {
            return Ok(Some((Step::Comment(c.strip_prefix(' ').unwrap_or(c).to_string()), l)));
        }
        let t: Vec<String> = l.split_whitespace().map(str::to_string).collect();
        if t.is_empty() {
            return self.next();
        }
        self.step(&t).map(|s| Some((s, l.clone()))).map_err(|e| format!("line {l:?}: {e}"))
    }
    fn with_id(&mut self, t: &[String]) -> P<(Constr, Option<IdRef>)> {
        let p = t.iter().position(|x| x == ";").ok_or("no ;")?;
        let c = self.constr(&t[1..p])?;
        let id = match &t[p + 1..] {
            [] => None,
            [i] => Some(Self::id(i)?),
            x => return Err(format!("too many ids {x:?}")),
        };
        Ok((c, id))
    }
    fn num(t: &[String]) -> P<usize> {
        match t {
            [_, n] => n.parse().map_err(|_| format!("not a number {n:?}")),
            _ => Err(format!("malformed {t:?}")),
        }
    }
    fn lits(&mut self, t: &[String]) -> P<Vec<(u32, bool)>> {
        t.iter().map(|x| self.lit(x)).collect()
    }
    fn step(&mut self, t: &[String]) -> P<Step> {
        Ok(match t[0].as_str() {
            "f" => Step::F(Self::num(t)?),
            "rup" | "u" | "pol" | "p" => Step::Der(self.der(t)?),
            "red" | "dom" => {
                let semis: Vec<usize> = t.iter().enumerate().filter(|(_, x)| *x == ";").map(|x| x.0).collect();
                let Some(&p) = semis.first() else { return Err("no ;".into()) };
                let c = self.constr(&t[1..p])?;
                let (sub, els) = match semis.get(1) {
                    None => (self.subst(&t[p + 1..])?, vec![]),
                    Some(&q) => {
                        let s = self.subst(&t[p + 1..q])?;
                        match &t[q + 1..] {
                            [] => (s, vec![]),
                            [b] if b == "begin" => (s, self.subproof("end")?),
                            x => return Err(format!("unexpected {x:?}")),
                        }
                    }
                };
                if t[0] == "red" {
                    Step::Red(c, sub, els)
                } else {
                    Step::Dom(c, sub, els)
                }
            }
            "del" => match t.get(1).map(String::as_str) {
                Some("id") => {
                    let p = t.iter().position(|x| x == ";").unwrap_or(t.len());
                    let ids = Self::ids(&t[2..p])?;
                    if ids.is_empty() {
                        return Err("deletion without ids".into());
                    }
                    let rest: Vec<&str> = t[(p + 1).min(t.len())..].iter().map(String::as_str).collect();
                    match rest.as_slice() {
                        [] => Step::DelId(ids, vec![]),
                        [";", "begin"] => Step::DelId(ids, self.subproof("end")?),
                        x => return Err(format!("unexpected {x:?}")),
                    }
                }
                Some("spec") => {
                    if t.last().map(String::as_str) != Some(";") {
                        return Err("del spec without ;".into());
                    }
                    Step::DelSpec(self.constr(&t[2..t.len() - 1])?)
                }
                Some("range") if t.len() == 4 => Step::DelRange(Self::id(&t[2])?, Self::id(&t[3])?),
                _ => return Err("malformed deletion".into()),
            },
            "delc" if t.len() > 1 => Step::DelC(Self::ids(&t[1..])?),
            "deld" if t.len() > 1 => Step::DelD(Self::ids(&t[1..])?),
            "obju" => {
                let p = t.iter().position(|x| x == ";").ok_or("no ;")?;
                match t.get(1).map(String::as_str) {
                    Some("new") => {
                        let o = self.objective(&t[2..p])?;
                        match &t[p + 1..] {
                            [] => Step::ObjuNew(o, vec![]),
                            [b] if b == "begin" => Step::ObjuNew(o, self.subproof("end")?),
                            x => return Err(format!("unexpected {x:?}")),
                        }
                    }
                    Some("diff") if p + 1 == t.len() => Step::ObjuDiff(self.objective(&t[2..p])?),
                    _ => return Err("malformed objective update".into()),
                }
            }
            "core" => match t.get(1).map(String::as_str) {
                Some("id") if t.len() > 2 => Step::CoreId(Self::ids(&t[2..])?),
                Some("range") if t.len() == 4 => Step::CoreRange(Self::id(&t[2])?, Self::id(&t[3])?),
                _ => return Err("malformed core step".into()),
            },
            "sol" => Step::Sol(self.lits(&t[1..])?),
            "solx" => Step::Solx(self.lits(&t[1..])?),
            "soli" => Step::Soli(self.lits(&t[1..])?),
            "output" => Step::Output(t[1..].join(" ")),
            "conclusion" => Step::Conclusion(t[1..].join(" ")),
            "end" => {
                if t != ["end", "pseudo-Boolean", "proof"] {
                    return Err("malformed end".into());
                }
                self.ended = true;
                Step::End
            }
            "e" => {
                let (c, i) = self.with_id(t)?;
                Step::E(c, i)
            }
            "ea" => {
                let (c, i) = self.with_id(t)?;
                Step::Ea(c, i)
            }
            "i" => {
                let (c, i) = self.with_id(t)?;
                Step::I(c, i)
            }
            "ia" => {
                let (c, i) = self.with_id(t)?;
                Step::Ia(c, i)
            }
            "eobj" => {
                if t.last().map(String::as_str) != Some(";") {
                    return Err("eobj without ;".into());
                }
                Step::Eobj(self.objective(&t[1..t.len() - 1])?)
            }
            "#" => Step::Level(Self::num(t)?),
            "w" => Step::Wipe(Self::num(t)?),
            "def_order" => Step::Order(self.order(t)?),
            "load_order" if t.len() > 1 => Step::LoadOrder(t[1].clone(), t[2..].to_vec()),
            "strengthening_to_core" if t.len() == 2 && (t[1] == "on" || t[1] == "off") => Step::S2c(t[1] == "on"),
            x if t.get(1).map(String::as_str) == Some("->") && is_var(x) => Step::Subst(self.subst(t)?),
            _ => return Err("unknown rule".into()),
        })
    }
}

/// number of identifiers a step takes
pub fn ids_taken(s: &Step) -> usize {
    let els = |v: &[SubEl]| -> usize {
        v.iter()
            .map(|e| match e {
                SubEl::Der(_) => 1,
                SubEl::Goal(_, d, _) => 1 + d.len(),
            })
            .sum()
    };
    let sub = |v: &[SubEl]| if v.is_empty() { 0 } else { 1 + els(v) };
    match s {
        Step::Der(_) | Step::Solx(_) | Step::Soli(_) | Step::Ea(..) | Step::Ia(..) => 1,
        Step::Red(_, _, v) | Step::Dom(_, _, v) => 1 + sub(v),
        Step::DelId(_, v) => sub(v),
        // there is no negated constraint
        Step::ObjuNew(_, v) => els(v),
        _ => 0,
    }
}

/// The checker for the rules used by encodings
pub struct Checker {
    pub parser: Parser,
    pub db: HashMap<usize, Constr>,
    occ: HashMap<u32, Vec<usize>>,
    pub next_id: usize,
    formula: usize,
    seen_f: bool,
    pub steps: HashMap<&'static str, u64>,
    pub concluded: Option<String>,
}

impl Checker {
    /// a checker that has read the given input constraints; variables are named `x<n>`
    pub fn new(formula: Vec<Constr>, names: Names) -> Self {
        let mut c = Checker { parser: Parser { names, ..Parser::default() }, db: HashMap::new(), occ: HashMap::new(), next_id: 1, formula: formula.len(), seen_f: false, steps: HashMap::new(), concluded: None };
        for f in formula {
            c.insert(f);
        }
        c
    }
    fn insert(&mut self, c: Constr) -> usize {
        let id = self.next_id;
        self.next_id += 1;
        for &v in c.terms.keys() {
            self.occ.entry(v).or_default().push(id);
        }
        self.db.insert(id, c);
        id
    }
    fn resolve(&self, i: &IdRef) -> P<usize> {
        let id = match i {
            IdRef::Abs(i) => *i,
            IdRef::Rel(i) => self.next_id.checked_sub(*i).filter(|x| *x > 0).ok_or(format!("relative id -{i} out of range"))?,
        };
        Ok(id)
    }
    fn get(&self, i: &IdRef) -> P<&Constr> {
        let id = self.resolve(i)?;
        self.db.get(&id).ok_or(format!("constraint {id} is not in the database (next id {})", self.next_id))
    }
    pub fn pol(&self, ops: &[Op]) -> P<Constr> {
        let mut st: Vec<Constr> = vec![];
        for o in ops {
            match o {
                Op::Id(i) => st.push(self.get(i)?.clone()),
                Op::Ax(v, n) => {
                    let mut c = Constr::default();
                    c.add_lit(1, *v, *n);
                    st.push(c)
                }
                Op::Add => {
                    let b = st.pop().ok_or("empty stack")?;
                    let a = st.pop().ok_or("empty stack")?;
                    st.push(a.add(&b));
                }
                Op::Mul(k) => {
                    let a = st.pop().ok_or("empty stack")?;
                    if *k < 0 {
                        return Err("negative factor".into());
                    }
                    st.push(a.mul(*k));
                }
                Op::Div(k) => {
                    let a = st.pop().ok_or("empty stack")?;
                    if *k <= 0 {
                        return Err("divisor not positive".into());
                    }
                    st.push(a.div(*k));
                }
                Op::Sat => {
                    let a = st.pop().ok_or("empty stack")?;
                    st.push(a.saturate());
                }
                Op::Weak => return Err("weakening without a variable".into()),
            }
        }
        if st.len() != 1 {
            return Err(format!("{} constraints left on the stack", st.len()));
        }
        Ok(st.pop().unwrap())
    }
    /// reverse unit propagation of `c` from the constraints `use_ids` (all if `None`)
    pub fn rup(&self, c: &Constr, hints: Option<&[usize]>, extra: &[&Constr]) -> bool {
        let neg = c.negate();
        let mut cs: Vec<&Constr> = vec![&neg];
        cs.extend_from_slice(extra);
        match hints {
            Some(h) => cs.extend(h.iter().filter_map(|i| self.db.get(i))),
            None => cs.extend(self.db.values()),
        }
        let mut val: HashMap<u32, bool> = HashMap::new();
        loop {
            let mut changed = false;
            for c in &cs {
                let mut slack = -c.ndeg();
                for (v, &co) in &c.terms {
                    match val.get(v) {
                        Some(&b) if b != (co > 0) => {}
                        _ => slack += co.abs(),
                    }
                }
                if slack < 0 {
                    return true;
                }
                for (v, &co) in &c.terms {
                    if co.abs() > slack && !val.contains_key(v) {
                        val.insert(*v, co > 0);
                        changed = true;
                    }
                }
            }
            if !changed {
                return false;
            }
        }
    }
    fn derive(&mut self, d: &Der) -> P<usize> {
        let c = match d {
            Der::Pol(ops) => self.pol(ops)?,
            Der::Rup(c, hints) => {
                let hints = hints.iter().map(|h| self.resolve(h)).collect::<P<Vec<_>>>()?;
                if let Some(h) = hints.iter().find(|h| !self.db.contains_key(h)) {
                    return Err(format!("hint {h} is not in the database"));
                }
                let h = if hints.is_empty() { None } else { Some(hints.as_slice()) };
                if !self.rup(c, h, &[]) {
                    return Err("not implied by reverse unit propagation".into());
                }
                c.clone()
            }
        };
        Ok(self.insert(c))
    }
    fn remove(&mut self, id: usize) -> P<()> {
        let c = self.db.remove(&id).ok_or(format!("deleted constraint {id} is not in the database"))?;
        for v in c.terms.keys() {
            if let Some(o) = self.occ.get_mut(v) {
                o.retain(|i| *i != id);
            }
        }
        Ok(())
    }
    /// redundance based strengthening
    fn red(&mut self, c: &Constr, w: &BTreeMap<u32, Sub>, els: &[SubEl]) -> P<()> {
        let w: HashMap<u32, Sub> = w.iter().map(|(k, v)| (*k, v.clone())).collect();
        let neg = c.negate();
        let mut temp = vec![];
        let mut proved_goal = false;
        let mut proved: Vec<usize> = vec![];
        // goals are about the database as it is before the step
        let mut affected: Vec<usize> = w.keys().flat_map(|v| self.occ.get(v).cloned().unwrap_or_default()).collect();
        affected.sort_unstable();
        affected.dedup();
        if !els.is_empty() {
            temp.push(self.insert(neg.clone()));
            for e in els {
                match e {
                    SubEl::Der(d) => temp.push(self.derive(d)?),
                    SubEl::Goal(g, ders, qed) => {
                        let goal = match g {
                            GoalId::Spec(1) => c.substitute(&w),
                            GoalId::Spec(k) => return Err(format!("there is no proof goal #{k}")),
                            GoalId::Constr(i) => {
                                let id = self.resolve(i)?;
                                if !affected.contains(&id) {
                                    return Err(format!("constraint {id} is no proof goal"));
                                }
                                self.db[&id].substitute(&w)
                            }
                        };
                        let mut local = vec![self.insert(goal.negate())];
                        for d in ders {
                            local.push(self.derive(d)?);
                        }
                        let contra = match qed.as_str() {
                            "" => local.iter().any(|i| self.db[i].contradiction()) || self.rup(&Constr { deg: 1, ..Constr::default() }, None, &[]),
                            q => self.get(&Parser::id(q)?)?.contradiction(),
                        };
                        if !contra {
                            return Err(format!("proof goal {g:?} is not proved: {:?} is no contradiction", self.db.get(local.last().unwrap())));
                        }
                        for l in local {
                            self.remove(l)?;
                        }
                        match g {
                            GoalId::Spec(_) => proved_goal = true,
                            GoalId::Constr(i) => proved.push(match i {
                                IdRef::Abs(i) => *i,
                                IdRef::Rel(_) => return Err("relative id of a proof goal".into()),
                            }),
                        }
                    }
                }
            }
        }
        let auto = |s: &Self, g: &Constr| g.trivial() || neg.syntactically_implies(g) || s.rup(g, None, &[&neg]);
        if !proved_goal {
            let g = c.substitute(&w);
            if !auto(self, &g) {
                return Err(format!("the substituted constraint {g:?} cannot be proved"));
            }
        }
        for a in affected {
            if proved.contains(&a) {
                continue;
            }
            let d = self.db[&a].clone();
            let g = d.substitute(&w);
            if g == d || d.syntactically_implies(&g) || auto(self, &g) {
                continue;
            }
            return Err(format!("proof goal for constraint {a} {d:?} cannot be proved"));
        }
        for t in temp {
            self.remove(t)?;
        }
        self.insert(c.clone());
        Ok(())
    }
    fn count(&mut self, n: &'static str) {
        *self.steps.entry(n).or_insert(0) += 1;
    }
    /// checks everything written since the last call
    pub fn check(&mut self, text: &str) -> P<()> {
        self.parser.feed(text);
        while let Some((s, line)) = self.parser.next()? {
            let short: String = line.chars().take(400).collect();
            self.one(&s).map_err(|e| format!("step {short:?}: {e}"))?;
        }
        Ok(())
    }
    fn one(&mut self, s: &Step) -> P<()> {
        match s {
            Step::F(n) => {
                self.count("f");
                if *n != self.formula {
                    return Err(format!("{n} constraints announced, the formula has {}", self.formula));
                }
                self.seen_f = true;
            }
            Step::Comment(_) => self.count("comment"),
            Step::Der(d) => {
                self.count(if matches!(d, Der::Rup(..)) { "rup" } else { "pol" });
                self.derive(d)?;
            }
            Step::Red(c, w, els) => {
                self.count("red");
                self.red(c, w, els)?;
            }
            Step::DelId(ids, els) if els.is_empty() => {
                self.count("del");
                let ids = ids.iter().map(|i| self.resolve(i)).collect::<P<Vec<_>>>()?;
                for i in ids {
                    if i <= self.formula {
                        return Err(format!("deletes the input constraint {i}"));
                    }
                    self.remove(i)?;
                }
            }
            Step::E(c, id) | Step::Ea(c, id) => {
                self.count("e");
                match id {
                    Some(i) => {
                        let d = self.get(i)?;
                        if d != c {
                            return Err(format!("constraint {i:?} is {d:?}, not {c:?}"));
                        }
                    }
                    None => {
                        if !self.db.values().any(|d| d == c) {
                            return Err("no such constraint".into());
                        }
                    }
                }
                if matches!(s, Step::Ea(..)) {
                    self.insert(c.clone());
                }
            }
            Step::I(c, id) | Step::Ia(c, id) => {
                self.count("i");
                let ok = match id {
                    Some(i) => self.get(i)?.syntactically_implies(c),
                    None => self.db.values().any(|d| d.syntactically_implies(c)),
                };
                if !ok {
                    return Err("not implied".into());
                }
                if matches!(s, Step::Ia(..)) {
                    self.insert(c.clone());
                }
            }
            Step::Output(_) => self.count("output"),
            Step::Conclusion(c) => {
                self.count("conclusion");
                self.concluded = Some(c.clone());
            }
            Step::End => {
                if self.concluded.is_none() {
                    return Err("end without conclusion".into());
                }
            }
            s => return Err(format!("unsupported step {s:?}")),
        }
        Ok(())
    }
}
