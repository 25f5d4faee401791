//! Monitors for the Python bindings (C26): a Python process executes random programs over the
//! extension module; what the programs observe is compared with Python's own lists and integers,
//! and the encodings are judged as for the Rust interface
use crate::enc::*;
use crate::m_enc::*;
use serde_json::Value;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::ops::Bound;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use vcore::oracle::{assumps, lit_true, Sat};
use vcore::{check, check_eq, fail, Case, Fail, Prop, Res, Rng, Sub};

struct Py {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    next: usize,
    calls: u64,
    dead: bool,
}
thread_local! {
    static PY: RefCell<Option<Rc<RefCell<Py>>>> = const { RefCell::new(None) };
}
fn spawn() -> Py {
    let mut child = Command::new("python3")
        .arg(std::env::var_os("VH_PYDRV").expect("VH_PYDRV names the driver"))
        .env("PYTHONPATH", std::env::var_os("VH_PY").expect("VH_PY names the package's directory"))
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("PYTHONMALLOC", "debug")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("harness/ python starts");
    let inp = child.stdin.take().unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    Py { child, inp, out, next: 0, calls: 0, dead: false }
}
fn py() -> Rc<RefCell<Py>> {
    PY.with(|d| {
        let mut d = d.borrow_mut();
        if d.as_ref().is_none_or(|x| x.borrow().dead) {
            *d = Some(Rc::new(RefCell::new(spawn())));
        }
        d.as_ref().unwrap().clone()
    })
}
impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Py {
    fn line(&mut self, line: &str) -> Value {
        assert!(!self.dead, "the interpreter died in an earlier call");
        self.calls += 1;
        let mut ans = String::new();
        let ok = writeln!(self.inp, "{line}").and_then(|()| self.inp.flush()).is_ok() && self.out.read_line(&mut ans).is_ok_and(|n| n > 0) && ans.ends_with('\n');
        if !ok {
            self.dead = true;
            let _ = self.child.kill();
            let st = self.child.wait();
            panic!("the interpreter died in `{line}`: {st:?}");
        }
        serde_json::from_str(&ans).expect("harness/ driver prints JSON")
    }
    fn name(&mut self) -> String {
        self.next += 1;
        format!("o{}", self.next)
    }
}
fn show(v: &Value) -> String {
    v.to_string().chars().take(300).collect()
}
/// evaluates a line; a Rust panic surfacing in Python is a violation
fn ev(c: &mut Case, line: &str) -> Result<Value, Fail> {
    c.log(format!("  {line}"));
    let p = py();
    let v = c.run("python", || p.borrow_mut().line(line))?;
    check!(v["e"] != "PanicException", "panic", "`{line}` panics: {}", v["m"]);
    check!(v["e"] != "SystemError" && v["e"] != "MemoryError", "system-error", "`{line}` fails: {v}");
    Ok(v)
}
/// evaluates a line that has to succeed
fn ok(c: &mut Case, line: &str) -> Result<Value, Fail> {
    let v = ev(c, line)?;
    check!(v.get("e").is_none(), "exception", "`{line}` raises {}: {}", v["e"], v["m"]);
    Ok(v)
}
fn ints(v: &Value, key: &str) -> Option<Vec<i32>> {
    v.get(key)?.as_array()?.iter().map(|x| x.as_i64().and_then(|x| i32::try_from(x).ok())).collect()
}
fn cls(v: &Value) -> Option<Vec<Vec<i32>>> {
    v.get("f")?.as_array()?.iter().map(|x| x.as_array()?.iter().map(|x| x.as_i64().and_then(|x| i32::try_from(x).ok())).collect()).collect()
}

// ---------------------------------------------------------------------------------------------
// Encodings
// ---------------------------------------------------------------------------------------------
const TY: [&str; 4] = ["card.Totalizer", "pb.GeneralizedTotalizer", "pb.BinaryAdder", "pb.DynamicPolyWatchdog"];
struct PEnc {
    p: Rc<RefCell<Py>>,
    name: String,
    kind: usize,
    total: usize,
    n: usize,
}
impl PEnc {
    fn ev(&self, line: &str) -> Value {
        let v = self.p.borrow_mut().line(line);
        assert!(v["e"] != "PanicException", "`{line}` panics: {}", v["m"]);
        v
    }
    fn ok(&self, line: &str) -> Value {
        let v = self.ev(line);
        assert!(v.get("e").is_none(), "`{line}` raises {}: {}", v["e"], v["m"]);
        v
    }
    fn list(&self, lits: &[(i32, usize)]) -> String {
        if self.kind == 0 {
            format!("L({:?})", lits.iter().map(|x| x.0).collect::<Vec<_>>())
        } else {
            format!("W({lits:?})")
        }
    }
    fn grown(&mut self, lits: &[(i32, usize)]) {
        self.total += lits.iter().map(|x| x.1).sum::<usize>();
        self.n += lits.len();
        let o = &self.name;
        if self.kind == 0 {
            assert_eq!(self.ok(&format!("{o}.n_lits()")), self.n, "n_lits()");
        } else {
            assert_eq!(self.ok(&format!("{o}.weight_sum()")), self.total, "weight_sum()");
        }
    }
}
fn make(kind: usize, lits: &[(i32, usize)]) -> Box<dyn DynEnc> {
    let p = py();
    let name = p.borrow_mut().name();
    let mut e = PEnc { p, name, kind, total: 0, n: 0 };
    // what the constructor takes and what is added afterwards
    let k = if kind == 3 { lits.len() } else { lits.iter().map(|x| x.0.unsigned_abs() as usize).sum::<usize>() % (lits.len() + 1) };
    let (a, b) = lits.split_at(k);
    let o = e.name.clone();
    if a.is_empty() {
        e.ok(&format!("{o} = {}()", TY[kind]));
    } else {
        let l = e.list(a);
        e.ok(&format!("{o} = {}({})", TY[kind], if k % 2 == 0 { l } else { format!("lits={l}") }));
    }
    e.grown(a);
    if !b.is_empty() {
        e.extend(b);
    }
    Box::new(e)
}
impl Drop for PEnc {
    fn drop(&mut self) {
        if !self.p.borrow().dead {
            let n = self.name.clone();
            self.p.borrow_mut().line(&format!("del {n}"));
        }
    }
}
fn append(v: &Value, col: &mut Col, vm: &mut Vm) {
    use rustsat::instances::ManageVars;
    let cs = cls(&v["a"][0]).unwrap_or_else(|| panic!("not a CNF: {}", show(v)));
    let n = v["a"][1].as_u64().expect("number of used variables") as u32;
    col.cls.extend(cs);
    assert!(n >= vm.n_used(), "variable count decreased from {} to {n}", vm.n_used());
    while vm.n_used() < n {
        vm.new_var();
    }
}
impl DynEnc for PEnc {
    fn name(&self) -> &'static str {
        "py"
    }
    fn kinds(&self) -> &'static [Kind] {
        if matches!(self.kind, 0 | 2) {
            BOTH
        } else {
            UB
        }
    }
    fn incremental(&self) -> bool {
        true
    }
    fn extendable(&self) -> bool {
        self.kind != 3
    }
    fn is_card(&self) -> bool {
        self.kind == 0
    }
    fn extend(&mut self, lits: &[(i32, usize)]) {
        let l = self.list(lits);
        let o = &self.name;
        self.ok(&format!("{o}.extend({l})"));
        self.grown(lits);
    }
    fn encode(&mut self, k: Kind, _change: bool, r: Range, col: &mut Col, vm: &mut Vm) {
        use rustsat::instances::ManageVars;
        let lo = match r.0 {
            Bound::Included(x) => x,
            Bound::Excluded(x) => x + 1,
            Bound::Unbounded => 0,
        };
        let hi = match r.1 {
            Bound::Included(x) => x,
            Bound::Excluded(0) => return,
            Bound::Excluded(x) => x - 1,
            Bound::Unbounded => usize::MAX,
        };
        let f = match k {
            Kind::Ub => "ub",
            Kind::Lb => "lb",
            Kind::Both => "both",
        };
        let o = &self.name;
        let n = vm.n_used();
        let mgr = match n % 3 {
            0 => format!("VarManager({n})"),
            1 => format!("VarManager(n_used={n})"),
            _ => format!("(lambda v: [v, v.increase_used({n})][0])(VarManager())"),
        };
        let v = self.ok(&format!("(lambda vm: [{o}.encode_{f}({lo}, {hi}, vm), vm.n_used()])({mgr})"));
        append(&v, col, vm);
    }
    fn enforce(&self, k: Kind, b: usize) -> Result<Vec<i32>, EErr> {
        let f = match k {
            Kind::Ub => "ub",
            Kind::Lb => "lb",
            Kind::Both => "eq",
        };
        let o = &self.name;
        let v = self.ev(&format!("{o}.enforce_{f}({b})"));
        match v["e"].as_str() {
            Some("RuntimeError") => Err(EErr::NotEncoded),
            Some("ValueError") => Err(EErr::Unsat),
            Some(e) => panic!("enforcing raises {e}: {}", v["m"]),
            None => Ok(v["a"].as_array().expect("a list").iter().map(|x| x["l"].as_i64().expect("a literal") as i32).collect()),
        }
    }
    fn reserve(&mut self, _vm: &mut Vm) {}
    fn stats(&self) -> Option<(usize, u32)> {
        let o = &self.name;
        let v = self.ok(&format!("[{o}.n_clauses(), {o}.n_vars()]"));
        Some((v["a"][0].as_u64().unwrap() as usize, v["a"][1].as_u64().unwrap() as u32))
    }
    fn total(&self) -> usize {
        self.total
    }
    fn next_higher(&self, v: usize) -> usize {
        v + 1
    }
    fn next_lower(&self, v: usize) -> usize {
        v - 1
    }
    fn coarse(&self, _k: Kind, b: usize) -> usize {
        b
    }
}
const BOTH: &[Kind] = &[Kind::Ub, Kind::Lb, Kind::Both];
const UB: &[Kind] = &[Kind::Ub];
static MAKERS: [Maker; 4] = [
    Maker { name: "py/Totalizer", kinds: BOTH, incremental: true, extendable: true, card: true, make: |l| make(0, l) },
    Maker { name: "py/Gte", kinds: UB, incremental: true, extendable: true, card: false, make: |l| make(1, l) },
    Maker { name: "py/BinaryAdder", kinds: BOTH, incremental: true, extendable: true, card: false, make: |l| make(2, l) },
    Maker { name: "py/Dpw", kinds: UB, incremental: true, extendable: false, card: false, make: |l| make(3, l) },
];
fn pick(c: &Case) -> &'static Maker {
    &MAKERS[c.idx as usize % 4]
}
fn am1(c: &mut Case) -> Res {
    const AM1: [&str; 5] = ["Pairwise", "Ladder", "Bitwise", "Commander", "Bimander"];
    let name = AM1[c.idx as usize % 5];
    let round = c.idx as usize / 5;
    let n = if round < 20 { round } else { c.rng.us(0, 24) };
    let nin = (n + c.rng.below(3)).max(1);
    let lits = c.rng.distinct_lits(nin, n);
    c.log(format!("{name} {lits:?}"));
    ok(c, &format!("e = am1.{name}({})", if n == 0 { String::new() } else { format!("L({lits:?})") }))?;
    let used = nin + c.rng.below(3);
    let mut vm = Vm::new(used);
    let mut col = Col::default();
    let v = ok(c, &format!("(lambda vm: [e.encode(vm), vm.n_used()])(VarManager({used}))"))?;
    c.run("result", || append(&v, &mut col, &mut vm))?;
    let st = ok(c, "[e.n_lits(), e.n_clauses(), e.n_vars()]")?;
    check_eq!(st["a"][0], n, "am1-n-lits", "n_lits()");
    check_eq!(st["a"][1], col.cls.len(), "am1-n-clauses", "n_clauses()");
    check_eq!(st["a"][2], vm.out.len(), "am1-n-vars", "n_vars()");
    for cl in &col.cls {
        for l in cl {
            check!(vm.out.contains(&l.abs()) || lits.iter().any(|x| x.abs() == l.abs()), "foreign", "{name}: clause {cl:?} uses a foreign variable");
        }
    }
    let mut sat = Sat::from_clauses(&col.cls);
    let base: u64 = lits.iter().filter(|l| **l < 0).map(|l| 1u64 << (l.unsigned_abs() - 1)).sum();
    let bit = |l: i32| 1u64 << (l.unsigned_abs() - 1);
    let mut alphas = all_alphas(&mut c.rng, nin, 200);
    alphas.push(base);
    for &a in &lits {
        alphas.push(base ^ bit(a));
        for &b in &lits {
            if b.abs() < a.abs() {
                alphas.push(base ^ bit(a) ^ bit(b));
            }
        }
    }
    for a in alphas {
        let t = lits.iter().filter(|&&l| lit_true(l, a)).count();
        let got = sat.solve(&assumps(a, nin));
        c.count("projections", 1);
        check!(got == (t <= 1), format!("{name}:{}", if got { "admits" } else { "excludes" }), "{t} of {n} literals true in {:?}: {}", assumps(a, nin), if got { "admitted" } else { "excluded" });
    }
    c.nontrivial(&format!("{name}|{lits:?}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Containers
// ---------------------------------------------------------------------------------------------
fn rlit(r: &mut Rng) -> i32 {
    if r.chance(1, 30) {
        let e = [i32::MAX, i32::MAX - 1, 1 << 30, 1000];
        let x = *r.pick(&e);
        if r.bool() {
            x
        } else {
            -x
        }
    } else {
        r.lit(6)
    }
}
fn rlits(r: &mut Rng) -> Vec<i32> {
    let n = r.below(5);
    (0..n).map(|_| rlit(r)).collect()
}
/// an index or a slice, as Python source
fn rindex(r: &mut Rng, len: usize) -> String {
    let n = len as i64;
    let mut one = |r: &mut Rng| -> String {
        match r.below(12) {
            0 => "2**31".into(),
            1 => "-2**31-1".into(),
            2 => "2**63-1".into(),
            3 => "-2**63".into(),
            4 => "10**30".into(),
            5 => "-10**30".into(),
            _ => r.range(-n - 2, n + 2).to_string(),
        }
    };
    match r.below(10) {
        0..=4 => one(r),
        5 => "True".into(),
        _ => {
            let mut part = |r: &mut Rng| if r.chance(1, 3) { String::new() } else { one(r) };
            let (a, b) = (part(r), part(r));
            if r.bool() {
                format!("{a}:{b}")
            } else {
                let mut s = one(r);
                if s == "0" {
                    s = if r.bool() { "-1".into() } else { "2".into() };
                }
                if r.chance(1, 20) {
                    s = "0".into();
                }
                format!("{a}:{b}:{s}")
            }
        }
    }
}
struct It {
    name: String,
    of: usize,
    pos: usize,
    /// the container was not touched since the iterator was made / it was, and no newer iterator
    /// exists / unknown
    state: Option<bool>,
    done: bool,
}
/// what is claimed of `next(it)`, given the items
fn step(c: &mut Case, it: &mut It, items: &[Value]) -> Res {
    let v = ev(c, &format!("next({})", it.name))?;
    let exp = items.get(it.pos);
    if it.done {
        check!(it.state != Some(false) || v["e"] == "StopIteration", "iter-after-end", "an exhausted iterator gives {v}");
        return Ok(());
    }
    let is_stale = v["e"] == "RuntimeError";
    match it.state {
        Some(true) => {
            check!(is_stale, "iter-modified", "iterating over a modified container gives {v}");
            c.count("modifications detected", 1);
            return Ok(());
        }
        None if is_stale => return Ok(()),
        _ => (),
    }
    match exp {
        Some(x) => check!(v == *x, "iter-item", "item {} is {v}, expected {x}", it.pos),
        None => {
            check_eq!(v["e"], "StopIteration", "iter-end", "after {} items", it.pos);
            it.done = true;
            return Ok(());
        }
    }
    it.pos += 1;
    Ok(())
}
fn touched(its: &mut [It], of: usize, surely: bool) {
    for i in its.iter_mut().filter(|i| i.of == of) {
        i.state = match i.state {
            Some(true) => Some(true),
            Some(false) if surely => Some(true),
            _ => None,
        };
    }
}
fn renewed(its: &mut [It], of: usize) {
    // whether an older iterator still notices earlier modifications is open
    for i in its.iter_mut().filter(|i| i.of == of) {
        if i.state == Some(true) {
            i.state = None;
        }
    }
}
fn jl(l: i32) -> Value {
    serde_json::json!({ "l": l })
}
fn jc(cl: &[i32]) -> Value {
    serde_json::json!({ "c": cl })
}
fn same_set(a: &[i32], b: &[i32]) -> bool {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    a.sort_unstable();
    b.sort_unstable();
    a == b
}
/// the i-th item or slice, as Python's own lists have it
fn index(c: &mut Case, obj: &str, items: &str, len: usize, wrap: &str) -> Res {
    let ix = rindex(&mut c.rng, len);
    let want = ev(c, &format!("[{wrap}(x) for x in {items}][{ix}]"))?;
    let got = ev(c, &format!("{obj}[{ix}]"))?;
    c.count("indexings", 1);
    match want["e"].as_str() {
        Some(e) => check!(got["e"] == *e, "index-exception", "{obj}[{ix}] of {len} items gives {}, a list raises {e}", show(&got)),
        None => check!(got == want, "index", "{obj}[{ix}] gives {}, a list gives {}", show(&got), show(&want)),
    }
    Ok(())
}
fn read_clause(c: &mut Case, name: &str) -> Result<Vec<i32>, Fail> {
    let v = ok(c, name)?;
    match ints(&v, "c") {
        Some(x) => Ok(x),
        None => fail!("not-a-clause", "{name} is {}", show(&v)),
    }
}
fn clauses(c: &mut Case) -> Res {
    let n = 3;
    let mut cs: Vec<Vec<i32>> = vec![];
    let mut its: Vec<It> = vec![];
    for i in 0..n {
        let l = rlits(&mut c.rng);
        let arg = match c.rng.below(4) {
            0 => format!("tuple(L({l:?}))"),
            1 => format!("Clause(L({l:?}))"),
            _ => format!("L({l:?})"),
        };
        let name = if c.rng.bool() { "" } else { "lits=" };
        ok(c, &format!("c{i} = Clause({name}{arg})"))?;
        cs.push(l);
    }
    for _ in 0..c.rng.us(5, 30) {
        let i = c.rng.below(n);
        match c.rng.below(15) {
            0 => {
                let l = rlit(&mut c.rng);
                let v = ok(c, &format!("c{i}.add(Lit({l}))"))?;
                check!(v.is_null(), "add-value", "add gives {v}");
                cs[i].push(l);
                touched(&mut its, i, true);
            }
            1 | 2 => {
                let l = if cs[i].is_empty() || c.rng.chance(1, 3) { rlit(&mut c.rng) } else { *c.rng.pick(&cs[i]) };
                let all = c.rng.bool();
                let v = ok(c, &format!("c{i}.{}(Lit({l}))", if all { "remove_thorough" } else { "remove" }))?;
                let had = cs[i].contains(&l);
                check_eq!(v, had, "remove-value", "removing {l} from {:?}", cs[i]);
                let now = read_clause(c, &format!("c{i}"))?;
                let mut want = cs[i].clone();
                if all {
                    want.retain(|x| *x != l);
                } else if let Some(p) = want.iter().position(|x| *x == l) {
                    want.remove(p);
                }
                check!(same_set(&now, &want), "remove", "removing {l} from {:?} leaves {now:?}", cs[i]);
                cs[i] = now;
                touched(&mut its, i, had);
            }
            3 => {
                let l = rlits(&mut c.rng);
                let how = match c.rng.below(4) {
                    0 => format!("tuple(L({l:?}))"),
                    1 => format!("Clause(L({l:?}))"),
                    _ => format!("L({l:?})"),
                };
                ok(c, &format!("c{i}.extend({how})"))?;
                let any = !l.is_empty();
                cs[i].extend(l);
                touched(&mut its, i, any);
            }
            4 => {
                let v = ok(c, &format!("[len(c{i}), c{i}.is_unit(), c{i}.is_binary(), bool(c{i})]"))?;
                let l = cs[i].len();
                let want = serde_json::json!({"a": [l, l == 1, l == 2, l > 0]});
                check_eq!(v, want, "clause-size", "length, is_unit, is_binary, truth of {:?}", cs[i]);
            }
            5 | 6 => {
                let items = format!("{:?}", cs[i]);
                index(c, &format!("c{i}"), &items, cs[i].len(), "Lit")?;
            }
            7 => {
                let v = ok(c, &format!("list(c{i})"))?;
                let want = serde_json::json!({"a": cs[i].iter().map(|x| jl(*x)).collect::<Vec<_>>()});
                check_eq!(v, want, "clause-list", "items of {:?}", cs[i]);
                renewed(&mut its, i);
            }
            8 => {
                let j = c.rng.below(n);
                let v = ok(c, &format!("[c{i} == c{j}, c{i} != c{j}]"))?;
                let e = cs[i] == cs[j];
                // (order may or may not matter)
                if e || !same_set(&cs[i], &cs[j]) {
                    check_eq!(v, serde_json::json!({"a": [e, !e]}), "clause-eq", "{:?} and {:?}", cs[i], cs[j]);
                }
            }
            9 => {
                let l = rlit(&mut c.rng);
                let v = ok(c, &format!("[Lit({l}) in c{i}, [x.to_ipasir() for x in reversed(c{i})] == {:?}]", cs[i].iter().rev().collect::<Vec<_>>()))?;
                check_eq!(v, serde_json::json!({"a": [cs[i].contains(&l), true]}), "clause-contains", "{l} in {:?}, reversed", cs[i]);
                renewed(&mut its, i);
            }
            10 => {
                let name = format!("i{}", its.len());
                ok(c, &format!("{name} = iter(c{i})"))?;
                renewed(&mut its, i);
                its.push(It { name, of: i, pos: 0, state: Some(false), done: false });
            }
            11 => {
                // while it is being extended, other code looks at the clause
                let l = rlits(&mut c.rng);
                let act = ["next(it)", "len(c)", "c.add(Lit(1))", "list(c)", "c.extend(L([2]))", "c[0]", "c == c", "str(c)"][c.rng.below(8)];
                let act = act.replace("it", &format!("iter(c{i})")).replace("(c)", &format!("(c{i})")).replace("c.", &format!("c{i}.")).replace("c[", &format!("c{i}[")).replace("c == c", &format!("c{i} == c{i}"));
                let v = ev(c, &format!("c{i}.extend(Evil(L({l:?}), lambda: {act}))"))?;
                if v["e"].is_null() {
                    cs[i].extend(&l);
                }
                let now = read_clause(c, &format!("c{i}"))?;
                // (what the other code changed itself comes in addition)
                if !act.contains("add") && !act.contains("extend") {
                    check_eq!(now, cs[i], "evil-extend", "after extending by {l:?}");
                }
                cs[i] = now;
                for it in its.iter_mut().filter(|x| x.of == i) {
                    it.state = None;
                }
                c.count("re-entrant calls", 1);
            }
            _ => {
                if let Some(k) = (!its.is_empty()).then(|| c.rng.below(its.len())) {
                    let items: Vec<Value> = cs[its[k].of].iter().map(|x| jl(*x)).collect();
                    let mut it = its.swap_remove(k);
                    step(c, &mut it, &items)?;
                    its.push(it);
                }
            }
        }
        let j = c.rng.below(n);
        let v = read_clause(c, &format!("c{j}"))?;
        check_eq!(v, cs[j], "clause-content", "content of c{j}");
        c.count("states compared", 1);
    }
    let d = c.log_text().to_string();
    c.nontrivial(&d);
    Ok(())
}
fn cnfs(c: &mut Case) -> Res {
    let n = 2;
    let mut fs: Vec<Vec<Vec<i32>>> = vec![];
    let mut its: Vec<It> = vec![];
    for i in 0..n {
        let k = c.rng.below(4);
        let f: Vec<Vec<i32>> = (0..k).map(|_| rlits(&mut c.rng)).collect();
        let l = f.iter().map(|x| format!("Clause(L({x:?}))")).collect::<Vec<_>>().join(", ");
        let e = match c.rng.below(3) {
            _ if f.is_empty() => format!("f{i} = Cnf()"),
            0 => format!("f{i} = Cnf(clauses=[{l}])"),
            1 => format!("f{i} = Cnf(Cnf([{l}]))"),
            _ => format!("f{i} = Cnf([{l}])"),
        };
        ok(c, &e)?;
        fs.push(f);
    }
    ok(c, "c0 = Clause([])")?;
    let mut c0: Vec<i32> = vec![];
    for _ in 0..c.rng.us(5, 25) {
        let i = c.rng.below(n);
        match c.rng.below(15) {
            0 | 1 => {
                // the clause stays independent of the one in the formula
                ok(c, &format!("f{i}.add_clause(c0)"))?;
                fs[i].push(c0.clone());
                touched(&mut its, i, true);
            }
            2 => {
                let l = rlit(&mut c.rng);
                ok(c, &format!("c0.add(Lit({l}))"))?;
                c0.push(l);
            }
            3 => {
                ok(c, "c0 = Clause([])")?;
                c0.clear();
            }
            4 => {
                let ls: Vec<i32> = (0..3).map(|_| rlit(&mut c.rng)).collect();
                let (name, k) = [("add_unit", 1), ("add_binary", 2), ("add_ternary", 3)][c.rng.below(3)];
                let args = ls[..k].iter().map(|x| format!("Lit({x})")).collect::<Vec<_>>().join(", ");
                ok(c, &format!("f{i}.{name}({args})"))?;
                let v = ok(c, &format!("f{i}[-1]"))?;
                let got = ints(&v, "c").unwrap_or_default();
                check!(same_set(&got, &ls[..k]), "add-small", "{name} of {:?} adds {got:?}", &ls[..k]);
                fs[i].push(got);
                touched(&mut its, i, true);
            }
            5 | 6 => implication(c, i, &mut fs[i], &mut its)?,
            7 | 8 => {
                let items = format!("{:?}", fs[i]);
                index(c, &format!("f{i}"), &items, fs[i].len(), "(lambda y: Clause(L(y)))")?;
            }
            9 => {
                let v = ok(c, &format!("[len(f{i}), bool(f{i}), list(f{i})]"))?;
                let l = fs[i].len();
                let want = serde_json::json!({"a": [l, l > 0, {"a": fs[i].iter().map(|x| jc(x)).collect::<Vec<_>>()}]});
                check_eq!(v, want, "cnf-list", "length, truth, items");
                renewed(&mut its, i);
            }
            10 => {
                let v = ok(c, &format!("[f0 == f1, f0 != f1, f{i} == Cnf(f{i})]"))?;
                renewed(&mut its, i);
                let e = fs[0] == fs[1];
                if e || fs[0].len() != fs[1].len() {
                    check_eq!(v, serde_json::json!({"a": [e, !e, true]}), "cnf-eq", "{:?} and {:?}", fs[0], fs[1]);
                }
            }
            11 if !fs[i].is_empty() => {
                // what is got out is a copy
                let k = c.rng.below(fs[i].len());
                let l = rlit(&mut c.rng);
                ok(c, &format!("f{i}[{k}].add(Lit({l}))"))?;
            }
            12 => {
                let name = format!("i{}", its.len());
                ok(c, &format!("{name} = iter(f{i})"))?;
                renewed(&mut its, i);
                its.push(It { name, of: i, pos: 0, state: Some(false), done: false });
            }
            _ => {
                if let Some(k) = (!its.is_empty()).then(|| c.rng.below(its.len())) {
                    let items: Vec<Value> = fs[its[k].of].iter().map(|x| jc(x)).collect();
                    let mut it = its.swap_remove(k);
                    step(c, &mut it, &items)?;
                    its.push(it);
                }
            }
        }
        let v = ok(c, &format!("f{i}"))?;
        check!(cls(&v).is_some_and(|x| x == fs[i]), "cnf-content", "content of f{i} is {}, expected {:?}", show(&v), fs[i]);
        c.count("states compared", 1);
    }
    let d = c.log_text().to_string();
    c.nontrivial(&d);
    Ok(())
}
/// adds an implication: the clauses added are equivalent to it
fn implication(c: &mut Case, i: usize, f: &mut Vec<Vec<i32>>, its: &mut [It]) -> Res {
    let side = |r: &mut Rng| -> (usize, Vec<i32>) {
        let k = r.below(3);
        let n = if k == 0 { 1 } else { r.below(4) };
        (k, (0..n).map(|_| r.lit(5)).collect())
    };
    const N: [&str; 3] = ["lit", "clause", "cube"];
    let (ka, a) = side(&mut c.rng);
    let (kb, b) = side(&mut c.rng);
    let arg = |k: usize, l: &[i32]| if k == 0 { format!("Lit({})", l[0]) } else { format!("L({l:?})") };
    ok(c, &format!("f{i}.add_{}_impl_{}({}, {})", N[ka], N[kb], arg(ka, &a), arg(kb, &b)))?;
    let v = ok(c, &format!("f{i}"))?;
    let Some(now) = cls(&v) else { fail!("not-a-cnf", "{}", show(&v)) };
    check!(now.len() >= f.len() && now[..f.len()] == f[..], "impl-prefix", "earlier clauses changed: {f:?} became {now:?}");
    let new = &now[f.len()..];
    let ev = |k: usize, l: &[i32], x: u64| if k == 1 { l.iter().any(|y| lit_true(*y, x)) } else { l.iter().all(|y| lit_true(*y, x)) };
    for x in 0..32u64 {
        let want = !ev(ka, &a, x) || ev(kb, &b, x);
        let got = new.iter().all(|cl| cl.iter().any(|y| lit_true(*y, x)));
        check!(got == want, format!("impl:{}-{}", N[ka], N[kb]), "{} {a:?} -> {} {b:?} is encoded as {new:?}, wrong for {x:b}", N[ka], N[kb]);
    }
    c.count("implications", 1);
    let any = !new.is_empty();
    *f = now;
    touched(its, i, any);
    Ok(())
}
/// literals and variable managers
fn basics(c: &mut Case) -> Res {
    for _ in 0..c.rng.us(2, 10) {
        let (a, b) = (rlit(&mut c.rng), if c.rng.chance(1, 4) { i32::MIN } else { rlit(&mut c.rng) });
        let v = ok(c, &format!("(lambda a, b: [a.to_ipasir(), -a, -(-a) == a, a == -a, a == b, a != b, not a == b or hash(a) == hash(b), (a < b) + (a == b) + (a > b), (a <= b) == (not b < a), (a >= b) == (not a < b)])(Lit({a}), Lit({b}))"))?;
        let e = a == b;
        check_eq!(v, serde_json::json!({"a": [a, {"l": -a}, true, false, e, !e, true, 1, true, true]}), "lit", "literals {a} and {b}");
        let v = ok(c, &format!("[str(Lit({a})), repr(Lit({a}))]"))?;
        let want = format!("{}x{}", if a < 0 { "~" } else { "" }, a.unsigned_abs() - 1);
        check_eq!(v, serde_json::json!({"a": [{"s": want}, {"s": want}]}), "lit-str", "literal {a}");
        let v = ev(c, &format!("Lit({b}).to_ipasir()"))?;
        check!(v == b || v.get("e").is_some(), "lit-roundtrip", "literal {b} comes back as {v}");
        c.count("literals", 2);
    }
    let bad = ["0", "2**31", "-2**31-1", "10**20", "None", "'1'", "1.5", "[1]", "Lit(1)"];
    let x = *c.rng.pick(&bad);
    let v = ev(c, &format!("Lit({x})"))?;
    check!(v.get("e").is_some(), "lit-invalid", "Lit({x}) gives {v}");
    // managers
    let mut n = if c.rng.chance(1, 4) { 0 } else { c.rng.below(50) as u32 };
    if c.rng.chance(1, 6) {
        n = (1 << 31) - 20;
    }
    ok(c, &if n == 0 { "vm = VarManager()".to_string() } else { format!("vm = VarManager({n})") })?;
    for _ in 0..c.rng.us(1, 12) {
        match c.rng.below(4) {
            0 | 1 => {
                let v = ok(c, "vm.new_var()")?;
                n += 1;
                check_eq!(v, n, "new-var", "new variable of a manager with {} used", n - 1);
            }
            2 => {
                let m = if c.rng.bool() { c.rng.below(60) as u32 } else { n.saturating_sub(3) + c.rng.below(7) as u32 };
                let v = ok(c, &format!("vm.increase_used({m})"))?;
                check_eq!(v, m > n, "increase-used", "whether {n} was increased to {m}");
                n = n.max(m);
            }
            _ => {
                let x = *c.rng.pick(&["2**31", "2**32-1", "2**32", "-1", "None", "2.0", "10**30"]);
                let call = if c.rng.bool() { "vm.increase_used" } else { "VarManager" };
                let v = ev(c, &format!("{call}({x})"))?;
                check!(v.get("e").is_some(), "vm-invalid", "{x} used variables accepted: {v}");
            }
        }
        let v = ok(c, "vm.n_used()")?;
        check_eq!(v, n, "n-used", "used variables");
        c.count("states compared", 1);
    }
    let d = c.log_text().to_string();
    c.nontrivial(&d);
    Ok(())
}
/// calls with unsuitable arguments raise ordinary exceptions and change nothing
fn misuse(c: &mut Case) -> Res {
    let lits: Vec<i32> = rlits(&mut c.rng);
    let w: Vec<(i32, usize)> = (1..=c.rng.us(1, 4) as i32).map(|l| (l, c.rng.us(1, 9))).collect();
    ok(c, &format!("c0 = Clause(L({lits:?})); f0 = Cnf([c0]); vm = VarManager(10); t = card.Totalizer(L([1, 2, 3])); g = pb.GeneralizedTotalizer(W({w:?})); d = pb.DynamicPolyWatchdog(W({w:?})); a = pb.BinaryAdder(W({w:?})); p = am1.Ladder(L([1, 2, 3]))"))?;
    let vals = ["None", "0", "-1", "2**64", "-2**63", "1.5", "'ab'", "''", "[]", "[1]", "[None]", "L([1])", "W([(1, 2)])", "c0", "f0", "vm", "t", "Lit", "Lit(3)", "[Lit(1), 2]", "[(Lit(1), -1)]", "[(Lit(1), 2**64)]", "[(Lit(1),)]", "{1: 2}", "iter(L([1]))", "b'x'", "object()", "(x for x in L([1]))", "2**64-1", "slice(None)", "slice(None, 'a')", "slice(2**70, None, -1)", "Evil([1], lambda: 1)", "range(3)", "True"];
    let fns = [
        "Clause", "c0.add", "c0.remove", "c0.remove_thorough", "c0.extend", "c0.__getitem__", "Cnf", "f0.add_clause", "f0.add_unit", "f0.add_binary", "f0.__getitem__", "f0.add_lit_impl_clause", "f0.add_cube_impl_lit", "f0.add_clause_impl_cube", "card.Totalizer", "t.extend", "t.encode_ub", "t.enforce_ub", "t.enforce_lb", "t.enforce_eq", "t.encode_lb", "t.encode_both", "pb.GeneralizedTotalizer", "g.extend", "g.encode_ub", "g.enforce_ub", "pb.DynamicPolyWatchdog", "d.encode_ub", "d.enforce_ub", "pb.BinaryAdder", "a.extend", "a.encode_both", "a.enforce_lb", "am1.Bimander", "am1.Commander", "p.encode", "VarManager", "vm.increase_used", "Lit", "c0.__eq__", "Lit(1).__eq__", "Lit(1).__lt__",
    ];
    for _ in 0..c.rng.us(10, 40) {
        let f = *c.rng.pick(&fns);
        let k = match f {
            _ if f.contains(".encode_") => 3,
            _ if f.contains("impl") || f.contains("binary") => 2,
            _ => c.rng.us(0, 2).max(usize::from(c.rng.chance(3, 4))),
        };
        let mut args: Vec<&str> = (0..k).map(|_| *c.rng.pick(&vals)).collect();
        if f.contains(".encode") && c.rng.bool() {
            if let Some(l) = args.last_mut() {
                *l = "vm";
            }
        }
        let before = ok(c, "[c0, f0, vm.n_used(), t.n_lits(), g.weight_sum(), d.weight_sum(), a.weight_sum(), p.n_lits()]")?;
        let v = ev(c, &format!("{f}({})", args.join(", ")))?;
        if v.get("e").is_some() {
            c.count("refused calls", 1);
            let after = ok(c, "[c0, f0, vm.n_used(), t.n_lits(), g.weight_sum(), d.weight_sum(), a.weight_sum(), p.n_lits()]")?;
            check!(before == after, "refused-effect", "a refused call of {f} changed {} into {}", show(&before), show(&after));
        }
        c.count("calls", 1);
    }
    let d = c.log_text().to_string();
    c.nontrivial(&d);
    Ok(())
}

fn within(c: &mut Case, f: impl FnOnce(&mut Case) -> Res) -> Res {
    let d = py();
    if !d.borrow().dead {
        d.borrow_mut().line("RESET");
        d.borrow_mut().calls = 0;
    }
    let r = f(c);
    let n = std::mem::take(&mut d.borrow_mut().calls);
    c.count("lines executed by Python", n);
    r
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C26",
        "a Python interpreter loads the extension module built from the tree and executes random programs: containers are compared after every step with Python's own lists, iterators with the modifications made, literals and managers with integers, clauses added for implications by truth tables; encodings are judged by the projection oracles of C07-C11; calls with unsuitable arguments have to raise ordinary exceptions and change nothing; Rust panics and a dying interpreter are violations; distinct by program",
        vec![
            Sub::new("clauses", 2, |c| within(c, clauses)),
            Sub::new("cnfs", 2, |c| within(c, cnfs)),
            Sub::new("basics", 1, |c| within(c, basics)),
            Sub::new("misuse", 1, |c| within(c, misuse)),
            Sub::new("am1", 1, |c| within(c, am1)),
            Sub::new("scratch", 2, |c| within(c, |c| from_scratch_with(c, pick(c), Mode::Semantics))),
            Sub::new("history", 3, |c| within(c, |c| history_with(c, pick(c), Mode::Semantics))),
            Sub::new("audit", 1, |c| within(c, |c| history_with(c, pick(c), Mode::Audit))),
            Sub::new("repeated", 1, |c| within(c, |c| repeated_with(c, pick(c)))),
        ],
    )]
}
