//! Monitors of the command line tools: conversions, checker, enumerator, splitter (C24) and the
//! benchmark generators (C27). The binaries of the current tree are run as processes; what they
//! write is read by readers that share no code with the library and compared by brute force.
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use vcore::oracle::{clause_true, lit_true, unit_propagate, Sat};
use vcore::{check, check_eq, fail, Case, Fail, Prop, Res, Sub};

type Cl = Vec<i32>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Ge,
    Le,
    Eq,
}
#[derive(Clone, Debug)]
struct Lin {
    t: Vec<(i128, i32)>,
    op: Op,
    b: i128,
}
impl Lin {
    fn clause(c: &[i32]) -> Lin {
        Lin { t: c.iter().map(|&l| (1, l)).collect(), op: Op::Ge, b: 1 }
    }
    fn holds(&self, bits: u64) -> bool {
        let s: i128 = self.t.iter().filter(|x| lit_true(x.1, bits)).map(|x| x.0).sum();
        match self.op {
            Op::Ge => s >= self.b,
            Op::Le => s <= self.b,
            Op::Eq => s == self.b,
        }
    }
    /// the literals, if this is a clause
    fn as_clause(&self) -> Option<Cl> {
        (self.op == Op::Ge && self.b == 1 && self.t.iter().all(|x| x.0 == 1)).then(|| self.t.iter().map(|x| x.1).collect())
    }
}
/// sum of the weights of the clauses that are not satisfied
type Obj = Vec<(i128, Cl)>;
fn val(o: &Obj, bits: u64) -> i128 {
    o.iter().filter(|x| !clause_true(&x.1, bits)).map(|x| x.0).sum()
}
#[derive(Clone, Debug, Default)]
struct Inst {
    n: usize,
    cons: Vec<Lin>,
    objs: Vec<Obj>,
}
impl Inst {
    fn holds(&self, bits: u64) -> bool {
        self.cons.iter().all(|c| c.holds(bits))
    }
    fn vals(&self, bits: u64) -> Vec<i128> {
        self.objs.iter().map(|o| val(o, bits)).collect()
    }
    fn max_var(&self) -> usize {
        let a = self.cons.iter().flat_map(|c| c.t.iter().map(|x| x.1));
        let b = self.objs.iter().flatten().flat_map(|x| x.1.iter().copied());
        a.chain(b).map(|l| l.unsigned_abs() as usize).max().unwrap_or(0)
    }
    /// the largest variable with a term that does not cancel out
    fn max_sure(&self) -> usize {
        let lists = self.cons.iter().map(|k| k.t.clone()).chain(self.objs.iter().map(|o| o.iter().map(|x| (x.0, x.1[0])).collect()));
        let mut m = 0;
        for t in lists {
            for v in 1..=self.max_var() as i32 {
                let net: i128 = t.iter().filter(|x| x.1.abs() == v).map(|x| if x.1 < 0 { -x.0 } else { x.0 }).sum();
                if net != 0 {
                    m = m.max(v as usize);
                }
            }
        }
        m
    }
    fn used(&self) -> Vec<i32> {
        let a = self.cons.iter().flat_map(|c| c.t.iter().map(|x| x.1.abs()));
        let b = self.objs.iter().flatten().flat_map(|x| x.1.iter().map(|l| l.abs()));
        let mut v: Vec<i32> = a.chain(b).collect();
        v.sort_unstable();
        v.dedup();
        v
    }
}

// ---------------------------------------------------------------------------------------------
// processes

struct Out {
    code: Option<i32>,
    out: String,
    err: String,
}
impl Out {
    fn ok(&self) -> bool {
        self.code == Some(0)
    }
}
fn tool(name: &str) -> PathBuf {
    let dir = std::env::var_os("VH_TOOLS").expect("harness/: VH_TOOLS names the directory of the tools");
    PathBuf::from(dir).join(name)
}
fn run(c: &mut Case, name: &str, args: &[String], input: Option<&str>) -> Result<Out, Fail> {
    let dir = c.dir();
    let (po, pe) = (dir.join("stdout"), dir.join("stderr"));
    let mut cmd = Command::new(tool(name));
    cmd.args(args).current_dir(&dir).env_remove("RUST_BACKTRACE").env_remove("RUST_LIB_BACKTRACE");
    cmd.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() });
    cmd.stdout(std::fs::File::create(&po).unwrap()).stderr(std::fs::File::create(&pe).unwrap());
    c.log(format!("{name} {args:?}"));
    let mut p = cmd.spawn().unwrap_or_else(|e| panic!("harness/: {name} does not start: {e}"));
    if let Some(t) = input {
        let _ = p.stdin.take().unwrap().write_all(t.as_bytes());
    }
    let t0 = std::time::Instant::now();
    let st = loop {
        if let Some(s) = p.try_wait().unwrap() {
            break s;
        }
        let e = t0.elapsed();
        if e.as_secs() > 30 {
            let _ = p.kill();
            let _ = p.wait();
            fail!(format!("{name}:hang"), "{name} {args:?} does not end within 30 s; input {input:?}");
        }
        std::thread::sleep(std::time::Duration::from_micros(if e.as_millis() < 20 { 300 } else { 3000 }));
    };
    let rd = |p: &PathBuf| {
        let mut b = vec![];
        std::fs::File::open(p).unwrap().read_to_end(&mut b).unwrap();
        String::from_utf8_lossy(&b).into_owned()
    };
    let o = Out { code: st.code(), out: rd(&po), err: rd(&pe) };
    use std::os::unix::process::ExitStatusExt;
    check!(st.signal().is_none(), format!("{name}:crash"), "{name} {args:?} ended by a signal: {st:?}; input {input:?}: {}", o.err);
    c.count(&format!("runs of {name}"), 1);
    Ok(o)
}
fn panicked(o: &Out) -> bool {
    o.code == Some(101)
}

/// where the tool is to read from and to write to
struct Io {
    args: Vec<String>,
    input: Option<String>,
    out: Option<PathBuf>,
}
fn io(c: &mut Case, ext_in: &str, ext_out: &str, text: &str, may_stdin: bool) -> Io {
    let dir = c.dir();
    let mut args = vec![];
    if may_stdin && c.rng.chance(1, 3) {
        return Io { args, input: Some(text.into()), out: None };
    }
    let zip = c.rng.chance(1, 12);
    let p = dir.join(format!("in.{ext_in}{}", if zip { ".gz" } else { "" }));
    if zip {
        let mut e = flate2::write::GzEncoder::new(std::fs::File::create(&p).unwrap(), flate2::Compression::fast());
        e.write_all(text.as_bytes()).unwrap();
        e.finish().unwrap();
    } else {
        std::fs::write(&p, text).unwrap();
    }
    args.push(p.to_str().unwrap().to_string());
    let mut out = None;
    if c.rng.bool() {
        let q = dir.join(format!("out.{ext_out}{}", if c.rng.chance(1, 12) { ".gz" } else { "" }));
        args.push(q.to_str().unwrap().to_string());
        out = Some(q);
    }
    Io { args, input: None, out }
}
fn result(io: &Io, o: &Out, what: &str) -> Result<String, Fail> {
    check!(o.ok(), format!("{what}:failed"), "{what}: exit status {:?} on valid input: {}", o.code, o.err);
    let Some(p) = &io.out else { return Ok(o.out.clone()) };
    let Ok(b) = std::fs::read(p) else { fail!(format!("{what}:no-output"), "{what}: the output file was not written") };
    let mut s = String::new();
    let r = if p.to_str().unwrap().ends_with(".gz") {
        flate2::read::MultiGzDecoder::new(&b[..]).read_to_string(&mut s)
    } else {
        (&b[..]).read_to_string(&mut s)
    };
    check!(r.is_ok(), format!("{what}:output-unreadable"), "{what}: output cannot be decoded: {r:?}");
    Ok(s)
}

// ---------------------------------------------------------------------------------------------
// readers

fn bad<T>(what: &str, line: &str, text: &str) -> Result<T, Fail> {
    Err(Fail { sig: format!("{what}:illegal-output"), msg: format!("{what}: line {line:?} of the output is not of the format\n--- output:\n{text}") })
}
/// kind 0: CNF, 1: WCNF, 2: MCNF
fn read_dimacs(what: &str, text: &str, kind: usize) -> Result<Inst, Fail> {
    let mut r = Inst::default();
    if kind == 1 {
        r.objs.push(vec![]);
    }
    let mut head = None;
    let mut n_cl = 0;
    for line in text.lines() {
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.is_empty() || t[0].starts_with('c') {
            continue;
        }
        if kind == 0 && t[0] == "p" {
            let (Some(n), Some(m)) = (t.get(2).and_then(|x| x.parse::<usize>().ok()), t.get(3).and_then(|x| x.parse::<usize>().ok())) else { return bad(what, line, text) };
            if head.is_some() || n_cl > 0 || t.len() != 4 || t[1] != "cnf" {
                return bad(what, line, text);
            }
            head = Some((n, m));
            continue;
        }
        let num = |x: &str| x.parse::<i128>().ok();
        let (soft, rest): (Option<(usize, i128)>, &[&str]) = match kind {
            0 => (None, &t[..]),
            _ if t[0] == "h" => (None, &t[1..]),
            1 => match num(t[0]) {
                Some(w) => (Some((0, w)), &t[1..]),
                None => return bad(what, line, text),
            },
            _ => {
                let Some(x) = t[0].strip_prefix('o') else { return bad(what, line, text) };
                let (i, k) = if x.is_empty() { (t.get(1).and_then(|x| num(x)), 2) } else { (num(x), 1) };
                match (i, t.get(k).and_then(|x| num(x))) {
                    (Some(i), Some(w)) if (1..100).contains(&i) => (Some((i as usize - 1, w)), &t[k + 1..]),
                    _ => return bad(what, line, text),
                }
            }
        };
        let Some(v) = rest.iter().map(|x| x.parse::<i32>().ok()).collect::<Option<Vec<i32>>>() else { return bad(what, line, text) };
        if v.last() != Some(&0) || v[..v.len() - 1].contains(&0) {
            return bad(what, line, text);
        }
        n_cl += 1;
        let cl = v[..v.len() - 1].to_vec();
        match soft {
            None => r.cons.push(Lin::clause(&cl)),
            Some((i, w)) => {
                if r.objs.len() <= i {
                    r.objs.resize(i + 1, vec![]);
                }
                r.objs[i].push((w, cl));
            }
        }
    }
    r.n = r.max_var();
    if kind == 0 {
        let Some((n, m)) = head else { return bad(what, "(header)", text) };
        if m != n_cl || n < r.n {
            return bad(what, &format!("(header {n} {m})"), text);
        }
        r.n = n;
    }
    Ok(r)
}
fn read_opb(what: &str, text: &str, first: i64) -> Result<Inst, Fail> {
    let mut r = Inst::default();
    for line in text.lines() {
        if line.starts_with('*') || line.trim().is_empty() {
            continue;
        }
        let Some(body) = line.trim_end().strip_suffix(';') else { return bad(what, line, text) };
        let term = |t: &[&str]| -> Result<Vec<(i128, i32)>, Fail> {
            if t.len() % 2 != 0 {
                return bad(what, line, text);
            }
            t.chunks(2)
                .map(|p| {
                    let (neg, x) = p[1].strip_prefix('~').map_or((false, p[1]), |x| (true, x));
                    let x = x.strip_prefix('x').and_then(|x| x.parse::<i64>().ok());
                    match (p[0].parse::<i128>().ok(), x) {
                        (Some(w), Some(x)) if x >= first && x - first < 1 << 30 => Ok((w, (x - first + 1) as i32 * if neg { -1 } else { 1 })),
                        _ => bad(what, line, text),
                    }
                })
                .collect()
        };
        let t: Vec<&str> = body.split_whitespace().collect();
        if t.first() == Some(&"min:") {
            if !r.cons.is_empty() {
                return bad(what, line, text);
            }
            r.objs.push(term(&t[1..])?.into_iter().map(|(w, l)| (w, vec![-l])).collect());
            continue;
        }
        if t.len() < 2 {
            return bad(what, line, text);
        }
        let k = t.len() - 2;
        let op = match t[k] {
            ">=" => Op::Ge,
            "=" => Op::Eq,
            "<=" => Op::Le,
            _ => return bad(what, line, text),
        };
        let Ok(b) = t[k + 1].parse::<i128>() else { return bad(what, line, text) };
        r.cons.push(Lin { t: term(&t[..k])?, op, b });
    }
    r.n = r.max_var();
    Ok(r)
}

// ---------------------------------------------------------------------------------------------
// comparison

/// What the instance `g` says about each assignment of the variables `1..=n`: `None` if it has no
/// satisfying extension, otherwise the values of the objectives in the best extension, which must
/// be one for all objectives
fn table(c: &mut Case, what: &str, g: &Inst, n: usize) -> Result<Vec<Option<Vec<i128>>>, Fail> {
    let mut in_objs: Vec<i32> = g.objs.iter().flatten().flat_map(|x| x.1.iter().map(|l| l.abs())).filter(|v| *v as usize > n).collect();
    in_objs.sort_unstable();
    in_objs.dedup();
    check!(in_objs.len() <= 14, "harness/:too-large", "{what}: {} auxiliary variables in objectives", in_objs.len());
    let cls: Option<Vec<Cl>> = g.cons.iter().map(Lin::as_clause).collect();
    let all: Vec<i32> = g.used().into_iter().filter(|v| *v as usize > n).collect();
    let mut sat = cls.map(|cls| {
        let mut s = Sat::new();
        for k in &cls {
            s.add(k);
        }
        s
    });
    let free = if sat.is_some() { &in_objs } else { &all };
    check!(free.len() <= 16, "harness/:too-large", "{what}: {} auxiliary variables", free.len());
    // (the compact numbering of the variables that are enumerated)
    let pos = |l: i32| -> i32 {
        let v = l.unsigned_abs() as usize;
        let p = if v <= n { v as i32 } else { free.iter().position(|x| *x as usize == v).map_or(0, |p| (n + p + 1) as i32) };
        if l < 0 { -p } else { p }
    };
    let comp = Inst {
        n: n + free.len(),
        cons: if sat.is_some() { vec![] } else { g.cons.iter().map(|k| Lin { t: k.t.iter().map(|x| (x.0, pos(x.1))).collect(), ..k.clone() }).collect() },
        objs: g.objs.iter().map(|o| o.iter().map(|x| (x.0, x.1.iter().map(|l| pos(*l)).collect())).collect()).collect(),
    };
    let mut out = vec![];
    for bits in 0..1u64 << n {
        let mut feas: Vec<Vec<i128>> = vec![];
        for aux in 0..1u64 << free.len() {
            let full = bits | aux << n;
            let ok = match &mut sat {
                None => comp.holds(full),
                Some(s) => {
                    let mut a: Vec<i32> = (1..=n as i32).map(|v| if bits >> (v - 1) & 1 == 1 { v } else { -v }).collect();
                    a.extend(free.iter().enumerate().map(|(i, v)| if aux >> i & 1 == 1 { *v } else { -*v }));
                    s.solve(&a)
                }
            };
            c.count("assignments compared", 1);
            if ok {
                feas.push(comp.vals(full));
            }
        }
        if feas.is_empty() {
            out.push(None);
            continue;
        }
        let best: Vec<i128> = (0..g.objs.len()).map(|i| feas.iter().map(|v| v[i]).min().unwrap()).collect();
        check!(feas.contains(&best), format!("{what}:no-joint-optimum"), "{what}: at {bits:b} no extension is best for all objectives: {feas:?}");
        out.push(Some(best));
    }
    Ok(out)
}
/// the same constraints and, up to constants, the same objectives
fn same(what: &str, want: &[Option<Vec<i128>>], got: &[Option<Vec<i128>>], n_objs: usize, ctx: &str) -> Res {
    let mut delta: Vec<Option<i128>> = vec![None; n_objs];
    for (bits, (w, g)) in want.iter().zip(got).enumerate() {
        check!(w.is_some() == g.is_some(), format!("{what}:constraints"), "{what}: assignment {bits:b} is {} by the input, but {} by the output\n{ctx}", if w.is_some() { "allowed" } else { "ruled out" }, if g.is_some() { "allowed" } else { "ruled out" });
        if let (Some(w), Some(g)) = (w, g) {
            check!(g.len() <= n_objs, format!("{what}:n-objs"), "{what}: {} objectives instead of {n_objs}\n{ctx}", g.len());
            for (i, d) in delta.iter_mut().enumerate() {
                // (objectives at the end may be missing if they are empty)
                let x = g.get(i).copied().unwrap_or(0) - w[i];
                check!(*d.get_or_insert(x) == x, format!("{what}:objective"), "{what}: objective {i} at {bits:b} is {:?} and should be {} up to a constant\n{ctx}", g.get(i), w[i]);
            }
        }
    }
    Ok(())
}
fn truth(g: &Inst, n: usize) -> Vec<Option<Vec<i128>>> {
    (0..1u64 << n).map(|b| g.holds(b).then(|| g.vals(b))).collect()
}

// ---------------------------------------------------------------------------------------------
// inputs

fn gen_clause(c: &mut Case, n: usize) -> Cl {
    if n == 0 || c.rng.chance(1, 25) {
        return vec![];
    }
    let k = c.rng.us(1, 3);
    (0..k).map(|_| c.rng.lit(n)).collect()
}
/// clausal instance
fn gen_cls(c: &mut Case, n_objs: usize, max_softs: usize) -> Inst {
    let n = if c.rng.chance(1, 30) { 0 } else { c.rng.us(1, 5) };
    let nh = c.rng.us(0, 5);
    let cons = (0..nh).map(|_| Lin::clause(&gen_clause(c, n))).collect();
    let objs = (0..n_objs)
        .map(|_| {
            let k = c.rng.us(0, max_softs);
            let style = c.rng.below(4);
            (0..k)
                .map(|_| {
                    let w = match style {
                        0 => 1,
                        1 => c.rng.us(1, 3) as i128,
                        _ => c.rng.us(1, 40) as i128,
                    };
                    let cl = if c.rng.bool() && n > 0 { vec![c.rng.lit(n)] } else { gen_clause(c, n) };
                    (w, cl)
                })
                .collect()
        })
        .collect();
    let mut g = Inst { n, cons, objs };
    g.n = g.max_var();
    g
}
fn gen_lin(c: &mut Case, n: usize) -> Lin {
    let k = if n == 0 { 0 } else { c.rng.us(1, 5) };
    let style = c.rng.below(4);
    let t: Vec<(i128, i32)> = (0..k)
        .map(|_| {
            let w = match style {
                0 => 1,
                1 => c.rng.range(-1, 1) as i128,
                _ => c.rng.range(-6, 6) as i128,
            };
            (w, c.rng.lit(n))
        })
        .collect();
    let b = c.rng.next() & ((1 << n) - 1);
    let s: i128 = t.iter().filter(|x| lit_true(x.1, b)).map(|x| x.0).sum();
    Lin { t, op: *c.rng.pick(&[Op::Ge, Op::Ge, Op::Le, Op::Eq]), b: s + c.rng.range(-1, 1) as i128 }
}
fn gen_opb(c: &mut Case, n_objs: usize) -> Inst {
    let n = if c.rng.chance(1, 30) { 0 } else { c.rng.us(1, 5) };
    let nc = c.rng.us(0, 4);
    let cons = (0..nc).map(|_| if c.rng.chance(1, 4) { Lin::clause(&gen_clause(c, n)) } else { gen_lin(c, n) }).collect();
    let objs = (0..n_objs)
        .map(|_| {
            let k = if n == 0 { 0 } else { c.rng.us(0, 5) };
            (0..k).map(|_| (c.rng.range(-9, 20) as i128, vec![c.rng.lit(n)])).collect()
        })
        .collect();
    let mut g = Inst { n, cons, objs };
    g.n = g.max_sure();
    g
}
fn lits(cl: &[i32]) -> String {
    cl.iter().map(|l| format!("{l} ")).collect::<String>() + "0"
}
fn cl_of(k: &Lin) -> Cl {
    k.t.iter().map(|x| x.1).collect()
}
fn dimacs(c: &mut Case, g: &Inst, kind: usize) -> String {
    let mut lines: Vec<String> = vec![];
    let mut top = 0;
    let old = kind == 1 && c.rng.chance(1, 4);
    if old {
        top = g.objs[0].iter().map(|x| x.0).sum::<i128>() + 1;
    }
    for k in &g.cons {
        let cl = lits(&cl_of(k));
        lines.push(match kind {
            0 => cl,
            _ if old => format!("{top} {cl}"),
            _ => format!("h {cl}"),
        });
    }
    for (i, o) in g.objs.iter().enumerate() {
        for (w, cl) in o {
            let cl = lits(cl);
            lines.push(if kind == 1 { format!("{w} {cl}") } else { format!("o{} {w} {cl}", i + 1) });
        }
    }
    if c.rng.bool() {
        c.rng.shuffle(&mut lines);
    }
    let n = g.max_var() + if c.rng.chance(1, 4) { c.rng.us(1, 2) } else { 0 };
    if kind == 0 {
        lines.insert(0, format!("p cnf {n} {}", lines.len()));
    } else if old {
        lines.insert(0, format!("p wcnf {n} {} {top}", lines.len()));
    }
    if c.rng.chance(1, 4) {
        lines.insert(c.rng.below(lines.len() + 1).min(if lines.is_empty() { 0 } else { lines.len() }), "c a comment".into());
    }
    lines.join("\n") + "\n"
}
fn opb(c: &mut Case, g: &Inst, first: i64) -> String {
    let mut s = String::new();
    if c.rng.bool() {
        s += &format!("* #variable= {} #constraint= {}\n", g.max_var(), g.cons.len());
    }
    let lit = |l: i32| format!("{}x{}", if l < 0 { "~" } else { "" }, i64::from(l.abs()) - 1 + first);
    for o in &g.objs {
        s += "min:";
        for (w, cl) in o {
            s += &format!(" {w:+} {}", lit(-cl[0]));
        }
        s += ";\n";
    }
    for k in &g.cons {
        for (w, l) in &k.t {
            s += &format!("{w:+} {} ", lit(*l));
        }
        s += match k.op {
            Op::Ge => ">=",
            Op::Le => "<=",
            Op::Eq => "=",
        };
        s += &format!(" {};\n", k.b);
    }
    s
}
fn first_idx(c: &mut Case, args: &mut Vec<String>, opt: &str) -> i64 {
    match c.rng.below(4) {
        0 => {
            let k = *c.rng.pick(&[0i64, 0, 1, 2, 7]);
            args.push(format!("--{opt}"));
            args.push(k.to_string());
            k
        }
        _ => 1,
    }
}

// ---------------------------------------------------------------------------------------------
// C24

/// the conversions
fn convert(c: &mut Case) -> Res {
    let (name, ki, ko) = *c.rng.pick(&[("cnf2opb", "cnf", "opb"), ("wcnf2opb", "wcnf", "opb"), ("mcnf2opb", "mcnf", "opb"), ("opb2cnf", "opb", "cnf"), ("opb2wcnf", "opb", "wcnf"), ("opb2mcnf", "opb", "mcnf")]);
    let n_objs = match if ki == "opb" { ko } else { ki } {
        "cnf" => 0,
        "wcnf" => 1,
        _ => c.rng.us(1, 3),
    };
    let kind = |k: &str| ["cnf", "wcnf", "mcnf"].iter().position(|x| *x == k).unwrap();
    let mut opts = vec![];
    let first = first_idx(c, &mut opts, "first-var-idx");
    let mut plain = false;
    let (g, text) = if ki == "opb" {
        let g = gen_opb(c, n_objs);
        let t = opb(c, &g, first);
        (g, t)
    } else {
        if c.rng.bool() {
            opts.push("--avoid-negated-lits".into());
            plain = true;
        }
        let g = gen_cls(c, n_objs, 4);
        let t = dimacs(c, &g, kind(ki));
        (g, t)
    };
    c.log(&text);
    let mut i = io(c, ki, ko, &text, true);
    i.args.extend(opts);
    let o = run(c, name, &i.args, i.input.as_deref())?;
    let out = result(&i, &o, name)?;
    let got = if ko == "opb" { read_opb(name, &out, first)? } else { read_dimacs(name, &out, kind(ko))? };
    check!(!plain || !out.contains('~'), format!("{name}:negated"), "{name}: negated literal although they were to be avoided:\n{out}");
    let ctx = format!("--- input:\n{text}--- output:\n{out}");
    let tab = table(c, name, &got, g.n)?;
    same(name, &truth(&g, g.n), &tab, n_objs, &ctx)?;
    c.nontrivial(&ctx);
    Ok(())
}

/// all ways of naming the variables `a` by the variables `b`
fn namings(a: &[i32], b: &[i32], m: &mut Vec<i32>, f: &mut dyn FnMut(&[i32]) -> bool) -> bool {
    if m.len() == a.len() {
        return f(m);
    }
    for x in b {
        if !m.contains(x) {
            m.push(*x);
            if namings(a, b, m, f) {
                return true;
            }
            m.pop();
        }
    }
    false
}
fn shuffle(c: &mut Case) -> Res {
    let kind = c.rng.below(3);
    let n_objs = [0, 1, c.rng.us(1, 2)][kind];
    let g = gen_cls(c, n_objs, 4);
    let text = dimacs(c, &g, kind);
    c.log(&text);
    let ext = ["cnf", "wcnf", "mcnf"][kind];
    let dir = c.dir();
    let z = *c.rng.pick(&["", "", "", ".gz"]);
    let i = io(c, ext, ext, &text, false);
    let q = dir.join(format!("shuffled.{ext}{z}"));
    let args = vec![i.args[0].clone(), q.to_str().unwrap().to_string()];
    let o = run(c, "shuffledimacs", &args, None)?;
    let out = result(&Io { args: vec![], input: None, out: Some(q) }, &o, "shuffledimacs")?;
    let got = read_dimacs("shuffledimacs", &out, kind)?;
    let ctx = format!("--- input:\n{text}--- output:\n{out}");
    let (a, b) = (g.used(), got.used());
    check!(a.len() == b.len(), "shuffledimacs:variables", "{} variables used instead of {}\n{ctx}", b.len(), a.len());
    let canon = |v: &[Lin], m: &dyn Fn(i32) -> i32| {
        let mut v: Vec<Cl> = v
            .iter()
            .map(|k| {
                let mut x: Cl = k.t.iter().map(|t| m(t.1.abs()) * t.1.signum()).collect();
                x.sort_unstable();
                x
            })
            .collect();
        v.sort();
        v
    };
    let to = canon(&got.cons, &|v| b.iter().position(|x| *x == v).unwrap() as i32 + 1);
    let pos: Vec<i32> = (1..=b.len() as i32).collect();
    let n = b.len();
    let mut some = false;
    namings(&a, &pos, &mut vec![], &mut |m| {
        let ren = |v: i32| m[a.iter().position(|x| *x == v).unwrap()];
        if canon(&g.cons, &ren) != to {
            return false;
        }
        let from = Inst { n, cons: vec![], objs: g.objs.iter().map(|o| o.iter().map(|x| (x.0, x.1.iter().map(|l| ren(l.abs()) * l.signum()).collect())).collect()).collect() };
        let onto = Inst { n, cons: vec![], objs: got.objs.iter().map(|o| o.iter().map(|x| (x.0, x.1.iter().map(|l| (b.iter().position(|v| *v == l.abs()).unwrap() as i32 + 1) * l.signum()).collect())).collect()).collect() };
        some = same("shuffledimacs", &truth(&from, n), &truth(&onto, n), n_objs, "").is_ok();
        some
    });
    check!(some, "shuffledimacs:different", "the output is no renaming of the input\n{ctx}");
    c.nontrivial(&ctx);
    Ok(())
}

/// a random instance in some format: (extension, text, instance)
fn any(c: &mut Case) -> (&'static str, String, Inst) {
    let ext = *c.rng.pick(&["cnf", "wcnf", "mcnf", "opb", "opb"]);
    let n_objs = match ext {
        "cnf" => 0,
        "wcnf" => 1,
        "mcnf" => c.rng.us(1, 3),
        _ => c.rng.us(0, 3),
    };
    if ext == "opb" {
        let g = gen_opb(c, n_objs);
        let t = opb(c, &g, 1);
        (ext, t, g)
    } else {
        let mut g = gen_cls(c, n_objs, 5);
        // (objectives at the end without soft clauses cannot be told from missing ones)
        while ext == "mcnf" && g.objs.last().is_some_and(Vec::is_empty) {
            g.objs.pop();
        }
        let t = dimacs(c, &g, ["cnf", "wcnf", "mcnf"].iter().position(|x| *x == ext).unwrap());
        (ext, t, g)
    }
}
fn named(c: &mut Case, ext: &str, text: &str, opt: &str) -> (Vec<String>, Option<String>) {
    let dir = c.dir();
    if !opt.is_empty() && c.rng.chance(1, 4) {
        // the format stated explicitly
        let p = dir.join("instance.txt");
        std::fs::write(&p, text).unwrap();
        return (vec![p.to_str().unwrap().to_string(), format!("--{opt}"), ext.to_string()], None);
    }
    let e = match ext {
        "opb" => *c.rng.pick(&["opb", "pbmo", "mopb"]),
        x => x,
    };
    let p = dir.join(format!("instance.{e}"));
    std::fs::write(&p, text).unwrap();
    (vec![p.to_str().unwrap().to_string()], None)
}
fn checker(c: &mut Case) -> Res {
    let (ext, text, g) = any(c);
    c.log(&text);
    let (mut args, _) = named(c, ext, &text, "file-format");
    let n = g.max_var().max(1);
    // mostly solutions
    let sols: Vec<u64> = (0..1u64 << n).filter(|b| g.holds(*b)).collect();
    for _ in 0..2 {
        let bits = if !sols.is_empty() && c.rng.bool() { *c.rng.pick(&sols) } else { c.rng.next() & ((1 << n) - 1) };
        let mut vars: Vec<i32> = (1..=n as i32).collect();
        let partial = c.rng.chance(1, 5) && n > 1;
        if c.rng.chance(1, 3) {
            c.rng.shuffle(&mut vars);
        }
        if partial {
            vars.truncate(n - 1);
        }
        let toks: Vec<String> = vars
            .iter()
            .map(|v| {
                let neg = bits >> (v - 1) & 1 == 0;
                if ext == "opb" { format!("{}x{v}", if neg { "-" } else { "" }) } else { format!("{}{v}", if neg { "-" } else { "" }) }
            })
            .collect();
        let mut sol = String::from("c a comment\ns SATISFIABLE\n");
        let cut = c.rng.us(1, toks.len());
        sol += &format!("v {}\n", toks[..cut].join(" "));
        if cut < toks.len() || ext != "opb" {
            sol += &format!("v {}{}\n", toks[cut..].iter().map(|x| format!("{x} ")).collect::<String>(), if ext == "opb" { "" } else { "0" });
        }
        let k = args.len();
        let o = if c.rng.bool() {
            let p = c.dir().join("solution.log");
            std::fs::write(&p, &sol).unwrap();
            args.insert(1, p.to_str().unwrap().to_string());
            run(c, "check-solution", &args, None)?
        } else {
            run(c, "check-solution", &args, Some(&sol))?
        };
        if args.len() > k {
            args.remove(1);
        }
        let ctx = format!("--- instance ({ext}):\n{text}--- solution:\n{sol}--- output (status {:?}):\n{}{}", o.code, o.out, o.err);
        check!(!panicked(&o), "check-solution:panic", "panics\n{ctx}");
        if partial {
            // either value of the missing variable
            let m = vars.len();
            let mut missing: Vec<usize> = (1..=n).filter(|v| !vars.contains(&(*v as i32))).collect();
            let v = missing.pop().unwrap();
            let both = [bits & !(1 << (v - 1)), bits | 1 << (v - 1)];
            check!(!o.ok() || both.iter().any(|b| g.holds(*b)), "check-solution:accepted", "accepts a partial assignment ({m} of {n}) without a satisfying completion\n{ctx}");
            c.count("partial solutions", 1);
            continue;
        }
        check!(o.ok() == g.holds(bits), if o.ok() { "check-solution:accepted" } else { "check-solution:rejected" }, "the assignment {} the instance\n{ctx}", if g.holds(bits) { "satisfies" } else { "does not satisfy" });
        if o.ok() {
            let Some(l) = o.out.lines().find_map(|l| l.strip_prefix("objective values:")) else { fail!("check-solution:no-values", "no objective values\n{ctx}") };
            let v: Vec<i128> = l.split(',').map(str::trim).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(i128::MAX)).collect();
            check!(v == g.vals(bits), "check-solution:values", "objective values {v:?} instead of {:?}\n{ctx}", g.vals(bits));
            c.count("solutions accepted", 1);
        } else {
            check!(!o.out.contains("objective values"), "check-solution:values", "objective values of a rejected assignment\n{ctx}");
            c.count("solutions rejected", 1);
        }
        c.nontrivial(&ctx);
    }
    Ok(())
}
fn enumerator(c: &mut Case) -> Res {
    let (ext, text, g) = any(c);
    c.log(&text);
    let (mut args, mut input) = named(c, ext, &text, "input-format");
    if c.rng.chance(1, 5) {
        args = vec!["--input-format".into(), ext.to_string()];
        input = Some(text.clone());
    }
    let quiet = c.rng.chance(1, 5);
    if quiet {
        args.push("--no-objective-values".into());
    }
    let limit = c.rng.chance(1, 4).then(|| c.rng.us(1, 6));
    if let Some(k) = limit {
        args.push("--enumerate-until".into());
        args.push(k.to_string());
    }
    let o = run(c, "enumerator", &args, input.as_deref())?;
    let ctx = format!("--- instance ({ext}):\n{text}--- output (status {:?}):\n{}{}", o.code, o.out, o.err);
    check!(o.ok(), if panicked(&o) { "enumerator:panic" } else { "enumerator:failed" }, "fails on valid input\n{ctx}");
    let mut seen: Vec<u64> = vec![];
    let mut vals: Option<Vec<i128>> = None;
    let mut width: Option<usize> = None;
    let mut n_printed = 0;
    for l in o.out.lines() {
        if let Some(x) = l.strip_prefix("o ") {
            vals = Some(x.split_whitespace().map(|x| x.parse().unwrap_or(i128::MAX)).collect());
            continue;
        }
        let Some(x) = l.strip_prefix('v') else { fail!("enumerator:illegal-output", "line {l:?}\n{ctx}") };
        let x: Vec<char> = x.trim().chars().collect();
        check!(x.len() < 20 && x.iter().all(|k| "01_".contains(*k)), "enumerator:illegal-output", "line {l:?}\n{ctx}");
        check!(*width.get_or_insert(x.len()) == x.len(), "enumerator:variables", "solutions over different variables\n{ctx}");
        // (an undefined value stands for both)
        let mut cover = vec![0u64];
        for (i, k) in x.iter().enumerate() {
            let one: Vec<u64> = cover.iter().map(|b| b | 1 << i).collect();
            match k {
                '0' => (),
                '1' => cover = one,
                _ => cover.extend(one),
            }
        }
        let v = vals.take();
        for bits in cover {
            check!(!seen.contains(&bits), "enumerator:twice", "solution {l:?} is printed twice\n{ctx}");
            check!(g.holds(bits), "enumerator:no-solution", "{l:?} is no solution\n{ctx}");
            seen.push(bits);
            if !quiet && !g.objs.is_empty() {
                check!(v == Some(g.vals(bits)), "enumerator:values", "{l:?}: objective values {v:?} instead of {:?}\n{ctx}", g.vals(bits));
            }
        }
        n_printed += 1;
    }
    let total = match width {
        None => (0..1u64 << g.n).filter(|b| g.holds(*b)).count().min(1),
        Some(k) => {
            let head = text.split_whitespace().zip(text.split_whitespace().skip(2)).find(|x| x.0 == "p").and_then(|x| x.1.parse().ok()).unwrap_or(0);
            check!(k >= g.n && k <= g.max_var().max(head), "enumerator:variables", "solutions over {k} variables\n{ctx}");
            (0..1u64 << k).filter(|b| g.holds(*b)).count()
        }
    };
    if limit.is_some_and(|k| k <= n_printed) {
        check_eq!(Some(n_printed), limit, "enumerator:number", "number of solutions\n{ctx}");
        c.count("solutions enumerated", seen.len() as u64);
        c.nontrivial(&ctx);
        return Ok(());
    }
    let want = total;
    check!(seen.len() == want, "enumerator:number", "{} solutions instead of {want}\n{ctx}", seen.len());
    c.count("solutions enumerated", seen.len() as u64);
    c.nontrivial(&ctx);
    Ok(())
}
fn ilp(c: &mut Case) -> Res {
    let ext = *c.rng.pick(&["mcnf", "opb"]);
    let n_objs = c.rng.us(1, 3);
    let g = if ext == "opb" { gen_opb(c, n_objs) } else { gen_cls(c, n_objs, 3) };
    let mut opts = vec![];
    let text = if ext == "opb" {
        let f = first_idx(c, &mut opts, "first-var-idx");
        opb(c, &g, f)
    } else {
        dimacs(c, &g, 2)
    };
    c.log(&text);
    let mut i = io(c, ext, "dat", &text, true);
    i.args.extend(opts);
    if i.input.is_some() {
        i.args.extend(["--input-format".into(), ext.to_string()]);
    }
    let unused = *c.rng.pick(&["nothing", "remove", "assign-zero", ""]);
    if !unused.is_empty() {
        i.args.extend(["--unused-vars".into(), unused.into()]);
    }
    let bauss = c.rng.bool();
    if bauss {
        i.args.extend(["--output-format".into(), "bauss".into()]);
    }
    let o = run(c, "mo2ilp", &i.args, i.input.as_deref())?;
    let out = result(&i, &o, "mo2ilp")?;
    let ctx = format!("--- input ({ext}, {unused}):\n{text}--- output:\n{out}");
    let mut lines = out.lines().map(str::trim).filter(|l| !l.is_empty());
    let mut nums = |k: &str| -> Result<Vec<i128>, Fail> {
        let Some(l) = lines.next() else { fail!("mo2ilp:illegal-output", "{k} missing\n{ctx}") };
        match l.split_whitespace().map(|x| x.parse().ok()).collect::<Option<Vec<i128>>>() {
            Some(v) => Ok(v),
            None if k == "types" && l.split_whitespace().all(|x| x == "minsum") => Ok(vec![0; l.split_whitespace().count()]),
            None => fail!("mo2ilp:illegal-output", "{k}: {l:?}\n{ctx}"),
        }
    };
    let h = nums("header")?;
    check_eq!(h.len(), if bauss { 5 } else { 3 }, "mo2ilp:illegal-output", "length of the header {h:?}\n{ctx}");
    let (nv, nc, no) = (h[0] as usize, h[1] as usize, h[2] as usize);
    if !bauss && no > 0 {
        check_eq!(nums("types")?.len(), no, "mo2ilp:illegal-output", "number of objective types\n{ctx}");
    }
    let mut got = Inst { n: nv, ..Inst::default() };
    let row = |v: &[i128]| -> Vec<(i128, i32)> { v.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, w)| (*w, i as i32 + 1)).collect() };
    let (mut nz_o, mut nz_c) = (0, 0);
    for _ in 0..no {
        let v = nums("objective")?;
        check_eq!(v.len(), nv, "mo2ilp:illegal-output", "columns of an objective\n{ctx}");
        nz_o += row(&v).len();
        got.objs.push(row(&v).into_iter().map(|(w, l)| (w, vec![-l])).collect());
    }
    let mut rows = vec![];
    for _ in 0..nc {
        let v = nums("constraint")?;
        check_eq!(v.len(), nv, "mo2ilp:illegal-output", "columns of a constraint\n{ctx}");
        nz_c += row(&v).len();
        rows.push(row(&v));
    }
    for t in rows {
        let v = nums("right-hand side")?;
        check_eq!(v.len(), 2, "mo2ilp:illegal-output", "right-hand side {v:?}\n{ctx}");
        let op = match v[0] {
            0 => Op::Ge,
            1 => Op::Le,
            2 => Op::Eq,
            _ => fail!("mo2ilp:illegal-output", "operator {v:?}\n{ctx}"),
        };
        got.cons.push(Lin { t, op, b: v[1] });
    }
    if !bauss {
        check!(nums("lower bounds")? == vec![0; nv], "mo2ilp:bounds", "lower bounds\n{ctx}");
        check!(nums("upper bounds")? == vec![1; nv], "mo2ilp:bounds", "upper bounds\n{ctx}");
    }
    check!(lines.next().is_none(), "mo2ilp:illegal-output", "lines at the end\n{ctx}");
    check!(!bauss || (h[3], h[4]) == (nz_c as i128, nz_o as i128), "mo2ilp:non-zeroes", "numbers of non-zero entries: {} {} stated, {nz_c} {nz_o} written\n{ctx}", h[3], h[4]);
    // which variable of the input the first columns stand for
    let used = g.used();
    // (variables all of whose terms cancel out may count as unused or not)
    let mut net: std::collections::HashMap<(usize, i32), i128> = Default::default();
    let terms = g.cons.iter().flat_map(|k| [&k.t]).cloned().chain(g.objs.iter().map(|o| o.iter().filter(|x| x.1.len() == 1).map(|x| (x.0, x.1[0])).collect()));
    for (i, t) in terms.enumerate() {
        for (w, l) in t {
            *net.entry((i, l.abs())).or_default() += if l < 0 { -w } else { w };
        }
    }
    let wide: Vec<i32> = g.objs.iter().flatten().filter(|x| x.1.len() > 1).flat_map(|x| x.1.iter().map(|l| l.abs())).collect();
    let unsure = used.iter().filter(|v| !wide.contains(v) && !net.iter().any(|(k, w)| k.1 == **v && *w != 0)).fold(0u64, |b, v| b | 1 << (v - 1));
    if unsure != 0 && unused == "remove" {
        return Ok(());
    }
    let (n, want) = match unused {
        "remove" => {
            let n = used.len();
            let spread = |b: u64| (0..n).filter(|i| b >> i & 1 == 1).fold(0u64, |x, i| x | 1 << (used[i] - 1));
            (n, (0..1u64 << n).map(|b| g.holds(spread(b)).then(|| g.vals(spread(b)))).collect())
        }
        "nothing" => (g.max_var(), truth(&g, g.max_var())),
        _ => {
            let n = g.max_var();
            let zero = (1..=n as i32).filter(|v| !used.contains(v)).fold(0u64, |x, v| x | 1 << (v - 1));
            (n, truth(&g, n).into_iter().enumerate().map(|(b, x)| if b as u64 & zero == 0 { x } else { None }).collect::<Vec<_>>())
        }
    };
    check!(nv > n || no == 0 || nv >= n, "mo2ilp:columns", "{nv} columns for {n} variables\n{ctx}");
    // (variables that occur nowhere are not enumerated)
    got.n = got.max_var();
    let tab = table(c, "mo2ilp", &got, n)?;
    check!(tab.iter().zip(&want).enumerate().all(|(i, (a, b)): (usize, (_, &Option<Vec<i128>>))| (unused != "nothing" && i as u64 & unsure != 0) || a.is_some() == b.is_some() && (a.is_none() || a.as_ref().unwrap()[..] == b.as_ref().unwrap()[..a.as_ref().unwrap().len()])), "mo2ilp:different", "the integer program is another one: {tab:?} instead of {want:?}\n{ctx}");
    c.nontrivial(&ctx);
    Ok(())
}
fn split(c: &mut Case) -> Res {
    let ext = *c.rng.pick(&["wcnf", "wcnf", "opb"]);
    // weights that tend to fall into levels
    let mut g = if ext == "opb" { gen_opb(c, 1) } else { gen_cls(c, 1, 6) };
    let base = *c.rng.pick(&[1i128, 2, 3, 5, 8, 20]);
    let style = c.rng.below(4);
    for (i, x) in g.objs[0].iter_mut().enumerate() {
        let s = if x.0 < 0 { -1 } else { 1 };
        x.0 = s * match style {
            0 => (base * 2).pow((i % 3) as u32),
            1 => (c.rng.us(1, 3) as i128) * (base + 6).pow((i % 3) as u32),
            2 => *c.rng.pick(&[1, 2, 10, 15, 40, 100, 115]),
            _ => c.rng.us(1, 30) as i128,
        };
    }
    if ext == "opb" {
        g.n = g.max_sure();
    }
    let mut opts = vec![];
    let first = if ext == "opb" { first_idx(c, &mut opts, "opb-first-var-idx") } else { 1 };
    let text = if ext == "opb" { opb(c, &g, first) } else { dimacs(c, &g, 1) };
    c.log(&text);
    let mut i = io(c, ext, "out", &text, true);
    i.args.extend(opts);
    if i.input.is_some() {
        i.args.extend(["--input-format".into(), ext.into()]);
    }
    let fmt = *c.rng.pick(&["", "mcnf", "opb"]);
    if !fmt.is_empty() {
        i.args.extend(["--output-format".into(), fmt.into()]);
    }
    let ko = match (fmt, ext) {
        ("", "opb") | ("opb", _) => "opb",
        _ => "mcnf",
    };
    let alg = *c.rng.pick(&["", "bmo", "gcd", "gbmo"]);
    if !alg.is_empty() {
        i.args.extend(["--split-alg".into(), alg.into()]);
    }
    let dump = c.rng.bool();
    if dump {
        i.args.push("-d".into());
    }
    let o = run(c, "gbmosplit", &i.args, i.input.as_deref())?;
    let mut ctx = format!("--- input ({ext}):\n{text}--- output (status {:?}):\n{}--- errors:\n{}", o.code, o.out, o.err);
    check!(!panicked(&o), "gbmosplit:panic", "panics\n{ctx}");
    check!(matches!(o.code, Some(0 | 1)), "gbmosplit:failed", "fails on valid input\n{ctx}");
    if o.code == Some(1) {
        c.count("not split", 1);
        if !dump {
            check!(i.out.as_ref().is_none_or(|p| !p.exists()), "gbmosplit:output", "writes although nothing was split\n{ctx}");
            check!(i.out.is_some() || !o.out.lines().any(|l| l.starts_with('h') || l.starts_with('o') || l.contains("min:")), "gbmosplit:output", "writes although nothing was split\n{ctx}");
            return Ok(());
        }
    }
    let split = o.code == Some(0);
    let out = result(&i, &Out { code: Some(0), out: o.out.clone(), err: String::new() }, "gbmosplit")?;
    if i.out.is_some() {
        ctx += &format!("--- written:\n{out}");
    }
    let got = if ko == "opb" { read_opb("gbmosplit", &out, first)? } else { read_dimacs("gbmosplit", &out, 2)? };
    let k = got.objs.len();
    check!(!split || k > 1, "gbmosplit:n-objs", "{k} objectives after a split\n{ctx}");
    check!(split || k <= 1, "gbmosplit:n-objs", "{k} objectives although nothing was split\n{ctx}");
    let want = truth(&g, g.n);
    let tab = table(c, "gbmosplit", &got, g.n)?;
    let all: Vec<(usize, i128, Vec<i128>)> = want.iter().zip(&tab).enumerate().filter_map(|(b, (w, t))| Some((b, w.as_ref()?[0], t.clone()?))).collect();
    for (b, (w, t)) in want.iter().zip(&tab).enumerate() {
        check!(w.is_some() == t.is_some(), "gbmosplit:constraints", "assignment {b:b} is {} by the input only\n{ctx}", if w.is_some() { "allowed" } else { "ruled out" });
    }
    // the objectives in the order of their rank, the last one first, order the assignments as the sum did
    for x in &all {
        for y in &all {
            let key = |v: &Vec<i128>| v.iter().rev().copied().collect::<Vec<_>>();
            let (a, d) = (x.1.cmp(&y.1), key(&x.2).cmp(&key(&y.2)));
            check!(a == d, "gbmosplit:order", "assignments {:b} and {:b} have values {} and {}, but {:?} and {:?} after splitting\n{ctx}", x.0, y.0, x.1, y.1, x.2, y.2);
        }
    }
    // with the multipliers that are printed, the sum is the original value
    let mult: Vec<i128> = o.out.lines().filter_map(|l| l.trim().strip_prefix("multiplier: ")?.parse().ok()).collect();
    if i.out.is_some() {
        check!(mult.len() >= k, "gbmosplit:stats", "{} multipliers for {k} objectives\n{ctx}", mult.len());
        let mut d = None;
        for x in &all {
            let s: i128 = x.2.iter().zip(&mult).map(|(v, m)| v * m).sum();
            check!(*d.get_or_insert(x.1 - s) == x.1 - s, "gbmosplit:multipliers", "the weighted sum of the objectives is {s} at {:b}, the original value {}\n{ctx}", x.0, x.1);
        }
    }
    c.count("split", u64::from(split));
    c.nontrivial(&ctx);
    Ok(())
}
fn propagator(c: &mut Case) -> Res {
    let pb = c.rng.chance(1, 3);
    let g = if pb { gen_opb(c, 0) } else { gen_cls(c, 0, 0) };
    let text = if pb { opb(c, &g, 1) } else { dimacs(c, &g, 0) };
    let ext = if pb { "opb" } else { "cnf" };
    c.log(&text);
    let (mut args, _) = named(c, ext, &text, "");
    let k = c.rng.us(0, 2);
    let over = g.max_var() + if c.rng.chance(1, 4) { c.rng.us(1, 2) } else { 0 };
    let a: Vec<i32> = c.rng.distinct_lits(over, k.min(over));
    if a.iter().any(|l| a.contains(&-l)) {
        return Ok(());
    }
    let xs = c.rng.bool();
    args.insert(0, "--".into());
    args.extend(a.iter().map(|l| if xs { format!("{}x{}", if *l < 0 { "~" } else { "" }, l.abs()) } else { l.to_string() }));
    let o = run(c, "propagator", &args, None)?;
    let ctx = format!("--- instance:\n{text}--- assumptions {a:?}\n--- output (status {:?}):\n{}{}", o.code, o.out, o.err);
    check!(!panicked(&o), "propagator:panic", "panics\n{ctx}");
    let holds = |b: u64| g.holds(b) && a.iter().all(|l| lit_true(*l, b));
    if !o.ok() {
        check!((0..1u64 << g.n).all(|b| !holds(b)), "propagator:conflict", "reports a conflict although there is a solution\n{ctx}");
        c.count("conflicts", 1);
        c.nontrivial(&ctx);
        return Ok(());
    }
    let mut got = vec![];
    for t in o.out.trim().split(',').filter(|x| !x.is_empty()) {
        let (neg, x) = t.strip_prefix('~').map_or((false, t), |x| (true, x));
        let Some(v) = x.strip_prefix('x').and_then(|x| x.parse::<i32>().ok()) else { fail!("propagator:illegal-output", "{t:?}\n{ctx}") };
        let l = (v + 1) * if neg { -1 } else { 1 };
        got.push(l);
        if v < g.n as i32 {
            check!((0..1u64 << g.n).all(|b| !holds(b) || lit_true(l, b)), "propagator:not-implied", "{t} is not implied\n{ctx}");
        }
    }
    if !pb {
        let cls: Vec<Cl> = g.cons.iter().map(cl_of).collect();
        match unit_propagate(&cls, &a) {
            None => fail!("propagator:no-conflict", "no conflict is reported\n{ctx}"),
            Some(t) => {
                let base = unit_propagate(&cls, &[]).unwrap_or_default();
                for l in t {
                    check!(got.contains(&l) || a.contains(&l) || base.contains(&l), "propagator:missing", "{l} is not among the propagated literals\n{ctx}");
                }
            }
        }
    }
    c.nontrivial(&ctx);
    Ok(())
}
/// bad input and failing output
fn refused(c: &mut Case) -> Res {
    const T: &[(&str, &str, &str)] = &[
        ("cnf2opb", "cnf", "opb"),
        ("wcnf2opb", "wcnf", "opb"),
        ("mcnf2opb", "mcnf", "opb"),
        ("opb2cnf", "opb", "cnf"),
        ("opb2wcnf", "opb", "wcnf"),
        ("opb2mcnf", "opb", "mcnf"),
        ("shuffledimacs", "cnf", "cnf"),
        ("shuffledimacs", "wcnf", "wcnf"),
        ("shuffledimacs", "mcnf", "mcnf"),
        ("mo2ilp", "mcnf", "dat"),
        ("mo2ilp", "opb", "dat"),
        ("gbmosplit", "wcnf", "mcnf"),
        ("gbmosplit", "opb", "opb"),
        ("check-solution", "cnf", ""),
        ("check-solution", "opb", ""),
        ("enumerator", "wcnf", ""),
        ("enumerator", "opb", ""),
        ("propagator", "cnf", ""),
    ];
    let &(name, ext, ko) = c.rng.pick(T);
    let kind = ["cnf", "wcnf", "mcnf"].iter().position(|x| *x == ext);
    let n_objs = usize::from(ext != "cnf" && !(name == "opb2cnf"));
    let mut g = match kind {
        Some(_) => gen_cls(c, n_objs, 3),
        None => gen_opb(c, n_objs),
    };
    if name == "gbmosplit" {
        // something that is split for sure
        g = Inst { n: 2, cons: vec![], objs: vec![vec![(1, vec![1]), (5, vec![2])]] };
    }
    let mut text = match kind {
        Some(k) => dimacs(c, &g, k),
        None => opb(c, &g, 1),
    };
    let dir = c.dir();
    let p = dir.join(format!("in.{ext}"));
    let mut args = vec![p.to_str().unwrap().to_string()];
    let q = dir.join(format!("out.{ko}"));
    let what = c.rng.below(5);
    let mut exists = true;
    match what {
        0 => {
            // no such file
            exists = false;
        }
        1 | 2 => {
            // a line that is none
            let junk = match kind {
                Some(_) => *c.rng.pick(&["1 2 x 0", "h 1 y 0", "1 -", "o1 z 1 0", "p cnf zwei 3", "hello", "1 2 3.5 0"]),
                None => *c.rng.pick(&["+1 x1 >= ;", "+1 y1 >= 1;", "1 x1 2 >= 1;", "min 1 x1", "hello", "+1 x1 => 1;", "+1.5 x1 >= 1;"]),
            };
            let mut ls: Vec<&str> = text.lines().collect();
            let at = c.rng.us(0, ls.len());
            ls.insert(at, junk);
            text = ls.join("\n") + "\n";
        }
        _ if ko.is_empty() => {
            args.push("--no-such-option".into());
            if name == "propagator" || name == "check-solution" {
                args.swap(0, 1);
            }
        }
        3 => {
            // an output that cannot be written
            args.push(if c.rng.bool() { "/dev/full".into() } else { dir.join("none").join("out").to_str().unwrap().to_string() });
        }
        _ => {
            if name == "shuffledimacs" {
                // a missing argument
            } else {
                args.push(q.to_str().unwrap().to_string());
                args.push("--no-such-option".into());
            }
        }
    }
    if what < 3 && !ko.is_empty() {
        args.push(q.to_str().unwrap().to_string());
    }
    if exists {
        std::fs::write(&p, &text).unwrap();
    }
    c.log(&text);
    let o = run(c, name, &args, Some("v 0\n"))?;
    let ctx = format!("--- {name} {args:?}, input {}:\n{text}--- output (status {:?}):\n{}{}", if exists { "file" } else { "missing" }, o.code, o.out, o.err);
    check!(!o.ok(), format!("{name}:accepted"), "succeeds\n{ctx}");
    check!(!o.err.trim().is_empty() || !o.out.trim().is_empty(), format!("{name}:silent"), "fails without a diagnostic\n{ctx}");
    check!(!q.exists() || std::fs::metadata(&q).unwrap().len() == 0, format!("{name}:wrong-output"), "writes an output nevertheless\n{ctx}");
    c.nontrivial(&format!("{name}{what}{text}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C27

struct Knap {
    w: Vec<i128>,
    v: Vec<Vec<i128>>,
    cap: i128,
}
fn gen_knap(c: &mut Case) -> Knap {
    let n = c.rng.us(1, 6);
    let no = c.rng.us(1, 3);
    let top = *c.rng.pick(&[1usize, 3, 10, 40]);
    let lo = if c.rng.chance(1, 4) { 0 } else { 1 };
    let w: Vec<i128> = (0..n).map(|_| c.rng.us(lo, top) as i128).collect();
    let s: i128 = w.iter().sum();
    let cap = match c.rng.below(6) {
        0 => 0,
        1 => s,
        2 => s + 3,
        _ => c.rng.us(0, s as usize) as i128,
    };
    let v = (0..no).map(|_| (0..n).map(|_| c.rng.us(lo, top) as i128).collect()).collect();
    Knap { w, v, cap }
}
fn list(v: &[i128], sep: &str) -> String {
    v.iter().map(ToString::to_string).collect::<Vec<_>>().join(sep)
}
fn noise(c: &mut Case, s: &mut String, mark: &str) {
    if c.rng.chance(1, 6) {
        *s += &format!("{mark} a comment\n");
    }
    if c.rng.chance(1, 8) {
        *s += "\n";
    }
}
fn moolib_knap(c: &mut Case, k: &Knap) -> String {
    let mut s = String::new();
    noise(c, &mut s, "#");
    let note = |c: &mut Case| if c.rng.chance(1, 6) { " # note\n" } else { "\n" };
    s += &format!("{}{}", k.v.len(), note(c));
    noise(c, &mut s, "#");
    s += &format!("{}{}{}{}", k.w.len(), note(c), k.cap, note(c));
    let sep = *c.rng.pick(&[", ", ",", " , "]);
    let pad = *c.rng.pick(&["", "", " "]);
    for (i, v) in k.v.iter().enumerate() {
        s += &format!("{}[{pad}{}{pad}]{}", if i == 0 { "[" } else { "" }, list(v, sep), if i + 1 < k.v.len() { ",\n" } else { "]\n" });
        if i + 1 < k.v.len() {
            noise(c, &mut s, "#");
        }
    }
    s += &format!("[{pad}{}{pad}]", list(&k.w, sep));
    if c.rng.chance(3, 4) {
        s += "\n";
    }
    s
}
fn voptlib_knap(c: &mut Case, k: &Knap) -> String {
    let mut s = String::from("# Problem\n\n");
    s += &format!("# N\n{}\n\n# P\n{}\n\n# K\n1\n\n", k.w.len(), k.v.len());
    for (i, v) in k.v.iter().enumerate() {
        s += &format!("# Objectif {}\n{}\n\n", i + 1, list(v, "\n"));
    }
    s += &format!("# Contrainte 1\n{}\n\n{}", list(&k.w, "\n"), k.cap);
    if c.rng.chance(3, 4) {
        s += "\n";
    }
    s
}
fn knap_table(k: &Knap) -> Vec<Option<Vec<i128>>> {
    let n = k.w.len();
    let sum = |v: &[i128], b: u64| -> i128 { (0..n).filter(|i| b >> i & 1 == 1).map(|i| v[i]).sum() };
    (0..1u64 << n).map(|b| (sum(&k.w, b) <= k.cap).then(|| k.v.iter().map(|v| -sum(v, b)).collect())).collect()
}
fn pb_opts(c: &mut Case, args: &mut Vec<String>) -> (i64, bool) {
    args.push("pb".into());
    let f = first_idx(c, args, "first-var-idx");
    let a = c.rng.bool();
    if a {
        args.push("--avoid-negated-lits".into());
    }
    (f, a)
}
/// runs the generator on a text: (output, command)
fn generate(c: &mut Case, pre: &[String], post: &[String], text: &str) -> Result<(Out, String), Fail> {
    let dir = c.dir();
    let mut args = vec![];
    let out = c.rng.bool().then(|| dir.join("generated"));
    if let Some(p) = &out {
        let _ = std::fs::remove_file(p);
        args.push(p.to_str().unwrap().to_string());
    }
    args.extend(pre.iter().cloned());
    let file = c.rng.bool();
    if file {
        let p = dir.join("problem");
        std::fs::write(&p, text).unwrap();
        args.push(p.to_str().unwrap().to_string());
    }
    args.extend(post.iter().cloned());
    let mut o = run(c, "encodings", &args, (!file).then_some(text))?;
    let w = out.and_then(|p| std::fs::read_to_string(p).ok());
    if let Some(w) = w {
        o.out = w;
    }
    Ok((o, format!("{args:?}")))
}
fn knapsack(c: &mut Case) -> Res {
    let k = gen_knap(c);
    let vopt = c.rng.bool();
    let text = if vopt { voptlib_knap(c, &k) } else { moolib_knap(c, &k) };
    c.log(&text);
    let mut pre = vec![];
    let mut first = 1;
    let cnf = c.rng.bool();
    let single = cnf && c.rng.chance(1, 4);
    if cnf {
        pre.push("cnf".to_string());
        if single {
            pre.push("-s".into());
        }
    } else {
        first = pb_opts(c, &mut pre).0;
    }
    pre.extend(["knapsack".into(), "input".into()]);
    let post = if vopt { vec!["--in-format".into(), "v-opt-lib".into()] } else { vec![] };
    let (o, cmd) = generate(c, &pre, &post, &text)?;
    let ctx = format!("--- {cmd}\n{text}\n--- output (status {:?}):\n{}{}", o.code, o.out, o.err);
    check!(o.ok(), "knapsack:failed", "fails on a valid problem\n{ctx}");
    let got = if cnf { read_dimacs("knapsack", &o.out, if single { 1 } else { 2 })? } else { read_opb("knapsack", &o.out, first)? };
    let n = k.w.len();
    let mut want = knap_table(&k);
    let mut no = k.v.len();
    if single {
        no = 1;
        want = want.into_iter().map(|x| x.map(|v| vec![v.iter().sum()])).collect();
    }
    let tab = table(c, "knapsack", &got, n)?;
    same("knapsack", &want, &tab, no, &ctx)?;
    c.nontrivial(&ctx);
    Ok(())
}
fn random(c: &mut Case) -> Res {
    let n = c.rng.us(1, 6);
    let no = c.rng.us(1, 3);
    let mut range = |c: &mut Case| {
        let lo = c.rng.us(1, 9);
        (lo, lo + *c.rng.pick(&[0usize, 1, 1, 2, 10]))
    };
    let (w, v) = (range(c), range(c));
    let frac = c.rng.us(1, 4);
    let seed = c.rng.next() % 1000;
    let post: Vec<String> = format!("--n-items {n} --n-objectives {no} --min-weight {} --max-weight {} --min-value {} --max-value {} --cap-fraction {frac} --seed {seed}", w.0, w.1, v.0, v.1).split(' ').map(String::from).collect();
    let mut a = vec!["pb".to_string(), "knapsack".into(), "random".into()];
    a.extend(post.clone());
    let o = run(c, "encodings", &a, None)?;
    let ctx = format!("--- {a:?}\n--- output (status {:?}):\n{}{}", o.code, o.out, o.err);
    check!(o.ok(), "random:failed", "fails\n{ctx}");
    let pb = read_opb("random", &o.out, 1)?;
    check!(pb.objs.len() == no && pb.cons.len() == 1, "random:shape", "{} objectives, {} constraints\n{ctx}", pb.objs.len(), pb.cons.len());
    let tab = table(c, "random", &pb, n)?;
    // what the items are worth and weigh
    let mut k = Knap { w: vec![0; n], v: vec![vec![0; n]; no], cap: 0 };
    let flip = if pb.cons[0].op == Op::Ge { -1 } else { 1 };
    k.cap = flip * pb.cons[0].b;
    for (x, l) in &pb.cons[0].t {
        let i = l.unsigned_abs() as usize - 1;
        check!(i < n, "random:shape", "more than {n} items\n{ctx}");
        if *l < 0 {
            k.cap -= flip * x;
        }
        k.w[i] += flip * x * i128::from(l.signum());
    }
    for (j, o) in pb.objs.iter().enumerate() {
        for (x, cl) in o {
            // (the value is lost if the clause is not satisfied)
            let i = cl[0].unsigned_abs() as usize - 1;
            check!(i < n, "random:shape", "more than {n} items\n{ctx}");
            k.v[j][i] += x * i128::from(cl[0].signum());
        }
    }
    let inr = |x: &i128, r: (usize, usize)| *x >= r.0 as i128 && *x <= r.1 as i128;
    check!(k.w.iter().all(|x| inr(x, w)), "random:range", "weights {:?} outside of {w:?}\n{ctx}", k.w);
    check!(k.v.iter().flatten().all(|x| inr(x, v)), "random:range", "values {:?} outside of {v:?}\n{ctx}", k.v);
    check_eq!(k.cap, k.w.iter().sum::<i128>() / frac as i128, "random:capacity", "capacity\n{ctx}");
    same("random", &knap_table(&k), &tab, no, &ctx)?;
    // the same problem as clauses
    let mut a = vec!["cnf".to_string(), "knapsack".into(), "random".into()];
    a.extend(post);
    let o = run(c, "encodings", &a, None)?;
    check!(o.ok(), "random:failed", "fails: {}\n{ctx}", o.err);
    let cnf = read_dimacs("random", &o.out, 2)?;
    let tab = table(c, "random", &cnf, n)?;
    same("random-cnf", &knap_table(&k), &tab, no, &format!("{ctx}--- as clauses:\n{}", o.out))?;
    c.nontrivial(&ctx);
    Ok(())
}
fn matrix(c: &mut Case, rows: usize, cols: usize) -> Vec<Vec<i128>> {
    let top = *c.rng.pick(&[1usize, 5, 100]);
    (0..rows).map(|_| (0..cols).map(|_| c.rng.us(0, top) as i128).collect()).collect()
}
fn assignment(c: &mut Case) -> Res {
    let n = c.rng.us(1, 3);
    let no = c.rng.us(1, 3);
    let costs: Vec<Vec<Vec<i128>>> = (0..no).map(|_| matrix(c, n, n)).collect();
    let sep = *c.rng.pick(&[", ", ","]);
    let nl = *c.rng.pick(&[",\n", ",\n", ", ", ","]);
    let ol = *c.rng.pick(&["\n,\n", ",\n", ", "]);
    let pad = *c.rng.pick(&["", "", " "]);
    let mut text = String::new();
    noise(c, &mut text, "#");
    text += &format!("{no}\n{n}\n[");
    for (i, m) in costs.iter().enumerate() {
        let rows: Vec<String> = m.iter().map(|r| format!("[{pad}{}{pad}]", list(r, sep))).collect();
        text += &format!("{pad}[{pad}{}{pad}]{}", rows.join(nl), if i + 1 < no { ol } else { "\n" });
    }
    text += "]";
    if c.rng.bool() {
        text += "\n";
    }
    c.log(&text);
    let mut pre = vec![];
    let (first, _) = pb_opts(c, &mut pre);
    pre.push("assignment".into());
    let (o, cmd) = generate(c, &pre, &[], &text)?;
    let ctx = format!("--- {cmd}\n{text}\n--- output (status {:?}):\n{}{}", o.code, o.out, o.err);
    check!(o.ok(), "assignment:failed", "fails on a valid problem\n{ctx}");
    let got = read_opb("assignment", &o.out, first)?;
    let want: Vec<Option<Vec<i128>>> = (0..1u64 << (n * n))
        .map(|b| {
            let on = |t: usize, a: usize| b >> (t * n + a) & 1 == 1;
            let ok = (0..n).all(|t| (0..n).filter(|a| on(t, *a)).count() == 1) && (0..n).all(|a| (0..n).filter(|t| on(*t, a)).count() == 1);
            ok.then(|| costs.iter().map(|m| (0..n).flat_map(|t| (0..n).map(move |a| (t, a))).filter(|&(t, a)| on(t, a)).map(|(t, a)| m[t][a]).sum()).collect())
        })
        .collect();
    let tab = table(c, "assignment", &got, n * n)?;
    same("assignment", &want, &tab, no, &ctx)?;
    c.nontrivial(&ctx);
    Ok(())
}
fn facility_text(c: &mut Case, nc: usize, nf: usize, cost: &[Vec<Vec<i128>>], open: &[Vec<i128>]) -> String {
    let sep = *c.rng.pick(&[" ", "  ", "\t"]);
    let lead = *c.rng.pick(&["", " "]);
    let mut t = format!("{nc}\n{nf}\n");
    for m in cost {
        t += "\n";
        for r in m {
            t += &format!("{lead}{}{}\n", list(r, sep), *c.rng.pick(&["", "", " "]));
        }
    }
    for o in open {
        t += &format!("\n{}\n", list(o, sep));
    }
    if c.rng.chance(1, 4) {
        t.pop();
    }
    t
}
fn facility(c: &mut Case) -> Res {
    let (nc, nf) = (c.rng.us(1, 3), c.rng.us(1, 3));
    let cost: Vec<Vec<Vec<i128>>> = (0..2).map(|_| matrix(c, nc, nf)).collect();
    let open = matrix(c, 2, nf);
    let text = facility_text(c, nc, nf, &cost, &open);
    c.log(&text);
    let mut pre = vec![];
    let (first, _) = pb_opts(c, &mut pre);
    pre.push("facility-location".into());
    let (o, cmd) = generate(c, &pre, &[], &text)?;
    let ctx = format!("--- {cmd}\n{text}\n--- output (status {:?}):\n{}{}", o.code, o.out, o.err);
    check!(o.ok(), "facility:failed", "fails on a valid problem\n{ctx}");
    let got = read_opb("facility", &o.out, first)?;
    let n = (nc + 1) * nf;
    let want: Vec<Option<Vec<i128>>> = (0..1u64 << n)
        .map(|b| {
            let on = |k: usize, f: usize| b >> (k * nf + f) & 1 == 1;
            let ok = (0..nc).all(|k| (0..nf).filter(|f| on(k, *f)).count() == 1) && (0..nc).all(|k| (0..nf).all(|f| !on(k, f) || on(nc, f)));
            ok.then(|| {
                (0..2)
                    .map(|i| {
                        let s: i128 = (0..nc).flat_map(|k| (0..nf).map(move |f| (k, f))).filter(|&(k, f)| on(k, f)).map(|(k, f)| cost[i][k][f]).sum();
                        s + (0..nf).filter(|f| on(nc, *f)).map(|f| open[i][f]).sum::<i128>()
                    })
                    .collect()
            })
        })
        .collect();
    let tab = table(c, "facility", &got, n)?;
    same("facility", &want, &tab, 2, &ctx)?;
    c.nontrivial(&ctx);
    Ok(())
}
/// all partitions of `0..n`, as labels
fn partitions(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                let k = p.iter().max().map_or(0, |m| m + 1);
                (0..=k).map(move |l| {
                    let mut q = p.clone();
                    q.push(l);
                    q
                })
            })
            .collect();
    }
    out
}
fn clustering(c: &mut Case) -> Res {
    let n = c.rng.us(2, 5);
    let mult = *c.rng.pick(&[1000i64, 1000, 10, 1]);
    let off = *c.rng.pick(&[500i64, 500, 0, 5, -3]);
    let dc = *c.rng.pick(&[1i64, 1, 2, 40]);
    let hard = *c.rng.pick(&[499i64, 499, 300, 7]);
    let names = ["a", "b_1", "7", "N_x", "zz9"];
    let mut text = String::new();
    let mut sims: Vec<((usize, usize), i64)> = vec![];
    let mut seen: Vec<usize> = vec![];
    for i in 0..n {
        for j in i + 1..n {
            // (at most seven pairs count)
            if j > i + 1 && c.rng.chance(2, 5) {
                continue;
            }
            let s = match c.rng.below(4) {
                0 => c.rng.range(-100, 1100),
                1 => *c.rng.pick(&[0, 1000, 500, 499, 501, 999, 1, -1, -500, 498, 502]),
                _ => c.rng.range(0, 1000),
            };
            let (x, y) = if c.rng.bool() { (i, j) } else { (j, i) };
            if c.rng.chance(1, 10) {
                text += "% a comment\n";
            }
            if c.rng.chance(1, 12) {
                text += "\n";
            }
            let sgn = if s < 0 { "-" } else { "" };
            text += &format!("{}{}{}{} {sgn}{}.{:03}{}\n", *c.rng.pick(&["", "", " "]), names[x], *c.rng.pick(&[" ", "\t", "  "]), names[y], s.abs() / 1000, s.abs() % 1000, *c.rng.pick(&["", "", "", " ", "\r"]));
            for v in [x, y] {
                if !seen.contains(&v) {
                    seen.push(v);
                }
            }
            // (three decimals times a power of ten, cut off towards zero)
            let scaled = s * mult / 1000;
            sims.push(((i, j), scaled - off));
        }
    }
    c.log(&text);
    let single = c.rng.below(3);
    let mut pre = vec!["cnf".to_string()];
    if single == 1 {
        pre.push("-s".into());
    }
    pre.push("clustering".into());
    let mut post = vec![];
    if single == 2 {
        post.push("--single-objective".into());
    }
    post.extend([format!("--multiplier={mult}"), format!("--offset={off}"), format!("--dont-care={dc}"), format!("--hard-threshold={hard}")]);
    let (o, cmd) = generate(c, &pre, &post, &text)?;
    let ctx = format!("--- {cmd}\n{text}\n--- output (status {:?}):\n{}{}", o.code, o.out, o.err);
    check!(o.ok(), "clustering:failed", "fails on a valid problem\n{ctx}");
    let got = read_dimacs("clustering", &o.out, if single > 0 { 1 } else { 2 })?;
    // which costs there are
    let mut want: Vec<Vec<i128>> = vec![];
    for p in partitions(n) {
        let mut v = vec![0i128; 2];
        let mut ok = true;
        for ((i, j), s) in &sims {
            let together = p[*i] == p[*j];
            let a = s.abs();
            if a < dc {
            } else if a > hard {
                ok &= together == (*s > 0);
            } else if *s > 0 && !together {
                v[0] += i128::from(a);
            } else if *s <= 0 && together {
                v[1] += i128::from(a);
            }
        }
        if ok {
            want.push(if single > 0 { vec![v[0] + v[1]] } else { v });
        }
    }
    want.sort();
    want.dedup();
    let mut t: Vec<Vec<i128>> = table(c, "clustering", &Inst { n: 0, ..got }, 0).map_or_else(|_| vec![], |_| vec![]);
    t.clear();
    // all combinations of soft clauses that can be satisfied together
    let got = read_dimacs("clustering", &o.out, if single > 0 { 1 } else { 2 })?;
    let softs: Vec<(usize, i128, i32)> = got
        .objs
        .iter()
        .enumerate()
        .flat_map(|(i, o)| o.iter().map(move |x| (i, x.0, x.1.clone())))
        .map(|(i, w, cl)| if cl.len() == 1 { Ok((i, w, cl[0])) } else { bad("clustering", &format!("{cl:?}"), &o.out) })
        .collect::<Result<_, _>>()?;
    let mut s = Sat::new();
    for k in &got.cons {
        s.add(&cl_of(k));
    }
    fn go(s: &mut Sat, softs: &[(usize, i128, i32)], a: &mut Vec<i32>, cost: Vec<i128>, out: &mut Vec<Vec<i128>>) {
        if !s.solve(a) {
            return;
        }
        let Some(&(i, w, l)) = softs.get(a.len()) else {
            out.push(cost);
            return;
        };
        for x in [l, -l] {
            a.push(x);
            let mut k = cost.clone();
            if x != l {
                k[i] += w;
            }
            go(s, softs, a, k, out);
            a.pop();
        }
    }
    go(&mut s, &softs, &mut vec![], vec![0; if single > 0 { 1 } else { 2 }], &mut t);
    t.sort();
    t.dedup();
    c.count("cost vectors", t.len() as u64);
    check!(t == want, "clustering:costs", "the costs of the instance are {t:?}, those of the clusterings {want:?}\n{ctx}");
    c.nontrivial(&ctx);
    Ok(())
}
/// problems that are none
fn refused_problems(c: &mut Case) -> Res {
    let which = c.rng.below(5);
    let mut pre: Vec<String> = vec![];
    let mut post: Vec<String> = vec![];
    let mut text;
    match which {
        0 | 1 => {
            let mut k = gen_knap(c);
            pre.extend([(*c.rng.pick(&["pb", "cnf"])).to_string(), "knapsack".into(), "input".into()]);
            let cut = c.rng.below(4);
            if which == 0 {
                match cut {
                    0 => {
                        // an item without weight, or one too many
                        if c.rng.bool() && k.w.len() > 1 {
                            let n = k.w.len();
                            text = moolib_knap(c, &k);
                            k.w.truncate(n - 1);
                            let at = text.rfind('[').unwrap();
                            text = format!("{}[{}]\n", &text[..at], list(&k.w, ", "));
                        } else {
                            text = moolib_knap(c, &k);
                            let at = text.rfind(']').unwrap();
                            text.insert_str(at, ", 3");
                        }
                    }
                    1 => {
                        text = moolib_knap(c, &k);
                        let at = text.find(']').unwrap();
                        text.insert_str(at, ", 3");
                    }
                    2 => {
                        text = moolib_knap(c, &k);
                        let at = text.rfind('[').unwrap();
                        text.truncate(at);
                    }
                    _ => {
                        text = moolib_knap(c, &k);
                        let at = text.find('[').unwrap() + 2;
                        text.insert_str(at, "x");
                    }
                }
            } else {
                post.extend(["--in-format".into(), "v-opt-lib".into()]);
                text = voptlib_knap(c, &k);
                if cut < 2 {
                    // the capacity, and maybe more, is missing
                    let keep = text.trim_end().lines().count() - c.rng.us(1, 3);
                    text = text.lines().take(keep).collect::<Vec<_>>().join("\n") + "\n";
                    let last_num = text.lines().filter(|l| l.trim().parse::<u64>().is_ok()).count();
                    if last_num >= 3 + k.w.len() * (k.v.len() + 1) + 1 {
                        return Ok(());
                    }
                } else {
                    let at = text.find("Objectif 1\n").unwrap() + "Objectif 1\n".len();
                    text.insert_str(at, "abc\n");
                }
            }
        }
        2 => {
            pre.extend(["pb".into(), "assignment".into()]);
            text = (*c.rng.pick(&[
                "1\n2\n[[[1, 2],[3]]]\n",
                "1\n2\n[[[1, 2]]]\n",
                "2\n2\n[[[1, 2],[3, 4]]]\n",
                "1\n2\n[[[1, 2],[3, 4],[5, 6]]]\n",
                "1\n2\n[[[1, 2],[3, 4]],[[1, 2],[3, 4]]]\n",
                "1\n2\n[[[1, 2, 9],[3, 4]]]\n",
                "1\n2\nabc\n",
                "1\n2\n[[[1, 2],[3, x]]]\n",
                "1\n2\n[[[1, 2],[3, 4]]] abc\n",
                "1\n2\n[[[1, 2],[3, 4]]]]\n",
                "1\n2\n,[[[1, 2],[3, 4]]]\n",
                "1\n2\n",
                "1\n",
                "x\n2\n[[[1, 2],[3, 4]]]\n",
                "1\n2\n[[[1, 2],[3, 4]]\n",
                "2\n1\n[[[1],[2]],[[3]]]\n",
            ]))
            .to_string();
        }
        3 => {
            pre.extend(["pb".into(), "facility-location".into()]);
            let (nc, nf) = (c.rng.us(1, 3), c.rng.us(1, 3));
            let mut cost: Vec<Vec<Vec<i128>>> = (0..2).map(|_| matrix(c, nc, nf)).collect();
            let mut open = matrix(c, 2, nf);
            match c.rng.below(4) {
                0 => {
                    let i = c.rng.below(2);
                    cost[i][nc - 1].push(5);
                }
                1 if nf > 1 => {
                    let i = c.rng.below(2);
                    cost[i][0].pop();
                }
                2 => {
                    let i = c.rng.below(2);
                    open[i].push(1);
                }
                _ => {
                    open.pop();
                }
            }
            text = facility_text(c, nc, nf, &cost, &open);
        }
        _ => {
            pre.extend(["cnf".into(), "clustering".into()]);
            let junk = *c.rng.pick(&["a b", "a b x", "a b 0.5 0.7", "a-b 0.4", "a b 0,5"]);
            text = format!("a b 0.7\n{junk}\nb d 0.2\n");
        }
    }
    c.log(&text);
    let (o, cmd) = generate(c, &pre, &post, &text)?;
    let ctx = format!("--- {cmd}\n{text}\n--- output (status {:?}):\n{}{}", o.code, o.out, o.err);
    check!(!o.ok(), format!("{}:accepted", pre[1]), "succeeds\n{ctx}");
    check!(!o.err.trim().is_empty(), format!("{}:silent", pre[1]), "fails without a diagnostic\n{ctx}");
    c.nontrivial(&ctx);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C24",
            "what the tools write, read independently, has the same solutions and costs as the input by brute force; checker and enumerator against the same brute force; distinct by input and output",
            vec![
                Sub::new("convert", 30, convert),
                Sub::new("shuffle", 10, shuffle),
                Sub::new("checker", 15, checker),
                Sub::new("enumerator", 12, enumerator),
                Sub::new("ilp", 12, ilp),
                Sub::new("split", 15, split),
                Sub::new("propagator", 6, propagator),
                Sub::new("refused", 10, refused),
            ],
        )
        .quick(20)
        .thorough(600),
        Prop::new(
            "C27",
            "the generated instance, read independently, allows exactly the solutions of the problem with exactly their costs by brute force; distinct by problem and options",
            vec![
                Sub::new("knapsack", 20, knapsack),
                Sub::new("random", 10, random),
                Sub::new("assignment", 15, assignment),
                Sub::new("facility", 15, facility),
                Sub::new("clustering", 25, clustering),
                Sub::new("refused", 12, refused_problems),
            ],
        )
        .quick(20)
        .thorough(600),
    ]
}
