//! C19: the monitors of the library and its C interface, run for the instrumentation that watches them
use crate::*;
use vcore::c19::watched;
use vcore::engine::guard;
use vcore::{fail, Case, Prop, Res};

type F = fn(&mut Case) -> Res;

fn capi(c: &mut Case) -> Res {
    thread_local! {
        static SUBS: Vec<F> = m_capi::props()[0].subs.iter().map(|s| s.f).collect();
    }
    let k = c.idx as usize;
    let f = SUBS.with(|s| s[k % s.len()]);
    match guard(|| f(c)) {
        Ok(Err(x)) if x.sig.contains("leak") || x.msg.contains("process calling the C interface died") => return Err(x),
        Err((m, _)) if m.contains("process calling the C interface died") => fail!("capi:died", "{m}"),
        Ok(Ok(())) => {}
        _ => c.count("cases other properties object to", 1),
    }
    Ok(())
}

fn subs(skip: &[&str]) -> Vec<F> {
    let mut out = vec![];
    for p in all_props() {
        for s in &p.subs {
            let n = format!("{}:{}", p.id, s.name);
            if !["C18", "C19", "C20", "C24", "C26", "C27"].contains(&p.id) && !skip.iter().any(|x| n.starts_with(x)) {
                out.push(s.f);
            }
        }
    }
    out
}
fn pure(c: &mut Case) -> Res {
    thread_local! {
        static SUBS: Vec<F> = subs(&["C06:big"]);
    }
    let k = c.idx as usize;
    let f = SUBS.with(|s| s[k % s.len()]);
    watched(c, f)
}
/// what an interpreter gets through in reasonable time
fn miri(c: &mut Case) -> Res {
    thread_local! {
        static SUBS: Vec<F> = subs(&["C06", "C22", "C08:large", "C09:large", "C09:dpw", "C10", "C11", "C04", "C05", "C30"]);
    }
    let k = c.idx as usize;
    let f = SUBS.with(|s| s[k % s.len()]);
    watched(c, f)?;
    c.nontrivial(&format!("{k}"));
    Ok(())
}

pub fn prop() -> Prop {
    vcore::c19::prop(&|n| {
        Some(match n {
            "capi" => capi,
            "pure" => pure,
            "miri" => miri,
            _ => return None,
        })
    })
}
