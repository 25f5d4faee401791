//! C19: the monitors of the solver interfaces, run for the instrumentation that watches them
use crate::drv::*;
use crate::{m_hard, m_max, m_solve};
use rustsat::solvers::*;
use std::sync::Arc;
use vcore::c19::{released, watched};
use vcore::{check_eq, Case, Prop, Res};

fn histories(c: &mut Case) -> Res {
    watched(c, m_solve::c16_small)
}
fn extras(c: &mut Case) -> Res {
    watched(c, m_solve::c17_small)
}
fn maxsat(c: &mut Case) -> Res {
    if c.idx % 2 == 0 { watched(c, m_max::c15_inst) } else { watched(c, m_max::c15_search) }
}
fn threads(c: &mut Case) -> Res {
    if c.rng.chance(1, 6) { watched(c, m_hard::stop) } else { watched(c, m_hard::threads) }
}
/// smaller, more concurrent
fn races(c: &mut Case) -> Res {
    threads(c)
}
#[cfg(feature = "cad")]
fn tracers(c: &mut Case) -> Res {
    watched(c, crate::m_proof::tracer)
}
#[cfg(feature = "cad")]
fn files(c: &mut Case) -> Res {
    watched(c, crate::m_pfile::file)
}
fn release(c: &mut Case) -> Res {
    #[cfg(feature = "cad")]
    let k = c.idx % 8;
    #[cfg(not(feature = "cad"))]
    let k = c.idx % 4;
    match k {
        0 | 1 => released(c, "history", m_solve::c16_small),
        2 => released(c, "extras", m_solve::c17_small),
        3 => released(c, "maxsat", m_max::c15_search),
        #[cfg(feature = "cad")]
        4 | 5 => released(c, "tracer", crate::m_proof::tracer),
        #[cfg(feature = "cad")]
        6 => released(c, "proof file", crate::m_pfile::file),
        _ => released(c, "callbacks", callbacks),
    }
}
fn uninit(c: &mut Case) -> Res {
    match c.idx % 6 {
        #[cfg(feature = "cad")]
        4 => tracers(c),
        #[cfg(feature = "cad")]
        5 => files(c),
        0 | 4 => histories(c),
        1 | 5 => extras(c),
        2 => maxsat(c),
        _ => watched(c, callbacks),
    }
}

/// the captured state of callbacks is dropped exactly once: when detached, replaced or with the solver
fn callbacks(c: &mut Case) -> Res {
    let i = c.rng.below(MAKE.len());
    let mut d = make(i);
    let name = d.name();
    let token = Arc::new(0u8);
    let (mut term, mut learn) = (0, 0);
    c.log(format!("callbacks of {name}"));
    let mut solved = false;
    for _ in 0..c.rng.us(1, 12) {
        let what = c.rng.below(6);
        match what {
            0 => {
                let t = token.clone();
                if d.attach_term(Box::new(move || if *t == 0 { ControlSignal::Continue } else { ControlSignal::Terminate })) {
                    term = 1;
                }
            }
            1 => {
                d.detach_term();
                term = 0;
            }
            2 => {
                let t = token.clone();
                let mut _n = 0;
                let max = c.rng.us(0, 5);
                if d.attach_learn(Box::new(move |cl| _n += cl.len() + *t as usize), max) {
                    learn = 1;
                }
            }
            3 => {
                d.detach_learn();
                learn = 0;
            }
            4 if d.incremental() || !solved => {
                for _ in 0..c.rng.us(0, 20) {
                    let k = c.rng.us(1, 3);
                    let cl = c.rng.distinct_lits(8, k);
                    let _ = d.add(4, &m_solve::clause(&cl));
                }
            }
            5 if d.incremental() || !solved => {
                let _ = c.run("solve", || d.solve());
                solved = true;
            }
            _ => {}
        }
        c.log(format!("{what}: {term} {learn}"));
        check_eq!(Arc::strong_count(&token), 1 + term + learn, format!("callback:{name}"), "owners of the state captured by callbacks");
    }
    if c.rng.bool() {
        drop(d);
    } else {
        std::thread::spawn(move || drop(d)).join().expect("drop");
    }
    check_eq!(Arc::strong_count(&token), 1, format!("callback:{name}"), "owners of the state captured by callbacks after the solver was dropped");
    c.count("callback lifetimes", 1);
    c.nontrivial(&format!("{name}{}", c.idx));
    Ok(())
}

pub fn prop() -> Prop {
    vcore::c19::prop(&|n| {
        Some(match n {
            #[cfg(feature = "cad")]
            "tracers" => tracers,
            #[cfg(feature = "cad")]
            "files" => files,
            "histories" | "kissat" => histories,
            "extras" => extras,
            "maxsat" | "kissat-maxsat" => maxsat,
            "callbacks" => callbacks,
            "release" | "kissat-release" => release,
            "threads" | "kissat-threads" => threads,
            "races" | "kissat-races" => races,
            "uninit" | "kissat-uninit" => uninit,
            _ => return None,
        })
    })
}
