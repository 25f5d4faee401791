//! Monitors that need the bundled solvers. The same sources are built once with CaDiCaL and once
//! with Kissat (package vkis), since the C code of the two defines the same symbols.
#![allow(dead_code)]
mod drv;
mod m_hard;
mod m_max;
mod m_mem;
#[cfg(feature = "cad")]
mod m_pfile;
#[cfg(feature = "cad")]
mod m_proof;
#[cfg(feature = "cad")]
mod proofdb;
#[cfg(feature = "cad")]
#[path = "../../pure/src/veripb.rs"]
mod veripb;
mod m_solve;

fn main() {
    let mut p = vec![];
    p.extend(m_solve::props());
    p.extend(m_max::props());
    #[cfg(feature = "cad")]
    p.extend(m_proof::props());
    p.push(m_mem::prop());
    vcore::engine::main_with(p)
}
