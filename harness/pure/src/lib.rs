pub mod canon;
pub mod rt;
pub mod enc;
pub mod m_am1;
pub mod m_enc;
pub mod m_types;
pub mod m_fio;
pub mod m_inst;
pub mod m_totdb;
pub mod veripb;
pub mod m_cert;
pub mod m_ext;
pub mod m_serde;
pub mod m_capi;
pub mod m_py;
pub mod m_tools;
pub mod m_mem;

pub fn all_props() -> Vec<vcore::Prop> {
    let mut p = vec![];
    p.extend(m_am1::props());
    p.extend(m_enc::props());
    p.extend(m_types::props());
    p.extend(m_fio::props());
    p.extend(m_inst::props());
    p.extend(m_totdb::props());
    p.extend(m_cert::props());
    p.extend(m_ext::props());
    p.extend(m_serde::props());
    p.extend(m_capi::props());
    p.extend(m_py::props());
    p.extend(m_tools::props());
    p
}
