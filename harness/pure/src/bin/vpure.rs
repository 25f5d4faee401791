fn main() {
    if std::env::args_os().any(|a| a == "--fake-solver") {
        vpure::m_ext::fake_solver();
        return;
    }
    let mut p = vpure::all_props();
    p.push(vpure::m_mem::prop());
    vcore::engine::main_with(p)
}
