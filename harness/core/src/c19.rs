//! The monitors of C19 (memory safety), shared by the binaries that run them
use crate::{Case, Prop, Res, Sub};

/// (name, binary, share, most cases in the quick and thorough tier)
const LIST: &[(&str, &str, u32, (u64, u64))] = &[
    ("histories", "", 30, (0, 0)),
    ("extras", "", 15, (0, 0)),
    ("tracers", "", 12, (0, 0)),
    ("files", "", 6, (0, 0)),
    ("maxsat", "", 6, (0, 0)),
    ("callbacks", "", 6, (0, 0)),
    ("release", "", 13, (0, 0)),
    ("threads", "", 12, (0, 0)),
    ("kissat", "vkis", 40, (0, 0)),
    ("kissat-maxsat", "vkis", 10, (0, 0)),
    ("kissat-release", "vkis", 20, (0, 0)),
    ("kissat-threads", "vkis", 30, (0, 0)),
    ("capi", "vpure", 70, (0, 0)),
    ("pure", "vpure", 30, (0, 0)),
    ("races", "vrace", 100, (0, 0)),
    ("kissat-races", "vracekis", 100, (0, 0)),
    ("uninit", "vgrind", 100, (0, 0)),
    ("kissat-uninit", "vgrindkis", 100, (0, 0)),
    ("miri", "vmiri", 100, (0, 0)),
];

pub fn prop(find: &dyn Fn(&str) -> Option<fn(&mut Case) -> Res>) -> Prop {
    fn missing(_: &mut Case) -> Res {
        panic!("harness/: monitor of another binary")
    }
    let subs = LIST
        .iter()
        .map(|&(n, e, s, m)| Sub::new(n, s, find(n).unwrap_or(missing)).max(m.0, m.1).hang(if e == "vmiri" { 120 } else { 240 }, false).cut(e == "vmiri").exe(e))
        .collect();
    Prop::new(
        "C19",
        "the sanitizers and interpreters watching the real code (AddressSanitizer, ThreadSanitizer, Valgrind, Miri) report nothing, no process crashes, and what a handle allocated is released with it; distinct by history",
        subs,
    )
    .quick(45)
    .thorough(900)
    .workers(3)
    .alt("vkis", 1)
    .alt("vpure", 1)
    .alt("vrace", 2)
    .alt("vracekis", 1)
    .alt("vgrind", 2)
    .alt("vgrindkis", 1)
    .alt("vmiri", 3)
}

/// Runs a monitor for the sake of the instrumentation watching it: what the monitor itself objects
/// to is decided by the other properties
pub fn watched(c: &mut Case, f: impl FnOnce(&mut Case) -> Res) -> Res {
    #[cfg(miri)]
    crate::oracle::WORK.store(0, std::sync::atomic::Ordering::Relaxed);
    match crate::engine::guard(|| f(c)) {
        Ok(Ok(())) => {}
        Ok(Err(_)) | Err(_) => c.count("cases other properties object to", 1),
    }
    Ok(())
}

/// bytes of the heap in use
pub fn live() -> i64 {
    static BYTES: std::sync::OnceLock<Option<usize>> = std::sync::OnceLock::new();
    let f = *BYTES.get_or_init(|| {
        let p = unsafe { libc::dlsym(libc::RTLD_DEFAULT, c"__sanitizer_get_current_allocated_bytes".as_ptr()) };
        if p.is_null() { None } else { Some(p as usize) }
    });
    match f {
        Some(p) => {
            let f: extern "C" fn() -> usize = unsafe { std::mem::transmute(p) };
            f() as i64
        }
        None => {
            let m = unsafe { libc::mallinfo2() };
            (m.uordblks + m.hblkhd) as i64
        }
    }
}

/// Runs the same case again and again: the memory in use must not grow
pub fn released(c: &mut Case, what: &str, f: fn(&mut Case) -> Res) -> Res {
    let mut used = [0i64; 6];
    for u in &mut used {
        let mut x = c.fresh();
        let _ = crate::engine::guard(|| f(&mut x));
        drop(x);
        *u = live();
    }
    c.count("repetitions with the memory in use compared", used.len() as u64 - 1);
    c.log(format!("{what}: bytes in use after each repetition {used:?}"));
    // (the first runs may fill caches)
    let d: Vec<i64> = used.windows(2).map(|w| w[1] - w[0]).collect();
    if d[2..].iter().all(|&x| x > 0) {
        crate::fail!("leak", "the same case, repeated, needs more and more memory: {used:?}");
    }
    c.nontrivial(&format!("{what}{}{}", c.idx, c.seed));
    Ok(())
}
