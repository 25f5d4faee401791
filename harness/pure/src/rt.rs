//! Round trips through serialisation formats (C30)
//!
//! While switched on, the monitors of the other properties put the values they work on through a
//! round trip at arbitrary points of their histories and carry on with what was restored.
use crate::canon;
use serde::{de::DeserializeOwned, Serialize};
use std::cell::Cell;
use vcore::{Case, Fail};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}

pub fn on() -> bool {
    ON.with(Cell::get)
}

/// runs a monitor with round trips
pub fn with<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    ON.with(|o| o.set(true));
    let _off = Off;
    f()
}

/// with the switch on, whether to do a round trip here
pub fn now(c: &mut Case) -> bool {
    on() && c.rng.chance(2, 5)
}

pub const FORMATS: usize = 4;

/// serialises and restores
pub fn trip<T: Serialize + DeserializeOwned>(x: &T, fmt: usize) -> Result<(T, &'static str), String> {
    let before = canon::tree(x)?;
    let json = || -> Option<Result<T, String>> {
        // JSON only has string keys: maps over other keys cannot be written at all
        let s = serde_json::to_string(x).ok()?;
        Some(serde_json::from_str(&s).map_err(|e| format!("JSON: {e} in {}", s.chars().take(400).collect::<String>())))
    };
    let (y, name): (Result<T, String>, _) = match fmt {
        0 => (bincode::serialize(x).map_err(|e| format!("bincode: {e}")).and_then(|b| bincode::deserialize(&b).map_err(|e| format!("bincode: {e}"))), "bincode"),
        1 => (ron::to_string(x).map_err(|e| format!("RON: {e}")).and_then(|b| ron::from_str(&b).map_err(|e| format!("RON: {e} in {}", b.chars().take(400).collect::<String>()))), "RON"),
        2 => match json() {
            Some(y) => (y, "JSON"),
            None => return trip(x, 0),
        },
        _ => {
            // through the generic tree of a self-describing format
            match serde_json::to_value(x) {
                Ok(v) => (serde_json::from_value(v.clone()).map_err(|e| format!("JSON value: {e} in {}", v.to_string().chars().take(400).collect::<String>())), "JSON value"),
                Err(_) => return trip(x, 1),
            }
        }
    };
    let y = y?;
    let after = canon::tree(&y)?;
    if before != after {
        return Err(format!("{name}: restored value differs at {}", canon::diff(&before, &after)));
    }
    Ok((y, name))
}

/// puts the value through a round trip if it is time to
pub fn maybe<T: Serialize + DeserializeOwned>(c: &mut Case, what: &str, x: &mut T) -> Result<bool, Fail> {
    if !now(c) {
        return Ok(false);
    }
    let fmt = c.rng.below(FORMATS);
    let y = c.run(&format!("{what}:roundtrip"), || trip(x, fmt))?;
    match y {
        Ok((y, name)) => {
            c.count("values restored", 1);
            c.count(name, 1);
            c.log(format!("  ({what} restored from {name})"));
            *x = y;
            Ok(true)
        }
        Err(e) => Err(Fail { sig: format!("roundtrip:{what}"), msg: e }),
    }
}

/// as `maybe` for values that can be compared
pub fn eq<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(c: &mut Case, what: &str, x: &T) -> Result<T, Fail> {
    let fmt = c.rng.below(FORMATS);
    let y = c.run(&format!("{what}:roundtrip"), || trip(x, fmt))?;
    match y {
        Ok((y, name)) => {
            c.count("values restored", 1);
            c.count(name, 1);
            if y != *x {
                return Err(Fail { sig: format!("roundtrip:{what}"), msg: format!("{name}: {x:?} became {y:?}") });
            }
            Ok(y)
        }
        Err(e) => Err(Fail { sig: format!("roundtrip:{what}"), msg: e }),
    }
}
