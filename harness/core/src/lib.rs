pub mod c19;
pub mod engine;
pub mod oracle;
pub mod rng;
pub use engine::{Case, Fail, Prop, Res, Sub};
pub use rng::{hash_bytes, hash_str, mix, Rng};
