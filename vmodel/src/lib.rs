//! Monitor runtime and reference model. Has no dependency on the code under test.
pub mod gen;
pub mod model;
pub mod rng;
pub mod runner;

pub use gen::*;
pub use model::*;
pub use rng::Rng;
pub use runner::{hex, unhex, Case, Family, Prop, R};

/// Violation unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
/// Violation unless equal.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($f)*), a, b));
        }
    }};
}
