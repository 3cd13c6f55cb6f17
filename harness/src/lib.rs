pub mod dd;
pub mod de;
pub mod elems;
pub mod expr;
pub mod mm;
pub mod owned;
pub mod poly;
pub mod run;
pub use run::{Log, Res, Rng, Run};

/// `ensure!(cond, "format", ...)`: refutes the property when `cond` is false.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
