//! The whole of the repository's data-availability interface at tiny parameters (the same source
//! compiled with small values of the two constants everything derives from), compared on whole
//! bounded input spaces with a complete functional model: for every request the model says which
//! bytes or which kind of failure it gives.
mod encode;
mod hist;
mod prove;
mod recover;
mod setup;
mod sys;
mod verify;

pub use encode::c10;
pub use hist::{c11, c13};
pub use prove::{c01, c02_c03};
pub use recover::{c08, c09};
pub use setup::c24;
pub use verify::{c04, c05, c07};
