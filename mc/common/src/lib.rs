//! Shared by all harnesses: the explorer's bookkeeping (states, transitions, verdicts,
//! evidence, replay files) and the reference model. Nothing here depends on /repo.
pub mod explore;
pub mod model;
pub use explore::*;
pub use model::*;
