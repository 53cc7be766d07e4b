//! What the harness and the typed pattern tables share.
pub mod dynp;
pub mod gram;
pub mod own;
pub mod sched;
pub mod val;
pub mod typed;
pub mod puzzle;
