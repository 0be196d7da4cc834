//! Enumeration engine, sets of formulas, and reference implementations.
pub mod core;
pub mod drat;
pub mod engine;
pub mod form;
pub mod refsat;
pub mod spaces;
