//! Property-based checking framework for http-types (see /verif/DESIGN.md).
pub mod dict;
pub mod fw;
pub mod gen;
pub mod magic;
pub mod hx;
pub mod refmodel;
pub mod sched;
