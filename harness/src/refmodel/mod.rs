//! Reference models shared between properties. None of them calls the code under test.
pub mod mime;
