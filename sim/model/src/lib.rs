//! The reference model: program generator with expected trees, layout, token accounting.
pub mod doc;
pub mod gen;
pub mod json;
pub mod layout;
pub mod leaves;
pub mod rng;
