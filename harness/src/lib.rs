//! Bounded exhaustive exploration of rustnomial against a boring reference model.
pub mod engine;
pub mod coef;
pub mod model;
pub mod obs;
pub mod dom;
