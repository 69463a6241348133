pub mod actgen;
pub mod cli;
pub mod engine;
pub mod model;
pub mod props;
