#[path = "../../harness/src/actgen.rs"]
pub mod actgen;
#[path = "../../harness/src/cli.rs"]
pub mod cli;
#[path = "../../harness/src/engine.rs"]
pub mod engine;
#[path = "../../harness/src/model.rs"]
pub mod model;
pub mod props;
