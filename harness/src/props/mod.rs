pub mod backend;
pub mod config;
pub mod driver;
pub mod extreme;
pub mod instr;
pub mod queue;
pub mod routing;
pub mod san;
pub mod snap;
pub mod timed;
pub mod tree;
