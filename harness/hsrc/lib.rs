#[macro_use]
pub mod engine;
pub mod tarch;
pub mod mock;
pub mod rsp;
pub mod sess;
#[macro_use]
pub mod model;
pub mod hist;
pub mod props;
pub mod sysregs;
pub mod fuzz;
