//! Shared parts of the monitors: random instances, the independent reference model, and
//! the case runner that turns executions into a verdict.
pub mod chaos;
pub mod files;
pub mod gen;
pub mod hooks;
pub mod model;
pub mod modes;
pub mod rng;
pub mod run;
pub mod sim;
pub mod stat;
pub mod step;
