//! Types shared by the generated schema crates and the simulator: values, the uniform access
//! interface over the code under test, and the independent reference codec.
pub mod model;
pub mod rng;
mod val;
pub use val::*;
