pub mod alloc;
pub mod clock;
pub mod frame;
pub mod model;
pub mod refs;
pub mod rng;
pub use frame::*;
pub use rng::{fnv, mix, Gen};
