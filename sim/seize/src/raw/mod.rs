mod collector;
mod tls;
mod utils;

pub mod membarrier;

pub use collector::{Collector, Reservation};
pub use tls::Thread;
