#[macro_use]
pub mod build;
pub mod grammar;
pub mod model;
pub mod mon;
pub mod rng;
#[cfg(feature = "std")]
pub mod sim;
pub mod run;
pub mod drive;
pub mod sources;
#[cfg(feature = "std")]
pub mod watch;
pub mod ledger;
#[cfg(feature = "std")]
pub mod alloc;
pub mod statics;
