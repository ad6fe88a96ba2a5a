#![allow(clippy::all)]
pub mod engine;
pub mod flash;
pub mod map;
pub mod refdec;
pub mod report;
pub mod util;
pub mod queue;
pub mod buffered;
pub mod caches;
pub mod worlds;
#[cfg(feature = "ring")]
pub mod ring;
