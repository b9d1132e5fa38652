#![allow(clippy::all)]
pub mod sym;
pub mod coding;
pub mod slices;
pub mod hashes;
pub mod filters;
pub mod logs;
pub mod mem;
pub mod cache;
pub mod mtab;
pub mod misc;
pub mod skip;
pub mod hist;
pub mod big;
pub mod threads;
pub mod big2;
pub mod big3;
include!(concat!(env!("OUT_DIR"), "/entries.rs"));
