//! Stand-in for `rand`: every draw is an arbitrary value chosen by the harness
//! (a symbolic variable under the engine, the recorded value in a replay).
use std::ops::{Range, RangeInclusive};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
extern "C" { fn rsym_any(width: u32, name: *const u8, len: usize) -> u64; fn rsym_assume(c: bool); }
fn draw(w: u32) -> u64 { if let Some(x) = seq() { return if w == 64 { (x as u64) << 32 | seq().unwrap() as u64 } else { (x as u64) & ((1u64 << w) - 1) }; } unsafe { rsym_any(w, b"rand".as_ptr(), 4) } }

pub trait Draw: Sized { fn draw() -> Self; }
macro_rules! ints { ($($t:ty, $w:expr);*) => { $(impl Draw for $t { fn draw() -> Self { draw($w) as $t } })* } }
ints!(u8, 8; i8, 8; u16, 16; i16, 16; u32, 32; i32, 32; u64, 64; i64, 64; usize, 64; isize, 64);
/// a harness may bound how many coins in a row come up true (a bound on tower heights); the next one is false
pub static ROW: AtomicU32 = AtomicU32::new(u32::MAX);
/// a harness may fix the coins to a pseudo-random sequence instead (nonzero seed): long histories with one mix of heights
pub static SEQ: AtomicU32 = AtomicU32::new(0);
fn seq() -> Option<u32> { let mut x = SEQ.load(Relaxed); if x == 0 { return None; } x ^= x << 13; x ^= x >> 17; x ^= x << 5; SEQ.store(x, Relaxed); Some(x) }
static RUN: AtomicU32 = AtomicU32::new(0);
impl Draw for bool {
    fn draw() -> Self {
        if SEQ.load(Relaxed) != 0 { return draw(1) != 0; }
        let run = RUN.load(Relaxed);
        let r = run < ROW.load(Relaxed) && draw(1) != 0;
        RUN.store(if r { run + 1 } else { 0 }, Relaxed);
        r
    }
}
// multiples of 2^-10 in [0, 1)
impl Draw for f32 { fn draw() -> Self { (draw(16) & 1023) as f32 / 1024.0 } }
impl Draw for f64 { fn draw() -> Self { (draw(16) & 1023) as f64 / 1024.0 } }

pub fn random<T: Draw>() -> T { T::draw() }

pub trait SampleRange<T> { fn pick(self) -> T; }
macro_rules! ranges { ($($t:ty),*) => { $(
    impl SampleRange<$t> for Range<$t> { fn pick(self) -> $t { assert!(self.start < self.end, "cannot sample empty range"); let v = <$t>::draw(); unsafe { rsym_assume(v >= self.start && v < self.end) }; v } }
    impl SampleRange<$t> for RangeInclusive<$t> { fn pick(self) -> $t { assert!(self.start() <= self.end(), "cannot sample empty range"); let v = <$t>::draw(); unsafe { rsym_assume(v >= *self.start() && v <= *self.end()) }; v } }
)* } }
ranges!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);

pub trait RngCore {
    fn next_u32(&mut self) -> u32 { draw(32) as u32 }
    fn next_u64(&mut self) -> u64 { draw(64) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = draw(8) as u8; } }
}
pub trait Rng: RngCore {
    fn gen<T: Draw>(&mut self) -> T { T::draw() }
    fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T { r.pick() }
    fn gen_bool(&mut self, p: f64) -> bool { let b = bool::draw(); if p <= 0.0 { false } else if p >= 1.0 { true } else { b } }
    fn gen_ratio(&mut self, n: u32, d: u32) -> bool { assert!(d > 0 && n <= d); let b = bool::draw(); if n == 0 { false } else if n == d { true } else { b } }
}
impl<R: RngCore + ?Sized> Rng for R {}
#[derive(Clone, Debug, Default)]
pub struct ThreadRng;
impl RngCore for ThreadRng {}
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub trait SeedableRng: Sized { fn seed_from_u64(s: u64) -> Self; fn from_entropy() -> Self; }
pub mod rngs {
    pub use super::ThreadRng;
    #[derive(Clone, Debug, Default)] pub struct StdRng;
    #[derive(Clone, Debug, Default)] pub struct SmallRng;
    impl super::RngCore for StdRng {}
    impl super::RngCore for SmallRng {}
    impl super::SeedableRng for StdRng { fn seed_from_u64(_: u64) -> Self { StdRng } fn from_entropy() -> Self { StdRng } }
    impl super::SeedableRng for SmallRng { fn seed_from_u64(_: u64) -> Self { SmallRng } fn from_entropy() -> Self { SmallRng } }
}
pub mod prelude { pub use super::{random, thread_rng, Rng, RngCore, SeedableRng, ThreadRng}; pub use super::rngs::{SmallRng, StdRng}; }
