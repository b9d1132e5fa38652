//! Native replay of a model: `replay ENTRY FILE` where FILE has one "<width> <value>" per line.
//! Exit codes: 0 the harness finished and every assertion held; 101 a violation (assertion,
//! panic, memory error); 102 an assumption failed, 103 ran out of inputs (both: not a replay).
use std::sync::Mutex;
static INPUTS: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));
#[cfg(miri)]
fn out(s: &str) { eprintln!("{}", s) }
#[cfg(not(miri))]
fn out(s: &str) { extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; } let t = format!("{}\n", s); unsafe { write(2, t.as_ptr(), t.len()); } }
#[cfg(not(miri))]
extern "C" { fn _exit(c: i32) -> !; }
#[cfg(miri)]
unsafe fn _exit(c: i32) -> ! { std::process::exit(c) }
fn st(p: *const u8, n: usize) -> String { String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned() }
#[no_mangle] pub extern "C" fn rsym_any(width: u32, name: *const u8, len: usize) -> u64 {
    let mut g = INPUTS.lock().unwrap();
    if g.1 >= g.0.len() { out(&format!("RSYM-REPLAY out of inputs at {}", st(name, len))); unsafe { _exit(103) } }
    let v = g.0[g.1]; g.1 += 1;
    if width < 64 { v & ((1u64 << width) - 1) } else { v }
}
#[no_mangle] pub extern "C" fn rsym_assume(c: bool) { if !c { out("RSYM-REPLAY assumption not met"); unsafe { _exit(102) } } }
#[no_mangle] pub extern "C" fn rsym_assert(c: bool, p: *const u8, n: usize) { if !c { out(&format!("RSYM-REPLAY assertion failed: {}", st(p, n))); unsafe { _exit(101) } } }
#[no_mangle] pub extern "C" fn rsym_branch(c: bool) -> bool { c }
#[no_mangle] pub extern "C" fn rsym_cover(p: *const u8, n: usize) { out(&format!("RSYM-COVER {}", st(p, n))); }
#[no_mangle] pub extern "C" fn rsym_observe(p: *const u8, n: usize, v: u64) { out(&format!("RSYM-OBS {} {}", st(p, n), v)); }
#[no_mangle] pub extern "C" fn rsym_concretize(v: u64) -> u64 { v }
#[no_mangle] pub extern "C" fn rsym_real_fmt(_: bool) {}
#[no_mangle] pub extern "C" fn rsym_eq(a: *const u8, b: *const u8, n: usize) -> bool { unsafe { std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n) } }
#[no_mangle] pub extern "C" fn rsym_readable(_: *const u8, _: usize) -> bool { true }
#[no_mangle] pub extern "C" fn rsym_is_symbolic() -> bool { false }
#[cfg(any(miri, not(all(target_arch = "x86_64", target_os = "linux"))))]
mod sched { pub fn on(_: u32) {} pub fn enter(_: usize) {} pub fn leave(_: usize) {} pub fn init() {} pub fn go() {} pub fn started(_: usize) {} }
/// Schedules on the real machine: with RSYM_SCHED=SEED the spawned threads run one at a time, each single-steps itself
/// (trap flag), and at instructions drawn from the seed hands over to another one.  A thread that waits for a lock is
/// overtaken after a while, so a schedule is only a suggestion and never keeps the program from running on.
#[cfg(all(not(miri), target_arch = "x86_64", target_os = "linux"))]
mod sched {
    use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};
    #[repr(C)] struct Sa { h: usize, mask: [u64; 16], flags: i32, restorer: usize }
    #[repr(C)] struct Ts { s: i64, n: i64 }
    extern "C" { fn sigaction(s: i32, a: *const Sa, o: *mut Sa) -> i32; fn nanosleep(t: *const Ts, r: *mut Ts) -> i32; }
    const T: usize = 4; const K: usize = 4;
    static SEED: AtomicUsize = AtomicUsize::new(usize::MAX);
    static ACTIVE: AtomicBool = AtomicBool::new(false);
    static TURN: AtomicUsize = AtomicUsize::new(0);
    static STARTED: AtomicUsize = AtomicUsize::new(0);
    static DONE: [AtomicBool; T] = [const { AtomicBool::new(false) }; T];
    static N: [AtomicI64; T] = [const { AtomicI64::new(0) }; T];
    static ATOMS: [AtomicI64; T] = [const { AtomicI64::new(0) }; T];
    /// where thread t hands over: at the count-th instruction, or (negative) at the count-th locked instruction
    static AT: [[AtomicI64; K]; T] = [const { [const { AtomicI64::new(0) }; K] }; T];
    std::thread_local! { static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
    fn rnd() -> usize { let mut x = SEED.load(SeqCst); x ^= x << 13; x ^= x >> 7; x ^= x << 17; SEED.store(x, SeqCst); x >> 11 }
    fn nap() { unsafe { nanosleep(&Ts { s: 0, n: 20_000 }, std::ptr::null_mut()); } }
    fn wait(me: usize, naps: usize) { let mut i = 0; while TURN.load(SeqCst) != me && i < naps { nap(); i += 1; } }
    fn give(me: usize) { let mut k = 1; while k < T { let o = (me + k) % T; if o < STARTED.load(SeqCst) && !DONE[o].load(SeqCst) { TURN.store(o, SeqCst); return; } k += 1; } }
    extern "C" fn trap(_: i32, _: usize, uc: *const u8) {
        let me = ME.with(|m| m.get()); if me >= T { return; }
        let rip = unsafe { *(uc.add(40 + 16 * 8) as *const *const u8) }; let op = unsafe { *rip };
        let n = N[me].fetch_add(1, SeqCst) + 1;
        let atom = op == 0xf0 || op == 0x87 || op == 0x86 || (op & 0xf8 == 0x48 && unsafe { *rip.add(1) } == 0x87);
        let a = if atom { ATOMS[me].fetch_add(1, SeqCst) + 1 } else { 0 };
        for w in &AT[me] { let w = w.load(SeqCst); if w == n || (atom && w == -a) { give(me); wait(me, 400); } }
    }
    pub fn init() { if let Ok(s) = std::env::var("RSYM_SCHED") { SEED.store(s.parse::<usize>().unwrap().wrapping_mul(0x9e3779b97f4a7c15) | 1, SeqCst); let _ = rnd(); let _ = rnd(); } }
    pub fn on(n: u32) {
        if SEED.load(SeqCst) == usize::MAX { return; }
        ACTIVE.store(n > 0, SeqCst);
        if n == 0 { return; }
        unsafe { sigaction(5, &Sa { h: trap as *const () as usize, mask: [0; 16], flags: 4 | 0x40000000, restorer: 0 }, std::ptr::null_mut()); }
        for t in 0..T { for k in 0..K {
            // mostly around locked instructions, sometimes anywhere
            let v = match rnd() % 8 { 0 | 1 => 0, 2 => 1 + (rnd() % 20000) as i64, 3 => 1 + (rnd() % 3000) as i64, 4 => -1 - (rnd() % 60) as i64, _ => -1 - (rnd() % 16) as i64 };
            AT[t][k].store(v, SeqCst); } }
        TURN.store(usize::MAX, SeqCst);
    }
    pub fn enter(t: usize) {
        if !ACTIVE.load(SeqCst) || t >= T { return; }
        ME.with(|m| m.set(t));
        wait(t, 200);
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", options(nomem)); }
    }
    pub fn leave(t: usize) {
        if ME.with(|m| m.get()) != t { return; }
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq", options(nomem)); }
        DONE[t].store(true, SeqCst); give(t);
    }
    pub fn go() { if ACTIVE.load(SeqCst) && TURN.load(SeqCst) == usize::MAX { TURN.store(rnd() % STARTED.load(SeqCst).max(1), SeqCst); } }
    pub fn started(t: usize) { STARTED.store(t + 1, SeqCst); }
}
static SPAWNED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[no_mangle] pub extern "C" fn rsym_threads(n: u32) { sched::on(n) }
#[no_mangle] pub extern "C" fn rsym_spawn(f: extern "C" fn(usize), arg: usize) -> u64 {
    let t = SPAWNED.fetch_add(1, std::sync::atomic::Ordering::SeqCst); sched::started(t);
    let h = Box::new(std::thread::spawn(move || { sched::enter(t); f(arg); sched::leave(t); }));
    Box::into_raw(h) as u64
}
#[no_mangle] pub extern "C" fn rsym_join(t: u64) { sched::go(); let h = unsafe { Box::from_raw(t as *mut std::thread::JoinHandle<()>) }; let _ = h.join(); }
#[no_mangle] pub extern "C" fn rsym_yield() { std::thread::yield_now() }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("inputs");
    let mut v = vec![];
    for l in text.lines() { let x = l.split_whitespace().nth(1).unwrap(); v.push(x.parse::<u128>().unwrap() as u64); }
    INPUTS.lock().unwrap().0 = v;
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        out(&format!("RSYM-REPLAY panic at {}", loc));
        unsafe { _exit(101) }
    }));
    sched::init();
    let f = match vh::entry(&a[1]) { Some(f) => f, None => { out("no such entry"); std::process::exit(104) } };
    f();
    jemallocator::verify_all();
    out("RSYM-REPLAY done");
    unsafe { _exit(0) }
}
