#![cfg_attr(miri, allow(dead_code, unused_imports))]
//! Stand-in for the jemalloc wrapper, used only when the code runs under /verif.
//!
//! Under the symbolic engine the allocator entry points (`__rust_alloc` ...) are intercepted, so
//! nothing here runs.  In the native replay this is a *checking* allocator: every block
//!  * is aligned to exactly the requested alignment (never more, so that code relying on accidental
//!    alignment is exposed),
//!  * carries guard bytes on both sides and its layout, which dealloc verifies,
//!  * is filled with 0xA5 on allocation and 0x5A on release, and is never handed out again.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub struct Jemalloc;

const GUARD: usize = 32;
const MAGIC: u64 = 0x5ee7_a110_c0de_cafe;
const DEAD: u64 = 0xdead_b10c_dead_b10c;

static PEND: AtomicUsize = AtomicUsize::new(0);
static REPORTED: AtomicBool = AtomicBool::new(false);
const NB: usize = 1 << 16;
static BLOCKS: [AtomicUsize; NB] = [const { AtomicUsize::new(0) }; NB]; // newest header of each bucket of addresses
fn bucket(h: usize) -> &'static AtomicUsize { &BLOCKS[((h as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 48) as usize] }

#[repr(C)]
struct Header { magic: u64, size: usize, align: usize, raw: usize, raw_size: usize, next: usize }

extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }

fn report(msg: &str) -> ! {
    if !REPORTED.swap(true, Ordering::SeqCst) {
        unsafe { write(2, b"RSYM-REPLAY memory: ".as_ptr(), 20); write(2, msg.as_ptr(), msg.len()); write(2, b"\n".as_ptr(), 1); }
    }
    unsafe { _exit(101) }
}

#[cfg(miri)]
unsafe impl GlobalAlloc for Jemalloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[cfg(miri)]
pub fn verify_all() {}

#[cfg(not(miri))]
unsafe impl GlobalAlloc for Jemalloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 { report("zero-size allocation"); }
        let hs = std::mem::size_of::<Header>();
        let raw_size = hs + GUARD * 2 + l.size() + l.align() * 2 + 64;
        let raw = System.alloc(Layout::from_size_align_unchecked(raw_size, 16));
        if raw.is_null() { return raw; }
        let first = raw as usize + hs + GUARD;
        // exactly aligned: multiple of align, not of 2*align
        let mut p = (first + l.align() - 1) & !(l.align() - 1);
        if p & (2 * l.align() - 1) == 0 { p += l.align(); }
        std::ptr::write_bytes(raw, 0xFD, raw_size);
        std::ptr::write_bytes(p as *mut u8, 0xA5, l.size());
        let h = (p - GUARD - hs) as *mut Header;
        std::ptr::write_unaligned(h, Header { magic: MAGIC, size: l.size(), align: l.align(), raw: raw as usize, raw_size, next: 0 });
        let list = bucket(h as usize);
        let mut head = list.load(Ordering::SeqCst);
        loop {
            std::ptr::write_unaligned(std::ptr::addr_of_mut!((*h).next), head);
            match list.compare_exchange(head, h as usize, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => break, Err(x) => head = x }
        }
        PEND.fetch_add(1, Ordering::SeqCst);
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        check(p, l);
        let hs = std::mem::size_of::<Header>();
        let h = (p as usize - GUARD - hs) as *mut Header;
        std::ptr::write_unaligned(std::ptr::addr_of_mut!((*h).magic), DEAD);
        std::ptr::write_bytes(p, 0x5A, l.size());
        // the block stays quarantined for the whole (short) replay
    }
}

unsafe fn known(p: *mut u8) -> Option<*mut Header> {
    let hs = std::mem::size_of::<Header>();
    let want = (p as usize).wrapping_sub(GUARD + hs);
    let mut h = bucket(want).load(Ordering::SeqCst);
    while h != 0 {
        if h == want { return Some(h as *mut Header); }
        h = std::ptr::read_unaligned(h as *const Header).next;
    }
    None
}

unsafe fn check(p: *mut u8, l: Layout) {
    let h = match known(p) { Some(h) => std::ptr::read_unaligned(h), None => report("free of a pointer that was not allocated") };
    if h.magic == DEAD { report("double free"); }
    if h.size != l.size() || h.align != l.align() { report("free with a different layout"); }
    guards(p, &h);
}

unsafe fn guards(p: *mut u8, h: &Header) {
    for k in 0..GUARD {
        if *p.sub(k + 1) != 0xFD || *p.add(h.size + k) != 0xFD { report("out-of-bounds write"); }
    }
}

#[cfg(not(miri))]
/// called by the replay driver at the end: guard bytes of every block, and writes after free
pub fn verify_all() {
    unsafe {
        let hs = std::mem::size_of::<Header>();
        for list in &BLOCKS { let mut a = list.load(Ordering::SeqCst);
        while a != 0 {
            let h = std::ptr::read_unaligned(a as *const Header);
            let p = (a + hs + GUARD) as *mut u8;
            guards(p, &h);
            if h.magic == DEAD { for k in 0..h.size { if *p.add(k) != 0x5A { report("write after free"); } } }
            a = h.next;
        } }
    }
}
