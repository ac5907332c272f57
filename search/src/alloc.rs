// Counting, poisoning, quarantining global allocator (single-threaded use).
use std::alloc::{GlobalAlloc, Layout, System};

pub struct A;

const N: usize = 1 << 12;
const Q: usize = 1 << 12;
static mut ON: bool = false; // tracking a history
static mut LIB: bool = false; // inside a call into the library
static mut TAB: [(usize, usize, bool); N] = [(0, 0, false); N]; // addr, size, allocated inside lib
static mut COUNT: usize = 0;
static mut TOTAL: usize = 0; // insertions in this history; past CAP, tracking is off
static mut LIBLIVE: usize = 0;
const CAP: usize = 3500;
static mut USED: [u16; 4096] = [0; 4096];
static mut QUA: [(usize, Layout); Q] = [(0, Layout::new::<u8>()); Q];
static mut QN: usize = 0;
static mut ERR: &str = "";
// the block under observation
static mut ERRADDR: usize = 0;

fn h(a: usize) -> usize { (a >> 3).wrapping_mul(0x9E3779B97F4A7C15) >> 40 & (N - 1) }

unsafe fn ins(a: usize, s: usize, lib: bool) {
    TOTAL += 1;
    if TOTAL > CAP { return; }
    let mut i = h(a);
    loop {
        if TAB[i].0 == 0 || TAB[i].0 == 1 { TAB[i] = (a, s, lib); USED[TOTAL] = i as u16; if lib { LIBLIVE += 1; } COUNT += 1; return; }
        i = (i + 1) & (N - 1);
    }
}
unsafe fn find(a: usize) -> Option<usize> {
    let mut i = h(a);
    loop {
        if TAB[i].0 == a { return Some(i); }
        if TAB[i].0 == 0 { return None; }
        i = (i + 1) & (N - 1);
    }
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON && !p.is_null() {
            std::ptr::write_bytes(p, 0xA5, l.size());
            ins(p as usize, l.size(), LIB);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON {
            match find(p as usize) {
                Some(i) => {
                    if TAB[i].1 != l.size() { ERR = "a block was freed with a size different from the one it was allocated with"; ERRADDR = p as usize; }
                    if TAB[i].2 { LIBLIVE -= 1; }
                    if QN < Q {
                        TAB[i].0 = 1;
                        COUNT -= 1;
                        std::ptr::write_bytes(p, 0xDE, l.size());
                        QUA[QN] = (p as usize, l);
                        QN += 1;
                    } else { TAB[i].0 = 1; COUNT -= 1; System.dealloc(p, l); }
                    return;
                }
                None => {
                    for k in 0..QN { if QUA[k].0 == p as usize { ERR = "a block was freed twice"; return; } }
                    if LIB && TOTAL <= CAP { ERR = "the library freed memory that was never allocated"; return; }
                }
            }
        }
        System.dealloc(p, l)
    }
}

pub fn start() { unsafe { reset(); ON = true; } }
pub fn enter() { unsafe { LIB = true; } }
pub fn leave() { unsafe { LIB = false; } }
pub fn err() -> Option<&'static str> { unsafe { if ERR.is_empty() { None } else { Some(ERR) } } }
pub fn is_live(a: usize) -> bool { unsafe { find(a).is_some() } }
/// Lib allocations (and marked blocks) still live.
pub fn lib_live() -> usize { unsafe { if TOTAL > CAP { return 0; } LIBLIVE } }
/// Count this (harness-made) block as one handed to the library.
pub fn mark(a: usize) { unsafe { if let Some(i) = find(a) { if !TAB[i].2 { LIBLIVE += 1; } TAB[i].2 = true; } } }
unsafe fn reset() {
    ON = false; LIB = false; ERR = "";
    for k in 0..QN { System.dealloc(QUA[k].0 as *mut u8, QUA[k].1); }
    QN = 0;
    for k in 1..=TOTAL.min(CAP) { TAB[USED[k] as usize] = (0, 0, false); }
    COUNT = 0;
    LIBLIVE = 0;
    TOTAL = 0;
}
/// Stop tracking; true if quarantined memory was written to after being freed.
pub fn stop() -> bool {
    unsafe {
        ON = false;
        let mut bad = false;
        for k in 0..QN {
            let (a, l) = QUA[k];
            let s = std::slice::from_raw_parts(a as *const u8, l.size());
            if s.iter().any(|b| *b != 0xDE) { bad = true; }
        }
        LIB = false;
        bad
    }
}
