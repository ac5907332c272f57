//! Bounded search for a failing history of the real rc_slice code.
//! usage: search <PROP 1..14, 17> <seed> <seconds> [shard nshards]
//!        search replay <PROP> <flavour> <item> <config> <choices comma separated>
#![allow(static_mut_refs)]
#![allow(clippy::all)]
mod alloc;
mod traits;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[global_allocator]
static G: alloc::A = alloc::A;

pub const T_HALF: u8 = 1;
pub const T_SPARTS: u8 = 2;
pub const T_UPARTS: u8 = 3;
pub const T_ITER: u8 = 4;
pub const T_CONS: u8 = 5;
pub const T_UNIQ: u8 = 7;
pub const T_MEM: u8 = 8;
pub const T_TRAIT: u8 = 14;

pub struct Tags { pub items: u8, pub get_mut: u8, pub into_mut: u8, pub weak: u8 }

#[derive(Clone, Debug)]
pub struct Fail { pub tags: Vec<u8>, pub msg: String }
pub fn fail(tags: &[u8], msg: &str) -> Result<(), Fail> { Err(Fail { tags: tags.to_vec(), msg: msg.to_string() }) }

// ---- tags of the library call in progress, and the trace, for crashes
static mut CUR: [u8; 8] = [0; 8];
static mut TRACE: [u8; 16384] = [0; 16384];
static mut TLEN: usize = 0;
static mut PROP: u8 = 0;
static mut NRUN: u64 = 0;
pub fn set_tags(t: &[u8]) { unsafe { CUR = [0; 8]; for (i, x) in t.iter().enumerate() { CUR[i] = *x; } } }
pub fn cur_tags() -> Vec<u8> { unsafe { CUR.iter().cloned().filter(|x| *x != 0).collect() } }
pub fn trace(s: &str) {
    unsafe {
        for c in s.bytes().chain(std::iter::once(b'\n')) { if TLEN < TRACE.len() { TRACE[TLEN] = c; TLEN += 1; } }
    }
}
extern "C" {
    fn signal(s: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn sigaltstack(a: *const [usize; 3], b: *mut u8) -> i32;
}
static mut CRASHFLAV: [u8; 2] = [0; 2];
extern "C" fn on_signal(s: i32) {
    unsafe {
        // A crash is a violation of the property whose operation was running,
        // and of the memory-safety properties of the flavour.
        let hit = CUR.iter().any(|t| *t == PROP) || PROP == T_MEM || CRASHFLAV.contains(&PROP);
        let m: &[u8] = if s == 14 { b"FAIL hang: a library call did not return\n" } else { b"FAIL crash: the process received a fatal signal in the library\n" };
        if !hit { write(1, b"OTHER-".as_ptr(), 6); }
        write(1, m.as_ptr(), m.len());
        write(1, b"HISTORY\n".as_ptr(), 8);
        write(1, TRACE.as_ptr(), TLEN);
        let c = &REC;
        write(1, b"CHOICES ".as_ptr(), 8);
        write(1, CFGLINE.as_ptr(), CFGLINE.len());
        for x in c.iter() {
            let mut buf = [0u8; 8];
            let mut n = 0;
            let mut v = *x;
            loop { buf[n] = b'0' + (v % 10) as u8; n += 1; v /= 10; if v == 0 { break; } }
            buf[..n].reverse();
            buf[n] = b',';
            write(1, buf.as_ptr(), n + 1);
        }
        write(1, b"\n".as_ptr(), 1);
        _exit(if hit { 3 } else { 4 });
    }
}
static mut REC: Vec<u32> = Vec::new();
static mut CFGLINE: String = String::new();

// ---- choices
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { ((self.next() >> 33) as usize) % n }
}
pub struct Ch { script: Vec<u32>, pos: usize, rng: Option<Rng>, sizes: Vec<u32>, limit: usize, pub stop_at_end: bool }
impl Ch {
    pub fn random(seed: u64) -> Ch { Ch { script: vec![], pos: 0, rng: Some(Rng(seed | 1)), sizes: vec![], limit: usize::MAX, stop_at_end: false } }
    pub fn script(s: Vec<u32>) -> Ch { Ch { script: s, pos: 0, rng: None, sizes: vec![], limit: usize::MAX, stop_at_end: true } }
    pub fn done(&self) -> bool { self.stop_at_end && self.pos >= self.script.len() }
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 { return 0; }
        let v = if self.pos < self.script.len() { self.script[self.pos] as usize % n }
            else if self.pos >= self.limit {
                let mut h = 0xcbf29ce484222325u64;
                for x in unsafe { REC.iter() } { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
                Rng(h | 1).below(n)
            } else { match &mut self.rng { Some(r) => r.below(n), None => 0 } };
        self.pos += 1;
        self.sizes.push(n as u32);
        unsafe { REC.push(v as u32); }
        v
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub lens: &'static [usize], pub steps: usize, pub max_handles: usize, pub probe: bool, pub probe_weak: bool,
    pub unique_start: bool, pub both_start: bool, pub phased: bool, pub ctor: bool, pub max_k: u8,
    pub ops_s: &'static [&'static str], pub ops_w: &'static [&'static str], pub ops_p: &'static [&'static str],
    pub ops_m: &'static [&'static str], pub ops_i: &'static [&'static str], pub ops_q: &'static [&'static str],
}
const FULL: Cfg = Cfg {
    lens: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13], steps: 26, max_handles: 9, probe: true, probe_weak: true,
    unique_start: false, both_start: true, phased: false, ctor: true, max_k: 3,
    ops_s: &["clone", "clone_left", "clone_right", "split_off_left", "split_off_right", "get_mut", "downgrade", "into_mut", "try_from", "parts", "weak_new", "clone_from", "bad_parts", "drop", "drop"],
    ops_w: &["clone", "upgrade", "upgrade", "drop", "clone_from"],
    ops_p: &["next", "next_back", "next", "next_back", "nth", "nth_back", "clone", "drop", "rest", "clone_from"],
    ops_m: &["split_off_left", "split_off_right", "write", "clone", "into_immut", "from", "into_iter", "into_iter", "parts", "bad_parts", "drop"],
    ops_i: &["next", "next_back", "next", "next_back", "nth", "nth_back", "to", "from", "drop", "rest"],
    ops_q: &["next", "next_back", "next", "next_back", "nth", "nth_back", "drop", "rest"],
};
const TREE: Cfg = Cfg {
    lens: &[1, 2, 3, 4, 5, 8], steps: 30, max_handles: 8, both_start: false, ctor: false,
    ops_s: &["clone_left", "clone_right", "split_off_left", "split_off_right", "clone_left", "clone_right", "clone", "get_mut", "downgrade", "downgrade", "into_mut", "drop", "drop", "drop"],
    ops_w: &["upgrade", "upgrade", "drop"], ..FULL
};
const PHASE: Cfg = Cfg { phased: true, probe: false, lens: &[2, 4, 4, 5, 6, 8, 8], max_handles: 14, ..TREE };
const UNIQ: Cfg = Cfg { unique_start: true, ..FULL };
const SMALL: Cfg = Cfg {
    lens: &[0, 1, 2, 3, 4], steps: 5, max_handles: 5, both_start: false, ctor: false, probe: false, max_k: 1,
    ops_s: &["clone_left", "clone_right", "clone", "get_mut", "downgrade", "into_mut", "drop", "split_off_left", "split_off_right", "parts"],
    ops_w: &["upgrade", "drop", "clone"], ops_p: &["next", "next_back", "clone", "drop"],
    ops_m: &["split_off_left", "split_off_right", "into_immut", "into_iter", "parts", "drop", "clone"], ops_i: &["next", "next_back", "to", "from", "drop"], ops_q: &["next", "next_back", "drop"],
    ..FULL
};
const USMALL: Cfg = Cfg { unique_start: true, ..SMALL };
fn cfg(name: &str) -> Cfg {
    match name { "full" => FULL, "tree" => TREE, "phase" => PHASE, "uniq" => UNIQ, "small" => SMALL, "usmall" => USMALL, _ => panic!("config") }
}

// ---- items
static mut STATE: [u8; 4096] = [0; 4096];
static mut SRC: [u32; 4096] = [0; 4096];
static mut NEXT: u32 = 0;
static mut ZALIVE: i64 = 0;
static mut GARB: bool = false;
static mut ARM: [u32; 2] = [0; 2]; // the n-th drop, clone from now panics
pub fn item_arm(d: u32, c: u32) { unsafe { ARM = [d, c]; } }
pub fn item_alive_raw() -> i64 { unsafe { ZALIVE } }
fn boom(k: usize) {
    unsafe {
        if ARM[k] == 0 || std::thread::panicking() { return; }
        ARM[k] -= 1;
        if ARM[k] == 0 { std::panic::resume_unwind(Box::new(k)); }
    }
}
pub fn item_reset() { unsafe { ARM = [0; 2]; for i in 0..NEXT as usize { STATE[i] = 0; } NEXT = 0; ZALIVE = 0; GARB = false; } }
pub fn item_new() -> u32 { unsafe { let i = NEXT; NEXT += 1; STATE[i as usize] = 1; i } }
pub fn item_next() -> u32 { unsafe { NEXT } }
pub fn item_state(i: u32) -> u8 { unsafe { STATE[i as usize] } }
pub fn item_alive_total() -> usize { unsafe { ZALIVE.max(0) as usize } }
pub fn clone_source(i: u32) -> u32 { unsafe { SRC[i as usize] } }
pub fn item_garbage() -> Option<&'static str> { unsafe { if GARB { Some("drop ran on memory that holds no live item") } else { None } } }

pub trait Item: Clone {
    const SIZE: usize;
    const VALS: bool;
    fn make(id: u32, val: u32) -> Self;
    fn get(&self) -> Option<(u32, u32)>;
    fn set(&mut self, val: u32);
}
pub struct Big { id: u32, magic: u32, val: u32 }
const MAGIC: u32 = 0x51ced1ce;
impl Item for Big {
    const SIZE: usize = 12;
    const VALS: bool = true;
    fn make(id: u32, val: u32) -> Self { Big { id, magic: MAGIC, val } }
    fn get(&self) -> Option<(u32, u32)> { if self.magic == MAGIC && self.id < item_next() { Some((self.id, self.val)) } else { None } }
    fn set(&mut self, val: u32) { self.val = val }
}
impl Clone for Big {
    fn clone(&self) -> Self { boom(1); let id = item_new(); unsafe { SRC[id as usize] = self.id; } Big { id, magic: self.magic, val: self.val } }
}
impl Drop for Big {
    fn drop(&mut self) {
        unsafe {
            if self.magic != MAGIC || self.id >= NEXT { GARB = true; return; }
            let s = &mut STATE[self.id as usize];
            *s = if *s == 1 { 2 } else { 3 };
            boom(0);
        }
    }
}
pub struct Byte(u8);
impl Item for Byte {
    const SIZE: usize = 1;
    const VALS: bool = false;
    fn make(id: u32, _val: u32) -> Self { Byte(id as u8) }
    fn get(&self) -> Option<(u32, u32)> { if (self.0 as u32) < item_next() { Some((self.0 as u32, 0)) } else { None } }
    fn set(&mut self, _val: u32) {}
}
impl Clone for Byte {
    fn clone(&self) -> Self { let id = item_new(); unsafe { SRC[id as usize] = self.0 as u32; } Byte(id as u8) }
}
impl Drop for Byte {
    fn drop(&mut self) {
        unsafe {
            if self.0 as u32 >= NEXT { GARB = true; return; }
            let s = &mut STATE[self.0 as usize];
            *s = if *s == 1 { 2 } else { 3 };
        }
    }
}
pub struct Zst;
impl Item for Zst {
    const SIZE: usize = 0;
    const VALS: bool = false;
    fn make(_: u32, _: u32) -> Self { unsafe { ZALIVE += 1; } Zst }
    fn get(&self) -> Option<(u32, u32)> { Some((0, 0)) }
    fn set(&mut self, _: u32) {}
}
impl Clone for Zst { fn clone(&self) -> Self { boom(1); item_new(); unsafe { ZALIVE += 1; } Zst } }
impl Drop for Zst { fn drop(&mut self) { unsafe { ZALIVE -= 1; } boom(0); } }

mod rcf {
    use super::*;
    use rc_slice::rc::{RcSlice as S, RcSliceMut as M, RcSliceMutIter as MI, RcSliceMutParts as MP, RcSliceParts as P, WeakSlice as W};
    pub const TAGS: Tags = Tags { items: 6, get_mut: 9, into_mut: 10, weak: 11 };
    include!("engine.rs");
    include!("walks.rs");
    include!("unwind.rs");
}
mod arcf {
    use super::*;
    use rc_slice::arc::{ArcSlice as S, ArcSliceMut as M, ArcSliceMutIter as MI, ArcSliceMutParts as MP, ArcSliceParts as P, WeakSlice as W};
    pub const TAGS: Tags = Tags { items: 13, get_mut: 12, into_mut: 12, weak: 13 };
    include!("engine.rs");
    include!("walks.rs");
    include!("unwind.rs");
}

fn run1(fl: &str, it: &str, c: &Cfg, ch: &mut Ch) -> (Result<(), Fail>, Vec<String>) {
    unsafe { REC.clear(); TLEN = 0; CRASHFLAV = if fl == "rc" { [6, 7] } else { [13, 7] }; NRUN += 1; if NRUN % 4096 == 1 { alarm(30); } }
    let r = catch_unwind(AssertUnwindSafe(|| if unsafe { PROP } == 17 {
        let r = match (fl, it) {
            ("rc", "zst") => rcf::unwind::<Zst>(ch), ("rc", _) => rcf::unwind::<Big>(ch), (_, "zst") => arcf::unwind::<Zst>(ch), (_, _) => arcf::unwind::<Big>(ch),
        };
        (r, unsafe { String::from_utf8_lossy(&TRACE[..TLEN]).lines().map(|s| s.to_string()).collect() })
    } else { match (fl, it) {
        ("rc", "big") => rcf::run::<Big>(ch, c), ("rc", "byte") => rcf::run::<Byte>(ch, c), ("rc", _) => rcf::run::<Zst>(ch, c),
        ("arc", "big") => arcf::run::<Big>(ch, c), ("arc", "byte") => arcf::run::<Byte>(ch, c), (_, _) => arcf::run::<Zst>(ch, c),
    } }));
    match r {
        Ok(x) => x,
        Err(e) => {
            alloc::leave();
            alloc::stop();
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let log = unsafe { String::from_utf8_lossy(&TRACE[..TLEN]).lines().map(|s| s.to_string()).collect() };
            (Err(Fail { tags: cur_tags(), msg: format!("panic: {}", m) }), log)
        }
    }
}

fn set_cfgline(fl: &str, it: &str, c: &str) { unsafe { CFGLINE = format!("{} {} {} ", fl, it, c); } }

fn report(fl: &str, it: &str, c: &str, f: &Fail, log: &[String], rec: &[u32]) -> ! {
    println!("FAIL {}", f.msg);
    println!("HISTORY");
    for l in log { println!("{}", l); }
    println!("CHOICES {} {} {} {}", fl, it, c, rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    unsafe { _exit(3) }
}

fn shrink(prop: u8, fl: &str, it: &str, c: &Cfg, rec: Vec<u32>) -> Vec<u32> {
    let mut cur = rec;
    let t0 = Instant::now();
    let bad = |v: &[u32]| { let (r, _) = run1(fl, it, c, &mut Ch::script(v.to_vec())); matches!(r, Err(f) if f.tags.contains(&prop)) };
    let mut again = true;
    while again && t0.elapsed() < Duration::from_secs(5) {
        again = false;
        for w in [8usize, 4, 3, 2, 1] {
            let mut i = 0;
            while i + w <= cur.len() {
                let mut v = cur.clone();
                v.drain(i..i + w);
                if bad(&v) { cur = v; again = true; } else { i += 1; }
                if t0.elapsed() > Duration::from_secs(5) { break; }
            }
        }
    }
    cur
}

pub fn panics_quietly() { std::panic::set_hook(Box::new(|_| {})); }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    panics_quietly();
    unsafe {
        let st = Box::leak(vec![0u8; 65536].into_boxed_slice());
        sigaltstack(&[st.as_ptr() as usize, 0, 65536], std::ptr::null_mut());
        // plain signal(): the handler only writes and exits
        for s in [11, 7, 6, 4, 8, 14] { signal(s, on_signal as usize); }
        REC.reserve(4096);
    }
    if a[1] == "replay" {
        let prop: u8 = a[2].parse().unwrap();
        unsafe { PROP = prop; }
        let c = cfg(&a[5]);
        set_cfgline(&a[3], &a[4], &a[5]);
        let v: Vec<u32> = a.get(6).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
        let (r, log) = run1(&a[3], &a[4], &c, &mut Ch::script(v.clone()));
        match r { Err(f) => report(&a[3], &a[4], &a[5], &f, &log, &v), Ok(()) => { println!("REPLAY OK (no violation)"); for l in log { println!("{}", l); } } }
        return;
    }
    let prop: u8 = a[1].parse().unwrap();
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let shard: usize = a.get(4).map_or(0, |s| s.parse().unwrap());
    let nsh: usize = a.get(5).map_or(1, |s| s.parse().unwrap());
    unsafe { PROP = prop; CRASHFLAV = [prop, prop]; }
    let t0 = Instant::now();
    let mut evals = 0u64;
    // deterministic walks first
    let mut walks = 0u64;
    if shard == 0 {
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<u64, Fail> {
            unsafe { alarm(120); }
            let mut n = 0;
            if matches!(prop, 1 | 2 | 3 | 4) { n += rcf::walks(prop, seed)?; n += arcf::walks(prop, seed)?; }
            if prop == 14 { n += traits::run(seed)?; }
            if prop == 5 { n += rcf::convs(seed)?; n += arcf::convs(seed)?; }
            Ok(n)
        }));
        match r {
            Ok(Ok(n)) => walks = n,
            Ok(Err(f)) => { if f.tags.contains(&prop) { report("-", "-", "-", &f, &[], &[]) } }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let log: Vec<String> = unsafe { String::from_utf8_lossy(&TRACE[..TLEN]).lines().map(|s| s.to_string()).collect() };
                report("-", "-", "-", &Fail { tags: vec![prop], msg: format!("panic: {}", m) }, &log, &[])
            }
        }
    }
    let (fls, cfgs): (&[&str], &[&str]) = match prop {
        1 => (&["rc", "arc"], &["full", "uniq"]),
        2 => (&["rc", "arc"], &["full"]),
        3 | 4 | 7 => (&["rc", "arc"], &["uniq", "usmall"]),
        5 => (&["rc", "arc"], &["full", "uniq"]),
        8 => (&["rc", "arc"], &["full", "uniq", "tree", "phase", "small"]),
        6 | 9 | 10 | 11 => (&["rc"], &["tree", "phase", "full", "small"]),
        12 | 13 => (&["arc"], &["tree", "phase", "full", "small"]),
        _ => (&["rc", "arc"], &["full"]),
    };
    let items = ["big", "zst", "byte", "big"];
    let mut others = 0u64;
    let mut otherm = String::new();
    let mut distinct = 0u64;
    // exhaustive small configuration, striped over shards
    let mut exh = 0u64;
    let mut exh_done = true;
    for cn in cfgs.iter().filter(|c| c.ends_with("small")) {
        for fl in fls {
            for it in ["big", "zst"] {
                let mut c = cfg(cn);
                c.steps = if it == "big" { 4 } else { 3 };
                set_cfgline(fl, it, cn);
                let mut script: Vec<u32> = vec![];
                let mut idx = 0usize;
                loop {
                    let mut ch = Ch { script: script.clone(), pos: 0, rng: None, sizes: vec![], limit: usize::MAX, stop_at_end: false };
                    // bound the number of free choices by the steps
                    ch.limit = if it == "big" { 9 } else { 7 };
                    let (r, log) = run1(fl, it, &c, &mut ch);
                    idx += 1;
                    exh += 1;
                    if let Err(f) = r {
                        if f.tags.contains(&prop) { let rec = unsafe { REC.clone() }; report(fl, it, cn, &f, &log, &rec) }
                        others += 1; otherm = f.msg;
                    }
                    // odometer
                    let rec = unsafe { REC.clone() };
                    let mut n = rec.len().min(ch.limit);
                    let mut s: Vec<u32> = rec[..n].to_vec();
                    let lo = 2.min(n); // the first two choices are striped below
                    let _ = lo;
                    loop {
                        if n == 0 { break; }
                        if s[n - 1] + 1 < ch.sizes[n - 1] { s[n - 1] += 1; s.truncate(n); break; }
                        n -= 1;
                    }
                    if n == 0 { break; }
                    // stripe on the second and third choice
                    while s.len() >= 2 && n >= 1 && n <= 2 && nsh > 1 && (s[1] as usize + s[0] as usize) % nsh != shard {
                        let mut n2 = 2;
                        loop {
                            if n2 == 0 { break; }
                            if s[n2 - 1] + 1 < ch.sizes[n2 - 1] { s[n2 - 1] += 1; s.truncate(n2); break; }
                            n2 -= 1;
                        }
                        if n2 == 0 { n = 0; break; }
                        if n2 < 2 { break; }
                    }
                    if n == 0 { break; }
                    script = s;
                    if t0.elapsed().as_secs_f64() > secs * 0.35 { exh_done = false; break; }
                }
                let _ = idx;
            }
        }
    }
    evals += exh;
    let mut round = 0u64;
    let rcfgs: Vec<&str> = cfgs.iter().filter(|c| !c.ends_with("small")).cloned().collect();
    if prop != 14 {
        while t0.elapsed().as_secs_f64() < secs {
            for fl in fls { for cn in &rcfgs { for it in &items {
                set_cfgline(fl, it, cn);
                let mut c = cfg(cn);
                if *it == "zst" { c.steps = 16; }
                for j in 0..64u64 {
                    let s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (round * 64 + j).wrapping_mul(0xD1342543DE82EF95) ^ (shard as u64) << 56 ^ 0x1234567;
                    let mut c2 = c.clone();
                    c2.probe = j % 3 == 0;
                    c2.steps = 4 + (j as usize % (c.steps - 3));
                    let mut rng = Rng(s | 1); rng.next(); rng.next();
                    let mut ch = Ch::random(rng.next());
                    let (r, log) = run1(fl, it, &c2, &mut ch);
                    evals += 1;
                    if log.len() > 3 { distinct += 1; }
                    if let Err(f) = r {
                        if f.tags.contains(&prop) {
                            let rec = unsafe { REC.clone() };
                            // re-run and shrink under the full configuration
                            let sh = shrink(prop, fl, it, &cfg(cn), rec.clone());
                            let (r2, log2) = run1(fl, it, &cfg(cn), &mut Ch::script(sh.clone()));
                            match r2 { Err(f2) if f2.tags.contains(&prop) => report(fl, it, cn, &f2, &log2, &sh), _ => report(fl, it, cn, &f, &log, &rec) }
                        }
                        others += 1; otherm = f.msg;
                    }
                }
            }}}
            round += 1;
        }
    }
    println!("OK walks={} exhaustive={} exhaustive_complete={} evaluations={} distinct={} other_failures={} {}", walks, exh, exh_done, evals + walks, distinct + exh, others, otherm);
}
