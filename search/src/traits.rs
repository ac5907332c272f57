// C14: the four slice types against the plain slice of their items.
use super::*;
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy)]
pub struct Odd(u8); // eq, ne, partial_cmp, cmp, lt.. and hash are unrelated
fn mix(a: u8, b: u8, salt: u64) -> u64 { let mut r = Rng(((a as u64) << 8 | b as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ salt.wrapping_mul(0xD1342543DE82EF95) | 1); r.next(); r.next() >> 40 }
impl PartialEq for Odd { fn eq(&self, o: &Odd) -> bool { mix(self.0, o.0, 1) % 4 != 0 } fn ne(&self, o: &Odd) -> bool { mix(self.0, o.0, 2) % 4 == 0 } }
impl PartialEq<u32> for Odd { fn eq(&self, o: &u32) -> bool { mix(self.0, *o as u8, 5) % 3 != 0 } }
impl Eq for Odd {}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> { match mix(self.0, o.0, 3) % 8 { 0 => None, 1 => Some(Ordering::Less), 2 => Some(Ordering::Greater), _ => Some(Ordering::Equal) } }
    fn lt(&self, o: &Odd) -> bool { mix(self.0, o.0, 7) % 2 == 0 }
}
impl Ord for Odd { fn cmp(&self, o: &Odd) -> Ordering { match mix(self.0, o.0, 4) % 6 { 0 => Ordering::Less, 1 => Ordering::Greater, _ => Ordering::Equal } } }
impl Hash for Odd { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(self.0); if self.0 % 3 == 0 { h.write_u64(77); } } }
impl fmt::Debug for Odd { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "o{}{}", self.0, if f.alternate() { "#" } else { "" })?; if self.0 == 13 { return Err(fmt::Error); } Ok(()) } }

#[derive(Default, PartialEq, Debug)]
struct Rec(Vec<(u8, u64)>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0.push((0, *x as u64)); } self.0.push((9, b.len() as u64)); }
    fn write_u8(&mut self, x: u8) { self.0.push((1, x as u64)); }
    fn write_u64(&mut self, x: u64) { self.0.push((2, x)); }
    fn write_usize(&mut self, x: usize) { self.0.push((3, x as u64)); }
}
fn h<X: Hash + ?Sized>(x: &X) -> Rec { let mut r = Rec::default(); x.hash(&mut r); r }
fn dbg(x: &dyn fmt::Debug) -> Vec<Result<String, ()>> {
    use fmt::Write;
    let mut v = vec![];
    let mut s = String::new(); v.push(write!(s, "{:?}", x).map_err(|_| ()).map(|_| s));
    let mut s = String::new(); v.push(write!(s, "{:#?}", x).map_err(|_| ()).map(|_| s));
    let mut s = String::new(); v.push(write!(s, "{:5?}", x).map_err(|_| ()).map(|_| s));
    v
}

macro_rules! cmps {
    ($S:ident, $a:expr, $b:expr, $n:ident) => {{
        let (a, b): (&Vec<Odd>, &Vec<Odd>) = ($a, $b);
        let bad = |m: &str| Fail { tags: vec![T_TRAIT], msg: format!("{} of {:?} and {:?}: {} differs from the plain slices", stringify!($S), a.iter().map(|x| x.0).collect::<Vec<_>>(), b.iter().map(|x| x.0).collect::<Vec<_>>(), m) };
        let x: $S<Odd> = a.clone().into();
        let y: $S<Odd> = b.clone().into();
        if (x == y) != (a[..] == b[..]) { return Err(bad("==")); }
        if (x != y) != (a[..] != b[..]) { return Err(bad("!=")); }
        let z: $S<u32> = b.iter().map(|o| o.0 as u32).collect();
        let zv: Vec<u32> = b.iter().map(|o| o.0 as u32).collect();
        if (x == z) != (a[..] == zv[..]) { return Err(bad("== with items of another type")); }
        if (x != z) != (a[..] != zv[..]) { return Err(bad("!= with items of another type")); }
        if x.partial_cmp(&y) != a[..].partial_cmp(&b[..]) { return Err(bad("partial_cmp")); }
        if x.cmp(&y) != a[..].cmp(&b[..]) { return Err(bad("cmp")); }
        if (x < y) != (a[..] < b[..]) && (x.partial_cmp(&y) == Some(Ordering::Less)) != (x < y) { return Err(bad("<")); }
        if h(&x) != h(&a[..]) { return Err(bad("hash")); }
        if h(&(&x, 1u8)) != h(&(&a[..], 1u8)) { return Err(bad("hash inside a tuple")); }
        if dbg(&x) != dbg(&&a[..]) { return Err(bad("debug output")); }
        let same = |s: &[Odd]| s.as_ptr() == x.as_ptr() && s.len() == a.len();
        if !same(&x) || !same(x.as_ref()) || !same(Borrow::<[Odd]>::borrow(&x)) || !same(&*x) { return Err(bad("deref/as_ref/borrow")); }
        if x.iter().map(|o| o.0).ne(a.iter().map(|o| o.0)) { return Err(bad("the items")); }
        $n += 1;
    }};
}
/// Handles that share storage must compare item by item all the same.
macro_rules! same {
    ($S:ident, $a:expr, $n:ident) => {{
        let a: &Vec<Odd> = $a;
        let bad = |m: &str| Fail { tags: vec![T_TRAIT], msg: format!("{} of {:?} and another handle on the same storage: {} differs from the plain slices", stringify!($S), a.iter().map(|x| x.0).collect::<Vec<_>>(), m) };
        let x: $S<Odd> = a.clone().into();
        let l = $S::clone_left(&x); let r = $S::clone_right(&x);
        let rl = $S::clone_left(&r); let e = $S::clone_left(&$S::clone_left(&$S::clone_left(&x)));
        let c = x.clone();
        let all = [&x, &c, &l, &r, &rl, &e];
        for y in all.iter() { for z in all.iter() {
            let (p, q): (&[Odd], &[Odd]) = (&y[..], &z[..]);
            if (*y == *z) != (p == q) { return Err(bad("==")); }
            if (*y != *z) != (p != q) { return Err(bad("!=")); }
            if y.partial_cmp(z) != p.partial_cmp(q) { return Err(bad("partial_cmp")); }
            if y.cmp(z) != p.cmp(q) { return Err(bad("cmp")); }
            if h(*y) != h(p) { return Err(bad("hash")); }
            if dbg(*y) != dbg(&p) { return Err(bad("debug output")); }
        } }
        $n += 1;
    }};
}
macro_rules! selfs {
    ($M:ident, $a:expr, $n:ident) => {{
        let a: &Vec<Odd> = $a;
        let bad = |m: &str| Fail { tags: vec![T_TRAIT], msg: format!("{} of {:?} compared with itself: {} differs from the plain slice", stringify!($M), a.iter().map(|x| x.0).collect::<Vec<_>>(), m) };
        let x: $M<Odd> = a.clone().into();
        let (y, z) = (&x, &x);
        let (p, q): (&[Odd], &[Odd]) = (&y[..], &z[..]);
        if (y == z) != (p == q) { return Err(bad("==")); }
        if (y != z) != (p != q) { return Err(bad("!=")); }
        if y.partial_cmp(z) != p.partial_cmp(q) { return Err(bad("partial_cmp")); }
        if y.cmp(z) != p.cmp(q) { return Err(bad("cmp")); }
        $n += 1;
    }};
}
/// Floats and zero-sized items: common shortcuts go wrong on them.
#[derive(Clone, Debug)]
struct ZNe; // zero-sized, never equal, incomparable
impl PartialEq for ZNe { fn eq(&self, _: &ZNe) -> bool { false } }
impl PartialOrd for ZNe { fn partial_cmp(&self, _: &ZNe) -> Option<Ordering> { None } }
macro_rules! floats {
    ($S:ident, $rng:expr, $n:ident) => {{
        let vals = [0.0f64, -0.0, 1.0, f64::NAN, f64::INFINITY, -1.5];
        let v: Vec<f64> = (0..$rng.below(5)).map(|_| vals[$rng.below(6)]).collect();
        let w: Vec<f64> = if $rng.below(2) == 0 { v.clone() } else { (0..$rng.below(5)).map(|_| vals[$rng.below(6)]).collect() };
        let x: $S<f64> = v.clone().into();
        let y: $S<f64> = w.clone().into();
        for (s, t, p, q) in [(&x, &y, &v, &w), (&x, &x, &v, &v)].iter() {
            let bad = |m: &str| Fail { tags: vec![T_TRAIT], msg: format!("{} of floats {:?} and {:?}: {} differs from the plain slices", stringify!($S), p, q, m) };
            if (*s == *t) != (p[..] == q[..]) { return Err(bad("==")); }
            if (*s != *t) != (p[..] != q[..]) { return Err(bad("!=")); }
            if s.partial_cmp(t) != p[..].partial_cmp(&q[..]) { return Err(bad("partial_cmp")); }
        }
        let (p, q): (Vec<ZNe>, Vec<ZNe>) = (vec![ZNe; $rng.below(3)], vec![ZNe; $rng.below(3)]);
        let (x, y): ($S<ZNe>, $S<ZNe>) = (p.clone().into(), q.clone().into());
        let bad = |m: &str| Fail { tags: vec![T_TRAIT], msg: format!("{} of {} and {} zero-sized items that are never equal: {} differs from the plain slices", stringify!($S), p.len(), q.len(), m) };
        if (x == y) != (p[..] == q[..]) { return Err(bad("==")); }
        if (x != y) != (p[..] != q[..]) { return Err(bad("!=")); }
        if x.partial_cmp(&y) != p[..].partial_cmp(&q[..]) { return Err(bad("partial_cmp")); }
        $n += 1;
    }};
}
macro_rules! muts {
    ($M:ident, $a:expr, $n:ident) => {{
        let a: &Vec<Odd> = $a;
        let bad = |m: &str| Fail { tags: vec![T_TRAIT], msg: format!("{} of {} items: {}", stringify!($M), a.len(), m) };
        let mut x: $M<Odd> = a.clone().into();
        let p = x.as_ptr();
        for k in 0..3 {
            let s: &mut [Odd] = match k { 0 => &mut x[..], 1 => x.as_mut(), _ => BorrowMut::<[Odd]>::borrow_mut(&mut x) };
            if s.len() != a.len() || s.as_ptr() != p { return Err(bad("deref_mut/as_mut/borrow_mut do not reach exactly its items")); }
            for (i, o) in s.iter_mut().enumerate() { *o = Odd((i as u8).wrapping_mul(3).wrapping_add(k)); }
            if !x.iter().enumerate().all(|(i, o)| o.0 == (i as u8).wrapping_mul(3).wrapping_add(k)) { return Err(bad("a write through the mutable view is not visible")); }
        }
        $n += 1;
    }};
}
#[allow(dead_code)] mod like { // the reference for iterators' debug output
    #[derive(Debug)] pub struct P<'a, T> { pub remaining_parts: usize, pub remaining_items: &'a [T] }
}
macro_rules! iters {
    ($S:ident, $M:ident, $si:expr, $mi:expr, $ii:expr, $a:expr, $n:ident) => {{
        let a: &Vec<Odd> = $a;
        let bad = |m: &str| Fail { tags: vec![T_TRAIT], msg: format!("iterators over {} of {:?}: {}", stringify!($M), a.iter().map(|x| x.0).collect::<Vec<_>>(), m) };
        let wantp = |name: &str, n: usize, s: &[Odd]| { let d = like::P { remaining_parts: n, remaining_items: s }; dbg(&d).into_iter().map(|r| r.map(|t| format!("{}{}", name, t.strip_prefix("P").unwrap()))).collect::<Vec<_>>() };
        let m: $M<Odd> = a.clone().into();
        let mut it = m.into_iter();
        for st in 0..4 {
            #[derive(Debug)] #[allow(dead_code)] struct I<'a>(&'a [Odd]);
            let want: Vec<_> = dbg(&I(it.as_slice())).into_iter().map(|r| r.map(|t| format!("{}{}", $ii, t.strip_prefix("I").unwrap()))).collect();
            if dbg(&it) != want { return Err(bad("debug output of the items iterator is not its remaining items")); }
            if st % 2 == 0 { it.next(); } else { it.next_back(); }
        }
        let c = { let m: $M<Odd> = a.clone().into(); let mut it = m.into_iter(); it.next(); let n = it.len(); (n, it.count()) };
        if c.0 != c.1 { return Err(bad("count() of the items iterator")); }
        for k in 0..4u32 {
            let m: $M<Odd> = a.clone().into();
            let s: $S<Odd> = a.clone().into();
            let mut p = $M::split_into_parts(m, 1 << k);
            let mut q = $S::split_into_parts(s, 1 << k);
            for st in 0..(1 << k) + 1 {
                if dbg(&p) != wantp($mi, p.len(), p.as_slice()) { return Err(bad("debug output of the unique parts iterator")); }
                if dbg(&q) != wantp($si, q.len(), q.as_slice()) { return Err(bad("debug output of the shared parts iterator")); }
                if st % 2 == 0 { p.next(); q.next_back(); } else { p.next_back(); q.next(); }
            }
        }
        $n += 1;
    }};
}
/// Items whose Hash has its own hash_slice (as the integers' has).
#[derive(Clone, Copy)]
pub struct Hs(u8);
impl Hash for Hs {
    fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(self.0) }
    fn hash_slice<H: Hasher>(d: &[Hs], h: &mut H) { h.write_u64(d.len() as u64 + 1000); for x in d { h.write_u8(x.0 ^ 0x55) } }
}
macro_rules! hslice {
    ($S:ident, $rng:expr, $n:ident) => {{
        let v: Vec<u8> = (0..$rng.below(6)).map(|_| $rng.below(256) as u8).collect();
        let bad = |m: &str| Fail { tags: vec![T_TRAIT], msg: format!("{} of {:?} as {}: hash differs from the plain slice", stringify!($S), v, m) };
        let w: Vec<Hs> = v.iter().map(|x| Hs(*x)).collect(); let x: $S<Hs> = w.clone().into(); if h(&x) != h(&w[..]) { return Err(bad("items with their own hash_slice")); }
        let x: $S<u8> = v.clone().into(); if h(&x) != h(&v[..]) { return Err(bad("u8")); }
        let w: Vec<i64> = v.iter().map(|x| *x as i64 - 9).collect(); let x: $S<i64> = w.clone().into(); if h(&x) != h(&w[..]) { return Err(bad("i64")); }
        let w: Vec<String> = v.iter().map(|x| x.to_string()).collect(); let x: $S<String> = w.clone().into(); if h(&x) != h(&w[..]) { return Err(bad("strings")); }
        let w: Vec<()> = v.iter().map(|_| ()).collect(); let x: $S<()> = w.clone().into(); if h(&x) != h(&w[..]) { return Err(bad("units")); }
        let mut y: $S<String> = v.iter().map(|x| x.to_string()).collect(); let e = y.clone(); y.clone_from(&e); if y != e { return Err(bad("clone_from")); }
        $n += 1;
    }};
}
pub fn run(seed: u64) -> Result<u64, Fail> {
    use rc_slice::{ArcSlice, ArcSliceMut, RcSlice, RcSliceMut};
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut n = 0u64;
    set_tags(&[T_TRAIT]);
    for i in 0..6000 {
        let la = rng.below(6);
        let lb = if rng.below(3) == 0 { la } else { rng.below(6) };
        let m = [2, 5, 256][i % 3];
        let a: Vec<Odd> = (0..la).map(|_| Odd(rng.below(m) as u8)).collect();
        let b: Vec<Odd> = (0..lb).map(|_| Odd(rng.below(m) as u8)).collect();
        cmps!(RcSlice, &a, &b, n);
        cmps!(ArcSlice, &a, &b, n);
        cmps!(RcSliceMut, &a, &b, n);
        cmps!(ArcSliceMut, &a, &b, n);
        if i % 4 == 0 {
            same!(RcSlice, &a, n);
            same!(ArcSlice, &a, n);
            selfs!(RcSliceMut, &a, n);
            selfs!(ArcSliceMut, &a, n);
            hslice!(RcSlice, rng, n); hslice!(ArcSlice, rng, n); hslice!(RcSliceMut, rng, n); hslice!(ArcSliceMut, rng, n);
            floats!(RcSlice, rng, n); floats!(ArcSlice, rng, n); floats!(RcSliceMut, rng, n); floats!(ArcSliceMut, rng, n);
        }
        if i % 8 == 0 {
            muts!(RcSliceMut, &a, n);
            muts!(ArcSliceMut, &a, n);
            iters!(RcSlice, RcSliceMut, "RcSliceParts", "RcSliceMutParts", "RcSliceMutIter", &a, n);
            iters!(ArcSlice, ArcSliceMut, "ArcSliceParts", "ArcSliceMutParts", "ArcSliceMutIter", &a, n);
        }
    }
    Ok(n)
}
