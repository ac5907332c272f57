// Roots of the verification: one function per public operation of rc_slice, for an item type of
// non-zero size (SItem, whose size the VC generator keeps symbolic) and a zero-sized one (ZItem).
#![allow(non_snake_case, clippy::all)]
use core::{borrow::{Borrow, BorrowMut}, cmp::Ordering, fmt, hash::{Hash, Hasher}};
pub struct SItem([u64; 3]);
impl Drop for SItem { fn drop(&mut self) { unsafe { core::ptr::write_volatile(&mut self.0[0], 0) } } }
pub struct ZItem;
impl Drop for ZItem { fn drop(&mut self) { unsafe { core::ptr::read_volatile(&0u8); } } }

// Trait implementations of the items; what they do is never looked at.
macro_rules! item {
    ($T:ty) => {
        impl Clone for $T { fn clone(&self) -> Self { loop { } } }
        impl PartialEq for $T { fn eq(&self, _: &Self) -> bool { loop { } } }
        impl Eq for $T { }
        impl PartialOrd for $T { fn partial_cmp(&self, _: &Self) -> Option<Ordering> { loop { } } }
        impl Ord for $T { fn cmp(&self, _: &Self) -> Ordering { loop { } } }
        impl Hash for $T { fn hash<H: Hasher>(&self, _: &mut H) { loop { } } }
        impl fmt::Debug for $T { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { loop { } } }
    };
}
item!(SItem);
item!(ZItem);
pub struct Hr;
impl Hasher for Hr { fn finish(&self) -> u64 { loop { } } fn write(&mut self, _: &[u8]) { loop { } } }
/// Any iterator.
pub struct It<T>(core::marker::PhantomData<T>);
impl<T> Iterator for It<T> { type Item = T; fn next(&mut self) -> Option<T> { loop { } } }

macro_rules! deleg {
    ($T:ty, $X:ident, $eq:ident, $ne:ident, $lt:ident, $le:ident, $gt:ident, $ge:ident, $pc:ident, $cmp:ident, $hash:ident, $fmt:ident, $r:ident, $b:ident, $fi:ident, $cl:ident) => {
            pub fn $eq(a: &$X<$T>, b: &$X<$T>) -> bool { a == b }
            pub fn $ne(a: &$X<$T>, b: &$X<$T>) -> bool { a != b }
            pub fn $lt(a: &$X<$T>, b: &$X<$T>) -> bool { a < b }
            pub fn $le(a: &$X<$T>, b: &$X<$T>) -> bool { a <= b }
            pub fn $gt(a: &$X<$T>, b: &$X<$T>) -> bool { a > b }
            pub fn $ge(a: &$X<$T>, b: &$X<$T>) -> bool { a >= b }
            pub fn $pc(a: &$X<$T>, b: &$X<$T>) -> Option<Ordering> { a.partial_cmp(b) }
            pub fn $cmp(a: &$X<$T>, b: &$X<$T>) -> Ordering { a.cmp(b) }
            pub fn $hash(a: &$X<$T>, h: &mut Hr) { a.hash(h) }
            pub fn $fmt(a: &$X<$T>, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(a, f) }
            pub fn $r(a: &$X<$T>) -> &[$T] { AsRef::<[$T]>::as_ref(a) }
            pub fn $b(a: &$X<$T>) -> &[$T] { Borrow::<[$T]>::borrow(a) }
            pub fn $fi(i: It<$T>) -> $X<$T> { i.collect() }
            pub fn $cl(a: &$X<$T>) -> $X<$T> { a.clone() }
    };
}

macro_rules! roots {
    ($T:ty, $m:ident, $S:ident, $M:ident, $P:ident, $MI:ident, $MP:ident) => {
        pub mod $m {
            use rc_slice::$m::{$S as S, $M as M, $P as P, $MI as MI, $MP as MP, WeakSlice as W};
            use std::convert::TryFrom;
            use super::*;
            pub fn h_from_box(b: Box<[$T]>) -> S<$T> { S::from_boxed_slice(b) }
            pub fn h_from_vec(b: Vec<$T>) -> S<$T> { S::from_vec(b) }
            pub fn h_from_box_t(b: Box<[$T]>) -> S<$T> { S::from(b) }
            pub fn h_from_vec_t(b: Vec<$T>) -> S<$T> { S::from(b) }
            pub fn h_clone(s: &S<$T>) -> S<$T> { s.clone() }
            pub fn h_clone_left(s: &S<$T>) -> S<$T> { S::clone_left(s) }
            pub fn h_clone_right(s: &S<$T>) -> S<$T> { S::clone_right(s) }
            pub fn h_split_off_left(s: &mut S<$T>) -> S<$T> { S::split_off_left(s) }
            pub fn h_split_off_right(s: &mut S<$T>) -> S<$T> { S::split_off_right(s) }
            pub fn h_get_mut(s: &mut S<$T>) -> Option<&mut [$T]> { S::get_mut(s) }
            pub fn h_into_mut(s: S<$T>) -> Result<M<$T>, S<$T>> { S::into_mut(s) }
            pub fn h_try_from(s: S<$T>) -> Result<M<$T>, S<$T>> { M::try_from(s) }
            pub fn h_downgrade(s: &S<$T>) -> W<$T> { S::downgrade(s) }
            pub fn h_deref(s: &S<$T>) -> &[$T] { &**s }
            pub fn h_drop(s: S<$T>) { drop(s) }
            pub fn h_w_new() -> W<$T> { W::new() }
            pub fn h_w_clone(w: &W<$T>) -> W<$T> { w.clone() }
            pub fn h_w_upgrade(w: &W<$T>) -> Option<S<$T>> { w.upgrade() }
            pub fn h_w_drop(w: W<$T>) { drop(w) }
            pub fn h_p_new(s: S<$T>, n: usize) -> P<$T> { S::split_into_parts(s, n) }
            pub fn h_p_next(p: &mut P<$T>) -> Option<S<$T>> { p.next() }
            pub fn h_p_next_back(p: &mut P<$T>) -> Option<S<$T>> { p.next_back() }
            pub fn h_p_len(p: &P<$T>) -> usize { p.len() }
            pub fn h_p_size_hint(p: &P<$T>) -> (usize, Option<usize>) { p.size_hint() }
            pub fn h_p_as_slice(p: &P<$T>) -> &[$T] { p.as_slice() }
            pub fn h_p_clone(p: &P<$T>) -> P<$T> { p.clone() }
            pub fn h_p_drop(p: P<$T>) { drop(p) }
            pub fn h_p_count(p: P<$T>) -> usize { p.count() }
            pub fn h_m_from_box(b: Box<[$T]>) -> M<$T> { M::from_boxed_slice(b) }
            pub fn h_m_from_vec(b: Vec<$T>) -> M<$T> { M::from_vec(b) }
            pub fn h_m_from_box_t(b: Box<[$T]>) -> M<$T> { M::from(b) }
            pub fn h_m_from_vec_t(b: Vec<$T>) -> M<$T> { M::from(b) }
            pub fn h_m_split_off_left(m: &mut M<$T>) -> M<$T> { M::split_off_left(m) }
            pub fn h_m_split_off_right(m: &mut M<$T>) -> M<$T> { M::split_off_right(m) }
            pub fn h_m_into_immut(m: M<$T>) -> S<$T> { M::into_immut(m) }
            pub fn h_m_from(m: M<$T>) -> S<$T> { S::from(m) }
            pub fn h_m_deref(m: &M<$T>) -> &[$T] { &**m }
            pub fn h_m_deref_mut(m: &mut M<$T>) -> &mut [$T] { &mut **m }
            pub fn h_m_drop(m: M<$T>) { drop(m) }
            pub fn h_m_into_iter(m: M<$T>) -> MI<$T> { m.into_iter() }
            pub fn h_m_parts(m: M<$T>, n: usize) -> MP<$T> { M::split_into_parts(m, n) }
            pub fn h_i_next(i: &mut MI<$T>) -> Option<$T> { i.next() }
            pub fn h_i_next_back(i: &mut MI<$T>) -> Option<$T> { i.next_back() }
            pub fn h_i_len(i: &MI<$T>) -> usize { i.len() }
            pub fn h_i_size_hint(i: &MI<$T>) -> (usize, Option<usize>) { i.size_hint() }
            pub fn h_i_count(i: MI<$T>) -> usize { i.count() }
            pub fn h_i_as_slice(i: &MI<$T>) -> &[$T] { i.as_slice() }
            pub fn h_i_as_mut_slice(i: &mut MI<$T>) -> &mut [$T] { i.as_mut_slice() }
            pub fn h_i_from(i: &mut MI<$T>, at: usize) -> MI<$T> { i.split_off_from(at) }
            pub fn h_i_to(i: &mut MI<$T>, at: usize) -> MI<$T> { i.split_off_to(at) }
            pub fn h_i_drop(i: MI<$T>) { drop(i) }
            pub fn h_q_next(q: &mut MP<$T>) -> Option<M<$T>> { q.next() }
            pub fn h_q_next_back(q: &mut MP<$T>) -> Option<M<$T>> { q.next_back() }
            pub fn h_q_len(q: &MP<$T>) -> usize { q.len() }
            pub fn h_q_size_hint(q: &MP<$T>) -> (usize, Option<usize>) { q.size_hint() }
            pub fn h_q_count(q: MP<$T>) -> usize { q.count() }
            pub fn h_q_as_slice(q: &MP<$T>) -> &[$T] { q.as_slice() }
            pub fn h_q_as_mut_slice(q: &mut MP<$T>) -> &mut [$T] { q.as_mut_slice() }
            deleg!($T, S, h_d_eq, h_d_ne, h_d_lt, h_d_le, h_d_gt, h_d_ge, h_d_pc, h_d_cmp, h_d_hash, h_d_fmt, h_d_as_ref, h_d_borrow, h_from_iter, h_d_clone);
            deleg!($T, M, h_dm_eq, h_dm_ne, h_dm_lt, h_dm_le, h_dm_gt, h_dm_ge, h_dm_pc, h_dm_cmp, h_dm_hash, h_dm_fmt, h_dm_as_ref, h_dm_borrow, h_m_from_iter, h_m_clone);
            pub fn h_dm_as_mut(m: &mut M<$T>) -> &mut [$T] { AsMut::<[$T]>::as_mut(m) }
            pub fn h_dm_borrow_mut(m: &mut M<$T>) -> &mut [$T] { BorrowMut::<[$T]>::borrow_mut(m) }
            pub fn h_i_fmt(i: &MI<$T>, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(i, f) }
            pub fn h_q_fmt(i: &MP<$T>, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(i, f) }
            pub fn h_p_fmt(i: &P<$T>, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(i, f) }
            pub fn h_q_drop(q: MP<$T>) { drop(q) }
            // provided methods: std's, unless the crate overrides them
            pub fn h_i_nth(i: &mut MI<$T>, n: usize) -> Option<$T> { i.nth(n) }
            pub fn h_i_nth_back(i: &mut MI<$T>, n: usize) -> Option<$T> { i.nth_back(n) }
            pub fn h_i_last(i: MI<$T>) -> Option<$T> { i.last() }
            pub fn h_i_fold(i: MI<$T>, f: fn(u8, $T) -> u8) -> u8 { i.fold(0, f) }
            pub fn h_i_rfold(i: MI<$T>, f: fn(u8, $T) -> u8) -> u8 { i.rfold(0, f) }
            pub fn h_i_for_each(i: MI<$T>, f: fn($T)) { i.for_each(f) }
            pub fn h_q_nth(q: &mut MP<$T>, n: usize) -> Option<M<$T>> { q.nth(n) }
            pub fn h_q_nth_back(q: &mut MP<$T>, n: usize) -> Option<M<$T>> { q.nth_back(n) }
            pub fn h_q_last(q: MP<$T>) -> Option<M<$T>> { q.last() }
            pub fn h_q_fold(q: MP<$T>, f: fn(u8, M<$T>) -> u8) -> u8 { q.fold(0, f) }
            pub fn h_q_rfold(q: MP<$T>, f: fn(u8, M<$T>) -> u8) -> u8 { q.rfold(0, f) }
            pub fn h_q_for_each(q: MP<$T>, f: fn(M<$T>)) { q.for_each(f) }
            pub fn h_p_nth(p: &mut P<$T>, n: usize) -> Option<S<$T>> { p.nth(n) }
            pub fn h_p_nth_back(p: &mut P<$T>, n: usize) -> Option<S<$T>> { p.nth_back(n) }
            pub fn h_p_last(p: P<$T>) -> Option<S<$T>> { p.last() }
            pub fn h_p_fold(p: P<$T>, f: fn(u8, S<$T>) -> u8) -> u8 { p.fold(0, f) }
            pub fn h_p_rfold(p: P<$T>, f: fn(u8, S<$T>) -> u8) -> u8 { p.rfold(0, f) }
            pub fn h_p_for_each(p: P<$T>, f: fn(S<$T>)) { p.for_each(f) }
            pub fn h_clone_from(a: &mut S<$T>, b: &S<$T>) { a.clone_from(b) }
            pub fn h_w_clone_from(a: &mut W<$T>, b: &W<$T>) { a.clone_from(b) }
            pub fn h_p_clone_from(a: &mut P<$T>, b: &P<$T>) { a.clone_from(b) }
            pub fn h_m_clone_from(a: &mut M<$T>, b: &M<$T>) { a.clone_from(b) }
        }
    };
}
pub mod sized { use super::*; roots!(SItem, rc, RcSlice, RcSliceMut, RcSliceParts, RcSliceMutIter, RcSliceMutParts); roots!(SItem, arc, ArcSlice, ArcSliceMut, ArcSliceParts, ArcSliceMutIter, ArcSliceMutParts); }
pub mod zst { use super::*; roots!(ZItem, rc, RcSlice, RcSliceMut, RcSliceParts, RcSliceMutIter, RcSliceMutParts); roots!(ZItem, arc, ArcSlice, ArcSliceMut, ArcSliceParts, ArcSliceMutIter, ArcSliceMutParts); }
