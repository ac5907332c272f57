// Histories in which one item destructor or clone panics during an operation (C17).  Included once per
// flavour.  Oracle: nothing is dropped twice, no freed memory is used, every item visible through a
// surviving handle is alive, and what a unique handle owns nobody else has.  Leaks are fine.
enum U<T: Item> { S(S<T>), W(W<T>), P(P<T>), M(M<T>), I(MI<T>), Q(MP<T>) }

pub fn unwind<T: Item>(ch: &mut Ch) -> Result<(), Fail> {
    item_reset();
    crate::alloc::start();
    set_tags(&[17]);
    let mut hs: Vec<U<T>> = Vec::with_capacity(40);
    let r = unwind_go(&mut hs, ch);
    if r.is_err() { std::mem::forget(hs); crate::alloc::stop(); return r; }
    drop(hs);
    if crate::alloc::stop() { return fail(&[17], "memory was written to after it had been freed"); }
    Ok(())
}

fn unwind_go<T: Item>(hs: &mut Vec<U<T>>, ch: &mut Ch) -> Result<(), Fail> {
    use std::convert::TryFrom;
    let steps = 3 + ch.pick(24);
    for step in 0..steps + 40 {
        if item_next() > 3000 || ch.done() && hs.is_empty() { break; }
        let closing = step >= steps;
        if closing && hs.is_empty() { break; }
        if hs.is_empty() || !closing && hs.len() < 24 && ch.pick(10) == 0 {
            let n = ch.pick(9);
            let v: Vec<T> = (0..n).map(|_| { let i = item_new(); T::make(i, 0) }).collect();
            let k = ch.pick(4);
            trace(&format!("handle {} = {} of {} items", hs.len(), ["shared", "unique", "iterator", "unique parts"][k], n));
            hs.push(match k {
                0 => U::S(S::from_vec(v)), 1 => U::M(M::from_boxed_slice(v.into_boxed_slice())),
                2 => U::I(M::from_vec(v).into_iter()), _ => U::Q(M::split_into_parts(M::from_vec(v), 1 << ch.pick(4))) });
            continue;
        }
        let i = ch.pick(hs.len());
        let op = if closing { 0 } else { ch.pick(12) };
        let arm = [0, 0, 1, 1, 2, 3, 4, 6][ch.pick(8)];
        let clones = ch.pick(4) == 0;
        let at = ch.pick(6);
        let h = hs.swap_remove(i);
        trace(&format!("handle {} ({}): operation {} ({}), {}", i,
            match &h { U::S(_) => "shared", U::W(_) => "weak", U::P(_) => "parts", U::M(_) => "unique", U::I(_) => "iterator", U::Q(_) => "unique parts" }, op, at,
            if arm == 0 { "no panic".to_string() } else { format!("panic at {} number {}", if clones { "clone" } else { "drop" }, arm) }));
        let mut back: Option<U<T>> = None;      // a handle behind a reference: it survives
        let out: std::cell::RefCell<Vec<U<T>>> = std::cell::RefCell::new(vec![]);
        let push = |u: U<T>| out.borrow_mut().push(u);
        item_arm(if clones { 0 } else { arm }, if clones { arm } else { 0 });
        crate::alloc::enter();
        macro_rules! keep { ($h:expr, $k:ident, $x:ident, $e:expr) => {{ back = Some(U::$k($h)); if let Some(U::$k($x)) = back.as_mut() { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { $e })); } }}; }
        macro_rules! gone { ($x:ident, $e:expr) => {{ let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let $x = $x; $e })); }}; }
        match h {
            U::S(s) => match op {
                1 => keep!(s, S, s, push(U::S(s.clone()))),
                2 => keep!(s, S, s, push(U::S(S::clone_left(s)))),
                3 => keep!(s, S, s, push(U::S(S::clone_right(s)))),
                4 => keep!(s, S, s, { let l = S::split_off_left(s); push(U::S(l)) }),
                5 => keep!(s, S, s, { let l = S::split_off_right(s); push(U::S(l)) }),
                6 => keep!(s, S, s, push(U::W(S::downgrade(s)))),
                7 => gone!(s, match S::into_mut(s) { Ok(m) => push(U::M(m)), Err(s) => push(U::S(s)) }),
                8 => gone!(s, push(U::P(S::split_into_parts(s, 1 << at.min(4))))),
                9 => gone!(s, { let p = S::split_into_parts(s, at); push(U::P(p)) }),
                10 => keep!(s, S, s, { S::get_mut(s); }),
                11 => gone!(s, match M::try_from(s) { Ok(m) => push(U::M(m)), Err(s) => push(U::S(s)) }),
                _ => gone!(s, drop(s)),
            },
            U::W(w) => match op {
                1 | 2 => keep!(w, W, w, push(U::W(w.clone()))),
                0 => gone!(w, drop(w)),
                _ => keep!(w, W, w, if let Some(s) = w.upgrade() { push(U::S(s)) }),
            },
            U::P(p) => match op {
                1 | 2 | 3 => keep!(p, P, p, if let Some(s) = p.next() { push(U::S(s)) }),
                4 | 5 => keep!(p, P, p, if let Some(s) = p.next_back() { push(U::S(s)) }),
                6 => keep!(p, P, p, push(U::P(p.clone()))),
                7 => keep!(p, P, p, if let Some(s) = p.nth(at) { push(U::S(s)) }),
                8 => keep!(p, P, p, for s in p { if s.len() % 2 == 0 { push(U::S(s)) } }),
                9 => gone!(p, { p.count(); }),
                10 => gone!(p, if let Some(s) = p.last() { push(U::S(s)) }),
                11 => keep!(p, P, p, if let Some(s) = p.nth_back(at) { push(U::S(s)) }),
                _ => gone!(p, drop(p)),
            },
            U::M(m) => match op {
                1 | 2 => keep!(m, M, m, { let l = M::split_off_left(m); push(U::M(l)) }),
                3 | 4 => keep!(m, M, m, { let l = M::split_off_right(m); push(U::M(l)) }),
                5 => keep!(m, M, m, push(U::M(m.clone()))),
                6 => gone!(m, push(U::S(M::into_immut(m)))),
                7 | 8 => gone!(m, push(U::I(m.into_iter()))),
                9 => gone!(m, push(U::Q(M::split_into_parts(m, 1 << at.min(4))))),
                10 => gone!(m, { let p = M::split_into_parts(m, at); push(U::Q(p)) }),
                11 => keep!(m, M, m, { let v: M<T> = m.iter().cloned().collect(); push(U::M(v)); if let Some(x) = m.first_mut() { let y = x.clone(); *x = y; } }),
                _ => gone!(m, drop(m)),
            },
            U::I(x) => match op {
                1 | 2 => keep!(x, I, x, { x.next(); }),
                3 => keep!(x, I, x, { x.next_back(); }),
                4 => keep!(x, I, x, { x.nth(at); }),
                5 => keep!(x, I, x, { x.nth_back(at); }),
                6 => keep!(x, I, x, { let y = x.split_off_to(at); push(U::I(y)) }),
                7 => keep!(x, I, x, { let y = x.split_off_from(at); push(U::I(y)) }),
                8 => gone!(x, { x.count(); }),
                9 => gone!(x, { x.last(); }),
                10 => gone!(x, push(U::M(x.collect()))),
                11 => keep!(x, I, x, for _ in x {}),
                _ => gone!(x, drop(x)),
            },
            U::Q(x) => match op {
                1 | 2 | 3 => keep!(x, Q, x, if let Some(m) = x.next() { push(U::M(m)) }),
                4 | 5 => keep!(x, Q, x, if let Some(m) = x.next_back() { push(U::M(m)) }),
                6 | 7 => keep!(x, Q, x, if let Some(m) = x.nth(at) { push(U::M(m)) }),
                8 => gone!(x, { x.count(); }),
                9 => keep!(x, Q, x, for m in x { if m.len() % 2 == 0 { push(U::M(m)) } }),
                10 => keep!(x, Q, x, if let Some(m) = x.nth_back(at) { push(U::M(m)) }),
                11 => gone!(x, if let Some(m) = x.last() { push(U::M(m)) }),
                _ => gone!(x, drop(x)),
            },
        }
        crate::alloc::leave();
        item_arm(0, 0);
        if let Some(b) = back { hs.push(b); }
        for o in out.into_inner() { if hs.len() < 36 { hs.push(o) } else { std::mem::forget(o) } }
        if let Some(e) = crate::alloc::err() { return fail(&[17], e); }
        if let Some(e) = item_garbage() { return fail(&[17], e); }
        unwind_look(hs)?;
    }
    Ok(())
}

fn unwind_look<T: Item>(hs: &mut Vec<U<T>>) -> Result<(), Fail> {
    let n = item_next() as usize;
    let mut owner = vec![0u8; n];
    let mut zown = 0usize;
    if T::SIZE > 0 { for i in 0..n { if item_state(i as u32) == 3 { return fail(&[17], &format!("item {} was dropped twice", i)); } } }
    for h in hs.iter() {
        let (v, u): (&[T], bool) = match h { U::S(s) => (&s[..], false), U::P(p) => (p.as_slice(), false), U::W(_) => continue,
            U::M(m) => (&m[..], true), U::I(x) => (x.as_slice(), true), U::Q(x) => (x.as_slice(), true) };
        if T::SIZE == 0 { if u { zown += v.len() } continue; }
        for x in v {
            match x.get() {
                None => return fail(&[17], "a surviving handle shows memory that holds no item"),
                Some((i, _)) => {
                    if item_state(i) != 1 { return fail(&[17], &format!("a surviving handle shows item {}, which was dropped", i)); }
                    if u && owner[i as usize] != 0 || owner[i as usize] == 2 { return fail(&[17], &format!("item {} of a unique handle is reachable through another handle", i)); }
                    owner[i as usize] = if u { 2 } else { 1 };
                }
            }
        }
    }
    if T::SIZE == 0 && item_alive_total() < zown { return fail(&[17], "more items were dropped than existed"); }
    if T::SIZE == 0 && item_alive_raw() < 0 { return fail(&[17], "an item was dropped twice"); }
    Ok(())
}
