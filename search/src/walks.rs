// Deterministic walks (included per flavour).

/// A long zero-sized slice without destructors: every length is cheap.
fn zlens() -> Vec<usize> {
    let mut v: Vec<usize> = (0..20).collect();
    for s in [5, 8, 16, 31, 32, 33, 47, 62, 63] { for d in [0usize, 1, 2] { v.push((1usize << s) - 1 + d); } }
    v.extend_from_slice(&[usize::MAX, usize::MAX - 1, usize::MAX / 3, 0xdead_beef_cafe_f00d]);
    v
}
fn zvec(n: usize) -> Vec<()> { let mut v: Vec<()> = Vec::new(); unsafe { v.set_len(n) }; v }
fn u32vec(n: usize) -> Vec<u32> { (0..n as u32).collect() }

fn wpart(len: usize, k: u32, i: usize) -> (usize, usize) {
    let (mut lo, mut hi) = (0usize, len);
    for j in (0..k).rev() {
        let m = lo + ((hi - lo) >> 1);
        if (i >> j) & 1 == 0 { hi = m } else { lo = m }
    }
    (lo, hi)
}

fn whats(len: usize, k: u32, walk: &str) -> String { format!("slice of {} items split into 2^{} parts, walk {} (f = next, b = next_back)", len, k, walk) }

fn span(len: usize, k: u32, f: usize, b: usize) -> (usize, usize) {
    if f >= b { (0, 0) } else { (wpart(len, k, f).0, wpart(len, k, b - 1).1) }
}

fn shared_walk<X: Clone>(mk: &dyn Fn(usize) -> Vec<X>, len: usize, k: u32, mut step: impl FnMut(usize) -> bool, steps: usize, cl: usize) -> Result<(), Fail> {
    let v = mk(len);
    let zs = std::mem::size_of::<X>();
    let s = S::from_vec(v);
    let base = s.as_ptr() as usize;
    let total = 1usize << k;
    set_tags(&[T_SPARTS]);
    let mut p = S::split_into_parts(s, total);
    let (mut f, mut b) = (0usize, total);
    let mut walk = String::new();
    for st in 0..=steps {
        let fl = |m: String| Fail { tags: vec![T_SPARTS], msg: m };
        if p.len() != b - f { return Err(fl(format!("{}: len() is {}, expected {}", whats(len, k, &walk), p.len(), b - f))); }
        if p.size_hint() != (b - f, Some(b - f)) { return Err(fl(format!("{}: size_hint() is {:?}, expected {}", whats(len, k, &walk), p.size_hint(), b - f))); }
        let (lo, hi) = span(len, k, f, b);
        let sl = p.as_slice();
        if sl.len() != hi - lo || (hi > lo && zs > 0 && sl.as_ptr() as usize != base + lo * zs) {
            return Err(fl(format!("{}: as_slice() is not exactly the items not yet yielded", whats(len, k, &walk))));
        }
        if st == steps { break; }
        if st == cl {
            walk.push('c');
            let q = p.clone();
            if q.len() != p.len() || q.as_slice().len() != sl.len() { return Err(fl(format!("{}: clone of the iterator is in a different state", whats(len, k, &walk)))); }
            // the clone must walk independently
            let mut q2 = q.clone();
            let mut n = 0;
            let lim = 40;
            while let Some(x) = q2.next() {
                let (l, h) = wpart(len, k, f + n);
                n += 1;
                if x.len() != h - l || (h > l && zs > 0 && x.as_ptr() as usize != base + l * zs) { return Err(fl(format!("{}: a clone yields the wrong part", whats(len, k, &walk)))); }
                if n >= lim { break; }
            }
            if n < lim && n != b - f { return Err(fl(format!("{}: a clone yields the wrong number of parts", whats(len, k, &walk)))); }
            if st % 2 == 0 && b - f > 0 { let c = q.clone().count(); if c != b - f { return Err(fl(format!("{}: count() is {}, expected {}", whats(len, k, &walk), c, b - f))); } }
            p = q;
        }
        let front = step(st);
        walk.push(if front { 'f' } else { 'b' });
        trace(&whats(len, k, &walk));
        unsafe { TLEN = 0; }
        trace(&whats(len, k, &walk));
        // some steps skip parts
        let sk = if st % 5 == 3 { (st / 5) % 4 } else { 0 };
        if sk > 0 { walk.push_str(&format!("(nth {})", sk)); }
        let x = match (front, sk) { (true, 0) => p.next(), (false, 0) => p.next_back(), (true, k) => p.nth(k), (false, k) => p.nth_back(k) };
        let want = if f < b && sk < b - f { if front { f += sk + 1; Some(f - 1) } else { b -= sk + 1; Some(b) } } else { f = b; None };
        match (x, want) {
            (None, None) => (),
            (Some(x), Some(i)) => {
                let (l, h) = wpart(len, k, i);
                if x.len() != h - l || (h > l && zs > 0 && x.as_ptr() as usize != base + l * zs) {
                    return Err(fl(format!("{}: yielded the wrong part", whats(len, k, &walk))));
                }
            }
            (Some(_), None) => return Err(fl(format!("{}: yielded a part after the parts were exhausted", whats(len, k, &walk)))),
            (None, Some(_)) => return Err(fl(format!("{}: ended before all parts were yielded", whats(len, k, &walk)))),
        }
    }
    if b - f <= 300 {
        let fl = |m: String| Fail { tags: vec![T_SPARTS], msg: m };
        let how = len.wrapping_add(steps + k as usize) % 6;
        let mut got: Vec<(usize, usize)> = vec![];
        let n = b - f;
        let at = |x: &[X]| (x.as_ptr() as usize, x.len());
        match how {
            0 => got = p.map(|x| at(&x)).collect(), 1 => p.fold((), |_, x| got.push(at(&x))), 2 => { p.rfold((), |_, x| got.push(at(&x))); got.reverse(); } 3 => p.for_each(|x| got.push(at(&x))),
            4 => { let l = p.last().map(|x| at(&x)); if l.is_some() != (n > 0) { return Err(fl(format!("{}: last() is wrong", whats(len, k, &walk)))); } if let Some(l) = l { got = vec![l]; f = b - 1; } }
            _ => { if p.count() != n { return Err(fl(format!("{}: count() is wrong", whats(len, k, &walk)))); } return Ok(()); }
        }
        if got.len() != b - f { return Err(fl(format!("{}: consumed the rest, which is the wrong number of parts", whats(len, k, &walk)))); }
        for (i, (q, l)) in got.into_iter().enumerate() {
            let (lo, hi) = wpart(len, k, f + i);
            if l != hi - lo || (l > 0 && zs > 0 && q != base + lo * zs) { return Err(fl(format!("{}: consumed the rest, with a wrong part", whats(len, k, &walk)))); }
        }
    }
    Ok(())
}

fn unique_walk<X>(mk: &dyn Fn(usize) -> Vec<X>, len: usize, k: u32, mut step: impl FnMut(usize) -> bool, steps: usize) -> Result<(), Fail> {
    let zs = std::mem::size_of::<X>();
    let s = M::from_vec(mk(len));
    let base = s.as_ptr() as usize;
    let total = 1usize << k;
    set_tags(&[T_UPARTS]);
    let mut p = M::split_into_parts(s, total);
    let (mut f, mut b) = (0usize, total);
    let mut walk = String::new();
    for st in 0..=steps {
        let fl = |m: String| Fail { tags: vec![T_UPARTS], msg: m };
        if p.len() != b - f { return Err(fl(format!("{}: len() is {}, expected {}", whats(len, k, &walk), p.len(), b - f))); }
        if p.size_hint() != (b - f, Some(b - f)) { return Err(fl(format!("{}: size_hint() is {:?}, expected {}", whats(len, k, &walk), p.size_hint(), b - f))); }
        let (lo, hi) = span(len, k, f, b);
        let sl = p.as_slice();
        let (sp, sn) = (sl.as_ptr() as usize, sl.len());
        if sn != hi - lo || (hi > lo && zs > 0 && sp != base + lo * zs) {
            return Err(fl(format!("{}: as_slice() is not exactly the items not yet yielded", whats(len, k, &walk))));
        }
        let sm = p.as_mut_slice();
        if sm.len() != sn || (sn > 0 && zs > 0 && sm.as_ptr() as usize != sp) { return Err(fl(format!("{}: as_mut_slice() differs from as_slice()", whats(len, k, &walk)))); }
        if st == steps { break; }
        let front = step(st);
        walk.push(if front { 'f' } else { 'b' });
        unsafe { TLEN = 0; }
        trace(&whats(len, k, &walk));
        // some steps skip parts
        let sk = if st % 5 == 3 { (st / 5) % 4 } else { 0 };
        if sk > 0 { walk.push_str(&format!("(nth {})", sk)); }
        let x = match (front, sk) { (true, 0) => p.next(), (false, 0) => p.next_back(), (true, k) => p.nth(k), (false, k) => p.nth_back(k) };
        let want = if f < b && sk < b - f { if front { f += sk + 1; Some(f - 1) } else { b -= sk + 1; Some(b) } } else { f = b; None };
        match (x, want) {
            (None, None) => (),
            (Some(x), Some(i)) => {
                let (l, h) = wpart(len, k, i);
                if x.len() != h - l || (h > l && zs > 0 && x.as_ptr() as usize != base + l * zs) {
                    return Err(fl(format!("{}: yielded the wrong part", whats(len, k, &walk))));
                }
            }
            (Some(_), None) => return Err(fl(format!("{}: yielded a part after the parts were exhausted", whats(len, k, &walk)))),
            (None, Some(_)) => return Err(fl(format!("{}: ended before all parts were yielded", whats(len, k, &walk)))),
        }
    }
    if b - f <= 300 {
        let fl = |m: String| Fail { tags: vec![T_UPARTS], msg: m };
        let how = len.wrapping_add(steps + k as usize) % 6;
        let mut got: Vec<(usize, usize)> = vec![];
        let n = b - f;
        let at = |x: &[X]| (x.as_ptr() as usize, x.len());
        match how {
            0 => got = p.map(|x| at(&x)).collect(), 1 => p.fold((), |_, x| got.push(at(&x))), 2 => { p.rfold((), |_, x| got.push(at(&x))); got.reverse(); } 3 => p.for_each(|x| got.push(at(&x))),
            4 => { let l = p.last().map(|x| at(&x)); if l.is_some() != (n > 0) { return Err(fl(format!("{}: last() is wrong", whats(len, k, &walk)))); } if let Some(l) = l { got = vec![l]; f = b - 1; } }
            _ => { if p.count() != n { return Err(fl(format!("{}: count() is wrong", whats(len, k, &walk)))); } return Ok(()); }
        }
        if got.len() != b - f { return Err(fl(format!("{}: consumed the rest, which is the wrong number of parts", whats(len, k, &walk)))); }
        for (i, (q, l)) in got.into_iter().enumerate() {
            let (lo, hi) = wpart(len, k, f + i);
            if l != hi - lo || (l > 0 && zs > 0 && q != base + lo * zs) { return Err(fl(format!("{}: consumed the rest, with a wrong part", whats(len, k, &walk)))); }
        }
    }
    Ok(())
}

fn iter_walk<X: PartialEq + Clone>(mk: &dyn Fn(usize) -> Vec<X>, len: usize, rng: &mut Rng, steps: usize) -> Result<(), Fail> {
    let zs = std::mem::size_of::<X>();
    let s = M::from_vec(mk(len));
    let orig = if zs > 0 { mk(len) } else { vec![] };
    let base = s.as_ptr() as usize;
    set_tags(&[T_ITER]);
    let mut its: Vec<(MI<X>, usize, usize)> = vec![(s.into_iter(), 0, len)];
    let mut log = format!("unique slice of {} items ({} bytes each).into_iter()", len, zs);
    for st in 0..=steps {
        for (it, lo, hi) in its.iter_mut() {
            let n = *hi - *lo;
            let bad = |m: &str| Fail { tags: vec![T_ITER], msg: format!("{}: {}", log, m) };
            if it.len() != n { return Err(bad(&format!("len() is {}, expected {}", it.len(), n))); }
            if it.size_hint() != (n, Some(n)) { return Err(bad("size_hint() is not exact")); }
            let sl = it.as_slice();
            let (sp, sn) = (sl.as_ptr() as usize, sl.len());
            if sn != n || (n > 0 && zs > 0 && sp != base + *lo * zs) { return Err(bad("as_slice() is not exactly the remaining items")); }
            let sm = it.as_mut_slice();
            if sm.len() != n || (n > 0 && zs > 0 && sm.as_ptr() as usize != sp) { return Err(bad("as_mut_slice() is not exactly the remaining items")); }
        }
        if st == steps { break; }
        let i = rng.below(its.len());
        let op = rng.below(8);
        let (lo, hi) = (its[i].1, its[i].2);
        let n = hi - lo;
        let ats = [0usize, 1, n / 2, n.wrapping_sub(1), n, rng.below(n.max(1))];
        let at = ats[rng.below(6)].min(n);
        let sk = [0usize, 1, 2, 3, at.min(40), if n < 100 { n + 1 } else { 7 }][rng.below(6)];
        log.push_str(&match op { 0 | 1 => format!("; it{}.next()", i), 2 | 3 => format!("; it{}.next_back()", i), 4 => format!("; it{}.split_off_from({})", i, at), 5 => format!("; it{}.split_off_to({})", i, at), 6 => format!("; it{}.nth({})", i, sk), _ => format!("; it{}.nth_back({})", i, sk) });
        unsafe { TLEN = 0; }
        trace(&log);
        let bad = |m: &str| Fail { tags: vec![T_ITER], msg: format!("{}: {}", log, m) };
        match op {
            0..=3 => {
                let x = if op < 2 { its[i].0.next() } else { its[i].0.next_back() };
                let want = if n == 0 { None } else if op < 2 { its[i].1 += 1; Some(lo) } else { its[i].2 -= 1; Some(hi - 1) };
                match (&x, want) {
                    (None, None) => (),
                    (Some(x), Some(j)) => if zs > 0 && *x != orig[j] { return Err(bad("yielded the wrong item")); },
                    _ => return Err(bad("yielded an item although exhausted, or ended early")),
                }
            }
            4 => {
                let y = its[i].0.split_off_from(at);
                its[i].2 = lo + at;
                its.push((y, lo + at, hi));
            }
            6 | 7 => {
                let x = if op == 6 { its[i].0.nth(sk) } else { its[i].0.nth_back(sk) };
                let want = if sk >= n { its[i].1 = hi; None } else if op == 6 { its[i].1 = lo + sk + 1; Some(lo + sk) } else { its[i].2 = hi - sk - 1; Some(hi - sk - 1) };
                match (&x, want) {
                    (None, None) => (),
                    (Some(x), Some(j)) => if zs > 0 && *x != orig[j] { return Err(bad("yielded the wrong item")); },
                    _ => return Err(bad("yielded an item although too few remain, or none although enough remain")),
                }
            }
            _ => {
                let y = its[i].0.split_off_to(at);
                its[i].1 = lo + at;
                its.push((y, lo, lo + at));
            }
        }
        // out of range positions panic and change nothing
        if n < usize::MAX && its.len() > 0 {
            let j = rng.below(its.len());
            let m = its[j].2 - its[j].1;
            if m < usize::MAX {
                for over in [m + 1, usize::MAX] {
                    let it = &mut its[j].0;
                    let to = rng.below(2) == 0;
                    let r = catch_unwind(AssertUnwindSafe(|| { if to { let _ = it.split_off_to(over); } else { let _ = it.split_off_from(over); } }));
                    if r.is_ok() { return Err(bad(&format!("splitting it{} at {} did not panic although only {} items remain", j, over, m))); }
                }
            }
        }
    }
    for (i, (it, lo, hi)) in its.into_iter().enumerate() {
        let n = hi - lo;
        if n > 5000 { continue; }
        let want: Vec<X> = if zs > 0 { orig[lo..hi].to_vec() } else { vec![] };
        let how = rng.below(8);
        log.push_str(&format!("; it{} consumed by {}", i, ["collect", "fold", "rfold", "for_each", "last", "count", "rev, collect", "by_ref, collect"][how]));
        let mut got: Vec<X> = vec![];
        let rev = how == 2 || how == 6;
        match how {
            0 => got = it.collect(), 1 => it.fold((), |_, x| got.push(x)), 2 => it.rfold((), |_, x| got.push(x)), 3 => it.for_each(|x| got.push(x)),
            4 => { let l = it.last(); if l.is_some() != (n > 0) || zs > 0 && l.as_ref() != want.last() { return Err(Fail { tags: vec![T_ITER], msg: format!("{}: last() is wrong", log) }); } continue; }
            5 => { if it.count() != n { return Err(Fail { tags: vec![T_ITER], msg: format!("{}: count() is wrong", log) }); } continue; }
            6 => got = it.rev().collect(),
            _ => { let mut it = it; got = it.by_ref().collect(); if it.next().is_some() || it.next_back().is_some() || it.len() != 0 { return Err(Fail { tags: vec![T_ITER], msg: format!("{}: the iterator does not stay exhausted", log) }); } }
        }
        if rev { got.reverse(); }
        if got.len() != n || zs > 0 && got != want { return Err(Fail { tags: vec![T_ITER], msg: format!("{}: the wrong items", log) }); }
    }
    Ok(())
}

fn bad_counts() -> Result<u64, Fail> {
    let mut n = 0;
    for len in [0usize, 1, 5] {
        for c in [0usize, 3, 5, 6, 7, 9, 12, 96, usize::MAX, (1 << 63) + 1, (1 << 63) | (1 << 62), 1, 2, 4, 1 << 20, 1 << 62, 1 << 63] {
            let ok = c != 0 && c & (c - 1) == 0;
            let r = catch_unwind(AssertUnwindSafe(|| { drop(S::split_into_parts(S::from_vec(u32vec(len)), c)) })).is_ok();
            if r != ok { return Err(Fail { tags: vec![T_SPARTS], msg: format!("splitting a shared slice of {} items into {} parts {}", len, c, if r { "did not panic" } else { "panicked" }) }); }
            let r = catch_unwind(AssertUnwindSafe(|| { drop(M::split_into_parts(M::from_vec(u32vec(len)), c)) })).is_ok();
            if r != ok { return Err(Fail { tags: vec![T_UPARTS], msg: format!("splitting a unique slice of {} items into {} parts {}", len, c, if r { "did not panic" } else { "panicked" }) }); }
            n += 2;
        }
    }
    Ok(n)
}

pub fn walks(prop: u8, seed: u64) -> Result<u64, Fail> {
    let mut n = 0u64;
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    if prop == T_SPARTS || prop == T_UPARTS {
        n += bad_counts().or_else(|f| if f.tags.contains(&prop) { Err(f) } else { Ok(0) })?;
        let exh: &[(u32, usize)] = &[(0, 3), (1, 4), (2, 6), (3, 10)];
        for &(k, steps) in exh {
            for len in [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 11, 16] {
                for m in 0..(1u32 << steps) {
                    n += 1;
                    if prop == T_SPARTS { shared_walk(&u32vec, len, k, |i| m >> i & 1 == 0, steps, (m as usize).wrapping_mul(7) % (steps + 3))?; }
                    else { unique_walk(&u32vec, len, k, |i| m >> i & 1 == 0, steps)?; }
                }
            }
        }
        for len in zlens() {
            for k in [0u32, 1, 2, 3, 4, 5, 8, 31, 32, 62, 63] {
                for _ in 0..6 {
                    n += 1;
                    let bias = rng.below(5);
                    let steps = 12 + rng.below(40);
                    let cl = rng.below(steps + 4);
                    let mut r = Rng(rng.next() | 1);
                    let st = move |_: usize| match bias { 0 => true, 1 => false, 2 => r.below(8) != 0, 3 => r.below(8) == 0, _ => r.below(2) == 0 };
                    if prop == T_SPARTS { shared_walk(&zvec, len, k, st, steps, cl)?; } else { unique_walk(&zvec, len, k, st, steps)?; }
                }
            }
        }
        for len in [0usize, 1, 3, 6, 17, 100, 1000, 4099] {
            for k in [4u32, 5, 6, 7, 10, 40, 63] {
                for _ in 0..8 {
                    n += 1;
                    let bias = rng.below(5);
                    let steps = ((1usize << k.min(7)) + 3).min(20 + rng.below(130));
                    let cl = rng.below(steps + 4);
                    let mut r = Rng(rng.next() | 1);
                    let st = move |_: usize| match bias { 0 => true, 1 => false, 2 => r.below(8) != 0, 3 => r.below(8) == 0, _ => r.below(2) == 0 };
                    if prop == T_SPARTS { shared_walk(&u32vec, len, k, st, steps, cl)?; } else { unique_walk(&u32vec, len, k, st, steps)?; }
                }
            }
        }
    }
    if prop == T_ITER {
        for len in zlens() { for _ in 0..12 { n += 1; let st = 4 + rng.below(14); iter_walk(&zvec, len, &mut rng, st)?; } }
        for len in [0usize, 1, 2, 3, 5, 8, 33] { for _ in 0..400 { n += 1; let st = 4 + rng.below(14); iter_walk(&u32vec, len, &mut rng, st)?; } }
        for len in [0usize, 1, 7] { for _ in 0..100 { n += 1; let st = 4 + rng.below(14); iter_walk(&|n| (0..n).map(|x| [x as u8; 3]).collect::<Vec<_>>(), len, &mut rng, st)?; } }
    }
    if prop == T_HALF {
        for len in zlens() { n += halve(&zvec, len, &mut rng)?; }
        for len in (0..40).chain([100, 1023, 1024, 1025]) { n += halve(&u32vec, len, &mut rng)?; n += halve(&|n| (0..n).map(|x| [x as u8; 5]).collect::<Vec<_>>(), len, &mut rng)?; }
    }
    Ok(n)
}

fn halve<X>(mk: &dyn Fn(usize) -> Vec<X>, len: usize, rng: &mut Rng) -> Result<u64, Fail> {
    let zs = std::mem::size_of::<X>();
    let mut n = 0;
    for shared in [true, false] {
        for _ in 0..4 {
            n += 1;
            set_tags(&[T_HALF]);
            let mut log = format!("{} slice of {} items of {} bytes", if shared { "shared" } else { "unique" }, len, zs);
            let ck = |p: usize, l: usize, base: usize, lo: usize, hi: usize, log: &str| -> Result<(), Fail> {
                if l != hi - lo || (hi > lo && zs > 0 && p != base + lo * zs) {
                    return Err(Fail { tags: vec![T_HALF], msg: format!("{}: a half is items {}..{} instead of {}..{}", log, if zs > 0 { p.wrapping_sub(base) / zs } else { lo }, (if zs > 0 { p.wrapping_sub(base) / zs } else { lo }).wrapping_add(l), lo, hi) });
                }
                Ok(())
            };
            if shared {
                let mut s = S::from_vec(mk(len));
                let base = s.as_ptr() as usize;
                let mut keep = vec![];
                let (mut lo, mut hi) = (0, len);
                for _ in 0..66 {
                    let mid = lo + (hi - lo) / 2;
                    let op = rng.below(4);
                    log.push_str(["; split_off_left", "; split_off_right", "; = clone_left", "; = clone_right"][op]);
                    unsafe { TLEN = 0; } trace(&log);
                    match op {
                        0 => { let l = S::split_off_left(&mut s); ck(l.as_ptr() as usize, l.len(), base, lo, mid, &log)?; lo = mid; if rng.below(2) == 0 { keep.push(l) } }
                        1 => { let r = S::split_off_right(&mut s); ck(r.as_ptr() as usize, r.len(), base, mid, hi, &log)?; hi = mid; if rng.below(2) == 0 { keep.push(r) } }
                        2 => { let l = S::clone_left(&s); ck(s.as_ptr() as usize, s.len(), base, lo, hi, &log)?; let l2 = S::clone_left(&s); ck(l2.as_ptr() as usize, l2.len(), base, lo, mid, &log)?; hi = mid; let o = std::mem::replace(&mut s, l); if rng.below(2) == 0 { keep.push(o) } }
                        _ => { let l = S::clone_right(&s); ck(s.as_ptr() as usize, s.len(), base, lo, hi, &log)?; let l2 = S::clone_right(&s); ck(l2.as_ptr() as usize, l2.len(), base, mid, hi, &log)?; lo = mid; let o = std::mem::replace(&mut s, l); if rng.below(2) == 0 { keep.push(o) } }
                    }
                    ck(s.as_ptr() as usize, s.len(), base, lo, hi, &log)?;
                    if hi == lo && rng.below(3) == 0 { break; }
                }
            } else {
                let mut s = M::from_vec(mk(len));
                let base = s.as_ptr() as usize;
                let (mut lo, mut hi) = (0, len);
                for _ in 0..66 {
                    let mid = lo + (hi - lo) / 2;
                    let op = rng.below(2);
                    log.push_str(["; split_off_left", "; split_off_right"][op]);
                    unsafe { TLEN = 0; } trace(&log);
                    let into = rng.below(4) == 0;
                    if op == 0 { let l = M::split_off_left(&mut s); ck(l.as_ptr() as usize, l.len(), base, lo, mid, &log)?; ck(s.as_ptr() as usize, s.len(), base, mid, hi, &log)?; if into { s = l; hi = mid } else { lo = mid } }
                    else { let r = M::split_off_right(&mut s); ck(r.as_ptr() as usize, r.len(), base, mid, hi, &log)?; ck(s.as_ptr() as usize, s.len(), base, lo, mid, &log)?; if into { s = r; lo = mid } else { hi = mid } }
                    ck(s.as_ptr() as usize, s.len(), base, lo, hi, &log)?;
                    if hi == lo && rng.below(3) == 0 { break; }
                }
            }
        }
    }
    Ok(n)
}

/// Constructors and conversion chains.
pub fn convs(seed: u64) -> Result<u64, Fail> {
    use std::convert::TryFrom;
    let mut n = 0;
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    set_tags(&[T_CONS]);
    let bad = |m: String| Fail { tags: vec![T_CONS], msg: m };
    for len in (0..18usize).chain([64, 255, 1000]) {
        for how in 0..4 {
            for _ in 0..6 {
                n += 1;
                let v: Vec<String> = (0..len).map(|i| format!("item{}", i)).collect();
                let exp = v.clone();
                let mut log = format!("{} strings via {}", len, ["from_vec", "from_boxed_slice", "From", "collect"][how]);
                let mut m: M<String> = match how { 0 => M::from_vec(v), 1 => M::from_boxed_slice(v.into_boxed_slice()), 2 => M::from(v), _ => v.into_iter().filter(|_| true).collect() };
                let base = m.as_ptr();
                for _ in 0..rng.below(6) {
                    let op = rng.below(4);
                    log.push_str(["; into_immut, into_mut", "; From, TryFrom", "; into_immut, clone, drop clone, into_mut", "; clone and drop the clone"][op]);
                    unsafe { TLEN = 0; } trace(&log);
                    m = match op {
                        0 => S::into_mut(M::into_immut(m)).map_err(|_| bad(format!("{}: into_mut refused", log)))?,
                        1 => M::try_from(S::from(m)).map_err(|_| bad(format!("{}: try_from refused", log)))?,
                        2 => { let s = M::into_immut(m); let c = s.clone(); if c[..] != exp[..] || (len > 0 && c.as_ptr() != base) { return Err(bad(format!("{}: a clone does not refer to the same items", log))); } drop(c); S::into_mut(s).map_err(|_| bad(format!("{}: into_mut refused", log)))? }
                        _ => { let mut c = m.clone(); if c[..] != exp[..] { return Err(bad(format!("{}: a clone of a unique slice has other items", log))); } for x in c.iter_mut() { x.push('!'); } m }
                    };
                    if m[..] != exp[..] { return Err(bad(format!("{}: items changed", log))); }
                    if len > 0 && m.as_ptr() != base { return Err(bad(format!("{}: items moved", log))); }
                }
                let w: S<String> = match how { 0 => S::from_vec(exp.clone()), 1 => S::from_boxed_slice(exp.clone().into_boxed_slice()), 2 => S::from(exp.clone().into_boxed_slice()), _ => exp.iter().cloned().collect() };
                if w[..] != exp[..] { return Err(bad(format!("{} (shared): wrong items", log))); }
            }
        }
    }
    for len in zlens() {
        n += 1;
        let m = M::from_vec(zvec(len));
        let s = M::into_immut(m);
        let c = s.clone();
        if s.len() != len || c.len() != len { return Err(bad(format!("{} zero-sized items: wrong length after conversion", len))); }
        drop(c);
        let m = S::into_mut(s).map_err(|_| bad(format!("{} zero-sized items: into_mut refused", len)))?;
        if m.len() != len { return Err(bad(format!("{} zero-sized items: wrong length after into_mut", len))); }
        let s = S::from_vec(zvec(len));
        if s.len() != len { return Err(bad(format!("{} zero-sized items: wrong length after from_vec", len))); }
        let s: S<()> = zvec(len).into_boxed_slice().into();
        if s.len() != len { return Err(bad(format!("{} zero-sized items: wrong length after from", len))); }
    }
    Ok(n)
}
