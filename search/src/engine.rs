// Included once per flavour (rc, arc); the including module brings the types
// S (shared), W (weak), P (shared parts), M (unique), MI (unique items
// iterator), MP (unique parts) and the constant TAGS into scope.

#[derive(Clone, Debug, PartialEq, Eq)]
struct Node { tree: usize, depth: u8, path: u32, lo: usize, hi: usize }

impl Node {
    fn len(&self) -> usize { self.hi - self.lo }
    fn left(&self) -> Node {
        if self.len() == 0 { return self.clone(); }
        Node { depth: self.depth + 1, path: self.path << 1, hi: self.lo + self.len() / 2, ..self.clone() }
    }
    fn right(&self) -> Node {
        if self.len() <= 1 { return self.clone(); }
        Node { depth: self.depth + 1, path: self.path << 1 | 1, lo: self.lo + self.len() / 2, ..self.clone() }
    }
    fn covers(&self, o: &Node) -> bool { // self is o or an ancestor of o
        self.tree == o.tree && self.depth <= o.depth && (o.path >> (o.depth - self.depth)) == self.path
    }
    fn related(&self, o: &Node) -> bool { self.covers(o) || o.covers(self) }
}

#[derive(Clone)]
struct PSt { node: Node, k: u8, f: usize, b: usize } // parts f..b remain

impl PSt {
    fn part(&self, i: usize) -> Node {
        let mut n = self.node.clone();
        for j in (0..self.k).rev() { n = if i >> j & 1 == 0 { n.left() } else { n.right() }; }
        n
    }
    /// Nodes whose parts all remain.
    fn may(&self) -> Vec<Node> {
        let mut v = vec![];
        for j in 0..=self.k {
            let w = 1usize << (self.k - j);
            for i in 0..(1usize << j) {
                if i * w >= self.f && (i + 1) * w <= self.b {
                    let mut n = self.node.clone();
                    for t in (0..j).rev() { n = if i >> t & 1 == 0 { n.left() } else { n.right() }; }
                    v.push(n);
                }
            }
        }
        v
    }
    fn must(&self) -> Vec<Node> { (self.f..self.b).map(|i| self.part(i)).collect() }
    fn range(&self) -> (usize, usize) {
        if self.f == self.b { return (self.node.lo, self.node.lo); }
        (self.part(self.f).lo, self.part(self.b - 1).hi)
    }
}

/// The uneven-free halving of a unique range: same arithmetic, no tree.
fn mpart(lo: usize, hi: usize, k: u8, i: usize) -> (usize, usize) {
    let (mut lo, mut hi) = (lo, hi);
    for j in (0..k).rev() {
        let m = lo + (hi - lo) / 2;
        if i >> j & 1 == 0 { hi = m } else { lo = m }
    }
    (lo, hi)
}

enum H<T: Item> {
    S(S<T>, Node),
    W(W<T>, Option<Node>),
    P(P<T>, PSt),
    M(M<T>, usize, usize, usize),             // tree(block), lo, hi
    I(MI<T>, usize, usize, usize),
    Q(MP<T>, usize, usize, usize, u8, usize, usize), // block, lo, hi, k, f, b
}

struct Block { base: usize, items: Vec<u32>, vals: Vec<u32>, n: usize, freed: bool, real: bool }

/// What an item is last covered by, for attributing failures.
#[derive(Clone, Copy, PartialEq)]
enum Cov { None, Shared, Unique }

pub struct World<T: Item> {
    hs: Vec<H<T>>,
    blocks: Vec<Block>,
    trees: Vec<usize>,           // tree -> block
    conv: Vec<Node>,             // nodes converted to unique
    cov: Vec<Cov>,               // item id -> last coverage
    pub log: Vec<String>,
    nextval: u32,
}

type R = Result<(), Fail>;

fn name<T: Item>(h: &H<T>) -> &'static str {
    match h { H::S(..) => "shared", H::W(..) => "weak", H::P(..) => "parts", H::M(..) => "unique", H::I(..) => "iter", H::Q(..) => "uparts" }
}

pub fn run<T: Item>(ch: &mut Ch, cfg: &Cfg) -> (R, Vec<String>) {
    item_reset();
    crate::alloc::start();
    set_tags(&[]);
    let mut w = World::<T> { hs: Vec::with_capacity(16), blocks: vec![], trees: vec![], conv: vec![], cov: vec![], log: vec![], nextval: 1000 };
    let r = go(&mut w, ch, cfg);
    set_tags(&[T_MEM, TAGS.items]);
    let log = std::mem::take(&mut w.log);
    if r.is_err() { std::mem::forget(w); crate::alloc::stop(); return (r, log); }
    drop(w);
    let bad = crate::alloc::stop();
    if bad {
        return (fail(&[T_MEM, TAGS.items], "memory was written to after it had been freed"), log);
    }
    (r, log)
}

fn go<T: Item>(w: &mut World<T>, ch: &mut Ch, cfg: &Cfg) -> R {
    let n = cfg.lens[ch.pick(cfg.lens.len())];
    let kind = if cfg.unique_start { 1 + ch.pick(1) } else if cfg.both_start { ch.pick(2) } else { 0 };
    w.create(n, kind == 1, ch, cfg)?;
    w.check(&[T_CONS])?;
    let steps = cfg.steps;
    if cfg.phased {
        // build up a family of related handles, let some of them go, then ask
        for _ in 0..2 {
            for (lo, hi, ph) in [(3, 9, 1), (1, 7, 2), (1, 5, 3)] {
                for _ in 0..lo + ch.pick(hi - lo + 1) {
                    if w.hs.is_empty() || ch.done() { break; }
                    w.step(ch, cfg, ph)?;
                }
            }
        }
    } else {
        for _ in 0..steps {
            if w.hs.is_empty() || ch.done() { break; }
            w.step(ch, cfg, 0)?;
            if cfg.probe && ch.pick(2) == 1 { w.probe(cfg)?; }
        }
    }
    // Drop everything, in an order chosen by ch.
    while !w.hs.is_empty() {
        let i = ch.pick(w.hs.len());
        w.drop_handle(i)?;
        w.check(&[])?;
    }
    let live = crate::alloc::lib_live();
    if live != 0 {
        return fail(&[T_MEM], &format!("{} heap block(s) obtained by the library are still allocated after all handles are gone", live));
    }
    Ok(())
}

impl<T: Item> World<T> {
    fn say(&mut self, s: String) { crate::trace(&s); self.log.push(s); }

    fn items_vec(&mut self, n: usize) -> (Vec<T>, Vec<u32>, Vec<u32>) {
        let mut v = Vec::with_capacity(n);
        let mut ids = vec![];
        let mut vals = vec![];
        for _ in 0..n {
            let id = item_new();
            self.cov.push(Cov::None);
            self.nextval += 1;
            v.push(T::make(id, self.nextval));
            ids.push(id);
            vals.push(self.nextval);
        }
        (v, ids, vals)
    }

    fn create(&mut self, n: usize, unique: bool, ch: &mut Ch, cfg: &Cfg) -> R {
        let how = if cfg.ctor { ch.pick(5) } else { 0 };
        let (mut v, ids, vals) = self.items_vec(n);
        set_tags(&[T_CONS, T_MEM]);
        let what = if unique { "unique" } else { "shared" };
        self.say(format!("h{} = {} slice of {} items via {}", self.hs.len(), what, n, ["from_vec", "from_boxed_slice", "From<Vec> (spare capacity)", "From<Box<[T]>>", "collect()"][how]));
        if how == 2 { v.reserve(7); }
        let base;
        let hd = if how == 1 || how == 3 || how == 0 {
            let b = v.into_boxed_slice();
            base = b.as_ptr() as usize;
            if n > 0 && T::SIZE > 0 { crate::alloc::mark(base); }
            crate::alloc::enter();
            let r = match (unique, how) {
                (false, 1) => Ok(S::from_boxed_slice(b)), (false, 3) => Ok(S::from(b)), (false, _) => Ok(S::from_vec(b.into_vec())),
                (true, 1) => Err(M::from_boxed_slice(b)), (true, 3) => Err(M::from(b)), (true, _) => Err(M::from_vec(b.into_vec())),
            };
            crate::alloc::leave();
            r
        } else {
            if T::SIZE > 0 && v.capacity() > 0 { crate::alloc::mark(v.as_ptr() as usize); }
            base = 0;
            crate::alloc::enter();
            let r = match (unique, how) {
                (false, 2) => Ok(S::from(v)), (false, _) => Ok(v.into_iter().collect::<S<T>>()),
                (true, 2) => Err(M::from(v)), (true, _) => Err(v.into_iter().collect::<M<T>>()),
            };
            crate::alloc::leave();
            r
        };
        let rb = match &hd { Ok(s) => s.as_ptr() as usize, Err(m) => m.as_ptr() as usize };
        if base != 0 && n > 0 && T::SIZE > 0 && base != rb {
            return fail(&[T_CONS], "constructing a slice from a boxed slice moved the items");
        }
        let b = self.blocks.len();
        self.blocks.push(Block { base: rb, items: ids, vals, n, freed: false, real: n > 0 && T::SIZE > 0 });
        match hd {
            Ok(s) => {
                let t = self.trees.len();
                self.trees.push(b);
                self.hs.push(H::S(s, Node { tree: t, depth: 0, path: 0, lo: 0, hi: n }));
            }
            Err(m) => self.hs.push(H::M(m, b, 0, n)),
        }
        Ok(())
    }

    fn strong_cover(&self, blk: usize, i: usize) -> Cov {
        for h in &self.hs {
            match h {
                H::S(_, n) => if self.trees[n.tree] == blk && n.lo <= i && i < n.hi { return Cov::Shared },
                H::P(_, p) => { let (lo, hi) = p.range(); if self.trees[p.node.tree] == blk && lo <= i && i < hi { return Cov::Shared } }
                H::M(_, b, lo, hi) | H::I(_, b, lo, hi) => if *b == blk && *lo <= i && i < *hi { return Cov::Unique },
                H::Q(_, b, lo, hi, k, f, e) => {
                    if *b == blk && f < e {
                        let (l, h) = (mpart(*lo, *hi, *k, *f).0, mpart(*lo, *hi, *k, *e - 1).1);
                        if l <= i && i < h { return Cov::Unique }
                    }
                }
                H::W(..) => (),
            }
        }
        Cov::None
    }

    fn slice_ok(&self, what: &str, s: &[T], blk: usize, lo: usize, hi: usize, tags: &[u8]) -> R {
        let b = &self.blocks[blk];
        if s.len() != hi - lo {
            return fail(tags, &format!("{}: has {} items, expected {}", what, s.len(), hi - lo));
        }
        if T::SIZE > 0 {
            if hi > lo && s.as_ptr() as usize != b.base + lo * T::SIZE {
                return fail(tags, &format!("{}: items are not at their original addresses", what));
            }
            for (j, x) in s.iter().enumerate() {
                if let Some((id, val)) = x.get() {
                    if id != b.items[lo + j] || (T::VALS && val != b.vals[lo + j]) {
                        return fail(tags, &format!("{}: item {} is (id {}, value {}), expected (id {}, value {})", what, j, id, val, b.items[lo + j], b.vals[lo + j]));
                    }
                } else {
                    return fail(&[T_MEM, TAGS.items, T_UNIQ], &format!("{}: item {} is garbage (freed or dropped memory)", what, j));
                }
            }
        }
        Ok(())
    }

    /// Every handle shows exactly its items; every item is alive iff covered;
    /// storage is there while needed.
    fn check(&mut self, extra: &[u8]) -> R {
        // items
        let mut alive_expected = 0;
        for bi in 0..self.blocks.len() {
            let mut any = false;
            for i in 0..self.blocks[bi].n {
                let id = self.blocks[bi].items[i];
                let c = self.strong_cover(bi, i);
                let last = self.cov[id as usize];
                let tag = |c: Cov| if c == Cov::Unique { T_UNIQ } else { TAGS.items };
                let mut tags = extra.to_vec();
                if c != Cov::None {
                    any = true;
                    alive_expected += 1;
                    tags.push(tag(c));
                    self.cov[id as usize] = c;
                    if T::SIZE > 0 && item_state(id) != 1 {
                        return fail(&tags, &format!("item {} has been dropped while a handle still covers it", id));
                    }
                } else {
                    tags.push(tag(last));
                    if T::SIZE > 0 && item_state(id) == 1 {
                        return fail(&tags, &format!("item {} is still alive after the last handle covering it has gone", id));
                    }
                }
                if T::SIZE > 0 && item_state(id) > 2 {
                    return fail(&tags, &format!("item {} has been dropped twice", id));
                }
            }
            if let Some(e) = item_garbage() { return fail(&[T_MEM, TAGS.items, T_UNIQ], e); }
            let b = &mut self.blocks[bi];
            if b.real && any && !crate::alloc::is_live(b.base) {
                return fail(&[T_MEM], "the storage has been released while a handle still covers items in it");
            }
        }
        if T::SIZE == 0 {
            let a = item_alive_total();
            if a != alive_expected {
                let has_u = self.hs.iter().any(|h| matches!(h, H::M(..) | H::I(..) | H::Q(..)));
                let mut t = extra.to_vec();
                if has_u || self.conv.len() > 0 || self.cov.iter().any(|c| *c == Cov::Unique) { t.push(T_UNIQ) }
                if self.trees.len() > 0 { t.push(TAGS.items) }
                return fail(&t, &format!("{} zero-sized items are alive, expected {}", a, alive_expected));
            }
        }
        if let Some(e) = crate::alloc::err() { return fail(&[T_MEM], e); }
        // views
        for (i, h) in self.hs.iter().enumerate() {
            let what = format!("h{} ({})", i, name(h));
            let t: Vec<u8> = extra.to_vec();
            let with = |x: &[u8]| { let mut t = t.clone(); t.extend_from_slice(x); t };
            match h {
                H::S(s, n) => self.slice_ok(&what, &s[..], self.trees[n.tree], n.lo, n.hi, &with(&[T_HALF]))?,
                H::P(p, st) => {
                    let (lo, hi) = st.range();
                    if p.len() != st.b - st.f { return fail(&with(&[T_SPARTS]), &format!("{}: len() is {}, expected {}", what, p.len(), st.b - st.f)); }
                    self.slice_ok(&what, p.as_slice(), self.trees[st.node.tree], lo, hi, &with(&[T_SPARTS]))?;
                }
                H::M(m, b, lo, hi) => self.slice_ok(&what, &m[..], *b, *lo, *hi, &with(&[T_HALF, T_CONS]))?,
                H::I(m, b, lo, hi) => {
                    if m.len() != hi - lo { return fail(&with(&[T_ITER]), &format!("{}: len() is {}, expected {}", what, m.len(), hi - lo)); }
                    self.slice_ok(&what, m.as_slice(), *b, *lo, *hi, &with(&[T_ITER]))?;
                }
                H::Q(m, b, lo, hi, k, f, e) => {
                    let (l, h) = if f < e { (mpart(*lo, *hi, *k, *f).0, mpart(*lo, *hi, *k, *e - 1).1) } else { (*lo, *lo) };
                    if m.len() != e - f { return fail(&with(&[T_UPARTS]), &format!("{}: len() is {}, expected {}", what, m.len(), e - f)); }
                    self.slice_ok(&what, m.as_slice(), *b, l, h, &with(&[T_UPARTS]))?;
                }
                H::W(..) => (),
            }
        }
        Ok(())
    }

    fn upgradable(&self, n: &Node) -> (bool, bool) { // (must, may)
        if self.conv.iter().any(|c| c.covers(n)) { return (false, false); }
        let (mut must, mut may) = (false, false);
        for h in &self.hs {
            match h {
                H::S(_, m) => if m.covers(n) { must = true },
                H::P(_, p) => {
                    if p.must().iter().any(|m| m.covers(n)) { must = true }
                    if p.may().iter().any(|m| m.covers(n)) { may = true }
                }
                _ => (),
            }
        }
        (must, may || must)
    }

    /// (must grant, must refuse) for exclusive access through handle i.
    fn exclusive(&self, i: usize, weak_counts: bool) -> (bool, bool) {
        let n = match &self.hs[i] { H::S(_, n) => n.clone(), _ => unreachable!() };
        let blk = self.trees[n.tree];
        let over = |b: usize, lo: usize, hi: usize| b == blk && lo < n.hi && n.lo < hi && lo < hi && n.lo < n.hi;
        let (mut grant, mut refuse) = (true, false);
        for (j, h) in self.hs.iter().enumerate() {
            if j == i { continue; }
            match h {
                H::S(_, m) => {
                    if m.related(&n) { grant = false }
                    if over(self.trees[m.tree], m.lo, m.hi) { refuse = true }
                }
                H::P(_, p) => {
                    if p.may().iter().any(|m| m.related(&n)) { grant = false }
                    let (lo, hi) = p.range();
                    if over(self.trees[p.node.tree], lo, hi) { refuse = true }
                }
                H::W(_, Some(m)) if weak_counts => {
                    if m.related(&n) { grant = false }
                    if over(self.trees[m.tree], m.lo, m.hi) && self.upgradable(m).0 { refuse = true }
                }
                _ => (),
            }
        }
        (grant, refuse)
    }

    fn get_mut(&mut self, i: usize, write: bool) -> R {
        let (grant, refuse) = self.exclusive(i, true);
        set_tags(&[TAGS.get_mut]);
        let (n, p) = match &mut self.hs[i] {
            H::S(s, n) => {
                crate::alloc::enter();
                let r = S::get_mut(s).map(|x| (x.as_mut_ptr(), x.len()));
                crate::alloc::leave();
                (n.clone(), r)
            }
            _ => unreachable!(),
        };
        let last = self.log.len();
        if write { self.log[last - 1].push_str(if p.is_some() { " -> granted" } else { " -> refused" }); }
        match p {
            Some((p, len)) => {
                if refuse { return fail(&[TAGS.get_mut], &format!("get_mut on h{} was granted although another handle can reach its items", i)); }
                let sl = unsafe { std::slice::from_raw_parts_mut(p, len) };
                self.slice_ok("the view granted by get_mut", sl, self.trees[n.tree], n.lo, n.hi, &[TAGS.get_mut])?;
                if write && T::VALS {
                    let b = self.trees[n.tree];
                    for (j, x) in sl.iter_mut().enumerate() {
                        self.nextval += 1;
                        x.set(self.nextval);
                        self.blocks[b].vals[n.lo + j] = self.nextval;
                    }
                }
            }
            None => if grant { return fail(&[TAGS.get_mut], &format!("get_mut on h{} was refused although no other handle to it or a relative exists", i)); }
        }
        Ok(())
    }

    fn upgrade(&mut self, i: usize, keep: bool) -> R {
        set_tags(&[TAGS.weak]);
        let (n, r) = match &self.hs[i] {
            H::W(w, n) => { crate::alloc::enter(); let r = w.upgrade(); crate::alloc::leave(); (n.clone(), r) }
            _ => unreachable!(),
        };
        let (must, may) = match &n { Some(n) => self.upgradable(n), None => (false, false) };
        let mut tags = vec![TAGS.weak];
        if let Some(n) = &n { if self.conv.iter().any(|c| c.covers(n)) { tags.push(TAGS.into_mut) } }
        if r.is_some() && !may { std::mem::forget(r); return fail(&tags, &format!("upgrading h{} succeeded although no strong handle to its slice or one it came from is alive", i)); }
        if r.is_none() && must { return fail(&[TAGS.weak], &format!("upgrading h{} failed although a strong handle to its slice or one it came from is alive", i)); }
        if let Some(s) = r {
            let n = n.unwrap();
            self.slice_ok("the upgraded handle", &s, self.trees[n.tree], n.lo, n.hi, &[TAGS.weak])?;
            if keep { self.hs.push(H::S(s, n)); }
            else { crate::alloc::enter(); drop(s); crate::alloc::leave(); }
        }
        Ok(())
    }

    fn probe(&mut self, cfg: &Cfg) -> R {
        for i in 0..self.hs.len() {
            match &self.hs[i] {
                H::S(..) => self.get_mut(i, false)?,
                H::W(..) if cfg.probe_weak => self.upgrade(i, false)?,
                _ => (),
            }
        }
        self.check(&[TAGS.get_mut, TAGS.weak])
    }

    fn drop_handle(&mut self, i: usize) -> R {
        let h = self.hs.remove(i);
        self.say(format!("drop h{} ({}); later handles shift down", i, name(&h)));
        set_tags(&[T_MEM, if matches!(h, H::M(..) | H::I(..) | H::Q(..)) { T_UNIQ } else { TAGS.items }]);
        crate::alloc::enter();
        drop(h);
        crate::alloc::leave();
        Ok(())
    }

    /// Consumes an iterator to its end in one call, or splits a slice into an
    /// impossible number of parts; either way the handle is gone afterwards.
    fn consume(&mut self, i: usize, op: &str, ch: &mut Ch) -> R {
        let how = ch.pick(4);
        let h = self.hs.remove(i);
        let l = self.log.len();
        self.log[l - 1].push_str(&format!(" (way {}; the handle is consumed and later handles shift down)", how));
        macro_rules! lib { ($e:expr) => {{ crate::alloc::enter(); let r = $e; crate::alloc::leave(); r }}; }
        let bad = [0usize, 3, 6, 12][how];
        match h {
            H::S(s, _) => {
                set_tags(&[T_SPARTS, T_MEM]);
                let r = lib!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let p = S::split_into_parts(s, bad); std::mem::forget(p); })));
                if r.is_ok() { return fail(&[T_SPARTS], &format!("splitting into {} parts did not panic", bad)); }
                self.check(&[])
            }
            H::M(m, ..) => {
                set_tags(&[T_UPARTS, T_MEM]);
                let r = lib!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let p = M::split_into_parts(m, bad); std::mem::forget(p); })));
                if r.is_ok() { return fail(&[T_UPARTS], &format!("splitting into {} parts did not panic", bad)); }
                self.check(&[])
            }
            H::P(p, st) => {
                set_tags(&[T_SPARTS]);
                let want = st.must();
                let mut got: Vec<S<T>> = vec![];
                let n = want.len();
                match how {
                    0 => { let c = lib!(p.count()); if c != n { return fail(&[T_SPARTS], "count() of the remaining parts is wrong"); } }
                    1 => { let r = lib!(p.last()); if r.is_some() != (n > 0) { return fail(&[T_SPARTS], "last() of the parts is wrong"); }
                           if let Some(s) = r { let w = &want[n - 1]; self.slice_ok("last() of the parts", &s, self.trees[w.tree], w.lo, w.hi, &[T_SPARTS])?; self.hs.push(H::S(s, w.clone())); } }
                    2 => { let r: Vec<S<T>> = lib!(p.rev().collect()); got = r; got.reverse(); if got.len() != n { return fail(&[T_SPARTS], "rev() yields the wrong number of parts"); } }
                    _ => { let r: Vec<S<T>> = lib!(p.fold(vec![], |mut v, x| { v.push(x); v })); got = r; if got.len() != n { return fail(&[T_SPARTS], "fold() yields the wrong number of parts"); } }
                }
                for (s, w) in got.iter().zip(want.iter()) { self.slice_ok("a remaining part", s, self.trees[w.tree], w.lo, w.hi, &[T_SPARTS])?; }
                lib!(drop(got));
                self.check(&[T_SPARTS])
            }
            H::I(m, b, lo, hi) => {
                set_tags(&[T_ITER]);
                let n = hi - lo;
                let mut got: Vec<T> = vec![];
                match how {
                    0 => { let c = lib!(m.count()); if c != n { return fail(&[T_ITER], "count() of the remaining items is wrong"); } }
                    1 => { let r = lib!(m.last()); if r.is_some() != (n > 0) { return fail(&[T_ITER], "last() of the items is wrong"); }
                           if let Some(x) = r { if T::SIZE > 0 && x.get().map(|g| g.0) != Some(self.blocks[b].items[hi - 1]) { std::mem::forget(x); return fail(&[T_ITER], "last() yields the wrong item"); } } }
                    2 => { got = lib!(m.rev().collect()); got.reverse(); if got.len() != n { std::mem::forget(got); return fail(&[T_ITER], "rev() yields the wrong number of items"); } }
                    _ => { got = lib!(m.fold(vec![], |mut v, x| { v.push(x); v })); if got.len() != n { std::mem::forget(got); return fail(&[T_ITER], "fold() yields the wrong number of items"); } }
                }
                if T::SIZE > 0 { for (j, x) in got.iter().enumerate() { if x.get().map(|g| g.0) != Some(self.blocks[b].items[lo + j]) { std::mem::forget(got); return fail(&[T_ITER], "the remaining items are not yielded in order"); } } }
                drop(got);
                self.check(&[T_ITER])
            }
            H::Q(m, b, lo, hi, k, f, e) => {
                set_tags(&[T_UPARTS]);
                let n = e - f;
                let mut got: Vec<M<T>> = vec![];
                match how {
                    0 => { let c = lib!(m.count()); if c != n { return fail(&[T_UPARTS], "count() of the remaining parts is wrong"); } }
                    1 => { let r = lib!(m.last()); if r.is_some() != (n > 0) { return fail(&[T_UPARTS], "last() of the parts is wrong"); }
                           if let Some(s) = r { let (l, h) = mpart(lo, hi, k, e - 1); self.slice_ok("last() of the parts", &s, b, l, h, &[T_UPARTS])?; self.hs.push(H::M(s, b, l, h)); } }
                    2 => { got = lib!(m.rev().collect()); got.reverse(); if got.len() != n { return fail(&[T_UPARTS], "rev() yields the wrong number of parts"); } }
                    _ => { got = lib!(m.fold(vec![], |mut v, x| { v.push(x); v })); if got.len() != n { return fail(&[T_UPARTS], "fold() yields the wrong number of parts"); } }
                }
                for (j, s) in got.iter().enumerate() { let (l, h) = mpart(lo, hi, k, f + j); self.slice_ok("a remaining part", s, b, l, h, &[T_UPARTS])?; }
                lib!(drop(got));
                self.check(&[T_UPARTS])
            }
            H::W(..) => unreachable!(),
        }
    }

    /// a.clone_from(&b) with b any handle of a's kind (a clone of a if none).
    fn clone_from(&mut self, i: usize, ch: &mut Ch) -> R {
        let k = name(&self.hs[i]);
        let c: Vec<usize> = (0..self.hs.len()).filter(|&j| j != i && name(&self.hs[j]) == k).collect();
        if c.is_empty() { return Ok(()); }
        let j = c[ch.pick(c.len())];
        let l = self.log.len();
        self.log[l - 1].push_str(&format!(" from h{}", j));
        macro_rules! lib { ($e:expr) => {{ crate::alloc::enter(); let r = $e; crate::alloc::leave(); r }}; }
        let mut a = self.hs.remove(i);
        let j = if j > i { j - 1 } else { j };
        match (&mut a, &self.hs[j]) {
            (H::S(a, n), H::S(b, m)) => { set_tags(&[T_CONS, TAGS.items]); lib!(a.clone_from(b)); *n = m.clone(); }
            (H::W(a, n), H::W(b, m)) => { set_tags(&[TAGS.weak]); lib!(a.clone_from(b)); *n = m.clone(); }
            (H::P(a, n), H::P(b, m)) => { set_tags(&[T_SPARTS]); lib!(a.clone_from(b)); *n = m.clone(); }
            _ => { self.hs.insert(i, a); return Ok(()); }
        }
        self.hs.insert(i, a);
        self.check(&[T_CONS])
    }

    fn step(&mut self, ch: &mut Ch, cfg: &Cfg, phase: u8) -> R {
        let mut i = ch.pick(self.hs.len());
        if phase == 1 && ch.pick(2) == 0 { i = self.hs.len() - 1; }
        let full = self.hs.len() >= cfg.max_handles;
        let new = self.hs.len();
        let ops = match &self.hs[i] {
            H::S(..) => cfg.ops_s, H::W(..) => cfg.ops_w, H::P(..) => cfg.ops_p,
            H::M(..) => cfg.ops_m, H::I(..) => cfg.ops_i, H::Q(..) => cfg.ops_q,
        };
        let ops: &[&'static str] = match (phase, &self.hs[i]) {
            (1, H::S(..)) => &["clone_left", "clone_right", "clone_left", "clone_right", "split_off_left", "split_off_right", "downgrade", "clone"],
            (1, H::W(..)) => &["clone", "upgrade"],
            (2, _) => &["drop"],
            (3, H::S(..)) => &["get_mut", "into_mut", "get_mut", "into_mut", "clone_left", "clone_right", "downgrade"],
            (3, H::W(..)) => &["upgrade"],
            _ => ops,
        };
        let op = ops[ch.pick(ops.len())];
        if full && matches!(op, "clone" | "clone_left" | "clone_right" | "split_off_left" | "split_off_right" | "downgrade" | "upgrade" | "next" | "next_back" | "from" | "to" | "weak_new" | "nth" | "nth_back") {
            return self.drop_handle(i).and_then(|_| self.check(&[]));
        }
        if op == "drop" {
            self.drop_handle(i)?;
            return self.check(&[]);
        }
        self.say(format!("{} on h{} ({})", op, i, name(&self.hs[i])));
        if op == "clone_from" { return self.clone_from(i, ch); }
        if matches!(op, "rest" | "bad_parts") { return self.consume(i, op, ch); }
        macro_rules! lib { ($e:expr) => {{ crate::alloc::enter(); let r = $e; crate::alloc::leave(); r }}; }
        let mut tags: Vec<u8> = vec![];
        match &mut self.hs[i] {
            H::S(s, n) => {
                let n = n.clone();
                match op {
                    "clone" => { tags = vec![T_CONS]; set_tags(&tags); let r = lib!(s.clone()); self.hs.push(H::S(r, n)); }
                    "clone_left" => { tags = vec![T_HALF]; set_tags(&tags); let r = lib!(S::clone_left(s)); self.hs.push(H::S(r, n.left())); }
                    "clone_right" => { tags = vec![T_HALF]; set_tags(&tags); let r = lib!(S::clone_right(s)); self.hs.push(H::S(r, n.right())); }
                    "split_off_left" => {
                        tags = vec![T_HALF]; set_tags(&tags);
                        let r = lib!(S::split_off_left(s));
                        if let H::S(_, m) = &mut self.hs[i] { *m = n.right(); }
                        self.hs.push(H::S(r, n.left()));
                    }
                    "split_off_right" => {
                        tags = vec![T_HALF]; set_tags(&tags);
                        let r = lib!(S::split_off_right(s));
                        if let H::S(_, m) = &mut self.hs[i] { *m = n.left(); }
                        self.hs.push(H::S(r, n.right()));
                    }
                    "get_mut" => { self.get_mut(i, true)?; tags = vec![TAGS.get_mut]; }
                    "downgrade" => { set_tags(&[TAGS.weak]); let r = lib!(S::downgrade(s)); self.hs.push(H::W(r, Some(n))); tags = vec![TAGS.weak]; }
                    "weak_new" => { set_tags(&[TAGS.weak]); let r = lib!(W::new()); self.hs.push(H::W(r, None)); }
                    "into_mut" | "try_from" => {
                        let (grant, refuse) = self.exclusive(i, false);
                        set_tags(&[TAGS.into_mut]);
                        tags = vec![TAGS.into_mut];
                        let (s, n) = match std::mem::replace(&mut self.hs[i], H::W(W::new(), None)) { H::S(s, n) => (s, n), _ => unreachable!() };
                        let r = lib!(if op == "into_mut" { S::into_mut(s) } else { use std::convert::TryFrom; M::try_from(s) });
                        let l = self.log.len();
                        self.log[l - 1].push_str(if r.is_ok() { " -> granted" } else { " -> refused" });
                        match r {
                            Ok(m) => {
                                if refuse { std::mem::forget(m); return fail(&tags, &format!("into_mut on h{} was granted although another strong handle covers its items", i)); }
                                let b = self.trees[n.tree];
                                self.hs[i] = H::M(m, b, n.lo, n.hi);
                                self.conv.push(n);
                            }
                            Err(s) => {
                                if grant { std::mem::forget(s); return fail(&tags, &format!("into_mut on h{} was refused although no other strong handle to it or a relative exists", i)); }
                                self.hs[i] = H::S(s, n);
                            }
                        }
                    }
                    "parts" => {
                        let k = ch.pick(cfg.max_k as usize + 1) as u8;
                        let l = self.log.len();
                        self.log[l - 1].push_str(&format!(" ({} parts)", 1 << k));
                        set_tags(&[T_SPARTS]);
                        tags = vec![T_SPARTS];
                        let (s, n) = match std::mem::replace(&mut self.hs[i], H::W(W::new(), None)) { H::S(s, n) => (s, n), _ => unreachable!() };
                        let p = lib!(S::split_into_parts(s, 1 << k));
                        self.hs[i] = H::P(p, PSt { node: n, k, f: 0, b: 1 << k });
                    }
                    _ => unreachable!(),
                }
            }
            H::W(w, n) => {
                let n = n.clone();
                match op {
                    "clone" => { set_tags(&[TAGS.weak]); let r = lib!(w.clone()); self.hs.push(H::W(r, n)); }
                    "upgrade" => { self.upgrade(i, true)?; }
                    _ => unreachable!(),
                }
                tags = vec![TAGS.weak];
            }
            H::P(p, st) => {
                tags = vec![T_SPARTS];
                set_tags(&tags);
                match op {
                    "clone" => { let r = lib!(p.clone()); let st = st.clone(); self.hs.push(H::P(r, st)); }
                    "next" | "next_back" | "nth" | "nth_back" => {
                        let j = if op.starts_with("nth") { ch.pick(4) } else { 0 };
                        let op = match op { "nth" => { for _ in 0..j { if st.f < st.b { st.f += 1; } } "next" } "nth_back" => { for _ in 0..j { if st.f < st.b { st.b -= 1; } } "next_back" } o => o };
                        let r = if j > 0 { let l = self.log.len(); self.log[l - 1].push_str(&format!(" ({})", j)); lib!(if op == "next" { p.nth(j) } else { p.nth_back(j) }) } else { lib!(if op == "next" { p.next() } else { p.next_back() }) };
                        let want = if st.f < st.b {
                            if op == "next" { st.f += 1; Some(st.part(st.f - 1)) } else { st.b -= 1; Some(st.part(st.b)) }
                        } else { None };
                        match (r, want) {
                            (None, None) => (),
                            (Some(s), Some(n)) => self.hs.push(H::S(s, n)),
                            (Some(s), None) => { std::mem::forget(s); return fail(&tags, &format!("{} yielded a part after the parts were exhausted", op)); }
                            (None, Some(_)) => return fail(&tags, &format!("{} ended before all parts were yielded", op)),
                        }
                    }
                    _ => unreachable!(),
                }
            }
            H::M(m, b, lo, hi) => {
                let (b, lo, hi) = (*b, *lo, *hi);
                let mid = lo + (hi - lo) / 2;
                match op {
                    "split_off_left" => {
                        tags = vec![T_HALF]; set_tags(&tags);
                        let r = lib!(M::split_off_left(m));
                        if let H::M(_, _, l, _) = &mut self.hs[i] { *l = mid; }
                        self.hs.push(H::M(r, b, lo, mid));
                    }
                    "split_off_right" => {
                        tags = vec![T_HALF]; set_tags(&tags);
                        let r = lib!(M::split_off_right(m));
                        if let H::M(_, _, _, h) = &mut self.hs[i] { *h = mid; }
                        self.hs.push(H::M(r, b, mid, hi));
                    }
                    "write" => {
                        tags = vec![T_TRAIT, T_CONS]; set_tags(&tags);
                        if T::VALS {
                            for (j, x) in m.iter_mut().enumerate() {
                                self.nextval += 1;
                                x.set(self.nextval);
                                self.blocks[b].vals[lo + j] = self.nextval;
                            }
                        }
                    }
                    "clone" => {
                        tags = vec![T_CONS]; set_tags(&tags);
                        let first = item_next();
                        let r = lib!(m.clone());
                        let last = item_next();
                        for _ in first..last { self.cov.push(Cov::Unique); }
                        if T::SIZE > 0 {
                            if (last - first) as usize != hi - lo { std::mem::forget(r); return fail(&tags, "cloning a unique slice did not clone every item exactly once"); }
                            let src = &self.blocks[b].items[lo..hi];
                            for (j, s) in src.iter().enumerate() {
                                if clone_source(first + j as u32) != *s { std::mem::forget(r); return fail(&tags, "cloning a unique slice did not clone its items in order"); }
                            }
                            if hi > lo {
                                let (a, z) = (r.as_ptr() as usize, r.as_ptr() as usize + r.len() * T::SIZE);
                                let (c, d) = (self.blocks[b].base, self.blocks[b].base + self.blocks[b].n * T::SIZE);
                                if a < d && c < z { std::mem::forget(r); return fail(&tags, "a cloned unique slice shares storage with the original"); }
                            }
                        }
                        let nb = self.blocks.len();
                        let vals = self.blocks[b].vals[lo..hi].to_vec();
                        self.blocks.push(Block { base: r.as_ptr() as usize, items: (first..last).collect(), vals, n: hi - lo, freed: false, real: hi > lo && T::SIZE > 0 });
                        self.hs.push(H::M(r, nb, 0, hi - lo));
                    }
                    "into_immut" | "from" => {
                        tags = vec![T_CONS]; set_tags(&tags);
                        let m = match std::mem::replace(&mut self.hs[i], H::W(W::new(), None)) { H::M(m, ..) => m, _ => unreachable!() };
                        let s = lib!(if op == "from" { S::from(m) } else { M::into_immut(m) });
                        let t = self.trees.len();
                        self.trees.push(b);
                        self.hs[i] = H::S(s, Node { tree: t, depth: 0, path: 0, lo, hi });
                    }
                    "into_iter" => {
                        tags = vec![T_ITER]; set_tags(&tags);
                        let m = match std::mem::replace(&mut self.hs[i], H::W(W::new(), None)) { H::M(m, ..) => m, _ => unreachable!() };
                        let r = lib!(m.into_iter());
                        self.hs[i] = H::I(r, b, lo, hi);
                    }
                    "parts" => {
                        tags = vec![T_UPARTS]; set_tags(&tags);
                        let k = ch.pick(cfg.max_k as usize + 1) as u8;
                        let m = match std::mem::replace(&mut self.hs[i], H::W(W::new(), None)) { H::M(m, ..) => m, _ => unreachable!() };
                        let l = self.log.len();
                        self.log[l - 1].push_str(&format!(" ({} parts)", 1 << k));
                        let r = lib!(M::split_into_parts(m, 1 << k));
                        self.hs[i] = H::Q(r, b, lo, hi, k, 0, 1 << k);
                    }
                    _ => unreachable!(),
                }
            }
            H::I(m, b, lo, hi) => {
                tags = vec![T_ITER];
                set_tags(&tags);
                let b = *b;
                match op {
                    "next" | "next_back" | "nth" | "nth_back" => {
                        let j = if op.starts_with("nth") { ch.pick(4) } else { 0 };
                        let op = match op { "nth" => { for _ in 0..j { if *lo < *hi { *lo += 1; } } "next" } "nth_back" => { for _ in 0..j { if *lo < *hi { *hi -= 1; } } "next_back" } o => o };
                        let r = if j > 0 { let l = self.log.len(); self.log[l - 1].push_str(&format!(" ({})", j)); lib!(if op == "next" { m.nth(j) } else { m.nth_back(j) }) } else { lib!(if op == "next" { m.next() } else { m.next_back() }) };
                        let want = if *lo < *hi { if op == "next" { *lo += 1; Some(*lo - 1) } else { *hi -= 1; Some(*hi) } } else { None };
                        match (r, want) {
                            (None, None) => (),
                            (Some(x), Some(j)) => {
                                let bl = &self.blocks[b];
                                if T::SIZE > 0 {
                                    let id = bl.items[j];
                                    if x.get().map(|g| g.0) != Some(id) { std::mem::forget(x); return fail(&tags, &format!("{} yielded the wrong item", op)); }
                                    if item_state(id) != 1 { std::mem::forget(x); return fail(&[T_UNIQ], "an item yielded by the iterator has already been dropped"); }
                                }
                                drop(x);
                            }
                            (Some(x), None) => { std::mem::forget(x); return fail(&tags, "the iterator yielded an item after it was exhausted"); }
                            (None, Some(_)) => return fail(&tags, "the iterator ended before all its items were yielded"),
                        }
                    }
                    "to" | "from" => {
                        let at = ch.pick(*hi - *lo + 1);
                        let l = self.log.len();
                        self.log[l - 1].push_str(&format!(" (at {})", at));
                        let mid = *lo + at;
                        if op == "to" {
                            let r = lib!(m.split_off_to(at));
                            let o = *lo;
                            *lo = mid;
                            self.hs.push(H::I(r, b, o, mid));
                        } else {
                            let r = lib!(m.split_off_from(at));
                            let o = *hi;
                            *hi = mid;
                            self.hs.push(H::I(r, b, mid, o));
                        }
                    }
                    _ => unreachable!(),
                }
            }
            H::Q(m, b, lo, hi, k, f, e) => {
                tags = vec![T_UPARTS];
                set_tags(&tags);
                let (b, lo, hi, k) = (*b, *lo, *hi, *k);
                match op {
                    "next" | "next_back" | "nth" | "nth_back" => {
                        let j = if op.starts_with("nth") { ch.pick(4) } else { 0 };
                        let op = match op { "nth" => { for _ in 0..j { if *f < *e { *f += 1; } } "next" } "nth_back" => { for _ in 0..j { if *f < *e { *e -= 1; } } "next_back" } o => o };
                        let r = if j > 0 { let l = self.log.len(); self.log[l - 1].push_str(&format!(" ({})", j)); lib!(if op == "next" { m.nth(j) } else { m.nth_back(j) }) } else { lib!(if op == "next" { m.next() } else { m.next_back() }) };
                        let want = if *f < *e { if op == "next" { *f += 1; Some(*f - 1) } else { *e -= 1; Some(*e) } } else { None };
                        match (r, want) {
                            (None, None) => (),
                            (Some(s), Some(j)) => { let (l, h) = mpart(lo, hi, k, j); self.hs.push(H::M(s, b, l, h)); }
                            (Some(s), None) => { std::mem::forget(s); return fail(&tags, &format!("{} yielded a part after the parts were exhausted", op)); }
                            (None, Some(_)) => return fail(&tags, &format!("{} ended before all parts were yielded", op)),
                        }
                    }
                    _ => unreachable!(),
                }
            }
        }
        let _ = new;
        self.check(&tags)
    }
}
