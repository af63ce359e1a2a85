//! C02 and C03: iteration from both ends.
//! Parameters: 0 shape, 1 size, 2 operations, 3 run length, 4/5 key window, 6 schedule
//!   schedule 0: every step symbolic (front or back); 1: a from the front, b from the back, then alternating;
//!   2: abandon after a from the front and b from the back (owned only)
//!   3: a from the front, b from the back, then one of the adaptors every iterator has (parameter 7) to the end
use crate::sym::*;
use crate::world::*;
use sweep_bptree::*;

pub trait Item {
    fn same(&self, e: (u16, u32)) -> bool;
}
macro_rules! items {
    ($($k:ty, $($v:ty),*;)*) => {$(
        impl Item for $k {
            fn same(&self, e: (u16, u32)) -> bool { self.m() == e.0 }
        }
        impl Item for &$k {
            fn same(&self, e: (u16, u32)) -> bool { self.m() == e.0 }
        }
        $(
        impl Item for (&$k, &$v) {
            fn same(&self, e: (u16, u32)) -> bool { self.0.m() == e.0 && self.1.v() == e.1 }
        }
        impl Item for ($k, $v) {
            fn same(&self, e: (u16, u32)) -> bool { self.0.m() == e.0 && self.1.v() == e.1 }
        })*
    )*};
}
items! {
    u16, u32;
    Bk, u32, Bv, Wide;
}

/// takes items by the schedule and compares with the model
pub struct Sched<'a> {
    pub md: &'a [(u16, u32)],
    pub i: usize,
    pub j: usize,
}
impl Sched<'_> {
    fn step<T: Item, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(&mut self, it: &mut I, back: bool) {
        let left = self.j - self.i;
        chk!(it.len() == left);
        chk!(it.size_hint() == (left, Some(left)));
        let r = if back { it.next_back() } else { it.next() };
        if left == 0 {
            chk!(r.is_none());
        } else {
            match r {
                None => chk!(false),
                Some(x) => {
                    if back {
                        self.j -= 1;
                        chk!(x.same(self.md[self.j]));
                    } else {
                        chk!(x.same(self.md[self.i]));
                        self.i += 1;
                    }
                }
            }
        }
    }
    pub fn run<T: Item, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(&mut self, it: &mut I, schedule: u64) {
        let n = self.md.len();
        match schedule {
            0 => {
                while self.i < self.j {
                    let b = unique(sym_bool());
                    self.step(it, b)
                }
            }
            1 => {
                let (a, b) = (sym_u16(), sym_u16());
                let mut k = 0;
                while self.i < self.j && unique(k < a) {
                    self.step(it, false);
                    k += 1;
                }
                k = 0;
                while self.i < self.j && unique(k < b) {
                    self.step(it, true);
                    k += 1;
                }
                let mut back = false;
                while self.i < self.j {
                    self.step(it, back);
                    back = !back;
                }
            }
            4 => {
                let mut back = true;
                while self.i < self.j {
                    self.step(it, back);
                    back = !back;
                }
            }
            _ => {
                let (a, b) = (sym_u16(), sym_u16());
                let mut k = 0;
                while self.i < self.j && unique(k < a) {
                    self.step(it, false);
                    k += 1;
                }
                k = 0;
                while self.i < self.j && unique(k < b) {
                    self.step(it, true);
                    k += 1;
                }
                obs((n - (self.j - self.i)) as u64);
                return;
            }
        }
        // exhausted: stays so, asked from either end
        let f = unique(sym_bool());
        self.step(it, f);
        self.step(it, !f);
        self.step(it, !f);
        self.step(it, f);
        obs(n as u64);
    }
}

/// the methods an iterator inherits (and an implementation may replace by faster ones) agree with stepping
fn finish<T: Item, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(md: &[(u16, u32)], mut it: I) {
    let mut s = Sched { md, i: 0, j: md.len() };
    s.run(&mut it, 2);
    let (mut i, mut j) = (s.i, s.j);
    let left = j - i;
    match param(7) {
        k @ (0 | 1) => {
            // skip symbolically many, then go on from both ends
            let x = sym_u64();
            let mut c = 0;
            while c < left + 2 && unique(c as u64 != x) {
                c += 1;
            }
            let x = if c == left + 2 { x } else { c as u64 } as usize;
            let r = if k == 0 { it.nth(x) } else { it.nth_back(x) };
            if c >= left {
                chk!(r.is_none());
                i = j;
            } else if k == 0 {
                chk!(r.map(|r| r.same(md[i + c])) == Some(true));
                i += c + 1;
            } else {
                chk!(r.map(|r| r.same(md[j - 1 - c])) == Some(true));
                j -= c + 1;
            }
            Sched { md, i, j }.run(&mut it, 4);
        }
        2 => {
            let r = it.last();
            chk!(r.is_some() == (left > 0));
            if let Some(r) = r {
                chk!(r.same(md[j - 1]));
            }
        }
        3 => chk!(it.count() == left),
        4 => {
            let e = it.fold(i, |i, x| {
                chk!(i < j && x.same(md[i]));
                i + 1
            });
            chk!(e == j);
        }
        5 => {
            let e = it.rfold(j, |j, x| {
                chk!(i < j && x.same(md[j - 1]));
                j - 1
            });
            chk!(e == i);
        }
        6 => {
            let v: Vec<T> = it.collect();
            chk!(v.len() == left);
            for x in v {
                chk!(x.same(md[i]));
                i += 1;
            }
        }
        7 => {
            let mut it = it.rev();
            chk!(it.len() == left);
            for j in (i..j).rev() {
                chk!(it.next().map(|x| x.same(md[j])) == Some(true));
            }
            chk!(it.next().is_none());
        }
        8 => {
            for x in it.by_ref().step_by(3) {
                chk!(x.same(md[i]));
                i += 3;
            }
            chk!(i >= j);
            chk!(it.next().is_none() && it.next_back().is_none() && it.len() == 0);
        }
        9 => {
            // searching by predicate, from the front and from the back
            let c = left / 2;
            if left > 0 {
                chk!(it.position(|x| x.same(md[i + c])) == Some(c));
                i += c + 1;
            }
            if i < j {
                let c = (i + j) / 2;
                chk!(it.rfind(|x| x.same(md[c])).is_some());
                j = c;
            }
            Sched { md, i, j }.run(&mut it, 4);
        }
        10 => {
            let mut n = 0;
            it.for_each(|x| {
                chk!(i + n < j && x.same(md[i + n]));
                n += 1;
            });
            chk!(n == left);
        }
        _ => {
            let r = it.max_by_key(|_| 0);
            chk!(r.map(|x| x.same(md[j - 1])) == if left > 0 { Some(true) } else { None });
        }
    }
    obs(left as u64);
}
fn all<T: Item, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(md: &[(u16, u32)], mut it: I) {
    if param(6) == 3 {
        finish(md, it)
    } else {
        Sched { md, i: 0, j: md.len() }.run(&mut it, param(6));
    }
}

/// the same for those which need ordered items; parameter 7 modulo 8 which one
fn ordered<T: Item + Ord + Clone, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(md: &[(u16, u32)], mut it: I) {
    let mut s = Sched { md, i: 0, j: md.len() };
    s.run(&mut it, 2);
    let (i, j) = (s.i, s.j);
    let is = |r: Option<T>, k: usize| r.map(|r| r.same(md[k])) == if i < j { Some(true) } else { None };
    match param(7) % 8 {
        0 => chk!(is(it.max(), j.wrapping_sub(1))),
        1 => chk!(is(it.min(), i)),
        2 => chk!(is(it.max_by(|a, b| a.cmp(b)), j.wrapping_sub(1))),
        3 => chk!(is(it.min_by(|a, b| a.cmp(b)), i)),
        4 => chk!(it.is_sorted()),
        5 => chk!(is(it.reduce(|a, _| a), i)),
        6 => {
            let v: Vec<T> = it.collect();
            chk!(v.len() == j - i && v.iter().enumerate().all(|(k, x)| x.same(md[i + k])));
            chk!(v.iter().eq(v.iter().clone()));
        }
        _ => {
            let (a, b): (Vec<T>, Vec<T>) = it.partition(|x| x.same(md[i]));
            chk!(a.len() == (i < j) as usize && a.len() + b.len() == j - i);
        }
    }
    obs((j - i) as u64);
}
/// parameter 7 / 8: 0 tree, 1 map, 2 set
pub fn h_c02_ord() {
    match param(7) / 8 {
        0 => {
            let mut w = World::<Tree<u16, u32, ()>>::from_params();
            w.ops();
            ordered(&w.md, w.t.iter());
        }
        1 => {
            let mut w = World::<BPlusTreeMap<u16, u32>>::from_params();
            w.ops();
            ordered(&w.md, w.t.iter());
        }
        _ => {
            let (s, md) = set_of::<u16>();
            ordered(&md, s.iter());
        }
    }
}
pub fn h_c03_ord() {
    match param(7) / 8 {
        0 => {
            let mut w = World::<Tree<u16, u32, ()>>::from_params();
            w.ops();
            let md = w.md;
            ordered(&md, w.t.into_iter());
        }
        1 => {
            let mut w = World::<Tree<Bk, u32, ()>>::from_params();
            w.ops();
            let md = w.md;
            ordered(&md, w.t.into_iter());
        }
        _ => {
            let (s, md) = set_of::<Bk>();
            ordered(&md, s.into_iter());
        }
    }
}
pub fn h_c02_tree() {
    let mut w = World::<Tree<u16, u32, ()>>::from_params();
    w.ops();
    all(&w.md, w.t.iter());
}
pub fn h_c02_map() {
    let mut w = World::<BPlusTreeMap<u16, u32>>::from_params();
    w.ops();
    all(&w.md, w.t.iter());
}
pub fn h_c02_heap() {
    let mut w = World::<BPlusTreeMap<Bk, Wide>>::from_params();
    w.ops();
    all(&w.md, w.t.iter());
}
/// a copy of a partly consumed iterator continues identically and independently
pub fn h_c02_clone() {
    let mut w = World::<Tree<u16, u32, ()>>::from_params();
    w.ops();
    let mut it = w.t.iter();
    let mut s = Sched { md: &w.md, i: 0, j: w.md.len() };
    s.run(&mut it, 2);
    let mut it2 = it.clone();
    let (i, j) = (s.i, s.j);
    s.run(&mut it, 1);
    Sched { md: &w.md, i, j }.run(&mut it2, 1);
}
/// sets: built by insertion or collected, with symbolic removals
fn set_of<K: KK<M = u16>>() -> (BPlusTreeSet<K>, Vec<(u16, u32)>) {
    let n = param(1) as usize;
    let mut md: Vec<(u16, u32)> = (0..n).map(|i| (u16::at(i), 0)).collect();
    let mut s: BPlusTreeSet<K> = if param(0) == 4 {
        md.iter().map(|e| K::mk(e.0)).collect()
    } else {
        let mut s = BPlusTreeSet::new();
        for i in 0..n {
            chk!(s.insert(K::mk(md[i * 37 % n].0)));
        }
        s
    };
    if param(2) > 1 {
        let x = sym_u16();
        let p = md.partition_point(|e| e.0 < x);
        for _ in 0..param(3) {
            if p < md.len() {
                let k = md.remove(p).0;
                chk!(s.remove(&k));
            }
        }
    }
    (s, md)
}
pub fn h_c02_set() {
    let (s, md) = set_of::<u16>();
    all(&md, s.iter());
}

pub fn h_c03_tree() {
    let mut w = World::<Tree<Bk, Bv, crate::aug::BoxCount>>::from_params();
    w.ops();
    let md = w.md;
    all(&md, w.t.into_iter());
}
pub fn h_c03_plain() {
    let mut w = World::<Tree<u16, u32, ()>>::from_params();
    w.ops();
    let md = w.md;
    all(&md, w.t.into_iter());
}
pub fn h_c03_set() {
    let (s, md) = set_of::<Bk>();
    all(&md, s.into_iter());
}
/// every entry is released exactly once, counted by its destructor (also for zero-sized values)
pub mod counted {
    use super::*;
    pub static mut DROPS: usize = 0;
    #[derive(Clone)]
    pub struct Z;
    impl Drop for Z {
        fn drop(&mut self) {
            unsafe { DROPS += 1 }
        }
    }
    impl VV for Z {
        fn mk(_: u32) -> Z {
            Z
        }
        fn v(&self) -> u32 {
            0
        }
        fn set(&mut self, _: u32) {}
    }
}
pub fn h_c03_zst() {
    use counted::*;
    let n = param(1) as usize;
    let mut t: Tree<u16, Z, ()> = BPlusTree::new(NodeStoreVec::new());
    for i in 0..n {
        chk!(t.insert(u16::at(i * 37 % n), Z).is_none());
    }
    let d0 = unsafe { DROPS };
    let (a, b) = (sym_u16(), sym_u16());
    let mut it = t.into_iter();
    let (mut i, mut j) = (0u16, 0u16);
    while unique(i < a) && (i as usize) < n {
        chk!(it.len() == n - i as usize);
        chk!(it.next().map(|x| x.0) == Some(u16::at(i as usize)));
        i += 1;
    }
    while unique(j < b) && ((i + j) as usize) < n {
        chk!(it.next_back().map(|x| x.0) == Some(u16::at(n - 1 - j as usize)));
        j += 1;
    }
    chk!(unsafe { DROPS } - d0 == (i + j) as usize);
    drop(it);
    chk!(unsafe { DROPS } - d0 == n);
}
