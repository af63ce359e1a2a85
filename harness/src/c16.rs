//! C16: misbehaving callbacks. The first comparisons of every key give any answer (symbolic), later ones
//! pseudo-random ones; the user's augmentation returns any position and any summary. Nothing is claimed about
//! results; panics are allowed; the engine's memory checks decide.
//! Parameters: 0 shape, 1 size, 2 operation list, 3 number of symbolic answers, 4 seed of the later ones (0 honest),
//! 5 number of dishonest operations before, 6 use afterwards
use crate::sym::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sweep_bptree::augment::*;
use sweep_bptree::tree::visit::*;
use sweep_bptree::tree::Cursor;
use sweep_bptree::*;

static mut LIE: bool = false;
static mut SYMS: u64 = 0;
static mut RNG: u64 = 0;

fn rnd() -> u64 {
    unsafe {
        RNG = RNG.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        RNG >> 33
    }
}
/// the answer of a comparison
fn answer(honest: Ordering) -> Ordering {
    unsafe {
        if !LIE {
            return honest;
        }
        if SYMS > 0 {
            SYMS -= 1;
            if unique(sym_bool()) {
                return Ordering::Less;
            }
            if unique(sym_bool()) {
                return Ordering::Greater;
            }
            return Ordering::Equal;
        }
        if param(4) == 0 {
            return honest;
        }
        match rnd() % 5 {
            0 | 1 => Ordering::Less,
            2 | 3 => Ordering::Greater,
            _ => Ordering::Equal,
        }
    }
}
fn lie(n: u64) {
    unsafe {
        LIE = true;
        SYMS = n;
    }
}
fn honest() {
    unsafe { LIE = false }
}

/// owns memory, so that using it uninitialised, freed or twice is noticed
#[derive(Clone)]
pub struct Lk(Box<u16>);
impl PartialEq for Lk {
    fn eq(&self, o: &Lk) -> bool {
        answer(self.0.cmp(&o.0)) == Ordering::Equal
    }
}
impl Eq for Lk {}
impl PartialOrd for Lk {
    fn partial_cmp(&self, o: &Lk) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Lk {
    fn cmp(&self, o: &Lk) -> Ordering {
        answer(self.0.cmp(&o.0))
    }
}
/// a borrowed form that orders differently from the key
#[derive(PartialEq, Eq)]
#[repr(transparent)]
pub struct Bad(u16);
impl PartialOrd for Bad {
    fn partial_cmp(&self, o: &Bad) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Bad {
    fn cmp(&self, o: &Bad) -> Ordering {
        answer(self.0.cmp(&o.0))
    }
}
impl Borrow<Bad> for Lk {
    fn borrow(&self) -> &Bad {
        // Safety: transparent
        unsafe { &*(&*self.0 as *const u16 as *const Bad) }
    }
}

/// a summary that owns memory and lies about everything
#[derive(Clone)]
pub struct La(Box<u64>);
impl Default for La {
    fn default() -> Self {
        La(Box::new(0))
    }
}
fn touch(keys: &[Lk], values: &[Box<u32>], a: &[La]) -> u64 {
    let mut s = 0u64;
    keys.iter().for_each(|k| s = s.wrapping_add(*k.0 as u64));
    values.iter().for_each(|k| s = s.wrapping_add(**k as u64));
    a.iter().for_each(|k| s = s.wrapping_add(*k.0));
    s
}
impl Augmentation<Lk, Box<u32>> for La {
    fn from_inner(keys: &[Lk], a: &[Self]) -> Self {
        La(Box::new(touch(keys, &[], a)))
    }
    fn from_leaf(keys: &[Lk], values: &[Box<u32>]) -> Self {
        La(Box::new(touch(keys, values, &[])))
    }
}
fn any_position(n: usize) -> usize {
    unsafe {
        if !LIE {
            return n / 2;
        }
        if SYMS == 0 {
            return rnd() as usize % (n + 3);
        }
        SYMS -= 1;
    }
    let c = sym_u64() as usize;
    let mut i = 0;
    while i < n + 2 && unique(c != i) {
        i += 1;
    }
    if i == n + 2 {
        c
    } else {
        i
    }
}
impl SearchAugmentation<Lk, Box<u32>> for La {
    type Query = ();
    fn locate_in_leaf(_: (), keys: &[Lk], values: &[Box<u32>]) -> Option<usize> {
        obs(touch(keys, values, &[]));
        Some(any_position(keys.len()))
    }
    fn locate_in_inner(_: (), keys: &[Lk], a: &[Self]) -> Option<(usize, ())> {
        obs(touch(keys, &[], a));
        Some((any_position(a.len()), ()))
    }
}
impl RankAugmentation<Lk, Box<u32>> for La {
    type Rank = u64;
    fn initial_value() -> u64 {
        0
    }
    fn fold_inner(_: &Lk, r: u64, a: &[Self]) -> u64 {
        r.wrapping_add(touch(&[], &[], a))
    }
    fn fold_leaf(_: &Lk, r: u64, _: Result<usize, usize>, keys: &[Lk]) -> Result<u64, u64> {
        Ok(r.wrapping_add(touch(keys, &[], &[])))
    }
}
type T = BPlusTree<NodeStoreVec<Lk, Box<u32>, La>>;

fn lk(i: usize) -> Lk {
    Lk(Box::new(i as u16))
}
fn bulk(n: usize) -> T {
    T::bulk_load((0..n).map(|i| (lk(i * 4 + 10), Box::new(i as u32))).collect())
}
fn build(shape: u64, n: usize) -> T {
    let mut t = T::new(NodeStoreVec::new());
    match shape {
        0 => (0..n).for_each(|i| drop(t.insert(lk(i * 4 + 10), Box::new(i as u32)))),
        1 => (0..n).rev().for_each(|i| drop(t.insert(lk(i * 4 + 10), Box::new(i as u32)))),
        2 => t = bulk(n),
        // every leaf at its minimum
        _ => {
            t = bulk(n);
            let c = NodeStoreVec::<Lk, Box<u32>, La>::leaf_n() as usize;
            (0..n).filter(|i| i % c >= c / 4).for_each(|i| drop(t.remove(&lk(i * 4 + 10))));
        }
    }
    t
}
fn walk(t: &T, c: Option<Cursor<Lk>>, n: usize, back: bool) {
    let mut c = c;
    for _ in 0..n {
        let Some(x) = c else { break };
        obs(*x.key().0 as u64);
        if let Some(v) = x.value(t) {
            obs(**v as u64);
        }
        obs(x.exists(t) as u64);
        c = if back { x.prev(t) } else { x.next(t) };
    }
}
struct Vis;
impl DescendVisit<Lk, Box<u32>, La> for Vis {
    type Result = u64;
    fn visit_inner(&mut self, keys: &[Lk], a: &[La]) -> DescendVisitResult<u64> {
        obs(touch(keys, &[], a));
        DescendVisitResult::GoDown(any_position(a.len()))
    }
    fn visit_leaf(&mut self, keys: &[Lk], values: &[Box<u32>]) -> Option<u64> {
        Some(touch(keys, values, &[]))
    }
}
/// one operation; its key lies in the middle
fn op(t: &mut T, kind: u64) {
    let x = lk(t.len() * 2 + 11);
    match kind {
        0 => obs(t.get(&x).map_or(0, |v| **v as u64)),
        1 => obs(t.insert(x, Box::new(9)).map_or(0, |v| *v as u64)),
        2 => obs(t.remove(&x).map_or(0, |v| *v as u64)),
        3 => {
            if let Some(v) = t.get_mut(&x) {
                **v = 5
            }
        }
        4 => {
            if let Some((k, v)) = t.remove_by_augmentation(()) {
                obs(*k.0 as u64 + *v as u64)
            }
        }
        5 => {
            if let Some((k, v)) = t.get_by_augmentation(()) {
                obs(*k.0 as u64 + **v as u64)
            }
            if let Some(v) = t.get_mut_by_augmentation(()) {
                **v = 6
            }
        }
        6 => {
            let c = t.get_cursor(&x).map(|c| c.0);
            walk(t, c, 3, false)
        }
        7 => {
            let c = t.get_cursor(&x).map(|c| c.0);
            walk(t, c, 3, true)
        }
        8 => walk(t, t.cursor_first(), 4, false),
        9 => walk(t, Cursor::last(t).map(|c| c.0), 4, true),
        10 => obs(t.rank_by_augmentation(&x).unwrap_or_else(|e| e)),
        11 => obs(t.descend_visit(Vis).unwrap_or(0)),
        // by the borrowed form
        12 => obs(t.get(&Bad(40)).map_or(0, |v| **v as u64)),
        13 => obs(t.remove(&Bad(40)).map_or(0, |v| *v as u64)),
        // an outdated cursor
        14 => {
            let c = t.get_cursor(&x).map(|c| c.0);
            drop(t.remove_by_augmentation(()));
            walk(t, c, 3, false)
        }
        _ => {
            let c = t.clone();
            *t = c;
        }
    }
}
/// every way to touch everything
fn using(t: T, how: u64) {
    let mut t = t;
    let n = t.len();
    match how {
        0 => drop(t),
        1 => {
            let mut i = t.into_iter();
            while let Some((k, v)) = i.next() {
                obs(*k.0 as u64 + *v as u64);
                if let Some((k, v)) = i.next_back() {
                    obs(*k.0 as u64 + *v as u64);
                }
            }
        }
        2 => {
            for (k, v) in t.iter() {
                obs(*k.0 as u64 + **v as u64);
            }
            for (k, v) in t.iter().rev() {
                obs(*k.0 as u64 + **v as u64);
            }
            walk(&t, t.cursor_first(), n + 2, false);
            walk(&t, Cursor::last(&t).map(|c| c.0), n + 2, true);
            for i in 0..n {
                obs(t.get(&lk(i * 4 + 10)).map_or(0, |v| **v as u64));
            }
            obs(*t.root_augmentation().0);
        }
        3 => {
            honest();
            while let Some(k) = t.first().map(|e| e.0.clone()) {
                if t.remove(&k).is_none() {
                    break;
                }
            }
            for i in 0..20 {
                t.insert(lk(i * 9), Box::new(1));
            }
        }
        4 => {
            for i in 0..n {
                t.remove(&lk(i * 4 + 10));
            }
            t.clear();
            t.insert(lk(1), Box::new(1));
        }
        5 => {
            let c = t.clone();
            drop(t);
            for (k, v) in c.iter() {
                obs(*k.0 as u64 + **v as u64);
            }
        }
        // the dishonest answers go on
        _ => {
            for i in 0..12 {
                t.insert(lk(i * 7 + 2), Box::new(1));
            }
            for i in 0..12 {
                t.remove(&lk(i * 8 + 10));
            }
            let mut i = t.into_iter();
            while i.next_back().is_some() {}
        }
    }
}
pub fn h_c16() {
    allow_panic(true);
    leak_ok();
    unsafe { RNG = param(4) }
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut t = build(param(0), param(1) as usize);
        // scramble
        if param(5) > 0 {
            lie(0);
            for i in 0..param(5) as usize {
                let k = lk(rnd() as usize % (4 * param(1) as usize + 20));
                if i % 3 == 2 {
                    t.remove(&k);
                } else {
                    t.insert(k, Box::new(3));
                }
            }
            honest();
        }
        let p = param(2);
        let mut n = 0;
        while n < 16 && (p >> (4 * n)) > 1 {
            n += 1;
        }
        lie(param(3));
        for i in (0..n).rev() {
            let r = catch_unwind(AssertUnwindSafe(|| op(&mut t, p >> (4 * i) & 15)));
            if let Err(p) = r {
                std::mem::forget(p);
            }
        }
        lie(0);
        using(t, param(6));
    }));
    if let Err(p) = r {
        std::mem::forget(p);
    }
}
/// bulk load and union with arbitrary equality and order
pub fn h_c16_bulk() {
    allow_panic(true);
    leak_ok();
    unsafe { RNG = param(4) }
    let n = param(1) as usize;
    let r = catch_unwind(AssertUnwindSafe(|| {
        lie(param(3));
        let t = T::bulk_load((0..n).map(|i| (lk(rnd() as usize % 90), Box::new(i as u32))).collect());
        lie(0);
        using(t, param(6));
    }));
    if let Err(p) = r {
        std::mem::forget(p);
    }
}
pub fn h_c16_union() {
    allow_panic(true);
    leak_ok();
    unsafe { RNG = param(4) }
    let n = param(1) as usize;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let a: BPlusTreeSet<Lk> = (0..n).map(lk).collect();
        let mut b: BPlusTreeSet<Lk> = (0..n).map(|i| lk(i * 2)).collect();
        lie(param(3));
        for k in a.union(&b) {
            obs(*k.0 as u64);
        }
        for i in 0..5 {
            b.insert(lk(i * 3));
        }
        for k in b.iter().rev() {
            obs(*k.0 as u64);
        }
        obs(b.remove(&lk(4)) as u64);
        for k in b {
            obs(*k.0 as u64);
        }
    }));
    if let Err(p) = r {
        std::mem::forget(p);
    }
}
