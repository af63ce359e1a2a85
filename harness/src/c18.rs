//! C18: a callback of the user panics. Every invocation of a callback during the operation is one possible point (a
//! symbolic number). The tree is then used and dropped; the engine's memory checks decide.
//! Parameters: 0 shape, 1 size, 2 operation, 3 run length, 4/5 key window, 6 use afterwards, 7 classes of callbacks
use crate::sym::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sweep_bptree::augment::*;
use sweep_bptree::tree::visit::*;
use sweep_bptree::tree::Cursor;
use sweep_bptree::*;

const CMP: u64 = 1;
const CLONE: u64 = 2;
const SUMMARY: u64 = 4;
const DROP: u64 = 8;
const SEARCH: u64 = 16;

struct Clock {
    armed: Cell<bool>,
    mask: Cell<u64>,
    now: Cell<u64>,
    at: Cell<u64>,
}
// Safety: one thread
unsafe impl Sync for Clock {}
static C: Clock = Clock { armed: Cell::new(false), mask: Cell::new(0), now: Cell::new(0), at: Cell::new(0) };

#[inline(never)]
fn tick(class: u64) {
    if C.armed.get() && C.mask.get() & class != 0 {
        C.now.set(C.now.get() + 1);
        if unique(C.now.get() == C.at.get()) {
            C.armed.set(false);
            throw()
        }
    }
}
fn arm() {
    let at = sym_u16();
    assume(at > 0);
    C.at.set(at as u64);
    C.now.set(0);
    C.mask.set(if param(7) == 0 { 31 } else { param(7) });
    C.armed.set(true);
}
/// true if the panic happened
fn disarm() -> bool {
    !C.armed.replace(false)
}

pub struct Pk(Box<u16>);
impl Clone for Pk {
    fn clone(&self) -> Pk {
        tick(CLONE);
        Pk(self.0.clone())
    }
}
impl Drop for Pk {
    fn drop(&mut self) {
        tick(DROP);
        obs(*self.0 as u64);
    }
}
impl PartialEq for Pk {
    fn eq(&self, o: &Pk) -> bool {
        tick(CMP);
        self.0 == o.0
    }
}
impl Eq for Pk {}
impl PartialOrd for Pk {
    fn partial_cmp(&self, o: &Pk) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Pk {
    fn cmp(&self, o: &Pk) -> Ordering {
        tick(CMP);
        self.0.cmp(&o.0)
    }
}
pub struct Pv(Box<u32>);
impl Clone for Pv {
    fn clone(&self) -> Pv {
        tick(CLONE);
        Pv(self.0.clone())
    }
}
impl Drop for Pv {
    fn drop(&mut self) {
        tick(DROP);
        obs(*self.0 as u64);
    }
}
/// number of entries
pub struct Pa(Box<usize>);
impl Clone for Pa {
    fn clone(&self) -> Pa {
        tick(CLONE);
        Pa(self.0.clone())
    }
}
impl Drop for Pa {
    fn drop(&mut self) {
        tick(DROP);
        obs(*self.0 as u64);
    }
}
impl Default for Pa {
    fn default() -> Pa {
        Pa(Box::new(0))
    }
}
impl Augmentation<Pk, Pv> for Pa {
    fn from_inner(_: &[Pk], a: &[Self]) -> Self {
        tick(SUMMARY);
        Pa(Box::new(a.iter().map(|a| *a.0).sum()))
    }
    fn from_leaf(keys: &[Pk], _: &[Pv]) -> Self {
        tick(SUMMARY);
        Pa(Box::new(keys.len()))
    }
}
impl SearchAugmentation<Pk, Pv> for Pa {
    type Query = usize;
    fn locate_in_leaf(q: usize, keys: &[Pk], _: &[Pv]) -> Option<usize> {
        tick(SEARCH);
        if q < keys.len() {
            Some(q)
        } else {
            None
        }
    }
    fn locate_in_inner(mut q: usize, _: &[Pk], a: &[Self]) -> Option<(usize, usize)> {
        tick(SEARCH);
        for (i, a) in a.iter().enumerate() {
            if q < *a.0 {
                return Some((i, q));
            }
            q -= *a.0;
        }
        None
    }
}
impl RankAugmentation<Pk, Pv> for Pa {
    type Rank = usize;
    fn initial_value() -> usize {
        tick(SEARCH);
        0
    }
    fn fold_inner(_: &Pk, r: usize, a: &[Self]) -> usize {
        tick(SEARCH);
        r + a.iter().map(|a| *a.0).sum::<usize>()
    }
    fn fold_leaf(_: &Pk, r: usize, slot: Result<usize, usize>, _: &[Pk]) -> Result<usize, usize> {
        tick(SEARCH);
        slot.map(|s| s + r).map_err(|s| s + r)
    }
}
type T = BPlusTree<NodeStoreVec<Pk, Pv, Pa>>;

fn pk(i: u16) -> Pk {
    Pk(Box::new(i))
}
fn pv(i: u32) -> Pv {
    Pv(Box::new(i))
}
fn at(i: usize) -> u16 {
    (i * 4 + 10) as u16
}
fn bulk(n: usize) -> T {
    T::bulk_load((0..n).map(|i| (pk(at(i)), pv(i as u32))).collect())
}
fn build(shape: u64, n: usize) -> T {
    let mut t = T::new(NodeStoreVec::new());
    match shape {
        0 => (0..n).for_each(|i| drop(t.insert(pk(at(i)), pv(i as u32)))),
        1 => (0..n).rev().for_each(|i| drop(t.insert(pk(at(i)), pv(i as u32)))),
        2 => t = bulk(n),
        // every leaf at its minimum (5), every other leaf (6)
        _ => {
            t = bulk(n);
            let c = NodeStoreVec::<Pk, Pv, Pa>::leaf_n() as usize;
            (0..n)
                .filter(|i| i % c >= c / 4 && i / c < n / c && (shape == 5 || i / c % 2 == 0))
                .for_each(|i| drop(t.remove(&pk(at(i)))));
        }
    }
    t
}
fn key() -> u16 {
    let k = sym_u16();
    if param(5) > param(4) {
        assume(k as u64 >= param(4) && (k as u64) < param(5));
    }
    k
}
/// a symbolic entry; paths differ in the place only
fn place(n: usize) -> usize {
    let k = key();
    let mut i = 0;
    while i < n && unique(at(i) < k) {
        i += 1;
    }
    i
}
fn around(k: u16, n: usize) -> u16 {
    let (mut lo, mut hi) = (0, n);
    while lo < hi {
        let m = (lo + hi) / 2;
        if unique(at(m) < k) {
            lo = m + 1
        } else {
            hi = m
        }
    }
    at(lo)
}
struct Vis;
impl DescendVisit<Pk, Pv, Pa> for Vis {
    type Result = usize;
    fn visit_inner(&mut self, _: &[Pk], a: &[Pa]) -> DescendVisitResult<usize> {
        tick(SEARCH);
        DescendVisitResult::GoDown(a.len() - 1)
    }
    fn visit_leaf(&mut self, keys: &[Pk], _: &[Pv]) -> Option<usize> {
        tick(SEARCH);
        Some(keys.len())
    }
}
/// a panic is caught here; its payload is leaked
fn tries(f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => true,
        Err(p) => {
            std::mem::forget(p);
            false
        }
    }
}
fn walk(t: &T, c: Option<Cursor<Pk>>, n: usize, back: bool) {
    let mut c = c;
    for _ in 0..n {
        let Some(x) = c else { break };
        obs(*x.key().0 as u64);
        obs(x.value(t).map_or(0, |v| *v.0 as u64));
        c = if back { x.prev(t) } else { x.next(t) };
    }
}
fn op(t: &mut T, kind: u64, k: u16, p: usize) {
    match kind {
        0 => obs(t.get(&pk(k)).is_some() as u64),
        1 => obs(t.insert(pk(k), pv(7)).is_some() as u64),
        2 => obs(t.remove(&pk(k)).is_some() as u64),
        3 => {
            if let Some(v) = t.get_mut(&pk(k)) {
                *v = pv(8)
            }
        }
        // a removal and an insertion run
        4 => {
            for i in p..p + param(3) as usize {
                t.remove(&pk(at(i)));
            }
        }
        5 => {
            for i in (p.saturating_sub(param(3) as usize)..p).rev() {
                t.remove(&pk(at(i)));
            }
        }
        6 => {
            for i in 0..param(3) as usize {
                t.insert(pk(at(p + i / 3) + i as u16 % 3 + 1), pv(i as u32));
            }
        }
        7 => obs(t.remove_by_augmentation(p).is_some() as u64),
        8 => {
            if let Some(v) = t.get_mut_by_augmentation(p) {
                *v = pv(8)
            }
            obs(t.get_by_augmentation(p).is_some() as u64)
        }
        9 => obs(t.rank_by_augmentation(&pk(k)).unwrap_or_else(|e| e) as u64),
        10 => {
            let c = t.get_cursor(&pk(k)).map(|c| c.0);
            walk(t, c, 3, false);
            let c = t.get_cursor(&pk(k)).map(|c| c.0);
            walk(t, c, 3, true)
        }
        11 => obs(t.descend_visit(Vis).unwrap_or(0) as u64),
        12 => *t = t.clone(),
        13 => t.clear(),
        14 => {
            let mut o = std::mem::replace(t, T::new(NodeStoreVec::new())).into_iter();
            for _ in 0..p {
                drop(o.next());
                drop(o.next_back());
            }
        }
        _ => *t = T::bulk_load((0..param(3)).map(|i| (pk(i as u16 / 2), pv(i as u32))).collect()),
    }
}
fn after(mut t: T, how: u64, k: u16) {
    match how {
        0 => drop(t),
        // taken apart from both ends
        1 => {
            let mut i = t.into_iter();
            while let Some(a) = i.next() {
                obs(*a.0 .0 as u64 + *a.1 .0 as u64);
                if let Some(a) = i.next_back() {
                    obs(*a.0 .0 as u64 + *a.1 .0 as u64);
                }
            }
        }
        // looked at everywhere
        2 => {
            let n = t.len();
            tries(|| t.iter().for_each(|e| obs(*e.0 .0 as u64 + *e.1 .0 as u64)));
            tries(|| t.iter().rev().for_each(|e| obs(*e.0 .0 as u64 + *e.1 .0 as u64)));
            tries(|| obs(t.first().map_or(0, |e| *e.0 .0 as u64)));
            tries(|| obs(t.last().map_or(0, |e| *e.0 .0 as u64)));
            tries(|| walk(&t, t.cursor_first(), n + 3, false));
            tries(|| walk(&t, Cursor::last(&t).map(|c| c.0), n + 3, true));
            tries(|| op(&mut t, 10, k, 0));
            for i in (0..n + 2).step_by(3) {
                tries(|| obs(t.get(&pk(at(i))).is_some() as u64));
                tries(|| op(&mut t, 10, at(i), 0));
            }
            tries(|| obs(*t.root_augmentation().0 as u64));
            drop(t)
        }
        // emptied around the place, then everywhere, then filled
        3 => {
            let i = (k as usize).saturating_sub(10) / 4;
            for j in 0..12 {
                tries(|| obs(t.remove(&pk(at(i + j))).is_some() as u64));
                tries(|| obs(t.remove(&pk(at(i.saturating_sub(j)))).is_some() as u64));
            }
            for _ in 0..200 {
                if t.is_empty() {
                    break;
                }
                tries(|| obs(t.remove_by_augmentation(0).is_some() as u64));
            }
            for j in 0..12 {
                tries(|| drop(t.insert(pk(j), pv(1))));
            }
            let mut i = t.into_iter();
            i.next_back();
        }
        // the same again, and around it
        4 => {
            for j in 0..10 {
                tries(|| obs(t.insert(pk(k.wrapping_add(j)), pv(1)).is_some() as u64));
                tries(|| obs(t.insert(pk(k.wrapping_sub(j)), pv(1)).is_some() as u64));
            }
            tries(|| op(&mut t, param(2), k, 3));
            tries(|| walk(&t, t.cursor_first(), 100, false));
            let mut i = t.into_iter();
            i.next();
            i.next_back();
        }
        // copied
        _ => {
            let mut c = t.clone();
            drop(t);
            tries(|| obs(c.remove(&pk(k)).is_some() as u64));
            tries(|| obs(c.get_by_augmentation(3).is_some() as u64));
            c.iter().for_each(|e| obs(*e.0 .0 as u64 + *e.1 .0 as u64));
        }
    }
}
pub fn h_c18() {
    allow_panic(true);
    leak_ok();
    let mut t = build(param(0), param(1) as usize);
    let kind = param(2);
    let (k, p) = match kind {
        0..=3 | 9 | 10 => (key(), 0),
        11..=13 | 15 => (40, 0),
        14 => (40, param(1) as usize / 4),
        _ => {
            let p = place(param(1) as usize);
            (at(p), p)
        }
    };
    arm();
    tries(|| op(&mut t, kind, k, p));
    let hit = disarm();
    obs(hit as u64);
    // dropping it must not even panic
    allow_panic(param(6) > 1);
    // a key around there; paths differ in the place only
    let near = if param(6) > 1 { around(k, param(1) as usize) } else { 40 };
    after(t, param(6), near);
}
/// the tree itself is dropped
pub fn h_c18_drop() {
    allow_panic(true);
    leak_ok();
    let t = build(param(0), param(1) as usize);
    let mut half = build(param(0), param(1) as usize).into_iter();
    drop(half.next());
    drop(half.next_back());
    arm();
    tries(|| drop(t));
    tries(|| drop(half));
    obs(disarm() as u64);
}
