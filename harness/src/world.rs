//! Trees under test, the reference model (a sorted vector) and the operation interpreter.
use crate::sym::*;
use std::borrow::Borrow;
use sweep_bptree::augment::*;
use sweep_bptree::*;

macro_rules! chk {
    ($c:expr) => {
        crate::sym::check($c, line!())
    };
}

/// model keys: plain ordered data
pub trait MK: Copy + Ord {
    /// the i-th key of a concretely built tree; consecutive ones leave room for `near(1..=3)`
    fn at(i: usize) -> Self;
    fn near(self, d: u16) -> Self;
    fn sym() -> Self;
    fn low(self) -> u64;
}
impl MK for u16 {
    fn at(i: usize) -> u16 {
        (i * 4 + 10) as u16
    }
    fn near(self, d: u16) -> u16 {
        self.saturating_add(d)
    }
    fn sym() -> u16 {
        sym_u16()
    }
    fn low(self) -> u64 {
        self as u64
    }
}
impl MK for u32 {
    fn at(i: usize) -> u32 {
        (i * 4 + 10) as u32
    }
    fn near(self, d: u16) -> u32 {
        self.saturating_add(d as u32)
    }
    fn sym() -> u32 {
        sym_u32()
    }
    fn low(self) -> u64 {
        self as u64
    }
}
/// (group, key in group); the group size of built trees is parameter 7
impl MK for (u16, u16) {
    fn at(i: usize) -> Self {
        let gs = (param(7) as usize).max(1);
        ((i / gs * 4 + 10) as u16, (i % gs * 4 + 10) as u16)
    }
    fn near(self, d: u16) -> Self {
        (self.0, self.1.saturating_add(d))
    }
    fn sym() -> Self {
        (sym_u16(), sym_u16())
    }
    fn low(self) -> u64 {
        (self.0 as u64) << 16 | self.1 as u64
    }
}

pub trait KK: Key + Borrow<Self::M> {
    type M: MK;
    fn mk(m: Self::M) -> Self;
    fn m(&self) -> Self::M {
        *self.borrow()
    }
}
impl KK for u16 {
    type M = u16;
    fn mk(m: u16) -> u16 {
        m
    }
}
impl KK for u32 {
    type M = u32;
    fn mk(m: u32) -> u32 {
        m
    }
}
impl KK for (u16, u16) {
    type M = (u16, u16);
    fn mk(m: (u16, u16)) -> Self {
        m
    }
}
/// a key owning memory
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Bk(pub Box<u16>);
impl Borrow<u16> for Bk {
    fn borrow(&self) -> &u16 {
        &self.0
    }
}
impl KK for Bk {
    type M = u16;
    fn mk(m: u16) -> Bk {
        Bk(Box::new(m))
    }
}

pub trait VV: Clone {
    fn mk(v: u32) -> Self;
    fn v(&self) -> u32;
    fn set(&mut self, v: u32);
}
impl VV for u32 {
    fn mk(v: u32) -> u32 {
        v
    }
    fn v(&self) -> u32 {
        *self
    }
    fn set(&mut self, v: u32) {
        *self = v
    }
}
impl VV for () {
    fn mk(_: u32) {}
    fn v(&self) -> u32 {
        0
    }
    fn set(&mut self, _: u32) {}
}
/// a value owning memory
#[derive(Clone)]
pub struct Bv(pub Box<u32>);
impl VV for Bv {
    fn mk(v: u32) -> Bv {
        Bv(Box::new(v))
    }
    fn v(&self) -> u32 {
        *self.0
    }
    fn set(&mut self, v: u32) {
        *self.0 = v
    }
}
/// a value larger than a word with padding
#[derive(Clone)]
pub struct Wide(pub u8, pub u64, pub u32);
impl VV for Wide {
    fn mk(v: u32) -> Wide {
        Wide(7, !(v as u64), v)
    }
    fn v(&self) -> u32 {
        chk!(self.0 == 7 && self.1 == !(self.2 as u64));
        self.2
    }
    fn set(&mut self, v: u32) {
        *self = Wide::mk(v)
    }
}

/// What map and tree have in common
pub trait Api: Sized {
    type K: KK;
    type V: VV;
    fn new0() -> Self;
    fn bulk(v: Vec<(Self::K, Self::V)>) -> Self;
    fn ins(&mut self, k: Self::K, v: Self::V) -> Option<Self::V>;
    fn rem<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<Self::V>
    where
        Self::K: Borrow<Q>;
    fn get1<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&Self::V>
    where
        Self::K: Borrow<Q>;
    fn getm<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut Self::V>
    where
        Self::K: Borrow<Q>;
    fn n(&self) -> usize;
    fn empty(&self) -> bool;
    fn each(&self, f: impl FnMut(&Self::K, &Self::V));
    fn leaf_n() -> usize;
}
pub type Tree<K, V, A> = BPlusTree<NodeStoreVec<K, V, A>>;
impl<K: KK, V: VV, A: Augmentation<K, V>> Api for Tree<K, V, A> {
    type K = K;
    type V = V;
    fn new0() -> Self {
        BPlusTree::new(NodeStoreVec::new())
    }
    fn bulk(v: Vec<(K, V)>) -> Self {
        BPlusTree::bulk_load(v)
    }
    fn ins(&mut self, k: K, v: V) -> Option<V> {
        self.insert(k, v)
    }
    fn rem<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.remove(k)
    }
    fn get1<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.get(k)
    }
    fn getm<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        self.get_mut(k)
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn each(&self, mut f: impl FnMut(&K, &V)) {
        for (k, v) in self.iter() {
            f(k, v)
        }
    }
    fn leaf_n() -> usize {
        NodeStoreVec::<K, V, A>::leaf_n() as usize
    }
}
impl<K: KK, V: VV, A: Augmentation<K, V>> Api for BPlusTreeMap<K, V, A> {
    type K = K;
    type V = V;
    fn new0() -> Self {
        BPlusTreeMap::new()
    }
    fn bulk(v: Vec<(K, V)>) -> Self {
        v.into_iter().collect()
    }
    fn ins(&mut self, k: K, v: V) -> Option<V> {
        self.insert(k, v)
    }
    fn rem<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.remove(k)
    }
    fn get1<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.get(k)
    }
    fn getm<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        self.get_mut(k)
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn each(&self, mut f: impl FnMut(&K, &V)) {
        for (k, v) in self.iter() {
            f(k, v)
        }
    }
    fn leaf_n() -> usize {
        NodeStoreVec::<K, V, A>::leaf_n() as usize
    }
}

pub type MOf<T> = <<T as Api>::K as KK>::M;

/// tree, model, and where the last lookup went
pub struct World<T: Api> {
    pub t: T,
    pub md: Vec<(MOf<T>, u32)>,
    pub at: usize,
    pub next_v: u32,
    pub lo: u64,
    pub hi: u64,
}

fn lcg(s: &mut u64) -> u64 {
    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *s >> 33
}

impl<T: Api> World<T> {
    pub fn empty() -> Self {
        World { t: T::new0(), md: vec![], at: 0, next_v: 1000, lo: 0, hi: 0 }
    }
    /// parameters: 0 shape, 1 size, 4/5 window of the symbolic keys
    pub fn from_params() -> Self {
        let mut w = Self::build(param(0), param(1) as usize);
        w.lo = param(4);
        w.hi = param(5);
        w
    }
    pub fn build(shape: u64, n: usize) -> Self {
        let mut w = Self::empty();
        let c = T::leaf_n();
        let seed = shape >> 8;
        match shape & 255 {
            0 => (0..n).for_each(|i| w.put(i)),
            1 => (0..n).rev().for_each(|i| w.put(i)),
            2 => (0..n).for_each(|i| w.put(if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 })),
            3 => (0..n).for_each(|i| w.put(i * 37 % n)),
            4..=6 => {
                let v: Vec<_> = (0..n).map(|i| (T::K::mk(MOf::<T>::at(i)), T::V::mk(i as u32))).collect();
                w.t = T::bulk(v);
                w.md = (0..n).map(|i| (MOf::<T>::at(i), i as u32)).collect();
                // thin out every leaf (5) or every other leaf (6) to the minimum
                for i in (0..n).rev() {
                    let thin = match shape & 255 {
                        5 => i % c >= c / 4,
                        6 => i % c >= c / 4 && (i / c) % 2 == (seed % 2) as usize,
                        _ => false,
                    };
                    // a leaf that was not full when loaded stays
                    if thin && i / c < n / c {
                        w.take(i);
                    }
                }
            }
            // random insertion order, then random removal of about half of them
            7 => {
                let mut s = seed * 77 + 5;
                let mut order: Vec<usize> = (0..n).collect();
                for i in (1..n).rev() {
                    let j = lcg(&mut s) as usize % (i + 1);
                    order.swap(i, j);
                }
                order.iter().for_each(|i| w.put(*i));
                for _ in 0..n / 2 {
                    let j = lcg(&mut s) as usize % w.md.len();
                    w.take(j);
                }
            }
            // ascending, then every third leaf-sized stretch removed except one entry in four
            8 => {
                (0..n).for_each(|i| w.put(i));
                for i in (0..n).rev() {
                    if (i / c) % 3 == (seed % 3) as usize && i % 4 != 0 {
                        w.take(i);
                    }
                }
            }
            // descending insertion, then removed from the front half
            9 => {
                (0..n).rev().for_each(|i| w.put(i));
                (0..n / 3).for_each(|_| w.take(0));
            }
            _ => panic!("shape"),
        }
        w
    }
    fn put(&mut self, i: usize) {
        let k = MOf::<T>::at(i);
        let r = self.t.ins(T::K::mk(k), T::V::mk(i as u32));
        chk!(r.is_none());
        let p = self.md.partition_point(|e| e.0 < k);
        self.md.insert(p, (k, i as u32));
    }
    /// remove the i-th entry
    pub fn take(&mut self, i: usize) {
        let (k, v) = self.md.remove(i);
        let r = self.t.rem(&k);
        chk!(r.map(|r| r.v()) == Some(v));
    }
    pub fn sym_key(&mut self) -> MOf<T> {
        let k = MOf::<T>::sym();
        if self.hi > self.lo {
            assume(k.low() >= self.lo && k.low() < self.hi);
        }
        k
    }
    pub fn find(&self, k: MOf<T>) -> (usize, bool) {
        let p = self.md.partition_point(|e| e.0 < k);
        (p, p < self.md.len() && self.md[p].0 == k)
    }
    /// a symbolic position of the model
    pub fn sym_pos(&mut self) -> usize {
        let k = self.sym_key();
        self.md.partition_point(|e| e.0 < k)
    }
    pub fn ins(&mut self, k: MOf<T>, v: u32) {
        let (p, there) = self.find(k);
        let r = self.t.ins(T::K::mk(k), T::V::mk(v));
        let r = r.map(|r| r.v());
        obs(r.map_or(u64::MAX, |r| r as u64));
        if there {
            chk!(r == Some(self.md[p].1));
            self.md[p].1 = v;
        } else {
            chk!(r.is_none());
            self.md.insert(p, (k, v));
        }
        self.at = p;
    }
    pub fn rem(&mut self, k: MOf<T>) {
        let (p, there) = self.find(k);
        let r = self.t.rem(&k).map(|r| r.v());
        obs(r.map_or(u64::MAX, |r| r as u64));
        if there {
            chk!(r == Some(self.md[p].1));
            self.md.remove(p);
        } else {
            chk!(r.is_none());
        }
    }
    pub fn get(&mut self, k: MOf<T>) {
        let (p, there) = self.find(k);
        let r = self.t.get1(&k).map(|r| r.v());
        obs(r.map_or(u64::MAX, |r| r as u64));
        if there {
            chk!(r == Some(self.md[p].1));
        } else {
            chk!(r.is_none());
        }
        self.at = p;
    }
    pub fn get_owned(&mut self, k: MOf<T>) {
        let (p, there) = self.find(k);
        let r = self.t.get1::<T::K>(&T::K::mk(k)).map(|r| r.v());
        chk!(r == if there { Some(self.md[p].1) } else { None });
        self.at = p;
    }
    pub fn get_mut(&mut self, k: MOf<T>, v: u32) {
        let (p, there) = self.find(k);
        let r = self.t.getm(&k);
        obs(r.is_some() as u64);
        match r {
            Some(r) => {
                chk!(there);
                chk!(r.v() == self.md[p].1);
                r.set(v);
                self.md[p].1 = v;
            }
            None => chk!(!there),
        }
        self.at = p;
    }
    pub fn fresh(&mut self) -> u32 {
        self.next_v += 1;
        self.next_v
    }
    /// one operation; `len` is the length of a run
    pub fn op(&mut self, kind: u64, len: usize) {
        match kind {
            0 => {
                let k = self.sym_key();
                self.get(k)
            }
            1 => {
                let k = self.sym_key();
                let v = sym_u32();
                self.ins(k, v)
            }
            2 => {
                let k = self.sym_key();
                self.rem(k)
            }
            3 => {
                let k = self.sym_key();
                let v = sym_u32();
                self.get_mut(k, v)
            }
            // remove a run of entries from a symbolic position, ascending / descending
            4 => {
                let p = self.sym_pos();
                for _ in 0..len {
                    if p < self.md.len() {
                        let k = self.md[p].0;
                        self.rem(k);
                    }
                }
            }
            5 => {
                let mut p = self.sym_pos();
                for _ in 0..len {
                    if p > 0 {
                        p -= 1;
                        let k = self.md[p].0;
                        self.rem(k);
                    }
                }
            }
            // insert a run of entries between those of the construction from a symbolic place on, ascending /
            // descending
            6 | 7 => {
                let x = self.sym_key();
                let n = param(1) as usize;
                let mut q = 0;
                while q < n && MOf::<T>::at(q) < x {
                    q += 1;
                }
                let mut ks: Vec<_> = (0..len).map(|i| MOf::<T>::at(q + i / 3).near(i as u16 % 3 + 1)).collect();
                if kind == 7 {
                    ks.reverse();
                }
                for k in ks {
                    let v = self.fresh();
                    self.ins(k, v);
                }
            }
            // lookup and in-place write at a symbolic present position
            8 => {
                let p = self.sym_pos();
                if p < self.md.len() {
                    let k = self.md[p].0;
                    self.get(k);
                    let v = self.fresh();
                    self.get_mut(k, v);
                }
            }
            // by the owned key
            9 => {
                let k = self.sym_key();
                self.get_owned(k)
            }
            // remove every entry, ascending / descending / from the middle
            10..=12 => {
                while !self.md.is_empty() {
                    let i = match kind {
                        10 => 0,
                        11 => self.md.len() - 1,
                        _ => self.md.len() / 2,
                    };
                    let k = self.md[i].0;
                    self.rem(k);
                }
            }
            // refill
            13 => {
                for i in 0..len {
                    let v = self.fresh();
                    self.ins(MOf::<T>::at(i), v);
                }
            }
            // overwrite at a symbolic present position
            14 => {
                let p = self.sym_pos();
                if p < self.md.len() {
                    let k = self.md[p].0;
                    let v = sym_u32();
                    self.ins(k, v);
                }
            }
            // remove at a symbolic present position, then insert the same key
            15 => {
                let p = self.sym_pos();
                if p < self.md.len() {
                    let k = self.md[p].0;
                    self.rem(k);
                    let v = self.fresh();
                    self.ins(k, v);
                }
            }
            _ => {}
        }
        self.size_ok();
    }
    pub fn size_ok(&self) {
        chk!(self.t.n() == self.md.len());
        chk!(self.t.empty() == self.md.is_empty());
    }
    /// parameter 2: operations as hexadecimal digits, first one in the highest digit after a leading 1
    pub fn ops(&mut self) {
        let p = param(2);
        let mut n = 0;
        while n < 16 && (p >> (4 * n)) > 1 {
            n += 1;
        }
        let len = param(3) as usize;
        for i in (0..n).rev() {
            self.op(p >> (4 * i) & 15, len);
        }
        obs(self.md.len() as u64);
    }
    /// contents in order
    pub fn same_contents(&self) {
        let md = &self.md;
        let mut i = 0;
        self.t.each(|k, v| {
            chk!(i < md.len());
            chk!(k.m() == md[i].0);
            chk!(v.v() == md[i].1);
            i += 1;
        });
        chk!(i == md.len());
    }
    /// look up all (or the nearest) keys, from the place of the last lookup outwards
    pub fn probe(&mut self, width: usize) {
        let n = self.md.len();
        let at = self.at.min(n);
        for d in 0..width.min(n + 1) {
            if at + d < n {
                self.probe1(at + d);
            }
            if d > 0 && at >= d {
                self.probe1(at - d);
            }
        }
    }
    fn probe1(&mut self, i: usize) {
        let (k, v) = self.md[i];
        chk!(self.t.get1(&k).map(|r| r.v()) == Some(v));
    }
}
