//! The properties on trees of more than 65536 entries, or more than 65536 nodes: keys are 32 bit, symbolic keys and
//! positions lie in a window (parameters 4/5). Parameters as in C01; 6: window of positions / mode.
use crate::sym::*;
use crate::world::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::*;
use sweep_bptree::augment::*;
use sweep_bptree::tree::visit::*;
use sweep_bptree::tree::Cursor;
use sweep_bptree::*;

const W: usize = 24;
fn val<V: VV>(r: Option<&V>) -> Option<u32> {
    r.map(|v| v.v())
}

/// lookups, insertion, removal, length
pub fn h_huge_map() {
    let mut w = World::<BPlusTreeMap<u32, u32>>::from_params();
    w.ops();
    w.probe(W);
    w.size_ok();
}
/// a symbolic position of the model within `d` of parameter 6
fn pos_near(d: u64) -> usize {
    let i = sym_u64();
    let c = param(6);
    assume(i >= c.saturating_sub(d) && i < c + d);
    i as usize
}

/// a schedule of six symbolic front / back steps, the length, then a jump over most of it
pub fn h_huge_iter() {
    let mut w = World::<Tree<u32, u32, ()>>::from_params();
    w.ops();
    let (mut a, mut b) = (0, w.md.len());
    let mut it = w.t.iter();
    for _ in 0..3 {
        chk!(it.len() == b - a && it.size_hint() == (b - a, Some(b - a)));
        if sym_bool() {
            chk!(it.next().map(|e| (*e.0, *e.1)) == Some(w.md[a]));
            a += 1;
        } else {
            b -= 1;
            chk!(it.next_back().map(|e| (*e.0, *e.1)) == Some(w.md[b]));
        }
    }
    if param(6) == 1 {
        while b > a {
            chk!(it.next().map(|e| (*e.0, *e.1)) == Some(w.md[a]));
            a += 1;
            chk!(it.len() == b - a);
        }
    } else {
        while b > a {
            b -= 1;
            chk!(it.next_back().map(|e| (*e.0, *e.1)) == Some(w.md[b]));
            chk!(it.len() == b - a);
        }
    }
    chk!(it.next().is_none() && it.next_back().is_none() && it.len() == 0);
}
/// owned iteration: symbolic front / back steps, then consumed or dropped
pub fn h_huge_into() {
    let mut w = World::<Tree<u32, u32, Count>>::from_params();
    w.ops();
    let (mut a, mut b) = (0, w.md.len());
    let md = w.md;
    let mut it = w.t.into_iter();
    for _ in 0..3 {
        chk!(it.len() == b - a && it.size_hint() == (b - a, Some(b - a)));
        if sym_bool() {
            chk!(it.next() == Some(md[a]));
            a += 1;
        } else {
            b -= 1;
            chk!(it.next_back() == Some(md[b]));
        }
    }
    if param(6) == 0 {
        return;
    }
    while b > a {
        chk!(it.next() == Some(md[a]));
        a += 1;
        if b > a {
            b -= 1;
            chk!(it.next_back() == Some(md[b]));
        }
        chk!(it.len() == b - a);
    }
    chk!(it.next().is_none() && it.next_back().is_none());
}
/// bulk load with one symbolic key (which may repeat a neighbour), then lookups, insertion, removal
pub fn h_huge_bulk() {
    let n = param(1) as usize;
    let at = param(2) as usize;
    let k = sym_u32();
    let base = u32::at(at);
    assume(k >= base - 9 && k <= base + 9);
    let mut v: Vec<(u32, u32)> = (0..n).map(|i| (u32::at(i), i as u32)).collect();
    let mut md = v.clone();
    v.insert(param(3) as usize, (k, 7_000_000));
    // the last of equal keys wins: the symbolic one stands after all of its equals only if it was put behind them
    let p = md.partition_point(|e| e.0 < k);
    if p < md.len() && md[p].0 == k {
        if param(3) as usize > p {
            md[p].1 = 7_000_000;
        }
    } else {
        md.insert(p, (k, 7_000_000));
    }
    let t: BPlusTreeMap<u32, u32, Count> = v.into_iter().collect();
    chk!(t.len() == md.len() && t.root_augmentation().count() == md.len());
    for d in 0..W {
        for i in [p + d, p.wrapping_sub(d)] {
            if i < md.len() {
                chk!(val(t.get(&md[i].0)) == Some(md[i].1));
                chk!(t.get_by_augmentation(i).map(|e| (*e.0, *e.1)) == Some(md[i]));
            }
        }
    }
    let mut i = 0;
    for (k, v) in t.iter() {
        chk!(*k == md[i].0 && *v == md[i].1);
        i += 1;
    }
    chk!(i == md.len());
}
/// pairs of equal keys, so that every boundary of any internal block size separates some of them, starting at the
/// first (parameter 3: 0) or second one (1); four of the keys around parameter 2 are symbolic
pub fn h_huge_pairs() {
    let n = param(1) as usize;
    let at = param(2) as usize;
    let mut v: Vec<(u32, u32)> = vec![];
    let mut md: Vec<(u32, u32)> = vec![];
    for i in 0..n {
        let j = i + param(3) as usize;
        let mut k = u32::at(j / 2);
        if i >= at && i < at + 4 {
            k = sym_u32();
            if i > 0 {
                assume(v[i - 1].0 <= k);
            }
            assume(k <= u32::at((at + 4 + param(3) as usize) / 2));
        }
        v.push((k, i as u32));
        match md.last_mut() {
            Some(e) if e.0 == k => e.1 = i as u32,
            _ => md.push((k, i as u32)),
        }
    }
    let t: Tree<u32, u32, Count> = match param(6) {
        0 => BPlusTree::bulk_load(v),
        1 => {
            let m: BPlusTreeMap<u32, u32, Count> = v.into_iter().collect();
            chk!(m.len() == md.len() && m.root_augmentation().count() == md.len());
            let mut i = 0;
            for (k, v) in m.iter() {
                chk!(i < md.len() && *k == md[i].0 && *v == md[i].1);
                i += 1;
            }
            return chk!(i == md.len());
        }
        _ => {
            let s: BPlusTreeSet<u32> = v.into_iter().map(|e| e.0).collect();
            chk!(s.len() == md.len());
            let mut i = 0;
            for k in s.iter() {
                chk!(i < md.len() && *k == md[i].0);
                i += 1;
            }
            return chk!(i == md.len());
        }
    };
    chk!(t.len() == md.len() && t.root_augmentation().count() == md.len());
    let mut i = 0;
    for (k, v) in t.iter() {
        chk!(i < md.len() && *k == md[i].0 && *v == md[i].1);
        i += 1;
    }
    chk!(i == md.len());
    let p = md.partition_point(|e| e.0 < u32::at(at / 2));
    for d in 0..W {
        if p + d < md.len() {
            chk!(val(t.get(&md[p + d].0)) == Some(md[p + d].1));
        }
    }
}
/// order statistics with symbolic position
pub fn h_huge_count() {
    let mut w = World::<BPlusTreeMap<u32, u32, Count>>::from_params();
    w.ops();
    chk!(w.t.root_augmentation().count() == w.md.len());
    let i = pos_near(2);
    chk!(w.t.get_by_augmentation(i).map(|e| (*e.0, *e.1)) == w.md.get(i).copied());
    let k = w.sym_key();
    let (p, there) = w.find(k);
    chk!(w.t.rank_by_augmentation(&k) == if there { Ok(p) } else { Err(p) });
    let r = w.t.get_mut_by_augmentation(i);
    chk!(r.is_some() == (i < w.md.len()));
    if let Some(r) = r {
        *r = 5;
        w.md[i].1 = 5;
    }
    let r = w.t.remove_by_augmentation(i);
    chk!(r == w.md.get(i).copied());
    if i < w.md.len() {
        w.md.remove(i);
    }
    chk!(w.t.root_augmentation().count() == w.md.len());
    chk!(w.t.get_by_augmentation(i).map(|e| (*e.0, *e.1)) == w.md.get(i).copied());
    w.at = i;
    w.probe(W);
    w.size_ok();
}

/// (group, key in group); 32-bit offsets
type P = (u16, u32);
impl MK for P {
    fn at(i: usize) -> Self {
        let gs = (param(7) as usize).max(1);
        ((i / gs * 4 + 10) as u16, (i % gs * 4 + 10) as u32)
    }
    fn near(self, d: u16) -> Self {
        (self.0, self.1.saturating_add(d as u32))
    }
    fn sym() -> Self {
        (sym_u16(), sym_u32())
    }
    fn low(self) -> u64 {
        (self.0 as u64) << 32 | self.1 as u64
    }
}
impl KK for P {
    type M = P;
    fn mk(m: P) -> P {
        m
    }
}
type G = Tuple2<u16>;
fn g(x: u16) -> G {
    G::from_ref(&(x, 0u32))
}
pub fn h_huge_group() {
    let n = param(1) as usize;
    let gs = param(7) as usize;
    let mut w = World::<Tree<P, u32, GroupCount<G>>>::build(param(0), n);
    let last = P::at(n - 1).0;
    let groups = (n + gs - 1) / gs;
    chk!(w.t.root_augmentation().group_count() == groups);
    chk!(w.t.root_augmentation().max_group().map(|m| m.1) == Some((n - 1) % gs + 1));
    // a group at or next to the one of the position in parameter 6
    let x = sym_u16();
    let mid = P::at(param(6) as usize).0;
    assume(x >= mid - 5 && x <= mid + 5);
    let a = w.md.partition_point(|e| e.0 .0 < x);
    let b = w.md.partition_point(|e| e.0 .0 <= x);
    let size = w.t.descend_visit(ExtractGroupSize::<G, P>::new(g(x)));
    chk!(size == Some(b - a) || (b == a && size.is_none()));
    let i = sym_u64();
    let c = param(6) % gs as u64;
    assume(i >= c.saturating_sub(3) && i < c + 3);
    let want = if i < (b - a) as u64 { Some(w.md[a + i as usize]) } else { None };
    chk!(w.t.get_by_augmentation((g(x), i as usize)).map(|e| (*e.0, *e.1)) == want);
    if let Some(e) = want {
        chk!(w.t.rank_by_augmentation::<Option<(G, usize)>>(&e.0) == Ok(Some((g(x), i as usize))));
        chk!(w.t.remove_by_augmentation((g(x), i as usize)) == Some(e));
        w.md.remove(a + i as usize);
        chk!(w.t.descend_visit(ExtractGroupSize::<G, P>::new(g(x))) == Some(b - a - 1) || b - a == 1);
    }
    chk!(w.t.root_augmentation().max_group().map(|m| m.0.clone()) == w.md.last().map(|e| g(e.0 .0)));
    obs(last as u64);
}

/// sum of the values, prefix search, and a positional digest: depends on all entries and their order
#[derive(Clone, Default)]
pub struct Dig {
    sum: u64,
    n: u64,
    /// sum of value * number of entries before it
    w: u64,
}
impl<K: KK> Augmentation<K, u32> for Dig {
    fn from_inner(_: &[K], a: &[Self]) -> Self {
        let mut d = Dig::default();
        for x in a {
            d.w = d.w.wrapping_add(x.w).wrapping_add(x.sum.wrapping_mul(d.n));
            d.sum = d.sum.wrapping_add(x.sum);
            d.n += x.n;
        }
        d
    }
    fn from_leaf(_: &[K], v: &[u32]) -> Self {
        let mut d = Dig::default();
        for x in v {
            d.w = d.w.wrapping_add((*x as u64).wrapping_mul(d.n));
            d.sum = d.sum.wrapping_add(*x as u64);
            d.n += 1;
        }
        d
    }
}
impl<K: KK> SearchAugmentation<K, u32> for Dig {
    type Query = u64;
    fn locate_in_leaf(mut q: u64, _: &[K], v: &[u32]) -> Option<usize> {
        for (i, x) in v.iter().enumerate() {
            if q < *x as u64 {
                return Some(i);
            }
            q -= *x as u64;
        }
        None
    }
    fn locate_in_inner(mut q: u64, _: &[K], a: &[Self]) -> Option<(usize, u64)> {
        for (i, x) in a.iter().enumerate() {
            if q < x.sum {
                return Some((i, q));
            }
            q -= x.sum;
        }
        None
    }
}
fn digest(md: &[(u32, u32)]) -> (u64, u64, u64) {
    let (mut s, mut w) = (0u64, 0u64);
    for (i, e) in md.iter().enumerate() {
        s = s.wrapping_add(e.1 as u64);
        w = w.wrapping_add((e.1 as u64).wrapping_mul(i as u64));
    }
    (s, md.len() as u64, w)
}
/// values are i, so that prefix sums pass 32 bits; query in a window around the one of position param 6
pub fn h_huge_sum() {
    let mut w = World::<BPlusTreeMap<u32, u32, Dig>>::from_params();
    w.ops();
    let d = w.t.root_augmentation();
    chk!((d.sum, d.n, d.w) == digest(&w.md));
    let c = param(6) as usize;
    let before: u64 = w.md[..c].iter().map(|e| e.1 as u64).sum();
    let q = sym_u64();
    let around = w.md[c].1 as u64 + 3;
    assume(q >= before.saturating_sub(around) && q < before + 2 * around);
    // the scan
    let mut i = c.saturating_sub(4);
    let mut s: u64 = w.md[..i].iter().map(|e| e.1 as u64).sum();
    while i < w.md.len() && q - s >= w.md[i].1 as u64 {
        s += w.md[i].1 as u64;
        i += 1;
    }
    chk!(w.t.get_by_augmentation(q).map(|e| (*e.0, *e.1)) == w.md.get(i).copied());
    let r = w.t.remove_by_augmentation(q);
    chk!(r == w.md.get(i).copied());
    if i < w.md.len() {
        w.md.remove(i);
    }
    let d = w.t.root_augmentation();
    chk!((d.sum, d.n, d.w) == digest(&w.md));
    w.at = i;
    w.probe(W);
}
/// summaries only
pub fn h_huge_digest() {
    let mut w = World::<BPlusTreeMap<u32, u32, Dig>>::from_params();
    w.ops();
    let d = w.t.root_augmentation();
    chk!((d.sum, d.n, d.w) == digest(&w.md));
}
/// cursors across modifications
pub fn h_huge_cursor() {
    let mut w = World::<Tree<u32, u32, ()>>::from_params();
    let k = w.sym_key();
    let c = w.t.get_cursor(&k).map(|c| c.0);
    w.ops();
    if let Some(c) = c {
        chk!(*c.key() == k);
        let (p, there) = w.find(k);
        chk!(val(c.value(&w.t)) == if there { Some(w.md[p].1) } else { None });
        chk!(c.exists(&w.t) == there);
        let mut q = if there { p + 1 } else { p };
        let mut x = c.next(&w.t);
        for _ in 0..W {
            chk!(x.as_ref().map(|x| *x.key()) == w.md.get(q).map(|e| e.0));
            q += 1;
            x = match x {
                Some(x) => x.next(&w.t),
                None => break,
            };
        }
        let mut q = p;
        let mut x = c.prev(&w.t);
        for _ in 0..W {
            chk!(x.as_ref().map(|x| *x.key()) == q.checked_sub(1).map(|i| w.md[i].0));
            q = q.wrapping_sub(1);
            x = match x {
                Some(x) => x.prev(&w.t),
                None => break,
            };
        }
    }
    chk!(Cursor::first(&w.t).map(|c| *c.0.key()) == w.md.first().map(|e| e.0));
    chk!(Cursor::last(&w.t).map(|c| *c.0.key()) == w.md.last().map(|e| e.0));
}
/// a clone of it, then operations on the original (0), the clone (1), or dropping the original (2)
pub fn h_huge_clone() {
    let mut w = World::<Tree<u32, u32, Count>>::from_params();
    let mut c = World { t: w.t.clone(), md: w.md.clone(), at: param(7) as usize, next_v: 0, lo: w.lo, hi: w.hi };
    w.at = c.at;
    match param(6) {
        0 => w.ops(),
        1 => c.ops(),
        _ => {
            drop(w);
            c.ops();
            c.probe(W);
            chk!(c.t.root_augmentation().count() == c.md.len());
            c.same_contents();
            return;
        }
    }
    for x in [&mut w, &mut c] {
        x.size_ok();
        x.probe(W);
        chk!(x.t.root_augmentation().count() == x.md.len());
    }
    w.same_contents();
    c.same_contents();
}
/// set and union of a huge and a tiny set, in both roles
pub fn h_huge_set() {
    let n = param(1) as usize;
    let mut s: BPlusTreeSet<u32> = (0..n).map(|i| u32::at(i)).collect();
    let x = sym_u32();
    assume(x as u64 >= param(4) && (x as u64) < param(5));
    let mut there = false;
    let at = param(6) as usize;
    for i in at.saturating_sub(30)..(at + 30).min(n) {
        if u32::at(i) == x {
            there = true;
        }
    }
    chk!(s.contains(&x) == there);
    chk!(s.insert(x) == !there);
    let m = n + !there as usize;
    chk!(s.len() == m);
    let y = sym_u32();
    assume(y < 30);
    let o: BPlusTreeSet<u32> = [y, 331].into_iter().collect();
    let (mut u, mut cnt, mut prev) = (if param(7) == 0 { s.union(&o) } else { o.union(&s) }, 0usize, None);
    let mut dup = 0;
    for i in 0..5 {
        if u32::at(i) == y {
            dup += 1;
        }
    }
    let total = m + 2 - dup;
    loop {
        if cnt % 4096 == 0 || cnt < 90 || cnt + 3 > total {
            let (lo, hi) = u.size_hint();
            chk!(lo <= total - cnt);
            chk!(hi.map_or(true, |h| h >= total - cnt));
        }
        match u.next() {
            Some(k) => {
                chk!(prev.map_or(true, |p| p < *k));
                prev = Some(*k);
                cnt += 1;
            }
            None => break,
        }
    }
    chk!(cnt == total);
    chk!(s.remove(&x));
    chk!(s.len() == m - 1);
    chk!(s.first() == Some(&if there && x == 10 { 14 } else { 10 }));
}
/// emptied or cleared, then queried and used again
pub fn h_huge_empty() {
    let mut w = World::<Tree<u32, u32, Count>>::from_params();
    chk!(w.t.first().map(|e| *e.0) == w.md.first().map(|e| e.0));
    chk!(w.t.last().map(|e| *e.0) == w.md.last().map(|e| e.0));
    if param(6) == 0 {
        w.t.clear();
        w.md.clear();
    } else {
        w.ops();
    }
    let full = !w.md.is_empty();
    chk!(w.t.first().is_some() == full && w.t.last().is_some() == full);
    chk!(w.t.root_augmentation().count() == w.md.len());
    w.size_ok();
    let k = sym_u32();
    let i = sym_u64() as usize;
    if !full {
        chk!(w.t.get(&k).is_none());
        chk!(w.t.get_by_augmentation(i).is_none());
        chk!(w.t.rank_by_augmentation::<usize>(&k) == Err(0));
        chk!(w.t.iter().next().is_none() && w.t.cursor_first().is_none());
        chk!(w.t.remove(&k).is_none());
        for i in 0..200 {
            w.ins(u32::at(i), 3);
        }
        w.ins(k, 4);
        w.probe(usize::MAX);
        w.same_contents();
    }
}
/// a visitor which goes to the leftmost, rightmost or a symbolic child at every level
struct Down<'a> {
    /// bounds from the separators
    lo: Option<u32>,
    hi: Option<u32>,
    level: usize,
    md: &'a [(u32, u32)],
    from: usize,
}
impl DescendVisit<u32, u32, Count> for Down<'_> {
    type Result = ();
    fn visit_inner(&mut self, keys: &[u32], a: &[Count]) -> DescendVisitResult<()> {
        chk!(keys.len() + 1 == a.len() && keys.len() >= 1);
        for i in 1..keys.len() {
            chk!(keys[i - 1] < keys[i]);
        }
        let c = match param(6) {
            0 => 0,
            1 => a.len() - 1,
            _ => {
                let c = sym_u64();
                let m = a.len() as u64 / 2;
                assume(c < a.len() as u64);
                assume(c + 1 >= m && c <= m + 1);
                c as usize
            }
        };
        for x in &a[..c] {
            self.from += x.count();
        }
        if c > 0 {
            self.lo = Some(keys[c - 1]);
        }
        if c < keys.len() {
            self.hi = Some(keys[c]);
        }
        self.level += 1;
        DescendVisitResult::GoDown(c)
    }
    fn visit_leaf(&mut self, keys: &[u32], v: &[u32]) -> Option<()> {
        chk!(keys.len() == v.len());
        for i in 0..keys.len() {
            chk!((keys[i], v[i]) == self.md[self.from + i]);
            chk!(self.lo.map_or(true, |l| l <= keys[i]));
            chk!(self.hi.map_or(true, |h| keys[i] < h));
        }
        obs(self.level as u64);
        // logarithmic depth: every level but the root multiplies by at least a quarter of the capacity
        type S = NodeStoreVec<u32, u32, Count>;
        let mut least = 2 * (S::leaf_n() as usize / 4);
        for _ in 1..self.level {
            least *= S::inner_n() as usize / 4 + 1;
        }
        chk!(self.level == 0 || self.md.len() >= least);
        Some(())
    }
}
pub fn h_huge_visit() {
    let mut w = World::<Tree<u32, u32, Count>>::from_params();
    w.ops();
    let r = w.t.descend_visit(Down { lo: None, hi: None, level: 0, md: &w.md, from: 0 });
    chk!(r.is_some());
}
