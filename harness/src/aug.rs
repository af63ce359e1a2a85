//! User-side augmentations used by the harnesses.
use crate::sym::*;
use crate::world::*;
use sweep_bptree::augment::*;

/// a heap-owning augmentation: the number of entries, boxed
#[derive(Clone)]
pub struct BoxCount(pub Box<usize>);
impl Default for BoxCount {
    fn default() -> Self {
        BoxCount(Box::new(0))
    }
}
impl<K: KK, V> Augmentation<K, V> for BoxCount {
    fn from_inner(keys: &[K], a: &[Self]) -> Self {
        chk!(keys.len() + 1 == a.len());
        BoxCount(Box::new(a.iter().map(|x| *x.0).sum()))
    }
    fn from_leaf(keys: &[K], values: &[V]) -> Self {
        chk!(keys.len() == values.len());
        BoxCount(Box::new(keys.len()))
    }
}
impl<K: KK, V> SearchAugmentation<K, V> for BoxCount {
    type Query = usize;
    fn locate_in_leaf(q: usize, keys: &[K], _: &[V]) -> Option<usize> {
        if q < keys.len() {
            Some(q)
        } else {
            None
        }
    }
    fn locate_in_inner(mut q: usize, _: &[K], a: &[Self]) -> Option<(usize, usize)> {
        for (i, x) in a.iter().enumerate() {
            if q < *x.0 {
                return Some((i, q));
            }
            q -= *x.0;
        }
        None
    }
}

/// the free monoid: the entries themselves in order. Every augmentation that is a function of the
/// entries in order factors through it.
#[derive(Clone, Default)]
pub struct Seq(pub Vec<(u16, u32)>);
impl<V: VV> Augmentation<u16, V> for Seq {
    fn from_inner(keys: &[u16], a: &[Self]) -> Self {
        chk!(keys.len() + 1 == a.len());
        let mut v = Vec::with_capacity(a.iter().map(|x| x.0.len()).sum());
        a.iter().for_each(|x| v.extend_from_slice(&x.0));
        Seq(v)
    }
    fn from_leaf(keys: &[u16], values: &[V]) -> Self {
        chk!(keys.len() == values.len());
        let mut v = Vec::with_capacity(keys.len());
        for i in 0..keys.len() {
            v.push((keys[i], values[i].v()));
        }
        Seq(v)
    }
}
impl<V: VV> SearchAugmentation<u16, V> for Seq {
    type Query = usize;
    fn locate_in_leaf(q: usize, keys: &[u16], _: &[V]) -> Option<usize> {
        if q < keys.len() {
            Some(q)
        } else {
            None
        }
    }
    fn locate_in_inner(mut q: usize, _: &[u16], a: &[Self]) -> Option<(usize, usize)> {
        for (i, x) in a.iter().enumerate() {
            if q < x.0.len() {
                return Some((i, q));
            }
            q -= x.0.len();
        }
        None
    }
}

/// value-dependent searchable augmentation: sum of the values, queried by a prefix sum
#[derive(Clone, Default)]
pub struct Sum(pub u64);
fn nodes_ok<V: VV>(keys: &[u16], values: &[V]) {
    chk!(keys.len() == values.len());
    for i in 1..keys.len() {
        chk!(keys[i - 1] < keys[i]);
    }
}
impl<V: VV> Augmentation<u16, V> for Sum {
    fn from_inner(keys: &[u16], a: &[Self]) -> Self {
        chk!(keys.len() + 1 == a.len());
        Sum(a.iter().map(|x| x.0).sum())
    }
    fn from_leaf(keys: &[u16], values: &[V]) -> Self {
        chk!(keys.len() == values.len());
        Sum(values.iter().map(|v| v.v() as u64).sum())
    }
}
impl<V: VV> SearchAugmentation<u16, V> for Sum {
    type Query = u64;
    fn locate_in_leaf(mut q: u64, keys: &[u16], values: &[V]) -> Option<usize> {
        nodes_ok(keys, values);
        for (i, v) in values.iter().enumerate() {
            if q < v.v() as u64 {
                return Some(i);
            }
            q -= v.v() as u64;
        }
        None
    }
    fn locate_in_inner(mut q: u64, keys: &[u16], a: &[Self]) -> Option<(usize, u64)> {
        chk!(keys.len() + 1 == a.len());
        for (i, x) in a.iter().enumerate() {
            if q < x.0 {
                return Some((i, q));
            }
            q -= x.0;
        }
        None
    }
}

/// searchable augmentation: the maximum value, queried for the first entry with at least that value
#[derive(Clone, Default)]
pub struct Max(pub u32);
impl<V: VV> Augmentation<u16, V> for Max {
    fn from_inner(keys: &[u16], a: &[Self]) -> Self {
        chk!(keys.len() + 1 == a.len());
        Max(a.iter().map(|x| x.0).max().unwrap_or(0))
    }
    fn from_leaf(keys: &[u16], values: &[V]) -> Self {
        chk!(keys.len() == values.len());
        Max(values.iter().map(|v| v.v()).max().unwrap_or(0))
    }
}
impl<V: VV> SearchAugmentation<u16, V> for Max {
    type Query = u32;
    fn locate_in_leaf(q: u32, keys: &[u16], values: &[V]) -> Option<usize> {
        nodes_ok(keys, values);
        values.iter().position(|v| v.v() >= q)
    }
    fn locate_in_inner(q: u32, keys: &[u16], a: &[Self]) -> Option<(usize, u32)> {
        chk!(keys.len() + 1 == a.len());
        a.iter().position(|x| x.0 >= q).map(|i| (i, q))
    }
}

/// searchable from the other side: the smallest key, queried for the last entry whose key is at most the query
#[derive(Clone, Default)]
pub struct Floor(pub Option<u16>);
impl<V: VV> Augmentation<u16, V> for Floor {
    fn from_inner(keys: &[u16], a: &[Self]) -> Self {
        chk!(keys.len() + 1 == a.len());
        Floor(a[0].0)
    }
    fn from_leaf(keys: &[u16], values: &[V]) -> Self {
        chk!(keys.len() == values.len());
        Floor(keys.first().copied())
    }
}
impl<V: VV> SearchAugmentation<u16, V> for Floor {
    type Query = u16;
    fn locate_in_leaf(q: u16, keys: &[u16], values: &[V]) -> Option<usize> {
        nodes_ok(keys, values);
        keys.iter().rposition(|k| *k <= q)
    }
    fn locate_in_inner(q: u16, keys: &[u16], a: &[Self]) -> Option<(usize, u16)> {
        chk!(keys.len() + 1 == a.len());
        a.iter().rposition(|a| a.0.unwrap() <= q).map(|i| (i, q))
    }
}

/// walk every root-leaf path with the public descending visitor; `f` gets (depth, fill, is_root) per
/// inner node visit in path order and the leaf's content
pub mod walk {
    use super::*;
    use sweep_bptree::tree::visit::*;
    pub struct Path<'a, K, V, A> {
        pub want: &'a mut Vec<(usize, usize)>, // chosen child, number of children
        pub level: usize,
        pub inner: &'a mut dyn FnMut(usize, &[K], &[A]),
        pub leaf: &'a mut dyn FnMut(usize, &[K], &[V]),
    }
    impl<K, V, A> DescendVisit<K, V, A> for Path<'_, K, V, A> {
        type Result = ();
        fn visit_inner(&mut self, keys: &[K], a: &[A]) -> DescendVisitResult<()> {
            chk!(keys.len() + 1 == a.len());
            chk!(keys.len() >= 1);
            if self.level == self.want.len() {
                self.want.push((0, a.len()));
            }
            // report a node once, when its first child is entered
            let first = self.want[self.level..].iter().all(|w| w.0 == 0);
            if first {
                (self.inner)(self.level, keys, a);
            }
            let c = self.want[self.level].0;
            chk!(self.want[self.level].1 == a.len());
            self.level += 1;
            DescendVisitResult::GoDown(c)
        }
        fn visit_leaf(&mut self, keys: &[K], values: &[V]) -> Option<()> {
            chk!(keys.len() == values.len());
            chk!(self.level == self.want.len());
            (self.leaf)(self.level, keys, values);
            Some(())
        }
    }
    pub fn every<K: KK, V: VV, A: Augmentation<K, V>>(
        t: &Tree<K, V, A>,
        mut inner: impl FnMut(usize, &[K], &[A]),
        mut leaf: impl FnMut(usize, &[K], &[V]),
    ) {
        let mut want = vec![];
        loop {
            let r = t.descend_visit(Path { want: &mut want, level: 0, inner: &mut inner, leaf: &mut leaf });
            chk!(r.is_some());
            // next path
            while let Some((c, n)) = want.pop() {
                if c + 1 < n {
                    want.push((c + 1, n));
                    break;
                }
            }
            if want.is_empty() {
                break;
            }
        }
    }
}
#[allow(unused)]
fn _unused() {
    let _ = is_symbolic();
}
