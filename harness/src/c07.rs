//! C07: the grouping augmentation. Parameters as in C01; 6: query kinds, 7: group size of built trees
use crate::sym::*;
use crate::world::*;
use sweep_bptree::augment::group::*;
use sweep_bptree::*;

type P = (u16, u16);
type G = Tuple2<u16>;
type A = GroupCount<G>;
fn g(x: u16) -> G {
    G::from_ref(&(x, 0u16))
}
pub trait Aug: Api<K = P, V = u32> {
    fn root(&self) -> &A;
    fn by(&self, g: G, i: usize) -> Option<(P, u32)>;
    fn by_mut(&mut self, g: G, i: usize) -> Option<&mut u32>;
    fn rm(&mut self, g: G, i: usize) -> Option<(P, u32)>;
    fn rank(&self, k: P) -> Result<Option<(G, usize)>, Option<(G, usize)>>;
    fn size(&self, g: G) -> Option<usize>;
}
macro_rules! aug {
    ($t:ty) => {
        impl Aug for $t {
            fn root(&self) -> &A {
                self.root_augmentation()
            }
            fn by(&self, g: G, i: usize) -> Option<(P, u32)> {
                self.get_by_augmentation((g, i)).map(|e| (*e.0, *e.1))
            }
            fn by_mut(&mut self, g: G, i: usize) -> Option<&mut u32> {
                self.get_mut_by_augmentation((g, i))
            }
            fn rm(&mut self, g: G, i: usize) -> Option<(P, u32)> {
                self.remove_by_augmentation((g, i))
            }
            fn rank(&self, k: P) -> Result<Option<(G, usize)>, Option<(G, usize)>> {
                self.rank_by_augmentation(&k)
            }
            fn size(&self, g: G) -> Option<usize> {
                self.descend_visit(ExtractGroupSize::<G, P>::new(g))
            }
        }
    };
}
aug!(BPlusTreeMap<P, u32, A>);
aug!(Tree<P, u32, A>);

/// start of a group in the model and its size
fn span(md: &[(P, u32)], x: u16) -> (usize, usize) {
    let a = md.partition_point(|e| e.0 .0 < x);
    let b = md.partition_point(|e| e.0 .0 <= x);
    (a, b - a)
}
fn root_ok<T: Aug>(w: &World<T>) {
    let mut n = 0;
    for i in 0..w.md.len() {
        if i == 0 || w.md[i - 1].0 .0 != w.md[i].0 .0 {
            n += 1;
        }
    }
    chk!(w.t.root().group_count() == n);
    match w.md.last() {
        None => chk!(w.t.root().is_zero() && w.t.root().max_group().is_none()),
        Some(l) => match w.t.root().max_group() {
            None => chk!(false),
            Some((mg, size)) => chk!(*mg == g(l.0 .0) && size == span(&w.md, l.0 .0).1),
        },
    }
}
fn query<T: Aug>(w: &mut World<T>, kind: u64) {
    match kind {
        1..=3 => {
            let x = sym_u16();
            let i = sym_u64() as usize;
            let (a, n) = span(&w.md, x);
            let there = i < n;
            match kind {
                1 => {
                    let r = w.t.by(g(x), i);
                    if there {
                        chk!(r == Some(w.md[a + i]));
                    } else {
                        chk!(r.is_none());
                    }
                }
                2 => {
                    let v = sym_u32();
                    match w.t.by_mut(g(x), i) {
                        Some(r) => {
                            chk!(there);
                            chk!(*r == w.md[a + i].1);
                            *r = v;
                            w.md[a + i].1 = v;
                        }
                        None => chk!(!there),
                    }
                    w.same_contents();
                }
                _ => {
                    let r = w.t.rm(g(x), i);
                    if there {
                        let e = w.md.remove(a + i);
                        chk!(r == Some(e));
                    } else {
                        chk!(r.is_none());
                    }
                    root_ok(w);
                    w.size_ok();
                    w.same_contents();
                }
            }
        }
        4 => {
            let x = sym_u16();
            let (_, n) = span(&w.md, x);
            let r = w.t.size(g(x));
            chk!(r == Some(n) || (n == 0 && r.is_none()));
        }
        5 => {
            let k = <P as MK>::sym();
            let (p, there) = w.find(k);
            let (a, _) = span(&w.md, k.0);
            rank_is(w, k, p - a, there);
        }
        // every entry by its group and offset, its rank, every group's size
        _ => {
            for i in 0..w.md.len() {
                let (k, v) = w.md[i];
                let (a, n) = span(&w.md, k.0);
                chk!(w.t.by(g(k.0), i - a) == Some((k, v)));
                rank_is(w, k, i - a, true);
                if i == a {
                    chk!(w.t.size(g(k.0)) == Some(n));
                    chk!(w.t.by(g(k.0), n).is_none());
                }
            }
        }
    }
}
fn rank_is<T: Aug>(w: &World<T>, k: P, off: usize, there: bool) {
    match w.t.rank(k) {
        Ok(Some((rg, n))) => {
            chk!(there && rg == g(k.0));
            chk!(n == off);
        }
        Err(Some((rg, n))) => {
            chk!(!there && rg == g(k.0));
            chk!(n == off);
        }
        _ => chk!(false),
    }
}
fn run<T: Aug>() {
    let mut w = World::<T>::from_params();
    root_ok(&w);
    w.ops();
    root_ok(&w);
    for q in 0..4 {
        if param(6) >> (4 * q) & 15 != 0 {
            query(&mut w, param(6) >> (4 * q) & 15);
        }
    }
}
pub fn h_c07_map() {
    run::<BPlusTreeMap<P, u32, A>>()
}
pub fn h_c07_tree() {
    run::<Tree<P, u32, A>>()
}
/// the group layout is symbolic: each entry opens a new group or belongs to the last one
pub fn h_c07_free() {
    let n = param(1) as usize;
    let mut w = World::<Tree<P, u32, A>>::empty();
    let mut group = 10;
    let mut v = vec![];
    for i in 0..n {
        if i > 0 && unique(sym_bool()) {
            group += 4;
        }
        v.push(((group, i as u16 * 4 + 10), i as u32));
    }
    w.md = v.clone();
    if param(0) == 4 {
        w.t = Tree::bulk_load(v);
    } else {
        for i in 0..n {
            let e = v[if param(0) == 1 { n - 1 - i } else { i }];
            chk!(w.t.insert(e.0, e.1).is_none());
        }
    }
    root_ok(&w);
    query(&mut w, param(6));
}
