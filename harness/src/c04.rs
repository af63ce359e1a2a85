//! C04: everything is released exactly once; memory safety (decided by the engine's memory model on every path).
//! Parameters as in C01; parameter 6: what happens at the end
use crate::aug::*;
use crate::sym::*;
use crate::world::*;
use sweep_bptree::tree::Cursor;
use sweep_bptree::*;

type T = Tree<Bk, Bv, BoxCount>;

pub fn h_c04_tree() {
    let mut w = World::<T>::from_params();
    w.ops();
    chk!(*w.t.root_augmentation().0 == w.md.len());
    match param(6) {
        0 => {}
        1 => w.t.clear(),
        // a copy, dropped first or last, after one more operation on the original
        2 => {
            let c = w.t.clone();
            w.op(2, 1);
            chk!(*w.t.root_augmentation().0 == w.md.len());
            if unique(sym_bool()) {
                drop(w.t);
                chk!(c.len() == *c.root_augmentation().0);
                drop(c);
            } else {
                drop(c);
                drop(w.t);
            }
        }
        3 => {
            let q = sym_u16() as usize;
            let r = w.t.remove_by_augmentation(q);
            chk!(r.is_some() == (q < w.md.len()));
        }
        4 => {
            let k = sym_u16();
            let c = w.t.get_cursor(&Bk::mk(k)).map(|c| c.0);
            let f = Cursor::first(&w.t).map(|c| c.0);
            let l = Cursor::last(&w.t).map(|c| c.0);
            if let Some(c) = c {
                let n = c.next(&w.t);
                w.t.clear();
                chk!(c.value(&w.t).is_none());
                if let Some(n) = n {
                    chk!(n.prev(&w.t).is_none());
                }
            }
            drop((f, l));
        }
        // replace the tree as a whole
        5 => {
            let mut other = World::<T>::build(0, 20).t;
            std::mem::swap(&mut other, &mut w.t);
            w.t = other.clone();
        }
        // consumed in part
        6 => {
            let p = w.sym_pos();
            let n = w.md.len();
            let mut i = w.t.into_iter();
            for j in 0..p {
                chk!(i.next().map(|e| e.0.m()) == Some(w.md[j].0));
            }
            for j in 0..(n - p) / 2 {
                chk!(i.next_back().map(|e| e.0.m()) == Some(w.md[n - 1 - j].0));
            }
            drop(i);
        }
        _ => {}
    }
}
pub fn h_c04_map() {
    let mut w = World::<BPlusTreeMap<Bk, Bv, BoxCount>>::from_params();
    w.ops();
    w.same_contents();
}
fn mixed<K: KK<M = u16>, V: VV, A: sweep_bptree::augment::Augmentation<K, V>>() {
    let mut w = World::<Tree<K, V, A>>::from_params();
    w.ops();
    let c = w.t.clone();
    w.size_ok();
    if param(6) == 1 {
        let p = w.sym_pos();
        let mut i = w.t.into_iter();
        for j in 0..p {
            chk!(i.next().map(|e| e.0.m()) == Some(w.md[j].0));
        }
    } else {
        w.t.clear();
        w.t.insert(K::mk(5), V::mk(7));
        drop(w.t);
    }
    chk!(c.len() == w.md.len());
}
/// only some of key, value and summary own something
pub fn h_c04_mixed() {
    match param(7) {
        0 => mixed::<u16, u32, BoxCount>(),
        1 => mixed::<u16, Bv, ()>(),
        2 => mixed::<Bk, u32, ()>(),
        3 => mixed::<Bk, u32, BoxCount>(),
        4 => mixed::<u16, Bv, BoxCount>(),
        5 => mixed::<Bk, Wide, ()>(),
        6 => mixed::<u16, Wide, BoxCount>(),
        _ => mixed::<Bk, Bv, ()>(),
    }
}
/// destructor counts: every value given to or cloned by the tree is dropped exactly once, zero-sized included
pub fn h_c04_zst() {
    use crate::c02::counted::*;
    let n = param(1) as usize;
    let mut made = 0;
    {
        let mut t: Tree<u16, Z, ()> = BPlusTree::new(NodeStoreVec::new());
        let mut md: Vec<u16> = (0..n).map(u16::at).collect();
        for i in 0..n {
            made += 1;
            chk!(t.insert(md[i * 37 % n], Z).is_none());
        }
        let x = sym_u16();
        let p = md.partition_point(|k| *k < x);
        for _ in 0..param(3) {
            if p < md.len() {
                let k = md.remove(p);
                let d = unsafe { DROPS };
                drop(t.remove(&k));
                chk!(unsafe { DROPS } == d + 1);
            }
        }
        let y = sym_u16();
        let d = unsafe { DROPS };
        made += 1;
        let there = md.binary_search(&y).is_ok();
        let r = t.insert(y, Z);
        chk!(r.is_some() == there);
        drop(r);
        chk!(unsafe { DROPS } == d + there as usize);
    }
    chk!(unsafe { DROPS } == made);
}
/// building in bulk with symbolic repetitions: dropped duplicates are released
pub fn h_c04_bulk() {
    let n = param(1) as usize;
    let at = param(2) as usize;
    let m = param(3) as usize;
    let mut v: Vec<(Bk, Bv)> = vec![];
    for i in 0..n {
        let k = if i >= at && i < at + m { sym_u16() } else { u16::at(i) };
        v.push((Bk::mk(k), Bv::mk(i as u32)));
    }
    let t: BPlusTreeMap<Bk, Bv, BoxCount> = v.into_iter().collect();
    chk!(*t.root_augmentation().0 == t.len());
    drop(t);
}
