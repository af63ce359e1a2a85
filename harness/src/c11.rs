//! C11: a clone is equal and fully independent. Parameters as in C01; 6: second operation list, 7: who is used and how
use crate::aug::*;
use crate::sym::*;
use crate::world::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::Augmentation;

fn world<K: KK, V: VV, A: Augmentation<K, V>>(w: &World<Tree<K, V, A>>) -> World<Tree<K, V, A>> {
    World { t: w.t.clone(), md: w.md.clone(), at: w.at, next_v: w.next_v + 500, lo: w.lo, hi: w.hi }
}
fn run<K: KK, V: VV, A: Augmentation<K, V>>(total: impl Fn(&A) -> usize) {
    let mut w = World::<Tree<K, V, A>>::from_params();
    w.ops();
    let mut c = world(&w);
    chk!(c.t.len() == w.md.len());
    chk!(total(c.t.root_augmentation()) == w.md.len());
    let kind = param(6);
    let len = param(3) as usize;
    match param(7) {
        // operations on the clone; the original unaffected and still fully usable
        0 => {
            c.op(kind, len);
            w.same_contents();
            w.size_ok();
            chk!(total(w.t.root_augmentation()) == w.md.len());
            w.probe(usize::MAX);
            c.same_contents();
            chk!(total(c.t.root_augmentation()) == c.md.len());
        }
        1 => {
            w.op(kind, len);
            c.same_contents();
            c.size_ok();
            chk!(total(c.t.root_augmentation()) == c.md.len());
            c.probe(usize::MAX);
            w.same_contents();
        }
        // one dropped or cleared, the other used
        2 => {
            drop(w.t);
            c.op(kind, len);
            c.same_contents();
            c.probe(usize::MAX);
        }
        3 => {
            c.t.clear();
            w.op(kind, len);
            w.same_contents();
            c.md.clear();
            c.size_ok();
            c.op(1, 0);
            c.same_contents();
        }
        // operations on both
        4 => {
            c.op(kind, len);
            w.op(kind, len);
            c.same_contents();
            w.same_contents();
            drop(c);
            w.probe(usize::MAX);
        }
        // assigned to an existing tree, smaller or larger
        6 | 7 => {
            let mut o = World::<Tree<K, V, A>>::build(3, if param(7) == 6 { 5 } else { w.md.len() + 20 });
            o.t.clone_from(&w.t);
            drop(c);
            let mut c = World { t: o.t, md: w.md.clone(), at: w.at, next_v: w.next_v + 500, lo: w.lo, hi: w.hi };
            chk!(total(c.t.root_augmentation()) == c.md.len());
            c.same_contents();
            c.op(kind, len);
            w.same_contents();
            c.same_contents();
            chk!(total(c.t.root_augmentation()) == c.md.len());
            chk!(total(w.t.root_augmentation()) == w.md.len());
            c.probe(usize::MAX);
            c.size_ok();
        }
        // consumed from both ends while the other is used
        _ => {
            let mut it = c.t.into_iter();
            for i in 0..w.md.len() / 2 {
                chk!(it.next().map(|e| e.0.m()) == Some(w.md[i].0));
            }
            w.op(kind, len);
            drop(it);
            w.same_contents();
        }
    }
}
pub fn h_c11_plain() {
    run::<u16, u32, Count>(|a| a.count())
}
pub fn h_c11_heap() {
    run::<Bk, Bv, BoxCount>(|a| *a.0)
}
