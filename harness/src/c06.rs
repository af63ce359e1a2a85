//! C06: the counting augmentation. Parameters as in C01; 6: query kind
use crate::sym::*;
use crate::world::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::*;

pub trait Aug: Api<K = u16, V = u32> {
    fn total(&self) -> usize;
    fn by(&self, i: usize) -> Option<(u16, u32)>;
    fn by_mut(&mut self, i: usize) -> Option<&mut u32>;
    fn rm(&mut self, i: usize) -> Option<(u16, u32)>;
    fn rank(&self, k: u16) -> Result<usize, usize>;
}
macro_rules! aug {
    ($t:ty) => {
        impl Aug for $t {
            fn total(&self) -> usize {
                self.root_augmentation().count()
            }
            fn by(&self, i: usize) -> Option<(u16, u32)> {
                self.get_by_augmentation(i).map(|e| (*e.0, *e.1))
            }
            fn by_mut(&mut self, i: usize) -> Option<&mut u32> {
                self.get_mut_by_augmentation(i)
            }
            fn rm(&mut self, i: usize) -> Option<(u16, u32)> {
                self.remove_by_augmentation(i)
            }
            fn rank(&self, k: u16) -> Result<usize, usize> {
                self.rank_by_augmentation(&k)
            }
        }
    };
}
aug!(BPlusTreeMap<u16, u32, Count>);
aug!(Tree<u16, u32, Count>);

fn run<T: Aug>() {
    let mut w = World::<T>::from_params();
    chk!(w.t.total() == w.md.len());
    w.ops();
    chk!(w.t.total() == w.md.len());
    for q in 0..4 {
        if param(6) >> (4 * q) & 15 != 0 {
            query(&mut w, param(6) >> (4 * q) & 15);
        }
    }
    obs(w.t.total() as u64);
}
fn query<T: Aug>(w: &mut World<T>, kind: u64) {
    match kind {
        1 => {
            let i = sym_u64() as usize;
            let r = w.t.by(i);
            match w.md.get(i) {
                Some(e) => chk!(r == Some(*e)),
                None => chk!(r.is_none()),
            }
        }
        2 => {
            let i = sym_u64() as usize;
            let v = sym_u32();
            match (w.t.by_mut(i), w.md.get_mut(i)) {
                (Some(r), Some(e)) => {
                    chk!(*r == e.1);
                    *r = v;
                    e.1 = v;
                }
                (None, None) => {}
                _ => chk!(false),
            }
            w.same_contents();
        }
        3 => {
            let i = sym_u64() as usize;
            let r = w.t.rm(i);
            if i < w.md.len() {
                let e = w.md.remove(i);
                chk!(r == Some(e));
            } else {
                chk!(r.is_none());
            }
            chk!(w.t.total() == w.md.len());
            w.size_ok();
            w.same_contents();
        }
        4 => {
            let k = sym_u16();
            let r = w.t.rank(k);
            let (p, there) = w.find(k);
            chk!(r == if there { Ok(p) } else { Err(p) });
        }
        // a run of removals by index from a symbolic position
        5 | 6 => {
            let mut p = w.sym_pos();
            for _ in 0..param(3) {
                if p < w.md.len() {
                    let e = w.md.remove(p);
                    chk!(w.t.rm(p) == Some(e));
                    chk!(w.t.total() == w.md.len());
                    if kind == 6 && p > 0 {
                        p -= 1;
                    }
                }
            }
            w.same_contents();
        }
        // everything by its index and rank
        _ => {
            for i in 0..w.md.len() {
                chk!(w.t.by(i) == Some(w.md[i]));
                chk!(w.t.rank(w.md[i].0) == Ok(i));
            }
            chk!(w.t.by(w.md.len()).is_none());
        }
    }
}
pub fn h_c06_map() {
    run::<BPlusTreeMap<u16, u32, Count>>()
}
pub fn h_c06_tree() {
    run::<Tree<u16, u32, Count>>()
}
