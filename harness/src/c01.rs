//! C01: the map behaves as an ordered map for every history of operations.
//! Parameters: 0 shape, 1 size, 2 operations, 3 run length, 4/5 key window, 6 probe width (0 = everything)
use crate::sym::*;
use crate::world::*;
use sweep_bptree::*;

fn run<T: Api>() {
    let mut w = World::<T>::from_params();
    w.ops();
    let width = param(6) as usize;
    w.probe(if width == 0 { usize::MAX } else { width });
    if width == 0 {
        w.same_contents();
    }
    w.size_ok();
}
pub fn h_c01_map() {
    run::<BPlusTreeMap<u16, u32>>()
}
pub fn h_c01_tree() {
    run::<Tree<u16, u32, ()>>()
}
pub fn h_c01_heap() {
    run::<BPlusTreeMap<Bk, Bv>>()
}
pub fn h_c01_wide() {
    run::<BPlusTreeMap<u16, Wide>>()
}
