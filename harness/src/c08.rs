//! C08: user-defined augmentations summarise exactly the current contents, shown at the root and at every child.
//! Parameters as in C01; 6: what comes after the operations
use crate::aug::*;
use crate::sym::*;
use crate::world::*;

pub fn summaries(t: &Tree<u16, u32, Seq>, md: &[(u16, u32)]) {
    chk!(t.root_augmentation().0.as_slice() == md);
    // every child summary of every inner node, in order, covers its part of the model; a level's pieces are
    // consumed left to right
    let mut pos: [usize; 12] = [0; 12];
    let mut leafpos = 0;
    walk::every(
        t,
        |level, _keys, a| {
            for x in a {
                let p = pos[level];
                chk!(p + x.0.len() <= md.len());
                chk!(x.0.as_slice() == &md[p..p + x.0.len()]);
                pos[level] = p + x.0.len();
            }
        },
        |_, keys, values| {
            for i in 0..keys.len() {
                chk!(leafpos < md.len() && keys[i] == md[leafpos].0 && values[i] == md[leafpos].1);
                leafpos += 1;
            }
        },
    );
    chk!(leafpos == md.len());
    for p in pos {
        chk!(p == 0 || p == md.len());
    }
}
pub fn h_c08() {
    let mut w = World::<Tree<u16, u32, Seq>>::from_params();
    // in-place writes are excluded by the documented contract; every other operation keeps summaries exact
    let p = param(2);
    let mut n = 0;
    while n < 16 && (p >> (4 * n)) > 1 {
        n += 1;
    }
    for i in (0..n).rev() {
        w.op(p >> (4 * i) & 15, param(3) as usize);
        chk!(w.t.root_augmentation().0.as_slice() == w.md.as_slice());
    }
    match param(6) {
        // removal by query at a symbolic position
        1 => {
            let i = sym_u64() as usize;
            let r = w.t.remove_by_augmentation(i);
            if i < w.md.len() {
                let e = w.md.remove(i);
                chk!(r == Some(e));
            } else {
                chk!(r.is_none());
            }
        }
        2 => {
            w.t.clear();
            w.md.clear();
        }
        3 => {
            let c = w.t.clone();
            summaries(&c, &w.md);
        }
        _ => {}
    }
    summaries(&w.t, &w.md);
    obs(w.md.len() as u64);
}
