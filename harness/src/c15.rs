//! C15: balance and fill. Parameters as in C01; 6: 0 grown by inserts and removals, 1 bulk-loaded, unchanged
use crate::aug::*;
use crate::sym::*;
use crate::world::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::*;

type T = Tree<u16, u32, Count>;
fn caps() -> (usize, usize) {
    type S = NodeStoreVec<u16, u32, Count>;
    (<S as NodeStore>::leaf_n() as usize, <S as NodeStore>::inner_n() as usize)
}
/// (depth, number of leaves)
fn walk_all(t: &T, filled: bool) -> (usize, usize) {
    let (ln, inn) = caps();
    let mut depth = usize::MAX;
    let mut leaves = 0;
    let mut seen = 0;
    walk::every(
        t,
        |level, keys, _a| {
            chk!(keys.len() >= 1);
            chk!(keys.len() <= inn);
            if filled && level > 0 {
                chk!(keys.len() >= inn / 4);
            }
        },
        |level, keys, _| {
            leaves += 1;
            seen += keys.len();
            if depth == usize::MAX {
                depth = level;
            }
            chk!(depth == level);
            chk!(keys.len() <= ln);
            if level > 0 {
                chk!(keys.len() >= 1);
                if filled {
                    chk!(keys.len() >= ln / 4);
                }
            }
        },
    );
    chk!(seen == t.len());
    (depth, leaves)
}
pub fn h_c15() {
    let mut w = World::<T>::from_params();
    w.ops();
    let (d, leaves) = walk_all(&w.t, true);
    obs(d as u64);
    obs(leaves as u64);
    // logarithmic: every non-root level multiplies the number of nodes by at least a quarter of the capacity (+1)
    let (ln, inn) = caps();
    if d > 0 {
        let mut least = 2 * (ln / 4);
        for _ in 1..d {
            least *= inn / 4 + 1;
        }
        chk!(w.md.len() >= least);
    }
}
/// grown entry by entry (ascending, descending, converging, scattered), looked at after every step; at one point a
/// symbolic key is inserted as well
pub fn h_c15_grow() {
    let n = param(1) as usize;
    let mut w = World::<T>::empty();
    (w.lo, w.hi) = (param(4), param(5));
    let every = param(6).max(1) as usize;
    for i in 0..n {
        let j = match param(0) {
            0 => i,
            1 => n - 1 - i,
            2 if i % 2 == 0 => i / 2,
            2 => n - 1 - i / 2,
            _ => i * 37 % n,
        };
        let k = u16::at(j);
        if let Err(p) = w.md.binary_search_by(|e| e.0.cmp(&k)) {
            w.md.insert(p, (k, 1));
            chk!(w.t.insert(k, 1).is_none());
        }
        if i == param(2) as usize {
            w.op(1, 0);
        }
        if i % every == 0 {
            walk_all(&w.t, true);
        }
    }
    // and emptied again, from the front, the back or in the middle
    let m = w.md.len();
    for i in 0..m - 1 {
        let p = match param(7) {
            0 => 0,
            1 => w.md.len() - 1,
            2 => w.md.len() / 2,
            _ => i * 31 % w.md.len(),
        };
        let k = w.md.remove(p).0;
        chk!(w.t.remove(&k).is_some());
        if i % every == 0 {
            walk_all(&w.t, true);
        }
    }
}
/// after long concrete histories driven by a symbolic start
pub fn h_c15_churn() {
    let mut w = World::<T>::from_params();
    let p = w.sym_pos();
    let len = param(3) as usize;
    // a stretch is removed and put back twice, in opposite directions, walking the tree in between
    let ks: Vec<u16> = w.md.iter().skip(p).take(len).map(|e| e.0).collect();
    for k in &ks {
        w.rem(*k);
    }
    walk_all(&w.t, true);
    for k in ks.iter().rev() {
        w.ins(*k, 1);
    }
    walk_all(&w.t, true);
    for k in ks.iter().rev() {
        w.rem(*k);
    }
    walk_all(&w.t, true);
    w.same_contents();
}
/// bulk-loaded: minimal depth for its size, no inner node without separators
pub fn h_c15_bulk() {
    let (ln, inn) = caps();
    let n = param(1) as usize;
    let v: Vec<(u16, u32)> = {
        let mut v: Vec<(u16, u32)> = vec![];
        for i in 0..n {
            let k = if i == param(2) as usize { sym_u16() } else { u16::at(i) };
            if i > 0 {
                assume(v[i - 1].0 <= k);
            }
            v.push((k, i as u32));
        }
        v
    };
    let t = T::bulk_load(v);
    let (d, leaves) = walk_all(&t, false);
    obs(d as u64);
    let m = t.len();
    chk!(leaves == ((m + ln - 1) / ln).max(1));
    let mut least = 0;
    let mut reach = ln;
    while reach < m {
        least += 1;
        reach *= inn + 1;
    }
    chk!(d == least);
}
