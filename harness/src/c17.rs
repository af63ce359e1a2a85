//! C17: search through user-defined augmentations. Parameters as in C01; 6: get, get_mut, remove; 7: values
use crate::aug::*;
use crate::sym::*;
use crate::world::*;
use sweep_bptree::augment::*;
use sweep_bptree::*;

fn run<A: SearchAugmentation<u16, u32>>(
    query: impl Fn() -> A::Query,
    scan: impl Fn(&A::Query, &[(u16, u32)]) -> Option<usize>,
    root_ok: impl Fn(&A, &[(u16, u32)]) -> bool,
) where
    A::Query: Clone,
{
    let mut w = World::<BPlusTreeMap<u16, u32, A>>::from_params();
    // the values decide the search: give some of them symbolic ones, by overwriting
    let m = param(7) as usize;
    for i in 0..m {
        let j = (i * 7 + 3) % w.md.len();
        let v = sym_u32();
        let k = w.md[j].0;
        w.ins(k, v);
    }
    w.ops();
    chk!(root_ok(w.t.root_augmentation(), &w.md));
    let q = query();
    let want = scan(&q, &w.md);
    obs(want.map_or(u64::MAX, |i| i as u64));
    match param(6) {
        0 => {
            let r = w.t.get_by_augmentation(q).map(|e| (*e.0, *e.1));
            chk!(r == want.map(|i| w.md[i]));
        }
        1 => {
            let v = sym_u32();
            match w.t.get_mut_by_augmentation(q) {
                Some(r) => {
                    chk!(want.is_some());
                    let i = want.unwrap();
                    chk!(*r == w.md[i].1);
                    *r = v;
                    w.md[i].1 = v;
                }
                None => chk!(want.is_none()),
            }
            w.same_contents();
        }
        _ => {
            let r = w.t.remove_by_augmentation(q.clone());
            match want {
                Some(i) => {
                    let e = w.md.remove(i);
                    chk!(r == Some(e));
                }
                None => chk!(r.is_none()),
            }
            chk!(root_ok(w.t.root_augmentation(), &w.md));
            w.size_ok();
            w.same_contents();
            // and once more on the result
            if param(6) == 3 {
                let want = scan(&q, &w.md);
                let r = w.t.remove_by_augmentation(q);
                match want {
                    Some(i) => {
                        let e = w.md.remove(i);
                        chk!(r == Some(e));
                    }
                    None => chk!(r.is_none()),
                }
                w.same_contents();
            }
        }
    }
}
pub fn h_c17_sum() {
    run::<Sum>(
        sym_u64,
        |q, md| {
            let mut q = *q;
            for (i, e) in md.iter().enumerate() {
                if q < e.1 as u64 {
                    return Some(i);
                }
                q -= e.1 as u64;
            }
            None
        },
        |a, md| a.0 == md.iter().map(|e| e.1 as u64).sum::<u64>(),
    )
}
pub fn h_c17_max() {
    run::<Max>(
        sym_u32,
        |q, md| md.iter().position(|e| e.1 >= *q),
        |a, md| {
            let mut m = 0;
            for e in md {
                m = m.max(e.1);
            }
            a.0 == m
        },
    )
}
pub fn h_c17_floor() {
    run::<Floor>(sym_u16, |q, md| md.partition_point(|e| e.0 <= *q).checked_sub(1), |a, md| a.0 == md.first().map(|e| e.0))
}
/// a search that gives up (answers None) at an inner node or in a leaf yields nothing and changes nothing
pub fn h_c17_seq() {
    run::<Seq>(|| sym_u64() as usize, |q, md| if *q < md.len() { Some(*q) } else { None }, |a, md| a.0.as_slice() == md)
}
