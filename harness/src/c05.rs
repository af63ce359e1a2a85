//! C05: bulk loading equals inserting one by one.
//! Parameters: 1 size, 2 first symbolic place, 3 number of symbolic places, 6 what to do with the tree afterwards,
//! 4/5 key window of later operations, 7 unsorted order (0: sorted)
use crate::aug::*;
use crate::sym::*;
use crate::world::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::*;

/// the input sequence: concrete ascending keys, some of them replaced by symbolic ones
fn input(sorted: bool) -> Vec<(u16, u32)> {
    let n = param(1) as usize;
    let (at, m) = (param(2) as usize, param(3) as usize);
    let mut v: Vec<(u16, u32)> = vec![];
    for i in 0..n {
        let k = if i >= at && i < at + m { sym_u16() } else { u16::at(i) };
        if sorted && i > 0 && i >= at && i <= at + m {
            assume(v[i - 1].0 <= k);
        }
        v.push((k, i as u32));
    }
    if !sorted && param(7) == 1 {
        v.reverse();
    }
    if !sorted && param(7) == 2 {
        let w = v.clone();
        for i in 0..n {
            v[i] = w[i * 37 % n];
        }
    }
    v
}
/// one by one, the last of equal keys wins
fn model(v: &[(u16, u32)]) -> Vec<(u16, u32)> {
    let mut md: Vec<(u16, u32)> = vec![];
    for e in v {
        let p = md.partition_point(|x| x.0 < e.0);
        if p < md.len() && md[p].0 == e.0 {
            md[p] = *e;
        } else {
            md.insert(p, *e);
        }
    }
    md
}
fn later<T: Api<K = u16>>(t: T, md: Vec<(u16, u32)>) -> World<T> {
    let mut w = World { t, md, at: 0, next_v: 5000, lo: param(4), hi: param(5) };
    w.size_ok();
    match param(6) {
        0 => w.same_contents(),
        1 => {
            w.same_contents();
            w.probe(usize::MAX);
        }
        2 => {
            w.op(0, 0);
        }
        3 => {
            w.op(1, 0);
            w.same_contents();
        }
        4 => {
            w.op(2, 0);
            w.same_contents();
        }
        5 => {
            w.op(4, 12);
            w.same_contents();
            w.probe(24);
        }
        6 => {
            w.op(5, 12);
            w.same_contents();
            w.probe(24);
        }
        7 => {
            w.op(6, 12);
            w.same_contents();
            w.probe(24);
        }
        // long runs
        8 => {
            w.op(4, 40);
            w.same_contents();
            if w.md.len() < 60 {
                w.op(0, 0);
            } else {
                w.probe(50);
            }
        }
        9 => {
            w.op(5, 40);
            w.same_contents();
            if w.md.len() < 60 {
                w.op(0, 0);
            } else {
                w.probe(50);
            }
        }
        10 => w.op(10, 0),
        11 => w.op(11, 0),
        12 => w.op(12, 0),
        _ => {}
    }
    obs(w.md.len() as u64);
    w.size_ok();
    w
}
pub fn h_c05_map() {
    let v = input(false);
    let md = model(&v);
    let t: BPlusTreeMap<u16, u32> = v.into_iter().collect();
    later(t, md);
}
pub fn h_c05_tree() {
    let v = input(true);
    let md = model(&v);
    let t = Tree::<u16, u32, Count>::bulk_load(v);
    chk!(t.root_augmentation().count() == md.len());
    let w = later(t, md);
    chk!(w.t.root_augmentation().count() == w.md.len());
    let i = sym_u16() as usize;
    let r = w.t.get_by_augmentation(i);
    match w.md.get(i) {
        Some(e) => chk!(r == Some((&e.0, &e.1))),
        None => chk!(r.is_none()),
    }
    chk!(w.t.first().map(|e| *e.0) == w.md.first().map(|e| e.0));
    chk!(w.t.last().map(|e| *e.0) == w.md.last().map(|e| e.0));
}
/// summaries of a bulk-loaded tree at every child
pub fn h_c05_seq() {
    let v = input(true);
    let md = model(&v);
    let t = Tree::<u16, u32, Seq>::bulk_load(v);
    crate::c08::summaries(&t, &md);
    let w = later(t, md);
    crate::c08::summaries(&w.t, &w.md);
}
pub fn h_c05_set() {
    let v = input(false);
    let md = model(&v);
    let mut s: BPlusTreeSet<u16> = v.iter().map(|e| e.0).collect();
    chk!(s.len() == md.len());
    let x = sym_u16();
    let there = md.binary_search_by(|e| e.0.cmp(&x)).is_ok();
    chk!(s.contains(&x) == there);
    chk!(s.iter().len() == md.len());
    let mut i = 0;
    for k in s.iter() {
        chk!(*k == md[i].0);
        i += 1;
    }
    chk!(i == md.len());
    chk!(s.remove(&x) == there);
    chk!(s.len() == md.len() - there as usize);
    obs(s.len() as u64);
}
