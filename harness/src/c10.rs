//! C10: read-only operations never influence each other, also across threads.
//! The tree is frozen: any plain write to memory it owned before counts as a race. Atomic words are havocked: once
//! threads A and B have run, a later load may return any value either of them stored (or the initial one).
//! Parameters: 0 shape, 1 size, 4/5 window, 6 operation kinds of A and B (hexadecimal digits)
use crate::sym::*;
use crate::world::*;
use std::cell::Cell;
use std::cmp::Ordering;
use sweep_bptree::tree::Cursor;
use sweep_bptree::*;

type T = Tree<u16, u32, augment::count::Count>;

fn read(t: &T, md: &[(u16, u32)], kind: u64, k: u16) {
    let p = md.partition_point(|e| e.0 < k);
    let there = p < md.len() && md[p].0 == k;
    let want = if there { Some(md[p].1) } else { None };
    match kind {
        0 => chk!(t.get(&k).copied() == want),
        1 => {
            if let Some((c, v)) = t.get_cursor(&k) {
                chk!(v.copied() == want);
                let q = if there { p + 1 } else { p };
                let n = c.next(t);
                chk!(n.as_ref().map(|c| *c.key()) == md.get(q).map(|e| e.0));
                chk!(c.prev(t).map(|c| *c.key()) == if p > 0 { Some(md[p - 1].0) } else { None });
                chk!(c.value(t).copied() == want);
            }
        }
        2 => {
            let r = t.rank_by_augmentation(&k);
            chk!(r == if there { Ok(p) } else { Err(p) });
            chk!(t.get_by_augmentation(p).map(|e| *e.0) == md.get(p).map(|e| e.0));
        }
        3 => {
            chk!(t.first().map(|e| *e.0) == md.first().map(|e| e.0));
            chk!(t.last().map(|e| *e.0) == md.last().map(|e| e.0));
            chk!(t.cursor_first().map(|c| *c.key()) == md.first().map(|e| e.0));
            chk!(Cursor::last(t).map(|c| *c.0.key()) == md.last().map(|e| e.0));
            chk!(t.len() == md.len());
        }
        // a few steps of iteration from both ends
        4 => {
            let mut it = t.iter();
            for i in 0..md.len().min(10) {
                chk!(it.next().map(|e| *e.0) == Some(md[i].0));
            }
            if md.len() > 20 {
                chk!(it.next_back().map(|e| *e.0) == Some(md[md.len() - 1].0));
            }
        }
        // a cursor whose hint is outdated: made on a tree of the same kind before entries moved
        _ => {
            let c = t.clone();
            chk!(c.get(&k).copied() == want);
        }
    }
}
struct Share(*const T);
unsafe impl Send for Share {}
unsafe impl Sync for Share {}

pub fn h_c10() {
    // on the heap, as only what lives there is frozen and shared
    let mut w = Box::new(World::<T>::from_params());
    // where the tree's own history left the cached leaf
    w.ops();
    let (a, b) = (param(6) & 15, param(6) >> 4 & 15);
    let (x, y) = (w.sym_key(), w.sym_key());
    // fix the position of both keys first, so that native threads run one comparison pattern
    let _ = (w.find(x), w.find(y));
    if is_symbolic() {
        freeze(true);
        havoc(1);
        read(&w.t, &w.md, a, x);
        read(&w.t, &w.md, b, y);
        havoc(2);
        read(&w.t, &w.md, b, y);
        read(&w.t, &w.md, a, x);
        havoc(0);
        freeze(false);
    } else {
        let (t, md) = (Share(&w.t), w.md.clone());
        let md2 = w.md.clone();
        std::thread::scope(|s| {
            let t = &t;
            s.spawn(move || repeat(|| read(unsafe { &*t.0 }, &md, a, x)));
            s.spawn(move || repeat(|| read(unsafe { &*t.0 }, &md2, b, y)));
        });
        leak_ok();
    }
    obs(w.md.len() as u64);
}
fn repeat(f: impl Fn()) {
    for _ in 0..3 {
        f()
    }
    #[cfg(feature = "native")]
    if let Ok(s) = std::env::var("VERIF_STRESS") {
        let t = std::time::Instant::now();
        while t.elapsed().as_secs() < s.parse().unwrap() {
            for _ in 0..1000 {
                f()
            }
        }
    }
}

/// another reader runs a whole operation while a comparison of the first reader's operation is in progress
struct Hook {
    armed: Cell<bool>,
    now: Cell<u64>,
    at: Cell<u64>,
    tree: Cell<*const I>,
    kind: Cell<u64>,
    key: Cell<u16>,
    got: Cell<[u64; 4]>,
}
// Safety: one thread
unsafe impl Sync for Hook {}
static H: Hook = Hook { armed: Cell::new(false), now: Cell::new(0), at: Cell::new(0), tree: Cell::new(std::ptr::null()), kind: Cell::new(0), key: Cell::new(0), got: Cell::new([0; 4]) };

#[derive(Clone, Copy)]
pub struct Ik(u16);
impl Ord for Ik {
    fn cmp(&self, o: &Ik) -> Ordering {
        if H.armed.get() {
            H.now.set(H.now.get() + 1);
            if unique(H.now.get() == H.at.get()) {
                H.armed.set(false);
                H.got.set(answer(unsafe { &*H.tree.get() }, H.kind.get(), H.key.get()));
                H.armed.set(true);
            }
        }
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for Ik {
    fn partial_cmp(&self, o: &Ik) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for Ik {
    fn eq(&self, o: &Ik) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Ik {}
type I = Tree<Ik, u32, augment::count::Count>;

fn opt(x: Option<&u32>) -> u64 {
    x.map_or(u64::MAX, |x| *x as u64)
}
fn key(x: Option<&Ik>) -> u64 {
    x.map_or(u64::MAX, |x| x.0 as u64)
}
fn answer(t: &I, kind: u64, k: u16) -> [u64; 4] {
    let k = Ik(k);
    let mut a = [0; 4];
    match kind {
        0 => a[0] = opt(t.get(&k)),
        1 => {
            if let Some((c, v)) = t.get_cursor(&k) {
                a = [opt(v), key(c.next(t).as_ref().map(|c| c.key())), key(c.prev(t).as_ref().map(|c| c.key())), opt(c.value(t))];
            }
        }
        2 => match t.rank_by_augmentation(&k) {
            Ok(p) => a = [1, p as u64, 0, 0],
            Err(p) => a = [0, p as u64, 0, 0],
        },
        // moving on from a cursor which was made before
        3 => {
            let c = t.get_cursor(&k).map(|c| c.0);
            let n = c.as_ref().and_then(|c| c.next(t)).and_then(|c| c.next(t));
            a[0] = key(n.as_ref().map(|c| c.key()));
            a[1] = opt(n.as_ref().and_then(|c| c.value(t)));
            a[2] = c.map_or(2, |c| c.exists(t) as u64);
        }
        _ => {
            let c = t.clone();
            a = [opt(c.get(&k)), opt(t.get(&k)), c.len() as u64, 0];
        }
    }
    a
}
/// what the sorted list of entries says
fn truth(md: &[(u16, u32)], kind: u64, k: u16) -> [u64; 4] {
    let p = md.partition_point(|e| e.0 < k);
    let there = p < md.len() && md[p].0 == k;
    let q = p + there as usize;
    let val = |i: usize| md.get(i).map_or(u64::MAX, |e| e.1 as u64);
    let name = |i: usize| md.get(i).map_or(u64::MAX, |e| e.0 as u64);
    let v = if there { val(p) } else { u64::MAX };
    match kind {
        0 => [v, 0, 0, 0],
        1 => [v, name(q), if p > 0 { name(p - 1) } else { u64::MAX }, v],
        2 => [there as u64, p as u64, 0, 0],
        3 => [name(q + 1), val(q + 1), there as u64, 0],
        _ => [v, v, md.len() as u64, 0],
    }
}
/// Parameters: 0 shape, 1 size, 2/3 key window of the first reader, 4/5 of the second, 6 kinds
pub fn h_c10_inter() {
    let n = param(1) as usize;
    let e: Vec<(u16, u32)> = (0..n).map(|i| ((i * 4 + 10) as u16, 1000 + i as u32)).collect();
    let mut t = Box::new(I::new(NodeStoreVec::new()));
    match param(0) {
        0 => e.iter().for_each(|e| drop(t.insert(Ik(e.0), e.1))),
        1 => e.iter().rev().for_each(|e| drop(t.insert(Ik(e.0), e.1))),
        _ => *t = I::bulk_load(e.iter().map(|e| (Ik(e.0), e.1)).collect()),
    }
    let limited = |lo: u64, hi: u64| {
        let k = sym_u16();
        assume(hi <= lo || (k as u64 >= lo && (k as u64) < hi));
        k
    };
    let (x, y) = (limited(param(2), param(3)), limited(param(4), param(5)));
    let (a, b) = (param(6) & 15, param(6) >> 4 & 15);
    let (wa, wb) = (truth(&e, a, x), truth(&e, b, y));
    // where the lookups before left the cached leaf
    if param(6) >> 8 & 3 == 1 {
        let _ = t.get(&Ik(e[n / 3].0));
    } else if param(6) >> 8 & 3 == 2 {
        let _ = t.get(&Ik(x));
    }
    H.tree.set(&*t);
    H.kind.set(b);
    H.key.set(y);
    H.at.set(sym_u16() as u64);
    H.now.set(0);
    H.got.set(wb);
    H.armed.set(true);
    let got = answer(&t, a, x);
    H.armed.set(false);
    // no cursor at an absent key would do as well
    chk!(got == wa || (!has(&e, x) && (a == 1 && got == [0; 4] || a == 3 && got[2] == 2)));
    let gb = H.got.get();
    chk!(gb == wb || (!has(&e, y) && (b == 1 && gb == [0; 4] || b == 3 && gb[2] == 2)));
    // and afterwards
    chk!(t.get(&Ik(x)).copied() == md_get(&e, x));
    obs(got[0]);
}
fn md_get(md: &[(u16, u32)], k: u16) -> Option<u32> {
    let p = md.partition_point(|e| e.0 < k);
    md.get(p).filter(|e| e.0 == k).map(|e| e.1)
}
fn has(md: &[(u16, u32)], k: u16) -> bool {
    md_get(md, k).is_some()
}

/// sequential: a lookup after any other lookups
pub fn h_c10_seq() {
    let mut w = World::<T>::from_params();
    w.ops();
    let n = param(6) & 15;
    for i in 0..n {
        let k = w.sym_key();
        read(&w.t, &w.md, param(6) >> (4 * (i + 1)) & 15, k);
    }
    obs(w.md.len() as u64);
}
