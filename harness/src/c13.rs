//! C13: ends, emptiness and clearing. Parameters as in C01 (the operations come first); 6: how it is emptied
use crate::sym::*;
use crate::world::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::tree::visit::*;
use sweep_bptree::tree::Cursor;
use sweep_bptree::*;

type T = Tree<u16, u32, Count>;

fn ends(w: &World<T>) {
    w.size_ok();
    chk!(w.t.first().map(|e| (*e.0, *e.1)) == w.md.first().copied());
    chk!(w.t.last().map(|e| (*e.0, *e.1)) == w.md.last().copied());
    chk!(w.t.root_augmentation().count() == w.md.len());
    chk!(w.t.cursor_first().map(|c| *c.key()) == w.md.first().map(|e| e.0));
    chk!(Cursor::last(&w.t).map(|c| *c.0.key()) == w.md.last().map(|e| e.0));
}
struct Shape<'a>(&'a mut usize);
impl DescendVisit<u16, u32, Count> for Shape<'_> {
    type Result = usize;
    fn visit_inner(&mut self, _: &[u16], a: &[Count]) -> DescendVisitResult<usize> {
        *self.0 += 1;
        chk!(a.iter().map(|c| c.count()).sum::<usize>() == 0);
        DescendVisitResult::GoDown(0)
    }
    fn visit_leaf(&mut self, keys: &[u16], values: &[u32]) -> Option<usize> {
        chk!(keys.len() == values.len());
        Some(keys.len())
    }
}
fn is_empty(w: &mut World<T>) {
    ends(w);
    let k = sym_u16();
    chk!(w.t.get(&k).is_none());
    chk!(w.t.get_mut(&k).is_none());
    chk!(w.t.remove(&k).is_none());
    chk!(w.t.iter().next().is_none());
    chk!(w.t.iter().next_back().is_none());
    chk!(w.t.iter().len() == 0);
    chk!(Cursor::first(&w.t).is_none());
    if let Some((c, v)) = w.t.get_cursor(&k) {
        chk!(v.is_none());
        chk!(!c.exists(&w.t));
        chk!(c.next(&w.t).is_none());
        chk!(c.prev(&w.t).is_none());
    }
    let i = sym_u64() as usize;
    chk!(w.t.get_by_augmentation(i).is_none());
    chk!(w.t.remove_by_augmentation(i).is_none());
    chk!(w.t.rank_by_augmentation(&k) == Err(0));
    let mut inner = 0;
    let r = w.t.descend_visit(Shape(&mut inner));
    chk!(inner == 0);
    chk!(r == Some(0));
    w.size_ok();
}
pub fn h_c13() {
    let mut w = World::<T>::from_params();
    ends(&w);
    w.ops();
    ends(&w);
    let cleared = param(6);
    match cleared {
        0 => {
            w.same_contents();
            return;
        }
        1..=3 => w.op(9 + cleared, 0),
        4 => {
            w.t.clear();
            w.md.clear();
        }
        // emptied from both ends alternately
        5 => {
            let mut front = true;
            while !w.md.is_empty() {
                let k = if front { w.md[0].0 } else { w.md[w.md.len() - 1].0 };
                w.rem(k);
                ends(&w);
                front = !front;
            }
        }
        // emptied by index, from a symbolic place outwards
        _ => {
            let mut p = w.sym_pos();
            while !w.md.is_empty() {
                if p >= w.md.len() {
                    p = w.md.len() - 1;
                }
                let e = w.md.remove(p);
                chk!(w.t.remove_by_augmentation(p) == Some(e));
            }
        }
    }
    is_empty(&mut w);
    // used again
    let n = param(7) as usize;
    for i in 0..n {
        let v = w.fresh();
        w.ins(u16::at(i * 37 % n), v);
    }
    ends(&w);
    w.op(1, 0);
    if n <= 20 {
        w.op(4, n / 2);
    } else {
        for _ in 0..n / 2 {
            let k = w.md[n / 4].0;
            w.rem(k);
        }
    }
    ends(&w);
    w.probe(usize::MAX);
    w.same_contents();
    let c = w.t.into_iter();
    chk!(c.len() == w.md.len());
}
/// sets too
pub fn h_c13_set() {
    let n = param(1) as usize;
    let mut s: BPlusTreeSet<u16> = (0..n).map(u16::at).collect();
    let x = sym_u16();
    let mut md: Vec<u16> = (0..n).map(u16::at).collect();
    let mut p = md.partition_point(|k| *k < x);
    if param(6) == 1 {
        s.clear();
        md.clear();
    }
    while !md.is_empty() {
        if p >= md.len() {
            p = md.len() - 1;
        }
        let k = md.remove(p);
        chk!(s.remove(&k));
        chk!(s.first().copied() == md.first().copied());
        chk!(s.last().copied() == md.last().copied());
        chk!(s.is_empty() == md.is_empty());
    }
    chk!(s.iter().next().is_none() && s.len() == 0 && !s.contains(&x));
    let e = BPlusTreeSet::new();
    chk!(s.union(&e).next().is_none());
    chk!(s.insert(x) && s.first() == Some(&x) && s.last() == Some(&x));
    obs(s.len() as u64);
}
