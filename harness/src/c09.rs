//! C09: cursors stay meaningful under any later modification.
//! Parameters as in C01 (operations happen between creating and using the cursors); 6: how the cursor is made,
//! 7: where (position of a concrete cursor)
use crate::sym::*;
use crate::world::*;
use sweep_bptree::tree::Cursor;

type T = Tree<u16, u32, ()>;

/// value, existence, next and prev of a cursor against the model, then one step further from each neighbour
fn judge(t: &T, md: &[(u16, u32)], c: &Cursor<u16>, k: u16, depth: usize) {
    chk!(*c.key() == k);
    let p = md.partition_point(|e| e.0 < k);
    let there = p < md.len() && md[p].0 == k;
    chk!(c.value(t).copied() == if there { Some(md[p].1) } else { None });
    chk!(c.exists(t) == there);
    let q = if there { p + 1 } else { p };
    match c.next_with_value(t) {
        Some((n, v)) => {
            chk!(q < md.len() && *n.key() == md[q].0 && *v == md[q].1);
            if depth > 0 {
                judge(t, md, &n, md[q].0, depth - 1);
            }
        }
        None => chk!(q >= md.len()),
    }
    chk!(c.next(t).map(|c| *c.key()) == md.get(q).map(|e| e.0));
    match c.prev_with_value(t) {
        Some((n, v)) => {
            chk!(p > 0 && *n.key() == md[p - 1].0 && *v == md[p - 1].1);
            if depth > 0 {
                judge(t, md, &n, md[p - 1].0, depth - 1);
            }
        }
        None => chk!(p == 0),
    }
    chk!(c.prev(t).map(|c| *c.key()) == if p > 0 { Some(md[p - 1].0) } else { None });
}
fn ends(t: &T, md: &[(u16, u32)]) {
    chk!(t.cursor_first().map(|c| *c.key()) == md.first().map(|e| e.0));
    match Cursor::first(t) {
        Some((c, v)) => chk!(!md.is_empty() && *c.key() == md[0].0 && *v == md[0].1),
        None => chk!(md.is_empty()),
    }
    match Cursor::last(t) {
        Some((c, v)) => {
            let l = md.len();
            chk!(l > 0 && *c.key() == md[l - 1].0 && *v == md[l - 1].1)
        }
        None => chk!(md.is_empty()),
    }
}
pub fn h_c09() {
    let mut w = World::<T>::from_params();
    let mut cs: Vec<(Cursor<u16>, u16)> = vec![];
    match param(6) {
        // at any key, present or not
        0 => {
            let k = w.sym_key();
            let (p, there) = w.find(k);
            if let Some((c, v)) = w.t.get_cursor(&k) {
                chk!(v.copied() == if there { Some(w.md[p].1) } else { None });
                cs.push((c, k));
            } else {
                chk!(!there);
            }
        }
        1 => cs.push(Cursor::first(&w.t).map(|c| (c.0, w.md[0].0)).unwrap()),
        2 => cs.push(Cursor::last(&w.t).map(|c| (c.0, w.md[w.md.len() - 1].0)).unwrap()),
        // at every position of a stretch, made by walking
        3 => {
            let at = (param(7) as usize).min(w.md.len() - 1);
            let mut c = w.t.get_cursor(&w.md[at].0).unwrap().0;
            for i in at..w.md.len().min(at + 12) {
                cs.push((c.clone(), w.md[i].0));
                match c.next(&w.t) {
                    Some(n) => c = n,
                    None => break,
                }
            }
        }
        // walking backwards: hints left by prev
        _ => {
            let at = (param(7) as usize).min(w.md.len() - 1);
            let mut c = w.t.get_cursor(&w.md[at].0).unwrap().0;
            for i in 0..12 {
                cs.push((c.clone(), w.md[at - i].0));
                match c.prev(&w.t) {
                    Some(n) => c = n,
                    None => break,
                }
                if at == i {
                    break;
                }
            }
        }
    }
    w.ops();
    for (c, k) in &cs {
        judge(&w.t, &w.md, c, *k, 1);
    }
    ends(&w.t, &w.md);
}
/// the whole tree by cursor, both ways, after symbolic modifications
pub fn h_c09_walk() {
    let mut w = World::<T>::from_params();
    w.ops();
    ends(&w.t, &w.md);
    let mut i = 0;
    let mut c = w.t.cursor_first();
    while let Some(x) = c {
        chk!(i < w.md.len() && *x.key() == w.md[i].0);
        chk!(x.value(&w.t).copied() == Some(w.md[i].1));
        i += 1;
        c = x.next(&w.t);
    }
    chk!(i == w.md.len());
    let mut c = Cursor::last(&w.t).map(|c| c.0);
    while let Some(x) = c {
        chk!(i > 0 && *x.key() == w.md[i - 1].0);
        i -= 1;
        c = x.prev(&w.t);
    }
    chk!(i == 0);
}
