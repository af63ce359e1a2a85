//! C12: sets and their union.
use crate::sym::*;
use crate::world::*;
use sweep_bptree::*;

/// parameters: 0 shape (0 asc, 1 desc, 3 strided, 4 collected), 1 size, 2 operations (0 contains, 1 insert, 2 remove,
/// 4/5 removal runs, 6 insertion run, 8 clear), 3 run length
fn build<K: KK<M = u16>>(shape: u64, n: usize, mul: usize, add: u16) -> (BPlusTreeSet<K>, Vec<u16>) {
    let ks: Vec<u16> = (0..n).map(|i| (i * mul) as u16 + add).collect();
    let s = match shape {
        4 => ks.iter().map(|k| K::mk(*k)).collect(),
        _ => {
            let mut s = BPlusTreeSet::new();
            for i in 0..n {
                let j = match shape {
                    0 => i,
                    1 => n - 1 - i,
                    _ => i * 37 % n,
                };
                chk!(s.insert(K::mk(ks[j])));
            }
            s
        }
    };
    (s, ks)
}
fn set_ops<K: KK<M = u16>>() {
    let (mut s, mut md) = build::<K>(param(0), param(1) as usize, 4, 10);
    let p = param(2);
    let mut n = 0;
    while n < 16 && (p >> (4 * n)) > 1 {
        n += 1;
    }
    for i in (0..n).rev() {
        let kind = p >> (4 * i) & 15;
        if kind == 8 {
            s.clear();
            md.clear();
            chk!(s.first().is_none() && s.last().is_none() && s.iter().next().is_none());
        } else {
            let x = sym_u16();
            let q = md.partition_point(|k| *k < x);
            let there = q < md.len() && (kind >= 4 || md[q] == x);
            match kind {
                0 => chk!(s.contains(&x) == there),
                1 => {
                    chk!(s.insert(K::mk(x)) == !there);
                    if !there {
                        md.insert(q, x);
                    }
                }
                2 => {
                    chk!(s.remove(&x) == there);
                    if there {
                        md.remove(q);
                    }
                }
                4 => {
                    for _ in 0..param(3) {
                        if q < md.len() {
                            let k = md.remove(q);
                            chk!(s.remove(&k));
                            chk!(!s.remove(&k));
                        }
                    }
                }
                5 => {
                    for d in 0..param(3) as usize {
                        if q > d {
                            let k = md.remove(q - d - 1);
                            chk!(s.remove(&k));
                        }
                    }
                }
                _ => {
                    let n = param(1) as u16;
                    let mut j = 0;
                    while j < n && 10 + 4 * j < x {
                        j += 1;
                    }
                    let base = 10 + 4 * j;
                    for d in 1..=param(3) as u16 {
                        let k = base.saturating_add(d);
                        let r = md.binary_search(&k);
                        chk!(s.insert(K::mk(k)) == r.is_err());
                        if let Err(j) = r {
                            md.insert(j, k);
                        }
                    }
                }
            }
        }
        chk!(s.len() == md.len());
        chk!(s.is_empty() == md.is_empty());
        chk!(s.first().map(|k| k.m()) == md.first().copied());
        chk!(s.last().map(|k| k.m()) == md.last().copied());
    }
    let mut i = 0;
    for k in s.iter() {
        chk!(i < md.len() && k.m() == md[i]);
        i += 1;
    }
    chk!(i == md.len());
    for k in &md {
        chk!(s.contains(k));
    }
    obs(i as u64);
}
pub fn h_c12_set() {
    set_ops::<u16>()
}
pub fn h_c12_heap() {
    set_ops::<Bk>()
}

fn merged(a: &[u16], b: &[u16]) -> Vec<u16> {
    let mut v = vec![];
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i] < b[j]) {
            v.push(a[i]);
            i += 1;
        } else {
            if i < a.len() && a[i] == b[j] {
                i += 1;
            }
            v.push(b[j]);
            j += 1;
        }
    }
    v
}
/// the union against the merge; at a symbolic point an independent copy is taken, and both are finished
fn union_ok(a: &BPlusTreeSet<u16>, b: &BPlusTreeSet<u16>, want: &[u16], copy: bool) {
    let mut u = a.union(b);
    let stop = if copy { sym_u16() } else { 0 };
    let mut i = 0;
    let mut other = None;
    loop {
        let left = want.len() - i;
        let (lo, hi) = u.size_hint();
        chk!(lo <= left);
        chk!(match hi {
            Some(h) => left <= h,
            None => true,
        });
        if copy && other.is_none() && unique(i as u16 >= stop) {
            other = Some((u.clone(), i));
            // what an iterator inherits agrees with stepping
            chk!(u.clone().count() == left);
            chk!(u.clone().last() == if left > 0 { want.last() } else { None });
            chk!(u.clone().nth(left / 2) == want.get(i + left / 2));
            chk!(u.clone().nth(left).is_none());
            chk!(u.clone().max() == if left > 0 { want.last() } else { None });
            chk!(u.clone().min() == want.get(i));
            chk!(u.clone().eq(want[i..].iter()) && u.clone().is_sorted());
            chk!(u.clone().position(|k| Some(k) == want.last()) == left.checked_sub(1));
            let e = u.clone().fold(i, |i, k| {
                chk!(i < want.len() && *k == want[i]);
                i + 1
            });
            chk!(e == want.len());
            let mut d = u.clone();
            if left > 2 {
                chk!(d.nth(1) == Some(&want[i + 1]));
                chk!(d.next() == Some(&want[i + 2]));
                let (lo, hi) = d.size_hint();
                chk!(lo <= left - 3 && hi.unwrap_or(left) >= left - 3);
            }
        }
        match u.next() {
            Some(k) => {
                chk!(i < want.len() && *k == want[i]);
                i += 1;
            }
            None => break,
        }
    }
    chk!(i == want.len());
    chk!(u.next().is_none());
    chk!(u.size_hint().0 == 0);
    if let Some((mut c, mut i)) = other {
        chk!(c.size_hint().0 <= want.len() - i);
        while let Some(k) = c.next() {
            chk!(i < want.len() && *k == want[i]);
            i += 1;
        }
        chk!(i == want.len());
        chk!(c.next().is_none());
    }
    chk!(a.union(b).min() == want.first());
    chk!(a.union(b).max() == want.last());
    obs(i as u64);
}
/// all keys symbolic: parameter 1 / 2 keys in the two sets, 6 copy, 3 how they are built
pub fn h_c12_union_free() {
    let (n, m) = (param(1) as usize, param(2) as usize);
    let mk = |n: usize| -> Vec<u16> {
        let mut v: Vec<u16> = vec![];
        for i in 0..n {
            let k = sym_u16();
            if i > 0 {
                assume(v[i - 1] < k);
            }
            v.push(k);
        }
        v
    };
    let (a, b) = (mk(n), mk(m));
    let fill = |v: &[u16]| -> BPlusTreeSet<u16> {
        if param(3) == 4 {
            v.iter().copied().collect()
        } else {
            let mut s = BPlusTreeSet::new();
            for k in v {
                chk!(s.insert(*k));
            }
            s
        }
    };
    let (sa, sb) = (fill(&a), fill(&b));
    union_ok(&sa, &sb, &merged(&a, &b), param(6) == 1);
}
/// larger sets of several leaves with a few symbolic keys each: 0 shape, 1/2 sizes, 3 keys inserted symbolically,
/// 4 keys removed symbolically, 5 overlap pattern, 6 copy
pub fn h_c12_union() {
    let (mul, add) = match param(5) {
        0 => (4, 10),   // same lattice
        1 => (4, 12),   // interleaved
        2 => (6, 10),   // every third in common
        3 => (4, 4000), // after
        _ => (4, 0),
    };
    let (mut a, mut ma) = build::<u16>(param(0), param(1) as usize, 4, 10);
    let (mut b, mut mb) = build::<u16>(param(0), param(2) as usize, mul, add);
    for i in 0..param(3) {
        let x = sym_u16();
        let (s, md) = if i % 2 == 0 { (&mut a, &mut ma) } else { (&mut b, &mut mb) };
        let r = md.binary_search(&x);
        chk!(s.insert(x) == r.is_err());
        if let Err(p) = r {
            md.insert(p, x);
        }
    }
    for i in 0..param(4) {
        let x = sym_u16();
        let (s, md) = if i % 2 == 0 { (&mut b, &mut mb) } else { (&mut a, &mut ma) };
        let p = md.partition_point(|k| *k < x);
        if p < md.len() {
            let k = md.remove(p);
            chk!(s.remove(&k));
        }
    }
    let want = merged(&ma, &mb);
    union_ok(&a, &b, &want, param(6) == 1);
    union_ok(&b, &a, &want, false);
}
