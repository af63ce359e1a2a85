//! Not a property: parts of std a future version of the tree may use, run symbolically and natively.
use crate::sym::*;
use std::collections::*;

fn k(n: usize) -> Vec<u16> {
    (0..n).map(|i| if i < 2 { sym_u16() } else { (i * 7 % 10 * 10) as u16 }).collect()
}
fn out(v: &[u16]) {
    for x in v {
        obs(*x as u64)
    }
}
#[derive(Clone, Copy)]
struct Pad {
    a: u8,
    b: u16,
    c: u8,
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum E {
    A,
    B(u8),
    C { x: u16, y: u8 },
}
#[inline(never)]
fn packed(a: u16, b: u16) -> Option<(u8, u8)> {
    if a < b {
        Some((a as u8, b as u8))
    } else {
        None
    }
}
#[inline(never)]
fn result(a: u16, b: u16) -> Result<u16, E> {
    match a % 4 {
        0 => Ok(b),
        1 => Err(E::A),
        2 => Err(E::B(b as u8)),
        _ => Err(E::C { x: b, y: 3 }),
    }
}
#[inline(never)]
fn triple(a: u16, b: u16) -> Option<[u16; 3]> {
    (a > b).then_some([a, b, 3])
}
#[inline(never)]
fn nest(a: u16) -> Option<Option<u8>> {
    match a {
        0..=9 => None,
        10..=99 => Some(None),
        _ => Some(Some(a as u8)),
    }
}
pub fn h_selftest() {
    let n = param(1) as usize;
    let mut v = k(n);
    match param(0) {
        0 => v.sort(),
        1 => v.sort_unstable(),
        2 => v.sort_by_key(|x| std::cmp::Reverse(*x)),
        3 => {
            v.rotate_left(n / 3);
            v.reverse();
            v.swap(0, n - 1)
        }
        4 => {
            v.sort();
            v.dedup();
            v.retain(|x| x % 20 != 0)
        }
        5 => {
            let d: Vec<u16> = v.drain(1..n / 2).collect();
            v.extend_from_slice(&d);
            v.splice(0..1, [1, 2, 3]);
            v.insert(2, 9);
            v.remove(0);
            v.swap_remove(1);
            v.truncate(n / 2 + 2);
            let w = v.split_off(3);
            v.extend(w.into_iter().rev())
        }
        6 => {
            let m: BTreeMap<u16, u16> = v.iter().map(|x| (*x, x.wrapping_mul(3))).collect();
            v = m.range(10..50).map(|e| *e.1).chain(m.keys().copied()).collect()
        }
        7 => {
            let mut q: VecDeque<u16> = v.iter().copied().collect();
            q.rotate_left(2);
            q.push_front(4);
            q.pop_back();
            v = q.into_iter().collect()
        }
        8 => {
            let mut h: BinaryHeap<u16> = v.iter().copied().collect();
            v.clear();
            while let Some(x) = h.pop() {
                v.push(x)
            }
        }
        9 => {
            v.sort();
            let a = v.binary_search(&30);
            let b = v.partition_point(|x| *x < 33);
            let c = v.binary_search_by(|x| x.cmp(&77));
            v.push(a.unwrap_or_else(|x| x) as u16);
            v.push(b as u16);
            v.push(c.is_ok() as u16)
        }
        10 => {
            let s: u16 = v.chunks(3).map(|c| c.iter().copied().max().unwrap()).fold(0, |a, b| a ^ b);
            let w: u16 = v.windows(2).filter(|w| w[0] < w[1]).count() as u16;
            let z = v.iter().zip(v.iter().skip(1)).map(|(a, b)| a.wrapping_add(*b)).min().unwrap();
            let (a, b): (Vec<u16>, Vec<u16>) = v.iter().partition(|x| **x > 25);
            v = [s, w, z].into_iter().chain(a).chain(b).collect();
            v.push(v.iter().position(|x| *x == 20).unwrap_or(99) as u16);
            v.push(v.iter().rposition(|x| *x == 20).unwrap_or(99) as u16);
            v.push(v.iter().any(|x| *x == 20) as u16)
        }
        11 => {
            let s = format!("{:?} {} {:>5}", v, n, "x");
            v = s.bytes().map(|b| b as u16).collect()
        }
        12 => {
            let r = std::rc::Rc::new(std::cell::RefCell::new(v.clone()));
            let q = r.clone();
            q.borrow_mut().push(5);
            let w = std::rc::Rc::downgrade(&r);
            drop(q);
            v = w.upgrade().unwrap().borrow().clone();
            let a = std::sync::Arc::new(v.clone());
            v = std::sync::Arc::try_unwrap(a).unwrap();
            let c = std::cell::OnceCell::new();
            v.push(*c.get_or_init(|| 8))
        }
        13 => {
            v.copy_within(1..n / 2, 2);
            v.fill(3);
            v[1..].iter_mut().enumerate().for_each(|(i, x)| *x = i as u16);
            let (a, b) = v.split_at_mut(n / 2);
            let l = a.len().min(b.len());
            a[..l].swap_with_slice(&mut b[..l]);
            let x: [u16; 4] = std::array::from_fn(|i| v[i]);
            let y = x.map(|x| x * 2);
            v.extend(y);
            v = std::mem::take(&mut v).into_boxed_slice().into_vec()
        }
        14 => {
            let h: HashSet<u16, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>> = v[2..].iter().copied().collect();
            let mut w: Vec<u16> = h.into_iter().collect();
            w.sort();
            v = w
        }
        15 => {
            let m = std::sync::Mutex::new(v.clone());
            m.lock().unwrap().push(3);
            let l = std::sync::RwLock::new(m.into_inner().unwrap());
            l.write().unwrap().push(4);
            v = l.read().unwrap().clone();
            let a = std::sync::atomic::AtomicU64::new(3);
            a.fetch_add(4, std::sync::atomic::Ordering::AcqRel);
            let _ = a.compare_exchange(7, 9, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::Relaxed);
            v.push(a.swap(1, std::sync::atomic::Ordering::SeqCst) as u16);
            v.push(a.fetch_max(12, std::sync::atomic::Ordering::SeqCst) as u16)
        }
        16 => {
            let x = (v[0] % 64) as u64 * 77_777_777_777;
            v.push(x.leading_zeros() as u16);
            v.push(x.rotate_left(7).swap_bytes().trailing_zeros() as u16);
            v.push(v[1].checked_div(v[0]).unwrap_or(1));
            v.push(v[0].saturating_sub(v[1]) | v[0].abs_diff(v[1]).min(500).next_power_of_two());
            v.push(v[0].checked_ilog2().unwrap_or(40) as u16)
        }
        17 => {
            let b: Box<dyn Fn(u16) -> u16> = if v[0] > 5 { Box::new(|x| x.wrapping_add(1)) } else { Box::new(|x| x / 2) };
            let f: fn(u16) -> u16 = if v[1] > 5 { |x| x ^ 1 } else { |x| x | 1 };
            v = v.iter().map(|x| f(b(*x))).collect();
            let mut p = v.iter().peekable();
            let mut w = vec![];
            while let Some(x) = p.next() {
                if let Some(y) = p.peek() {
                    w.push(x ^ **y)
                }
            }
            v = w
        }
        18 => {
            let mut it = v.clone().into_iter();
            let a = it.nth(2);
            let b = it.nth_back(1);
            let c = it.by_ref().step_by(2).last();
            v.extend([a, b, c].into_iter().flatten());
            let z = v.iter().copied().scan(0u16, |s, x| { *s = s.wrapping_add(x); Some(*s) }).take_while(|x| *x < 1000).collect::<Vec<_>>();
            v.extend(z);
            v.sort_by(|a, b| b.cmp(a));
            v.select_nth_unstable(n / 2);
            let r = v.iter().max_by_key(|x| **x % 7).copied();
            v.push(r.unwrap());
            v.iter().try_for_each(|x| if *x < 60000 { Ok(()) } else { Err(()) }).ok();
        }
        19 => {
            let s: String = v.iter().map(|x| char::from_u32(*x as u32 % 26 + 97).unwrap()).collect();
            let t = s.to_uppercase() + &s[1..3];
            v = t.chars().map(|c| c as u16).collect();
            v.push(s.cmp(&t) as i8 as u16);
            v.push("12345".parse::<u16>().unwrap());
            v.push(s.find('c').unwrap_or(70) as u16)
        }
        20 => {
            // small values packed into registers, parts of them undefined
            for i in 0..v.len() - 1 {
                let (a, b) = (v[i], v[i + 1]);
                if let Some((x, y)) = packed(a, b) {
                    v.push(x as u16);
                    v.push(y as u16)
                }
                match result(a, b) {
                    Ok(x) => v.push(x),
                    Err(E::A) => v.push(1),
                    Err(E::B(x)) => v.push(x as u16),
                    Err(E::C { x, y }) => v.push(x ^ y as u16),
                }
                let t = triple(a, b);
                v.push(t.map_or(3, |t| t[1]));
                let n = nest(a);
                v.push(match n {
                    None => 0,
                    Some(None) => 1,
                    Some(Some(x)) => x as u16,
                });
                let p = Pad { a: a as u8, b, c: b as u8 };
                let q = std::hint::black_box(p);
                let r = [q, p, q];
                v.push(r[i % 3].b ^ (r[1].a == r[2].c) as u16);
                v.push(std::num::NonZeroU16::new(a).map_or(9, |x| x.get()));
                v.push(a.cmp(&b).then_with(|| b.cmp(&7)).reverse() as i8 as u16);
                v.push((a, b as u8, E::A).cmp(&(b, a as u8, E::B(3))) as i8 as u16)
            }
        }
        21 => {
            thread_local!(static X: std::cell::Cell<u16> = const { std::cell::Cell::new(4) });
            X.with(|x| x.set(x.get() + v[0] / 2));
            v.push(X.with(|x| x.get()));
            static O: std::sync::OnceLock<u16> = std::sync::OnceLock::new();
            v.push(*O.get_or_init(|| 77))
        }
        22 => {
            use std::hash::*;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            v[2..].hash(&mut h);
            v.push(h.finish() as u16);
            let l: LinkedList<u16> = v.iter().copied().collect();
            v = l.into_iter().rev().collect();
            let s: BTreeSet<u16> = v[..].iter().copied().collect();
            v.extend(s.iter().rev().take(3));
            v.extend(s.first())
        }
        _ => {
            let mut a = std::mem::MaybeUninit::<[u16; 8]>::uninit();
            let p = a.as_mut_ptr() as *mut u16;
            unsafe {
                for i in 0..8 {
                    p.add(i).write(v[i % n])
                }
                std::ptr::copy(p, p.add(1), 6);
                std::ptr::swap(p, p.add(7));
                std::ptr::swap_nonoverlapping(p, p.add(4), 3);
                let r = std::ptr::replace(p, 5);
                let b = a.assume_init();
                v.push(r);
                v.extend(b);
                let x: [u8; 4] = std::mem::transmute([v[0], v[1]]);
                v.push(u16::from_le_bytes([x[1], x[2]]));
                let d = std::alloc::alloc(std::alloc::Layout::new::<[u32; 3]>());
                let d = std::alloc::realloc(d, std::alloc::Layout::new::<[u32; 3]>(), 40);
                std::alloc::dealloc(d, std::alloc::Layout::from_size_align(40, 4).unwrap());
            }
        }
    }
    out(&v);
}
