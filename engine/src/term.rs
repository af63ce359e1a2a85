//! Hash-consed bit-vector terms (width <= 64) with simplification, evaluation and interval reasoning.
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Undef,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not, // width 1 only
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract, // k = lo
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct T {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u64,
}

/// A value: concrete when t == 0, wholly undefined when t == UNDEF, a term otherwise.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Val {
    pub v: u64,
    pub t: u32,
}
pub const UNDEF: u32 = u32::MAX;
impl Val {
    #[inline(always)]
    pub fn c(v: u64) -> Val {
        Val { v, t: 0 }
    }
    #[inline(always)]
    pub fn undef() -> Val {
        Val { v: 0, t: UNDEF }
    }
    #[inline(always)]
    pub fn is_c(&self) -> bool {
        self.t == 0
    }
}

#[inline(always)]
pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline(always)]
pub fn sx(v: u64, w: u32) -> i64 {
    let s = 64 - w;
    ((v << s) as i64) >> s
}

pub struct Terms {
    pub t: Vec<T>,
    meta_undef: Vec<bool>,
    pub vars_of: Vec<u64>,
    map: HashMap<T, u32, Fx>,
    pub nvars: u32,
    pub var_terms: Vec<u32>,
    pub nundef: u32,
}

#[derive(Clone, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}

impl Terms {
    pub fn new() -> Self {
        let dummy = T { op: Op::Const, w: 64, a: 0, b: 0, c: 0, k: 0 };
        Terms {
            t: vec![dummy],
            meta_undef: vec![false],
            vars_of: vec![0],
            map: HashMap::with_hasher(Fx),
            nvars: 0,
            var_terms: vec![],
            nundef: 0,
        }
    }
    fn intern(&mut self, t: T) -> u32 {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.t.len() as u32;
        assert!(i < (1 << 29) - 1, "term table overflow");
        let (mut und, mut vs) = (false, 0u64);
        match t.op {
            Op::Const => {}
            Op::Var => vs = 1u64 << (t.k % 64),
            Op::Undef => und = true,
            _ => {
                for x in [t.a, t.b, t.c] {
                    if x != 0 {
                        und |= self.meta_undef[x as usize];
                        vs |= self.vars_of[x as usize];
                    }
                }
            }
        }
        self.t.push(t);
        self.meta_undef.push(und);
        self.vars_of.push(vs);
        self.map.insert(t, i);
        i
    }
    #[inline]
    pub fn has_undef(&self, t: u32) -> bool {
        t == UNDEF || self.meta_undef[t as usize]
    }
    pub fn konst(&mut self, v: u64, w: u32) -> u32 {
        self.intern(T { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, w: u32) -> u32 {
        let k = self.nvars as u64;
        self.nvars += 1;
        let t = self.intern(T { op: Op::Var, w: w as u8, a: 0, b: 0, c: 0, k });
        self.var_terms.push(t);
        t
    }
    /// The i-th variable of a width; creation order is deterministic along a path, so variables are
    /// shared between paths when index and width agree.
    pub fn var_at(&mut self, idx: u32, w: u32) -> u32 {
        while self.nvars <= idx {
            self.nvars += 1;
            self.var_terms.push(0);
        }
        let t = self.intern(T { op: Op::Var, w: w as u8, a: 0, b: 0, c: 0, k: idx as u64 });
        t
    }
    pub fn undef(&mut self, w: u32) -> u32 {
        let k = self.nundef as u64;
        self.nundef += 1;
        self.intern(T { op: Op::Undef, w: w as u8, a: 0, b: 0, c: 0, k })
    }
    /// term id of a value (interning constants and naming anonymous undef)
    pub fn id(&mut self, v: Val, w: u32) -> u32 {
        if v.t == 0 {
            self.konst(v.v, w)
        } else if v.t == UNDEF {
            self.undef(w)
        } else {
            v.t
        }
    }
    pub fn val(&self, t: u32) -> Val {
        let x = &self.t[t as usize];
        match x.op {
            Op::Const => Val::c(x.k),
            Op::Undef => Val::undef(),
            _ => Val { v: 0, t },
        }
    }
    #[inline]
    pub fn w(&self, t: u32) -> u32 {
        self.t[t as usize].w as u32
    }
    fn g(&self, t: u32) -> T {
        self.t[t as usize]
    }
    fn is_k(&self, t: u32) -> Option<u64> {
        let x = &self.t[t as usize];
        if x.op == Op::Const {
            Some(x.k)
        } else {
            None
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32, k: u64) -> u32 {
        self.intern(T { op, w: w as u8, a, b, c, k })
    }

    // ---- constructors on values -------------------------------------------------------------
    pub fn bin(&mut self, op: Op, w: u32, a: Val, b: Val) -> Val {
        if a.t == 0 && b.t == 0 {
            return Val::c(fold(op, w, a.v, b.v));
        }
        if a.t == UNDEF || b.t == UNDEF {
            match op {
                Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr => {
                    if a.t == UNDEF && b.t == UNDEF {
                        return Val::undef();
                    }
                }
                _ => return Val::undef(),
            }
        }
        let a = self.id(a, w);
        let b = self.id(b, w);
        let r = self.tbin(op, w, a, b);
        self.val(r)
    }
    pub fn tbin(&mut self, op: Op, w: u32, a: u32, b: u32) -> u32 {
        let (ka, kb) = (self.is_k(a), self.is_k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = fold(op, w, x, y);
            return self.konst(r, w);
        }
        // commutative: constant on the right
        let (a, b, ka, kb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor if ka.is_some() => (b, a, kb, ka),
            _ => (a, b, ka, kb),
        };
        let m = mask(w);
        match (op, kb) {
            (Op::Add, Some(0)) | (Op::Sub, Some(0)) | (Op::Or, Some(0)) | (Op::Xor, Some(0)) => return a,
            (Op::Shl, Some(0)) | (Op::LShr, Some(0)) | (Op::AShr, Some(0)) => return a,
            (Op::Mul, Some(1)) | (Op::UDiv, Some(1)) | (Op::SDiv, Some(1)) => return a,
            (Op::Mul, Some(0)) | (Op::And, Some(0)) => return self.konst(0, w),
            (Op::URem, Some(1)) => return self.konst(0, w),
            (Op::And, Some(k)) if k == m => return a,
            (Op::Or, Some(k)) if k == m => return self.konst(m, w),
            (Op::Shl, Some(k)) | (Op::LShr, Some(k)) if k >= w as u64 => return self.konst(0, w),
            (Op::LShr, Some(k)) => {
                let e = self.extract(a, k as u32, w - k as u32);
                return self.zext(e, w);
            }
            (Op::Shl, Some(k)) => {
                let e = self.extract(a, 0, w - k as u32);
                let z = self.konst(0, k as u32);
                return self.concat(e, z);
            }
            (Op::UDiv, Some(k)) if k.is_power_of_two() => {
                let s = self.konst(k.trailing_zeros() as u64, w);
                return self.tbin(Op::LShr, w, a, s);
            }
            (Op::Mul, Some(k)) if k.is_power_of_two() => {
                let s = self.konst(k.trailing_zeros() as u64, w);
                return self.tbin(Op::Shl, w, a, s);
            }
            (Op::URem, Some(k)) if k.is_power_of_two() => {
                let s = self.konst(k - 1, w);
                return self.tbin(Op::And, w, a, s);
            }
            (Op::And, Some(k)) if w > 1 => {
                // contiguous mask -> extract + concat with zeros
                let tz = k.trailing_zeros();
                let run = (!(k >> tz)).trailing_zeros();
                if (k >> tz) == mask(run) {
                    let mut r = self.extract(a, tz, run);
                    if tz > 0 {
                        let z = self.konst(0, tz);
                        r = self.concat(r, z);
                    }
                    return self.zext(r, w);
                }
            }
            _ => {}
        }
        if a == b {
            match op {
                Op::And | Op::Or => return a,
                Op::Xor | Op::Sub => return self.konst(0, w),
                _ => {}
            }
        }
        if w == 1 {
            match op {
                Op::Xor | Op::Add | Op::Sub => {
                    if let Some(1) = kb {
                        return self.not(a);
                    }
                    let e = self.eq(a, b);
                    return self.not(e);
                }
                Op::And | Op::Or => {
                    let (x, y) = (self.g(a), self.g(b));
                    if (x.op == Op::Not && x.a == b) || (y.op == Op::Not && y.a == a) {
                        return self.konst((op == Op::Or) as u64, 1);
                    }
                    if x.op == op && (x.a == b || x.b == b) {
                        return a;
                    }
                    if y.op == op && (y.a == a || y.b == a) {
                        return b;
                    }
                }
                _ => {}
            }
        }
        // bitwise on concatenations: split
        if w > 1 && matches!(op, Op::And | Op::Or | Op::Xor) {
            let (x, y) = (self.g(a), self.g(b));
            let lo = if x.op == Op::Concat {
                Some(self.w(x.b))
            } else if y.op == Op::Concat {
                Some(self.w(y.b))
            } else {
                None
            };
            if let Some(lw) = lo {
                let (ah, al) = (self.extract(a, lw, w - lw), self.extract(a, 0, lw));
                let (bh, bl) = (self.extract(b, lw, w - lw), self.extract(b, 0, lw));
                let z = |s: &Self, p: u32, q: u32| s.is_k(p).is_some() || s.is_k(q).is_some();
                if z(self, ah, bh) || z(self, al, bl) {
                    let h = self.tbin(op, w - lw, ah, bh);
                    let l = self.tbin(op, lw, al, bl);
                    return self.concat(h, l);
                }
            }
        }
        // add of disjoint parts
        if op == Op::Add && w > 1 {
            let (x, y) = (self.g(a), self.g(b));
            if x.op == Op::Add && kb.is_some() {
                if let Some(k1) = self.is_k(x.b) {
                    let k = self.konst(k1.wrapping_add(kb.unwrap()), w);
                    return self.tbin(Op::Add, w, x.a, k);
                }
            }
            let _ = y;
        }
        if op == Op::Sub {
            if let Some(k) = kb {
                let k = self.konst(k.wrapping_neg(), w);
                return self.tbin(Op::Add, w, a, k);
            }
        }
        // push through ite with constant arms
        if let Some(r) = self.push_ite(a, b, |s, p, q| s.tbin(op, w, p, q)) {
            return r;
        }
        self.mk(op, w, a, b, 0, 0)
    }
    fn ite_consts(&self, t: u32, depth: u32) -> bool {
        let x = self.g(t);
        match x.op {
            Op::Const => true,
            Op::Ite if depth > 0 => self.ite_consts(x.b, depth - 1) && self.ite_consts(x.c, depth - 1),
            _ => false,
        }
    }
    fn push_ite(&mut self, a: u32, b: u32, f: impl Fn(&mut Self, u32, u32) -> u32 + Copy) -> Option<u32> {
        let (x, y) = (self.g(a), self.g(b));
        if x.op == Op::Ite && y.op == Op::Const && self.ite_consts(a, 8) {
            let p = f(self, x.b, b);
            let q = f(self, x.c, b);
            return Some(self.ite(x.a, p, q));
        }
        if y.op == Op::Ite && x.op == Op::Const && self.ite_consts(b, 8) {
            let p = f(self, a, y.b);
            let q = f(self, a, y.c);
            return Some(self.ite(y.a, p, q));
        }
        None
    }
    pub fn not(&mut self, a: u32) -> u32 {
        let x = self.g(a);
        match x.op {
            Op::Const => self.konst(x.k ^ 1, 1),
            Op::Not => x.a,
            _ => self.mk(Op::Not, 1, a, 0, 0, 0),
        }
    }
    pub fn eq(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return self.konst(1, 1);
        }
        let (ka, kb) = (self.is_k(a), self.is_k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst((x == y) as u64, 1);
        }
        let (a, b, kb) = if ka.is_some() { (b, a, ka) } else { (a, b, kb) };
        let w = self.w(a);
        let x = self.g(a);
        if w == 1 {
            if let Some(k) = kb {
                return if k == 1 { a } else { self.not(a) };
            }
        }
        if let Some(k) = kb {
            match x.op {
                Op::Add => {
                    if let Some(k1) = self.is_k(x.b) {
                        let c = self.konst(k.wrapping_sub(k1), w);
                        return self.eq(x.a, c);
                    }
                }
                Op::Xor => {
                    if let Some(k1) = self.is_k(x.b) {
                        let c = self.konst(k ^ k1, w);
                        return self.eq(x.a, c);
                    }
                }
                Op::Sub if k == 0 => return self.eq(x.a, x.b),
                Op::Concat => {
                    let lw = self.w(x.b);
                    let ch = self.konst(k >> lw, w - lw);
                    let cl = self.konst(k, lw);
                    let h = self.eq(x.a, ch);
                    let l = self.eq(x.b, cl);
                    return self.tbin(Op::And, 1, h, l);
                }
                Op::SExt => {
                    let iw = self.w(x.a);
                    if sx(k & mask(iw), iw) as u64 & mask(w) == k {
                        let c = self.konst(k, iw);
                        return self.eq(x.a, c);
                    } else {
                        return self.konst(0, 1);
                    }
                }
                Op::Ite => {
                    if self.is_k(x.b).is_some() || self.is_k(x.c).is_some() {
                        let p = self.eq(x.b, b);
                        let q = self.eq(x.c, b);
                        return self.ite(x.a, p, q);
                    }
                }
                _ => {}
            }
        } else {
            let y = self.g(b);
            if x.op == Op::Concat && y.op == Op::Concat && self.w(x.b) == self.w(y.b) {
                let h = self.eq(x.a, y.a);
                let l = self.eq(x.b, y.b);
                return self.tbin(Op::And, 1, h, l);
            }
        }
        let (a, b) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return self.konst(0, 1);
        }
        let w = self.w(a);
        let (ka, kb) = (self.is_k(a), self.is_k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst((x < y) as u64, 1);
        }
        if kb == Some(0) || ka == Some(mask(w)) {
            return self.konst(0, 1);
        }
        if kb == Some(1) {
            let z = self.konst(0, w);
            return self.eq(a, z);
        }
        if ka == Some(0) {
            let z = self.konst(0, w);
            let e = self.eq(b, z);
            return self.not(e);
        }
        if w == 1 {
            let na = self.not(a);
            return self.tbin(Op::And, 1, na, b);
        }
        let (x, y) = (self.g(a), self.g(b));
        if x.op == Op::Concat && self.is_k(x.a) == Some(0) {
            let lw = self.w(x.b);
            if let Some(k) = kb {
                if k > mask(lw) {
                    return self.konst(1, 1);
                }
                let c = self.konst(k, lw);
                return self.ult(x.b, c);
            }
            if y.op == Op::Concat && self.is_k(y.a) == Some(0) && self.w(y.b) == lw {
                return self.ult(x.b, y.b);
            }
        }
        if let Some(k) = ka {
            if y.op == Op::Concat && self.is_k(y.a) == Some(0) {
                let lw = self.w(y.b);
                if k >= mask(lw) {
                    return self.konst(0, 1);
                }
                let c = self.konst(k, lw);
                return self.ult(c, y.b);
            }
        }
        if let Some(r) = self.push_ite(a, b, |s, p, q| s.ult(p, q)) {
            return r;
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return self.konst(0, 1);
        }
        let w = self.w(a);
        let (ka, kb) = (self.is_k(a), self.is_k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst((sx(x, w) < sx(y, w)) as u64, 1);
        }
        if w == 1 {
            let nb = self.not(b);
            return self.tbin(Op::And, 1, a, nb);
        }
        let (x, y) = (self.g(a), self.g(b));
        // both non-negative by construction -> unsigned
        let nonneg = |s: &Self, t: &T, k: Option<u64>| {
            k.map_or(false, |k| k >> (w - 1) == 0)
                || (t.op == Op::Concat && s.is_k(t.a).map_or(false, |h| h >> (s.w(t.a) - 1) == 0))
        };
        if nonneg(self, &x, ka) && nonneg(self, &y, kb) {
            return self.ult(a, b);
        }
        if let Some(r) = self.push_ite(a, b, |s, p, q| s.slt(p, q)) {
            return r;
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if a == b {
            return a;
        }
        if let Some(k) = self.is_k(c) {
            return if k == 1 { a } else { b };
        }
        let x = self.g(c);
        if x.op == Op::Not {
            return self.ite(x.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_k(a), self.is_k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.tbin(Op::Or, 1, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.tbin(Op::And, 1, n, b);
                }
                (None, Some(0)) => return self.tbin(Op::And, 1, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.tbin(Op::Or, 1, n, a);
                }
                _ => {}
            }
        }
        let ga = self.g(a);
        if ga.op == Op::Ite && ga.a == c {
            return self.ite(c, ga.b, b);
        }
        let gb = self.g(b);
        if gb.op == Op::Ite && gb.a == c {
            return self.ite(c, a, gb.c);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn extract(&mut self, a: u32, lo: u32, w: u32) -> u32 {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw && w > 0);
        if w == aw {
            return a;
        }
        let x = self.g(a);
        match x.op {
            Op::Const => return self.konst(x.k >> lo, w),
            Op::Undef => return self.undef(w),
            Op::Extract => return self.extract(x.a, x.k as u32 + lo, w),
            Op::Concat => {
                let lw = self.w(x.b);
                if lo >= lw {
                    return self.extract(x.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(x.b, lo, w);
                }
                let l = self.extract(x.b, lo, lw - lo);
                let h = self.extract(x.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::SExt => {
                let iw = self.w(x.a);
                if lo + w <= iw {
                    return self.extract(x.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(x.a, w);
                }
            }
            Op::Ite if self.ite_consts(a, 8) => {
                let p = self.extract(x.b, lo, w);
                let q = self.extract(x.c, lo, w);
                return self.ite(x.a, p, q);
            }
            Op::And | Op::Or | Op::Xor => {
                let p = self.extract(x.a, lo, w);
                let q = self.extract(x.b, lo, w);
                return self.tbin(x.op, w, p, q);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let p = self.extract(x.a, 0, w);
                let q = self.extract(x.b, 0, w);
                return self.tbin(x.op, w, p, q);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u64)
    }
    pub fn concat(&mut self, h: u32, l: u32) -> u32 {
        let (x, y) = (self.g(h), self.g(l));
        let (hw, lw) = (x.w as u32, y.w as u32);
        let w = hw + lw;
        debug_assert!(w <= 64);
        if x.op == Op::Const && y.op == Op::Const {
            return self.konst((x.k << lw) | y.k, w);
        }
        if x.op == Op::Extract && y.op == Op::Extract && x.a == y.a && x.k == y.k + lw as u64 {
            return self.extract(x.a, y.k as u32, w);
        }
        // right-associate so that adjacent pieces merge
        if x.op == Op::Concat {
            let l2 = self.concat(x.b, l);
            return self.concat(x.a, l2);
        }
        if y.op == Op::Concat {
            let m = self.g(y.a);
            if x.op == Op::Const && m.op == Op::Const {
                let k = self.konst((x.k << m.w) | m.k, hw + m.w as u32);
                return self.mk(Op::Concat, w, k, y.b, 0, 0);
            }
            if x.op == Op::Extract && m.op == Op::Extract && x.a == m.a && x.k == m.k + m.w as u64 {
                let e = self.extract(x.a, m.k as u32, hw + m.w as u32);
                return self.concat(e, y.b);
            }
        }
        self.mk(Op::Concat, w, h, l, 0, 0)
    }
    pub fn zext(&mut self, a: u32, w: u32) -> u32 {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let x = self.g(a);
        if x.op == Op::Ite && self.ite_consts(a, 8) {
            let p = self.zext(x.b, w);
            let q = self.zext(x.c, w);
            return self.ite(x.a, p, q);
        }
        let z = self.konst(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: u32, w: u32) -> u32 {
        let x = self.g(a);
        let aw = x.w as u32;
        if aw == w {
            return a;
        }
        if x.op == Op::Const {
            return self.konst(sx(x.k, aw) as u64, w);
        }
        if x.op == Op::Undef {
            return self.undef(w);
        }
        if x.op == Op::Concat && self.is_k(x.a).map_or(false, |h| h >> (self.w(x.a) - 1) == 0) {
            return self.zext(a, w);
        }
        if x.op == Op::Ite && self.ite_consts(a, 8) {
            let p = self.sext(x.b, w);
            let q = self.sext(x.c, w);
            return self.ite(x.a, p, q);
        }
        if aw == 1 {
            let p = self.konst(!0, w);
            let q = self.konst(0, w);
            return self.ite(a, p, q);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }

    // ---- evaluation ------------------------------------------------------------------------
    pub fn eval(&self, t: u32, model: &[u64]) -> u64 {
        let x = &self.t[t as usize];
        let w = x.w as u32;
        match x.op {
            Op::Const => x.k,
            Op::Var => model.get(x.k as usize).copied().unwrap_or(0) & mask(w),
            Op::Undef => 0,
            Op::Not => self.eval(x.a, model) ^ 1,
            Op::Eq => (self.eval(x.a, model) == self.eval(x.b, model)) as u64,
            Op::Ult => (self.eval(x.a, model) < self.eval(x.b, model)) as u64,
            Op::Slt => {
                let iw = self.w(x.a);
                (sx(self.eval(x.a, model), iw) < sx(self.eval(x.b, model), iw)) as u64
            }
            Op::Ite => {
                if self.eval(x.a, model) == 1 {
                    self.eval(x.b, model)
                } else {
                    self.eval(x.c, model)
                }
            }
            Op::Concat => (self.eval(x.a, model) << self.w(x.b)) | self.eval(x.b, model),
            Op::Extract => (self.eval(x.a, model) >> x.k) & mask(w),
            Op::SExt => sx(self.eval(x.a, model), self.w(x.a)) as u64 & mask(w),
            _ => fold(x.op, w, self.eval(x.a, model), self.eval(x.b, model)),
        }
    }

    // ---- intervals -------------------------------------------------------------------------
    pub fn iv(&self, t: u32, ivs: &[(u64, u64)], d: u32) -> (u64, u64) {
        let x = &self.t[t as usize];
        let m = mask(x.w as u32);
        match x.op {
            Op::Const => (x.k, x.k),
            Op::Var => ivs.get(x.k as usize).copied().unwrap_or((0, m)),
            Op::Concat if self.is_k(x.a) == Some(0) => self.iv(x.b, ivs, d),
            Op::Ite if d > 0 => {
                let (a, b) = (self.iv(x.b, ivs, d - 1), self.iv(x.c, ivs, d - 1));
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ if x.w == 1 && d > 0 => match self.eval3(t, ivs, d - 1) {
                Some(true) => (1, 1),
                Some(false) => (0, 0),
                None => (0, 1),
            },
            _ => (0, m),
        }
    }
    /// three-valued evaluation of a width-1 term under variable intervals
    pub fn eval3(&self, t: u32, ivs: &[(u64, u64)], d: u32) -> Option<bool> {
        if d == 0 {
            return None;
        }
        let x = &self.t[t as usize];
        match x.op {
            Op::Const => Some(x.k == 1),
            Op::Not => self.eval3(x.a, ivs, d - 1).map(|b| !b),
            Op::And if x.w == 1 => match (self.eval3(x.a, ivs, d - 1), self.eval3(x.b, ivs, d - 1)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or if x.w == 1 => match (self.eval3(x.a, ivs, d - 1), self.eval3(x.b, ivs, d - 1)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Op::Ite if x.w == 1 => match self.eval3(x.a, ivs, d - 1) {
                Some(true) => self.eval3(x.b, ivs, d - 1),
                Some(false) => self.eval3(x.c, ivs, d - 1),
                None => match (self.eval3(x.b, ivs, d - 1), self.eval3(x.c, ivs, d - 1)) {
                    (Some(a), Some(b)) if a == b => Some(a),
                    _ => None,
                },
            },
            Op::Ult => {
                let (a, b) = (self.iv(x.a, ivs, d - 1), self.iv(x.b, ivs, d - 1));
                if a.1 < b.0 {
                    Some(true)
                } else if a.0 >= b.1 {
                    Some(false)
                } else {
                    None
                }
            }
            Op::Eq => {
                let (a, b) = (self.iv(x.a, ivs, d - 1), self.iv(x.b, ivs, d - 1));
                if a.1 < b.0 || b.1 < a.0 {
                    Some(false)
                } else if a.0 == a.1 && a == b {
                    Some(true)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn varish(&self, t: u32) -> Option<usize> {
        let x = &self.t[t as usize];
        match x.op {
            Op::Var => Some(x.k as usize),
            Op::Concat if self.is_k(x.a) == Some(0) => self.varish(x.b),
            _ => None,
        }
    }
    /// narrow the variable intervals by an assumption
    pub fn refine(&self, t: u32, val: bool, ivs: &mut Vec<(u64, u64)>) {
        let x = self.t[t as usize];
        match x.op {
            Op::Not => self.refine(x.a, !val, ivs),
            Op::And if x.w == 1 => {
                if val {
                    self.refine(x.a, true, ivs);
                    self.refine(x.b, true, ivs);
                } else if self.eval3(x.a, ivs, 8) == Some(true) {
                    self.refine(x.b, false, ivs);
                } else if self.eval3(x.b, ivs, 8) == Some(true) {
                    self.refine(x.a, false, ivs);
                }
            }
            Op::Or if x.w == 1 => {
                if !val {
                    self.refine(x.a, false, ivs);
                    self.refine(x.b, false, ivs);
                } else if self.eval3(x.a, ivs, 8) == Some(false) {
                    self.refine(x.b, true, ivs);
                } else if self.eval3(x.b, ivs, 8) == Some(false) {
                    self.refine(x.a, true, ivs);
                }
            }
            Op::Ult => {
                let (ia, ib) = (self.iv(x.a, ivs, 4), self.iv(x.b, ivs, 4));
                if let Some(v) = self.varish(x.a) {
                    let e = &mut ivs[v];
                    if val {
                        e.1 = e.1.min(ib.1.wrapping_sub(1));
                    } else {
                        e.0 = e.0.max(ib.0);
                    }
                }
                if let Some(v) = self.varish(x.b) {
                    let e = &mut ivs[v];
                    if val {
                        e.0 = e.0.max(ia.0 + 1);
                    } else {
                        e.1 = e.1.min(ia.1);
                    }
                }
            }
            Op::Eq => {
                let (ia, ib) = (self.iv(x.a, ivs, 4), self.iv(x.b, ivs, 4));
                for (s, o) in [(x.a, ib), (x.b, ia)] {
                    if let Some(v) = self.varish(s) {
                        let e = &mut ivs[v];
                        if val {
                            e.0 = e.0.max(o.0);
                            e.1 = e.1.min(o.1);
                        } else if o.0 == o.1 {
                            if e.0 == o.0 && e.0 < e.1 {
                                e.0 += 1;
                            } else if e.1 == o.0 && e.0 < e.1 {
                                e.1 -= 1;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    /// candidate assignments (var, value) likely to make the width-1 term `t` equal `val`
    pub fn suggest(&self, t: u32, val: bool, model: &[u64], out: &mut Vec<(usize, u64)>, d: u32) {
        if d == 0 {
            return;
        }
        let x = self.t[t as usize];
        match x.op {
            Op::Not => self.suggest(x.a, !val, model, out, d - 1),
            Op::And | Op::Or if x.w == 1 => {
                self.suggest(x.a, val, model, out, d - 1);
                self.suggest(x.b, val, model, out, d - 1);
            }
            Op::Eq | Op::Ult => {
                for (s, o, first) in [(x.a, x.b, true), (x.b, x.a, false)] {
                    if let Some(v) = self.varish(s) {
                        let ov = self.eval(o, model);
                        match (x.op, val, first) {
                            (Op::Eq, true, _) => out.push((v, ov)),
                            (Op::Eq, false, _) => {
                                out.push((v, ov.wrapping_add(1)));
                                out.push((v, ov.wrapping_sub(1)));
                            }
                            (_, true, true) => out.push((v, ov.wrapping_sub(1))),
                            (_, false, true) => {
                                out.push((v, ov));
                                out.push((v, ov.wrapping_add(1)));
                            }
                            (_, true, false) => out.push((v, ov.wrapping_add(1))),
                            (_, false, false) => {
                                out.push((v, ov));
                                out.push((v, ov.wrapping_sub(1)));
                            }
                        }
                    }
                }
            }
            _ => {
                if x.op == Op::Var && x.w == 1 {
                    out.push((x.k as usize, val as u64));
                }
            }
        }
    }
    /// replace every Undef leaf by a distinct fresh variable-like Undef (for dual-instance checks)
    pub fn rename_undef(&mut self, t: u32, memo: &mut HashMap<u32, u32>) -> u32 {
        if !self.meta_undef[t as usize] {
            return t;
        }
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let x = self.g(t);
        let r = if x.op == Op::Undef {
            self.undef(x.w as u32)
        } else {
            let a = if x.a != 0 { self.rename_undef(x.a, memo) } else { 0 };
            let b = if x.b != 0 { self.rename_undef(x.b, memo) } else { 0 };
            let c = if x.c != 0 { self.rename_undef(x.c, memo) } else { 0 };
            self.intern(T { a, b, c, ..x })
        };
        memo.insert(t, r);
        r
    }
}

pub fn fold(op: Op, w: u32, a: u64, b: u64) -> u64 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                0
            } else {
                sx(a, w).wrapping_div(sx(b, w)) as u64
            }
        }
        Op::SRem => {
            if b == 0 {
                0
            } else {
                sx(a, w).wrapping_rem(sx(b, w)) as u64
            }
        }
        Op::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => (sx(a, w) >> b.min(w as u64 - 1)) as u64,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Slt => (sx(a, w) < sx(b, w)) as u64,
        _ => unreachable!("fold {:?}", op),
    }) & if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { m }
}
