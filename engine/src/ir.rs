//! LLVM textual IR: module scan, lazy function parsing, compilation to a flat instruction form.
use crate::term::Op;
use std::collections::HashMap;
use std::sync::OnceLock;

pub const BASE_OFF: u64 = 0x4000_0000;
pub const FUNC0: u64 = 0x100000;
pub const STACK0: u64 = 0x200000;
pub const HEAP0: u64 = 0x400000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Struct(bool, Vec<Ty>),
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opn {
    R(u32),
    C(u64),
    U,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    pub moves: Box<[(u32, Opn)]>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Memcpy,
    Memmove,
    Memset,
    AddO,
    SubO,
    MulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    UCmp,
    SCmp,
    Ctpop,
    Ctlz,
    Cttz,
    Fshl,
    Fshr,
    Bswap,
    Bitreverse,
    Assume,
    Expect,
    IsConst,
    Nop,
    Trap,
    ThreadLocal,
    ObjSize,
    PtrMask,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Zext,
    Sext,
    Trunc,
    Same,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opn),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Box<[Opn]>,
    pub dst: u32,
    pub widths: Box<[u32]>, // widths of the returned leaves
    pub normal: Option<Edge>,
    pub unwind: Option<Edge>,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Op, w: u8, dst: u32, a: Opn, b: Opn, flags: u8 },
    Icmp { p: Pred, w: u8, dst: u32, a: Opn, b: Opn },
    Load { dst: u32, w: u8, p: Opn, off: u32, al: u32, atomic: bool },
    Store { v: Opn, w: u8, p: Opn, off: u32, al: u32, atomic: bool },
    Gep { dst: u32, base: Opn, off: u64, idx: Box<[(Opn, u8, u64)]> },
    Cast { k: CastK, dst: u32, from: u8, to: u8, a: Opn },
    /// vector bitcast between lane widths
    VCast { dst: u32, from: u8, to: u8, n: u32, a: Box<[Opn]> },
    Select { c: Opn, n: u32, dst: u32, ab: Box<[(Opn, Opn, u8)]>, ptrlike: bool },
    Move { ms: Box<[(u32, Opn)]> },
    Freeze { dst: u32, a: Opn },
    Alloca { dst: u32, off: u64 },
    Br(Edge),
    CondBr { c: Opn, t: Edge, f: Edge },
    Switch { v: Opn, w: u8, d: Edge, cases: Box<[(u64, Edge)]> },
    Ret(Box<[Opn]>),
    Call(Box<CallI>),
    Intr { k: Intr, w: u8, dst: u32, args: Box<[Opn]> },
    Rmw { op: u8, w: u8, dst: u32, p: Opn, v: Opn },
    CmpXchg { w: u8, dst: u32, p: Opn, cmp: Opn, new: Opn },
    LandingPad { dst: u32 },
    Resume,
    Unreachable,
    Unsupported(Box<str>),
}

pub struct Func {
    pub nslots: u32,
    pub nargs: u32,
    pub arg_widths: Vec<u32>,
    pub code: Vec<I>,
    pub entry: u32,
    pub frame_size: u64,
    pub allocas: Vec<(u64, u64)>,
}

pub struct FuncDecl {
    pub name: String,
    pub lines: (usize, usize), // header line and closing line, when defined
    pub defined: bool,
    pub header: (usize, usize), // byte range of the header line
    pub body: OnceLock<Result<Func, String>>,
    pub kind: OnceLock<crate::exec::FKind>,
}

pub struct GlobalDecl {
    pub name: String,
    pub line: (usize, usize),
    pub size: u64,
    pub constant: bool,
    pub data: Vec<u8>,
    pub flags: Vec<u8>,
    pub external: bool,
}

pub struct Module {
    pub text: String,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<GlobalDecl>,
    pub gmap: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
    pub line_start: Vec<usize>,
}

// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Id(&'a str),
    L(&'a str),
    G(&'a str),
    Int(i128),
    Flt(&'a str),
    CStr(&'a str),
    QStr(&'a str),
    P(u8),
    Meta,
    Attr,
}

fn lex<'a>(s: &'a str) -> Result<Vec<Tok<'a>>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\n' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let g = c == b'@';
                i += 1;
                let t;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += 1
                    }
                    t = &s[st..i];
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1
                    }
                    t = &s[st..i];
                }
                out.push(if g { Tok::G(t) } else { Tok::L(t) });
            }
            b'!' => {
                // metadata reference: !123, !"..", !{...}, !name
                i += 1;
                if i < b.len() && b[i] == b'{' {
                    let mut d = 0;
                    while i < b.len() {
                        if b[i] == b'{' {
                            d += 1
                        }
                        if b[i] == b'}' {
                            d -= 1;
                            if d == 0 {
                                i += 1;
                                break;
                            }
                        }
                        i += 1;
                    }
                } else if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1
                    }
                    i += 1;
                } else {
                    while i < b.len() && idc(b[i]) {
                        i += 1
                    }
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1
                }
                out.push(Tok::Attr);
            }
            b'"' => {
                let st = i + 1;
                i += 1;
                while b[i] != b'"' {
                    i += 1
                }
                out.push(Tok::QStr(&s[st..i]));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i += 2;
                while b[i] != b'"' {
                    i += 1
                }
                out.push(Tok::CStr(&s[st..i]));
                i += 1;
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && (idc(b[i]) || b[i] == b'+') && b[i] != b'-' {
                    i += 1
                }
                // exponent sign of floats
                let t = &s[st..i];
                if let Ok(v) = t.parse::<i128>() {
                    out.push(Tok::Int(v));
                } else if let Ok(v) = t.parse::<u128>() {
                    out.push(Tok::Int(v as i128));
                } else {
                    while i < b.len() && (idc(b[i]) || b[i] == b'+' || b[i] == b'-') {
                        i += 1
                    }
                    out.push(Tok::Flt(&s[st..i]));
                }
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1
                }
                out.push(Tok::Id(&s[st..i]));
            }
            b'.' => {
                // "..."
                i += 1;
                while i < b.len() && b[i] == b'.' {
                    i += 1
                }
                out.push(Tok::P(b'.'));
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
    }
    Ok(out)
}

pub fn size_align(t: &Ty) -> (u64, u64) {
    match t {
        Ty::Void | Ty::Other => (0, 1),
        Ty::Int(w) => {
            let s = ((*w as u64) + 7) / 8;
            let a = s.next_power_of_two().min(16);
            ((s + a - 1) / a * a, a)
        }
        Ty::Ptr => (8, 8),
        Ty::Float(w) => ((*w / 8) as u64, (*w / 8) as u64),
        Ty::Arr(n, e) => {
            let (s, a) = size_align(e);
            (n * s, a)
        }
        Ty::Vector(n, e) => {
            let w = match **e {
                Ty::Int(w) => w as u64,
                Ty::Ptr => 64,
                Ty::Float(w) => w as u64,
                _ => 8,
            };
            let s = ((n * w) + 7) / 8;
            let s = s.next_power_of_two();
            (s, s)
        }
        Ty::Struct(packed, f) => {
            let (mut o, mut al) = (0u64, 1u64);
            for x in f {
                let (s, a) = size_align(x);
                let a = if *packed { 1 } else { a };
                o = (o + a - 1) / a * a + s;
                al = al.max(a);
            }
            ((o + al - 1) / al * al, al)
        }
    }
}
fn field_off(packed: bool, f: &[Ty], i: usize) -> u64 {
    let mut o = 0;
    for (j, x) in f.iter().enumerate() {
        let (s, a) = size_align(x);
        let a = if packed { 1 } else { a };
        o = (o + a - 1) / a * a;
        if j == i {
            return o;
        }
        o += s;
    }
    o
}
fn nleaves(t: &Ty) -> u32 {
    match t {
        Ty::Void | Ty::Other => 0,
        Ty::Int(_) | Ty::Ptr | Ty::Float(_) => 1,
        Ty::Arr(n, e) | Ty::Vector(n, e) => *n as u32 * nleaves(e),
        Ty::Struct(_, f) => f.iter().map(nleaves).sum(),
    }
}
fn leaves(t: &Ty, base: u64, out: &mut Vec<(u64, u32)>) {
    match t {
        Ty::Void | Ty::Other => {}
        Ty::Int(w) => out.push((base, *w)),
        Ty::Ptr => out.push((base, 64)),
        Ty::Float(w) => out.push((base, *w)),
        Ty::Arr(n, e) => {
            let s = size_align(e).0;
            for i in 0..*n {
                leaves(e, base + i * s, out)
            }
        }
        Ty::Vector(n, e) => {
            let w = width(e) as u64;
            for i in 0..*n {
                leaves(e, base + i * w / 8, out)
            }
        }
        Ty::Struct(p, f) => {
            for (i, x) in f.iter().enumerate() {
                leaves(x, base + field_off(*p, f, i), out)
            }
        }
    }
}
fn width(t: &Ty) -> u32 {
    match t {
        Ty::Int(w) | Ty::Float(w) => *w,
        Ty::Ptr => 64,
        Ty::Vector(_, e) => width(e),
        _ => 0,
    }
}
pub fn lv(t: &Ty) -> Vec<(u64, u32)> {
    let mut v = vec![];
    leaves(t, 0, &mut v);
    v
}

struct Ps<'a, 'm> {
    t: Vec<Tok<'a>>,
    i: usize,
    m: &'m Module,
}
type R<T> = Result<T, String>;

const VALKW: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "ptrtoint", "inttoptr", "bitcast",
    "trunc", "sub", "add", "xor", "and", "or", "shl", "lshr", "mul", "addrspacecast", "splat", "blockaddress", "dso_local_equivalent",
    "no_cfi", "metadata", "asm", "ptrtoaddr",
];

impl<'a, 'm> Ps<'a, 'm> {
    fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok<'a>> {
        let r = self.t.get(self.i).cloned().ok_or("eof")?;
        self.i += 1;
        Ok(r)
    }
    fn p(&mut self, c: u8) -> R<()> {
        let t = self.next()?;
        if t == Tok::P(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?} at {}", c as char, t, self.i))
        }
    }
    fn isp(&self, c: u8) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn acc(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn accid(&mut self, s: &str) -> bool {
        if self.peek() == Some(&Tok::Id(unsafe { std::mem::transmute::<&str, &'a str>(s) })) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.p(b'(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn ty(&mut self) -> R<Ty> {
        let mut t = match self.next()? {
            Tok::Id(s) => match s {
                "void" => Ty::Void,
                "ptr" => {
                    if self.accid("addrspace") {
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "x86_fp80" => Ty::Float(80),
                "fp128" => Ty::Float(128),
                "label" | "metadata" | "token" | "opaque" => Ty::Other,
                s if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => Ty::Int(s[1..].parse().unwrap()),
                s => return Err(format!("type? {}", s)),
            },
            Tok::L(n) => self.m.types.get(n).cloned().ok_or_else(|| format!("unknown type %{}", n))?,
            Tok::P(b'[') => {
                let n = self.int()? as u64;
                if !self.accid("x") {
                    return Err("x".into());
                }
                let e = self.ty()?;
                self.p(b']')?;
                Ty::Arr(n, Box::new(e))
            }
            Tok::P(b'{') => {
                let mut f = vec![];
                while !self.isp(b'}') {
                    f.push(self.ty()?);
                    self.acc(b',');
                }
                self.p(b'}')?;
                Ty::Struct(false, f)
            }
            Tok::P(b'<') => {
                if self.isp(b'{') {
                    let r = self.ty()?;
                    self.p(b'>')?;
                    match r {
                        Ty::Struct(_, f) => Ty::Struct(true, f),
                        _ => return Err("packed".into()),
                    }
                } else {
                    let n = self.int()? as u64;
                    if !self.accid("x") {
                        return Err("x".into());
                    }
                    let e = self.ty()?;
                    self.p(b'>')?;
                    Ty::Vector(n, Box::new(e))
                }
            }
            t => return Err(format!("type? {:?}", t)),
        };
        // function types: RET (ARGS)
        if self.isp(b'(') {
            // only when what follows is a parameter type list; the callers that reach here with a value list do not
            let save = self.i;
            self.skip_parens()?;
            if matches!(self.peek(), Some(Tok::G(_)) | Some(Tok::L(_))) || matches!(self.peek(), Some(Tok::Id("asm"))) {
                t = t;
            } else {
                self.i = save;
            }
        }
        Ok(t)
    }
    fn int(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Int(i) => Ok(i),
            t => Err(format!("int? {:?}", t)),
        }
    }
    /// skip parameter attributes before a value
    fn attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) if !VALKW.contains(s) => {
                    let al = *s == "align";
                    self.i += 1;
                    if self.isp(b'(') {
                        self.skip_parens()?;
                    } else if al {
                        self.i += 1;
                    }
                }
                Some(Tok::QStr(_)) => {
                    self.i += 1;
                    if self.acc(b'=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn global_addr(&self, n: &str) -> R<u64> {
        if let Some(a) = self.m.aliases.get(n) {
            return self.global_addr(a);
        }
        if let Some(&g) = self.m.gmap.get(n) {
            return Ok(((g as u64 + 1) << 32) | BASE_OFF);
        }
        if let Some(&f) = self.m.fmap.get(n) {
            return Ok(((f as u64 + FUNC0) << 32) | BASE_OFF);
        }
        Err(format!("unknown global @{}", n))
    }
    /// scalar constant of integer/pointer type
    fn kscalar(&mut self) -> R<Option<u64>> {
        Ok(Some(match self.next()? {
            Tok::Int(i) => i as u64,
            Tok::Flt(s) => {
                if let Some(h) = s.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).unwrap_or(0)
                } else {
                    s.parse::<f64>().unwrap_or(0.0).to_bits()
                }
            }
            Tok::G(n) => self.global_addr(n)?,
            Tok::Id(s) => match s {
                "true" => 1,
                "false" | "null" | "zeroinitializer" | "none" => 0,
                "undef" | "poison" => return Ok(None),
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Id(_))) {
                        self.i += 1;
                        if self.isp(b'(') && matches!(self.t[self.i - 1], Tok::Id("inrange")) {
                            self.skip_parens()?;
                        }
                    }
                    self.p(b'(')?;
                    let ty = self.ty()?;
                    self.p(b',')?;
                    self.ty()?;
                    let base = self.kscalar()?.ok_or("undef gep")?;
                    let mut off = 0u64;
                    let mut cur = Ty::Arr(0, Box::new(ty));
                    while self.acc(b',') {
                        self.accid("inrange");
                        self.ty()?;
                        let k = self.kscalar()?.ok_or("undef gep")? as i64;
                        let (o, n) = step(&cur, k)?;
                        off = off.wrapping_add(o);
                        cur = n;
                    }
                    self.p(b')')?;
                    base.wrapping_add(off)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                    self.p(b'(')?;
                    self.ty()?;
                    let v = self.kscalar()?.ok_or("undef cast")?;
                    if !self.accid("to") {
                        return Err("to".into());
                    }
                    let t = self.ty()?;
                    self.p(b')')?;
                    v & crate::term::mask(width(&t))
                }
                "sub" | "add" | "xor" | "and" | "or" | "shl" | "lshr" | "mul" => {
                    while matches!(self.peek(), Some(Tok::Id(_))) {
                        self.i += 1;
                    }
                    self.p(b'(')?;
                    let t = self.ty()?;
                    let a = self.kscalar()?.ok_or("undef")?;
                    self.p(b',')?;
                    self.ty()?;
                    let b = self.kscalar()?.ok_or("undef")?;
                    self.p(b')')?;
                    let op = match s {
                        "sub" => Op::Sub,
                        "add" => Op::Add,
                        "xor" => Op::Xor,
                        "and" => Op::And,
                        "or" => Op::Or,
                        "shl" => Op::Shl,
                        "mul" => Op::Mul,
                        _ => Op::LShr,
                    };
                    crate::term::fold(op, width(&t), a, b)
                }
                "dso_local_equivalent" | "no_cfi" => return self.kscalar(),
                s => return Err(format!("const? {}", s)),
            },
            t => return Err(format!("const? {:?}", t)),
        }))
    }
    /// any constant, flattened
    fn konst(&mut self, ty: &Ty, out: &mut Vec<Opn>) -> R<()> {
        match self.peek() {
            Some(Tok::Id("zeroinitializer")) | Some(Tok::Id("null")) | Some(Tok::Id("none")) => {
                self.i += 1;
                for _ in 0..nleaves(ty) {
                    out.push(Opn::C(0));
                }
                return Ok(());
            }
            Some(Tok::Id("undef")) | Some(Tok::Id("poison")) => {
                self.i += 1;
                for _ in 0..nleaves(ty) {
                    out.push(Opn::U);
                }
                return Ok(());
            }
            Some(Tok::Id("splat")) => {
                self.i += 1;
                self.p(b'(')?;
                let t = self.ty()?;
                let mut o = vec![];
                self.konst(&t, &mut o)?;
                self.p(b')')?;
                for _ in 0..nleaves(ty) {
                    out.push(o[0]);
                }
                return Ok(());
            }
            _ => {}
        }
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = width(ty);
                out.push(match self.kscalar()? {
                    Some(v) => Opn::C(v & crate::term::mask(w)),
                    None => Opn::U,
                });
            }
            Ty::Arr(_, e) if matches!(self.peek(), Some(Tok::CStr(_))) => {
                if let Tok::CStr(s) = self.next()? {
                    let _ = e;
                    for b in cstr(s) {
                        out.push(Opn::C(b as u64));
                    }
                }
            }
            Ty::Arr(..) | Ty::Vector(..) | Ty::Struct(..) => {
                let mut depth = vec![];
                while let Some(Tok::P(c @ (b'[' | b'{' | b'<'))) = self.peek() {
                    depth.push(*c);
                    self.i += 1;
                    if depth.len() == 2 || (depth[0] != b'<') {
                        break;
                    }
                    if depth[0] == b'<' && !self.isp(b'{') {
                        break;
                    }
                }
                while !matches!(self.peek(), Some(Tok::P(b']' | b'}' | b'>'))) {
                    let t = self.ty()?;
                    self.konst(&t, out)?;
                    self.acc(b',');
                }
                for _ in 0..depth.len() {
                    self.i += 1;
                }
            }
            _ => return Err(format!("konst {:?}", ty)),
        }
        Ok(())
    }
}
fn cstr(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
fn step(cur: &Ty, k: i64) -> R<(u64, Ty)> {
    match cur {
        Ty::Arr(_, e) => Ok(((size_align(e).0 as i64).wrapping_mul(k) as u64, (**e).clone())),
        Ty::Vector(_, e) => Ok(((width(e) as i64 / 8).wrapping_mul(k) as u64, (**e).clone())),
        Ty::Struct(p, f) => Ok((field_off(*p, f, k as usize), f[k as usize].clone())),
        _ => Err("gep into scalar".into()),
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut m = Module {
            text,
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
            line_start: vec![],
        };
        let text = std::mem::take(&mut m.text);
        let mut pos = 0;
        let mut infn: Option<usize> = None;
        let mut typelines = vec![];
        let mut ln = 0usize;
        while pos < text.len() {
            m.line_start.push(pos);
            let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(text.len());
            let line = &text[pos..e];
            if let Some(f) = infn {
                if line == "}" {
                    m.funcs[f].lines.1 = ln;
                    infn = None;
                }
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let at = find_fn_name(line).ok_or_else(|| format!("fn name: {}", &line[..line.len().min(200)]))?;
                let def = line.starts_with("define ");
                let idx = m.funcs.len();
                m.fmap.insert(at.clone(), idx as u32);
                m.funcs.push(FuncDecl {
                    name: at,
                    lines: (ln, ln),
                    defined: def,
                    header: (pos, e),
                    body: OnceLock::new(),
                    kind: OnceLock::new(),
                });
                if def {
                    infn = Some(idx);
                }
            } else if line.starts_with('@') {
                let (name, rest) = gname(line);
                if let Some(r) = rest.strip_prefix(" = ") {
                    if r.contains(" alias ") || r.starts_with("alias ") {
                        if let Some(p) = r.rfind('@') {
                            let (n, _) = gname(&r[p..]);
                            m.aliases.insert(name, n);
                        }
                    } else {
                        m.gmap.insert(name.clone(), m.globals.len() as u32);
                        m.globals.push(GlobalDecl {
                            name,
                            line: (pos, e),
                            size: 0,
                            constant: false,
                            data: vec![],
                            flags: vec![],
                            external: false,
                        });
                    }
                }
            } else if line.starts_with('%') {
                typelines.push((pos, e));
            }
            pos = e + 1;
            ln += 1;
        }
        m.line_start.push(text.len());
        // named types (iterate until resolved)
        for _ in 0..10 {
            let mut done = true;
            for &(a, b) in &typelines {
                let l = &text[a..b];
                let t = lex(l)?;
                let name = match &t[0] {
                    Tok::L(n) => n.to_string(),
                    _ => continue,
                };
                if m.types.contains_key(&name) {
                    continue;
                }
                let mut p = Ps { t, i: 3, m: &m };
                match p.ty() {
                    Ok(ty) => {
                        m.types.insert(name, ty);
                    }
                    Err(_) => done = false,
                }
            }
            if done {
                break;
            }
        }
        // globals
        for gi in 0..m.globals.len() {
            let (a, b) = m.globals[gi].line;
            let r = (|| -> R<(bool, u64, Vec<u8>, Vec<u8>, bool)> {
                let t = lex(&text[a..b])?;
                let mut p = Ps { t, i: 2, m: &m };
                let mut external = false;
                let constant;
                loop {
                    match p.next()? {
                        Tok::Id("global") => {
                            constant = false;
                            break;
                        }
                        Tok::Id("constant") => {
                            constant = true;
                            break;
                        }
                        Tok::Id("external") | Tok::Id("extern_weak") => external = true,
                        _ => {}
                    }
                }
                let ty = p.ty()?;
                let size = size_align(&ty).0;
                let mut data = vec![0u8; size as usize];
                let mut flags = vec![1u8; size as usize];
                if !external {
                    let mut ks = vec![];
                    p.konst(&ty, &mut ks)?;
                    for ((off, w), k) in lv(&ty).into_iter().zip(ks) {
                        let n = ((w + 7) / 8) as usize;
                        match k {
                            Opn::C(v) => {
                                for j in 0..n {
                                    data[off as usize + j] = if j < 8 { (v >> (8 * j)) as u8 } else { 0 };
                                }
                            }
                            _ => {
                                for j in 0..n {
                                    flags[off as usize + j] = 0;
                                }
                            }
                        }
                    }
                }
                Ok((constant, size, data, flags, external))
            })();
            let g = &mut m.globals[gi];
            match r {
                Ok((c, s, d, f, e)) => {
                    g.constant = c;
                    g.size = s;
                    g.data = d;
                    g.flags = f;
                    g.external = e;
                }
                Err(e) => {
                    g.external = true;
                    if std::env::var("SYMX_DEBUG").is_ok() {
                        eprintln!("global {}: {}", g.name, e);
                    }
                }
            }
        }
        m.text = text;
        Ok(m)
    }

    pub fn body(&self, f: u32) -> Result<&Func, &String> {
        self.funcs[f as usize].body.get_or_init(|| self.parse_func(f)).as_ref()
    }

    fn parse_func(&self, fi: u32) -> R<Func> {
        let d = &self.funcs[fi as usize];
        let header = &self.text[d.header.0..d.header.1];
        let mut slots: HashMap<&str, (u32, Ty)> = HashMap::new();
        let mut nslots = 0u32;
        // header
        let ht = lex(header)?;
        let at = ht.iter().position(|t| matches!(t, Tok::G(n) if *n == d.name)).ok_or("hdr")?;
        let mut p = Ps { t: ht, i: at + 1, m: self };
        p.p(b'(')?;
        let mut arg_widths = vec![];
        while !p.isp(b')') {
            if p.acc(b'.') {
                continue;
            }
            let ty = p.ty()?;
            p.attrs()?;
            let name = match p.next()? {
                Tok::L(n) => n,
                t => return Err(format!("arg {:?}", t)),
            };
            for (_, w) in lv(&ty) {
                arg_widths.push(w);
            }
            let n = nleaves(&ty);
            slots.insert(name, (nslots, ty));
            nslots += n;
            p.acc(b',');
        }
        let nargs = nslots;
        // gather instruction texts per block
        struct Blk<'a> {
            name: &'a str,
            ins: Vec<&'a str>,
        }
        let mut blocks: Vec<Blk> = vec![];
        let mut l = d.lines.0 + 1;
        let entry_default = "\u{1}entry";
        let mut start: Option<(usize, usize)> = None;
        let flush = |blocks: &mut Vec<Blk>, s: &mut Option<(usize, usize)>, this: &Self| {
            if let Some((a, b)) = s.take() {
                let t: &str = &this.text[a..b];
                let t: &'static str = unsafe { std::mem::transmute(t) };
                if blocks.is_empty() {
                    blocks.push(Blk { name: entry_default, ins: vec![] });
                }
                blocks.last_mut().unwrap().ins.push(t);
            }
        };
        while l < d.lines.1 {
            let (a, b) = (self.line_start[l], self.line_start[l + 1] - 1);
            let line = &self.text[a..b];
            l += 1;
            if line.is_empty() || line.trim_start().starts_with(';') {
                continue;
            }
            if line.starts_with("  ") {
                let c = line.as_bytes()[2];
                if c != b' ' && c != b']' {
                    if line.starts_with("  #dbg_") {
                        flush(&mut blocks, &mut start, self);
                        continue;
                    }
                    flush(&mut blocks, &mut start, self);
                    start = Some((a, b));
                } else if let Some(s) = &mut start {
                    s.1 = b;
                }
            } else {
                flush(&mut blocks, &mut start, self);
                // label
                let name = if line.starts_with('"') {
                    let e = line[1..].find('"').ok_or("label")? + 1;
                    &line[1..e]
                } else {
                    let e = line.find(':').ok_or_else(|| format!("label {}", line))?;
                    &line[..e]
                };
                blocks.push(Blk { name, ins: vec![] });
            }
        }
        flush(&mut blocks, &mut start, self);
        let mut bidx: HashMap<&str, usize> = HashMap::new();
        for (i, b) in blocks.iter().enumerate() {
            bidx.insert(b.name, i);
        }
        // lex everything and assign result slots (needs result types)
        let mut toks: Vec<Vec<Vec<Tok>>> = vec![];
        for b in &blocks {
            let mut v = vec![];
            for s in &b.ins {
                v.push(lex(s)?);
            }
            toks.push(v);
        }
        // The entry block may be referred to by its implicit number.
        if blocks[0].name == entry_default {
            // number = count of unnamed args
            let n = slots.keys().filter(|k| k.parse::<u32>().is_ok()).count();
            let s: &'static str = Box::leak(n.to_string().into_boxed_str());
            bidx.insert(s, 0);
        }
        let mut c = Comp {
            m: self,
            slots,
            nslots,
            frame: 0,
            allocas: vec![],
        };
        // pass 1: result types. Instructions whose type depends on operands (extractvalue...) carry explicit types.
        let mut bad: HashMap<(usize, usize), String> = HashMap::new();
        for (bi, v) in toks.iter().enumerate() {
            for (ii, t) in v.iter().enumerate() {
                if let (Some(Tok::L(n)), Some(Tok::P(b'='))) = (t.get(0), t.get(1)) {
                    match c.result_type(&t[2..]) {
                        Ok(ty) => {
                            let k = nleaves(&ty);
                            let s = c.nslots;
                            c.slots.insert(n, (s, ty));
                            c.nslots += k;
                        }
                        Err(e) => {
                            bad.insert((bi, ii), e);
                            c.slots.insert(n, (c.nslots, Ty::Int(64)));
                            c.nslots += 1;
                        }
                    }
                }
            }
        }
        // phis per block: dst slot list and per predecessor values
        let mut phis: Vec<Vec<(u32, Vec<(usize, Vec<Opn>)>)>> = vec![vec![]; blocks.len()];
        for (bi, v) in toks.iter().enumerate() {
            for t in v.iter() {
                if t.len() > 3 && t[2] == Tok::Id("phi") {
                    let name = match &t[0] {
                        Tok::L(n) => *n,
                        _ => return Err("phi".into()),
                    };
                    let mut p = Ps { t: t[3..].to_vec(), i: 0, m: self };
                    while let Some(Tok::Id("fast" | "nnan" | "nsz" | "ninf" | "contract" | "reassoc" | "afn" | "arcp")) = p.peek() {
                        p.i += 1;
                    }
                    let ty = p.ty()?;
                    let mut inc = vec![];
                    while p.acc(b'[') {
                        let v = c.value(&mut p, &ty)?;
                        p.p(b',')?;
                        let l = match p.next()? {
                            Tok::L(n) => n,
                            t => return Err(format!("phi {:?}", t)),
                        };
                        p.p(b']')?;
                        p.acc(b',');
                        let bb = *bidx.get(l).ok_or_else(|| format!("phi label {}", l))?;
                        inc.push((bb, v));
                    }
                    let s = c.slots[name].0;
                    phis[bi].push((s, inc));
                }
            }
        }
        let edge = |from: usize, to: &str, bidx: &HashMap<&str, usize>, phis: &Vec<Vec<(u32, Vec<(usize, Vec<Opn>)>)>>| -> R<Edge> {
            let tb = *bidx.get(to).ok_or_else(|| format!("label {}", to))?;
            let mut ms = vec![];
            for (s, inc) in &phis[tb] {
                let (_, v) = inc.iter().find(|(b, _)| *b == from).ok_or("phi pred")?;
                for (j, o) in v.iter().enumerate() {
                    let d = s + j as u32;
                    if *o != Opn::R(d) {
                        ms.push((d, *o));
                    }
                }
            }
            Ok(Edge { to: tb as u32, moves: ms.into() })
        };
        let mut code: Vec<I> = vec![];
        let mut starts = vec![0u32; blocks.len()];
        for bi in 0..blocks.len() {
            starts[bi] = code.len() as u32;
            for (ii, t) in toks[bi].iter().enumerate() {
                if let Some(e) = bad.get(&(bi, ii)) {
                    code.push(I::Unsupported(format!("{}: {}", e, blocks[bi].ins[ii]).into()));
                    continue;
                }
                let before = code.len();
                if let Err(e) = c.inst(t, bi, &bidx, &phis, &edge, &mut code) {
                    code.truncate(before);
                    code.push(I::Unsupported(format!("{}: {}", e, blocks[bi].ins[ii]).into()));
                }
            }
        }
        // resolve edges to code positions
        for i in code.iter_mut() {
            let fix = |e: &mut Edge| e.to = starts[e.to as usize];
            match i {
                I::Br(e) => fix(e),
                I::CondBr { t, f, .. } => {
                    fix(t);
                    fix(f);
                }
                I::Switch { d, cases, .. } => {
                    fix(d);
                    for c in cases.iter_mut() {
                        fix(&mut c.1);
                    }
                }
                I::Call(c) => {
                    if let Some(e) = &mut c.normal {
                        fix(e)
                    }
                    if let Some(e) = &mut c.unwind {
                        fix(e)
                    }
                }
                _ => {}
            }
        }
        Ok(Func {
            nslots: c.nslots,
            nargs,
            arg_widths,
            code,
            entry: 0,
            frame_size: c.frame,
            allocas: c.allocas,
        })
    }
}

fn gname(l: &str) -> (String, &str) {
    let b = l.as_bytes();
    if b[1] == b'"' {
        let e = l[2..].find('"').unwrap() + 2;
        (l[2..e].to_string(), &l[e + 1..])
    } else {
        let e = l[1..].find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).map(|x| x + 1).unwrap_or(l.len());
        (l[1..e].to_string(), &l[e..])
    }
}
fn find_fn_name(l: &str) -> Option<String> {
    // the first @name directly followed by '('
    let b = l.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'@' {
            let (n, rest) = gname(&l[i..]);
            if rest.starts_with('(') {
                return Some(n);
            }
            i += 1 + n.len();
        } else {
            i += 1;
        }
    }
    None
}

struct Comp<'a, 'm> {
    m: &'m Module,
    slots: HashMap<&'a str, (u32, Ty)>,
    nslots: u32,
    frame: u64,
    allocas: Vec<(u64, u64)>,
}

const FASTMATH: &[&str] = &["fast", "nnan", "nsz", "ninf", "contract", "reassoc", "afn", "arcp"];

impl<'a, 'm> Comp<'a, 'm> {
    fn value(&self, p: &mut Ps<'_, 'm>, ty: &Ty) -> R<Vec<Opn>> {
        match p.peek() {
            Some(Tok::L(n)) => {
                let (s, t) = self.slots.get(n).ok_or_else(|| format!("unknown %{}", n))?;
                let k = nleaves(t);
                let v = (0..k).map(|i| Opn::R(s + i)).collect();
                p.i += 1;
                Ok(v)
            }
            _ => {
                let mut o = vec![];
                p.konst(ty, &mut o)?;
                Ok(o)
            }
        }
    }
    fn scalar(&self, p: &mut Ps<'_, 'm>, ty: &Ty) -> R<Opn> {
        if width(ty) > 64 {
            return Err("wide scalar".into());
        }
        let v = self.value(p, ty)?;
        if v.len() != 1 {
            return Err("not scalar".into());
        }
        Ok(v[0])
    }
    fn result_type(&self, t: &[Tok<'a>]) -> R<Ty> {
        let mut p = Ps { t: t.to_vec(), i: 0, m: self.m };
        let op = match p.next()? {
            Tok::Id(s) => s,
            t => return Err(format!("op {:?}", t)),
        };
        let flags = |p: &mut Ps| {
            while let Some(Tok::Id(s)) = p.peek() {
                if ["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "volatile", "atomic", "inalloca", "tail", "weak"].contains(s)
                    || FASTMATH.contains(s)
                {
                    p.i += 1;
                } else {
                    break;
                }
            }
        };
        Ok(match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "load" | "phi"
            | "freeze" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                flags(&mut p);
                p.ty()?
            }
            "icmp" | "fcmp" => {
                flags(&mut p);
                p.next()?;
                match p.ty()? {
                    Ty::Vector(n, _) => Ty::Vector(n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                }
            }
            "getelementptr" | "alloca" => Ty::Ptr,
            "select" => {
                flags(&mut p);
                // select COND, T a, T b : skip the condition
                p.ty()?;
                let mut d = 0;
                loop {
                    match p.next()? {
                        Tok::P(b',') if d == 0 => break,
                        Tok::P(b'<' | b'(' | b'{' | b'[') => d += 1,
                        Tok::P(b'>' | b')' | b'}' | b']') => d -= 1,
                        _ => {}
                    }
                }
                p.ty()?
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "uitofp" | "sitofp" | "fptoui" | "fptosi"
            | "fpext" | "fptrunc" | "ptrtoaddr" => {
                let k = p.t.iter().rposition(|t| *t == Tok::Id("to")).ok_or("to")?;
                p.i = k + 1;
                p.ty()?
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" {
                    p.next()?;
                }
                self.call_prefix(&mut p)?;
                p.ty()?
            }
            "extractvalue" => {
                let mut ty = p.ty()?;
                let k = p.t.iter().rposition(|t| !matches!(t, Tok::Int(_) | Tok::P(b',') | Tok::Meta)).ok_or("ev")?;
                // indices come after the aggregate operand
                let mut q = Ps { t: p.t[k + 1..].to_vec(), i: 0, m: self.m };
                while q.acc(b',') {
                    if let Some(Tok::Int(i)) = q.peek().cloned() {
                        q.i += 1;
                        ty = match ty {
                            Ty::Struct(_, f) => f[i as usize].clone(),
                            Ty::Arr(_, e) => *e,
                            _ => return Err("ev".into()),
                        };
                    } else {
                        break;
                    }
                }
                ty
            }
            "insertvalue" => p.ty()?,
            "landingpad" => p.ty()?,
            "atomicrmw" => {
                let k = p.t.iter().position(|t| *t == Tok::P(b',')).ok_or("rmw")?;
                p.i = k + 1;
                p.ty()?
            }
            "cmpxchg" => {
                let k = p.t.iter().position(|t| *t == Tok::P(b',')).ok_or("cx")?;
                p.i = k + 1;
                Ty::Struct(false, vec![p.ty()?, Ty::Int(1)])
            }
            "extractelement" => match p.ty()? {
                Ty::Vector(_, e) => *e,
                _ => return Err("ee".into()),
            },
            "insertelement" => p.ty()?,
            "shufflevector" => {
                let e = match p.ty()? {
                    Ty::Vector(_, e) => e,
                    _ => return Err("sv".into()),
                };
                // mask type: last "<N x i32>"
                let mut n = None;
                for i in 0..p.t.len().saturating_sub(3) {
                    if let (Tok::P(b'<'), Tok::Int(k), Tok::Id("x"), Tok::Id("i32")) = (&p.t[i], &p.t[i + 1], &p.t[i + 2], &p.t[i + 3]) {
                        n = Some(*k as u64);
                    }
                }
                Ty::Vector(n.ok_or("sv")?, e)
            }
            "va_arg" | _ => return Err(format!("opcode {}", op)),
        })
    }
    fn call_prefix(&self, p: &mut Ps<'_, 'm>) -> R<()> {
        loop {
            match p.peek() {
                Some(Tok::Id(s)) if FASTMATH.contains(s) => p.i += 1,
                Some(Tok::Id(s))
                    if s.ends_with("cc")
                        || [
                            "noundef", "nonnull", "noalias", "zeroext", "signext", "inreg", "align", "dereferenceable", "range", "dereferenceable_or_null", "nofpclass",
                            "addrspace", "cc", "noext",
                        ]
                        .contains(s) =>
                {
                    let s = *s;
                    p.i += 1;
                    if p.isp(b'(') {
                        p.skip_parens()?;
                    } else if s == "align" || s == "cc" {
                        p.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn inst(
        &mut self,
        t: &[Tok<'a>],
        bi: usize,
        bidx: &HashMap<&str, usize>,
        phis: &Vec<Vec<(u32, Vec<(usize, Vec<Opn>)>)>>,
        edge: &dyn Fn(usize, &str, &HashMap<&str, usize>, &Vec<Vec<(u32, Vec<(usize, Vec<Opn>)>)>>) -> R<Edge>,
        code: &mut Vec<I>,
    ) -> R<()> {
        let (dst, dty, st) = if let (Some(Tok::L(n)), Some(Tok::P(b'='))) = (t.get(0), t.get(1)) {
            let (s, ty) = self.slots[n].clone();
            (s, ty, 2)
        } else {
            (0, Ty::Void, 0)
        };
        let mut p = Ps { t: t[st..].to_vec(), i: 0, m: self.m };
        let op = match p.next()? {
            Tok::Id(s) => s,
            t => return Err(format!("op {:?}", t)),
        };
        let label = |p: &mut Ps<'_, 'm>| -> R<Edge> {
            if !p.accid("label") {
                return Err("label".into());
            }
            match p.next()? {
                Tok::L(n) => edge(bi, n, bidx, phis),
                t => Err(format!("label {:?}", t)),
            }
        };
        match op {
            "phi" => {}
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let mut flags = 0;
                while let Some(Tok::Id(s)) = p.peek() {
                    match *s {
                        "nuw" => flags |= 1,
                        "nsw" => flags |= 2,
                        "exact" | "disjoint" => {}
                        _ => break,
                    }
                    p.i += 1;
                }
                let ty = p.ty()?;
                let a = self.value(&mut p, &ty)?;
                p.p(b',')?;
                let b = self.value(&mut p, &ty)?;
                let o = match op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "and" => Op::And,
                    "or" => Op::Or,
                    _ => Op::Xor,
                };
                let w = width(&ty);
                if w > 64 {
                    return Err("wide".into());
                }
                for (i, (a, b)) in a.into_iter().zip(b).enumerate() {
                    code.push(I::Bin { op: o, w: w as u8, dst: dst + i as u32, a, b, flags });
                }
            }
            "icmp" => {
                while p.accid("samesign") {}
                let pr = match p.next()? {
                    Tok::Id(s) => match s {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        s => return Err(format!("icmp {}", s)),
                    },
                    t => return Err(format!("icmp {:?}", t)),
                };
                let ty = p.ty()?;
                let a = self.value(&mut p, &ty)?;
                p.p(b',')?;
                let b = self.value(&mut p, &ty)?;
                let w = width(&ty);
                if w > 64 {
                    return Err("wide".into());
                }
                for (i, (a, b)) in a.into_iter().zip(b).enumerate() {
                    code.push(I::Icmp { p: pr, w: w as u8, dst: dst + i as u32, a, b });
                }
            }
            "load" => {
                let mut atomic = false;
                loop {
                    if p.accid("atomic") {
                        atomic = true;
                    } else if !p.accid("volatile") {
                        break;
                    }
                }
                let ty = p.ty()?;
                p.p(b',')?;
                p.ty()?;
                let ptr = self.scalar(&mut p, &Ty::Ptr)?;
                let al = self.align(&p);
                for (i, (off, w)) in lv(&ty).into_iter().enumerate() {
                    if w > 64 {
                        return Err("wide load".into());
                    }
                    code.push(I::Load { dst: dst + i as u32, w: w as u8, p: ptr, off: off as u32, al: if off == 0 { al } else { 1 }, atomic });
                }
            }
            "store" => {
                let mut atomic = false;
                loop {
                    if p.accid("atomic") {
                        atomic = true;
                    } else if !p.accid("volatile") {
                        break;
                    }
                }
                let ty = p.ty()?;
                let v = self.value(&mut p, &ty)?;
                p.p(b',')?;
                p.ty()?;
                let ptr = self.scalar(&mut p, &Ty::Ptr)?;
                let al = self.align(&p);
                for ((off, w), v) in lv(&ty).into_iter().zip(v) {
                    if w > 64 {
                        return Err("wide store".into());
                    }
                    code.push(I::Store { v, w: w as u8, p: ptr, off: off as u32, al: if off == 0 { al } else { 1 }, atomic });
                }
            }
            "getelementptr" => {
                while let Some(Tok::Id("inbounds" | "nuw" | "nusw")) = p.peek() {
                    p.i += 1;
                }
                let ty = p.ty()?;
                p.p(b',')?;
                if p.ty()? != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let base = self.scalar(&mut p, &Ty::Ptr)?;
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = Ty::Arr(0, Box::new(ty));
                while p.acc(b',') {
                    if p.peek() == Some(&Tok::Meta) || matches!(p.peek(), Some(Tok::P(b'!'))) {
                        break;
                    }
                    let it = p.ty()?;
                    let v = self.scalar(&mut p, &it)?;
                    match v {
                        Opn::C(k) => {
                            let (o, n) = step(&cur, crate::term::sx(k, width(&it)))?;
                            off = off.wrapping_add(o);
                            cur = n;
                        }
                        v => {
                            let (sc, n) = match &cur {
                                Ty::Arr(_, e) => (size_align(e).0, (**e).clone()),
                                Ty::Vector(_, e) => (width(e) as u64 / 8, (**e).clone()),
                                _ => return Err("gep var struct".into()),
                            };
                            idx.push((v, width(&it) as u8, sc));
                            cur = n;
                        }
                    }
                }
                code.push(I::Gep { dst, base, off, idx: idx.into() });
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                while let Some(Tok::Id("nneg" | "nuw" | "nsw")) = p.peek() {
                    p.i += 1;
                }
                let ty = p.ty()?;
                let v = self.value(&mut p, &ty)?;
                let (fw, tw) = (width(&ty), width(&dty));
                if fw > 64 || tw > 64 || fw == 0 || tw == 0 {
                    return Err("wide cast".into());
                }
                if op == "bitcast" && fw != tw {
                    let n = nleaves(&dty);
                    if v.len() as u32 * fw != n * tw || fw.max(tw) % fw.min(tw) != 0 {
                        return Err("vector bitcast".into());
                    }
                    code.push(I::VCast { dst, from: fw as u8, to: tw as u8, n, a: v.into() });
                    return Ok(());
                }
                let k = match op {
                    "sext" => CastK::Sext,
                    _ if tw > fw => CastK::Zext,
                    _ if tw < fw => CastK::Trunc,
                    _ => CastK::Same,
                };
                for (i, a) in v.into_iter().enumerate() {
                    code.push(I::Cast { k, dst: dst + i as u32, from: fw as u8, to: tw as u8, a });
                }
            }
            "freeze" => {
                let ty = p.ty()?;
                let v = self.value(&mut p, &ty)?;
                for (i, a) in v.into_iter().enumerate() {
                    code.push(I::Freeze { dst: dst + i as u32, a });
                }
            }
            "select" => {
                while let Some(Tok::Id(s)) = p.peek() {
                    if FASTMATH.contains(s) {
                        p.i += 1
                    } else {
                        break;
                    }
                }
                let ct = p.ty()?;
                let c = self.value(&mut p, &ct)?;
                p.p(b',')?;
                let ty = p.ty()?;
                let a = self.value(&mut p, &ty)?;
                p.p(b',')?;
                p.ty()?;
                let b = self.value(&mut p, &ty)?;
                let ws: Vec<u32> = lv(&ty).iter().map(|x| x.1).collect();
                if c.len() == 1 {
                    let ptrlike = ws.iter().any(|w| *w == 64);
                    let ab: Vec<_> = a.into_iter().zip(b).zip(ws).map(|((a, b), w)| (a, b, w as u8)).collect();
                    code.push(I::Select { c: c[0], n: ab.len() as u32, dst, ab: ab.into(), ptrlike });
                } else {
                    for i in 0..c.len() {
                        code.push(I::Select { c: c[i], n: 1, dst: dst + i as u32, ab: vec![(a[i], b[i], ws[i] as u8)].into(), ptrlike: false });
                    }
                }
            }
            "extractvalue" => {
                let mut ty = p.ty()?;
                let v = self.value(&mut p, &ty)?;
                let mut o = 0u32;
                while p.acc(b',') {
                    let i = match p.peek() {
                        Some(Tok::Int(i)) => *i as usize,
                        _ => break,
                    };
                    p.i += 1;
                    ty = match ty {
                        Ty::Struct(_, f) => {
                            o += f[..i].iter().map(nleaves).sum::<u32>();
                            f[i].clone()
                        }
                        Ty::Arr(_, e) => {
                            o += nleaves(&e) * i as u32;
                            *e
                        }
                        _ => return Err("ev".into()),
                    };
                }
                let n = nleaves(&ty);
                code.push(I::Move { ms: (0..n).map(|i| (dst + i, v[(o + i) as usize])).collect() });
            }
            "insertvalue" => {
                let mut ty = p.ty()?;
                let mut v = self.value(&mut p, &ty)?;
                p.p(b',')?;
                let ety = p.ty()?;
                let e = self.value(&mut p, &ety)?;
                let mut o = 0u32;
                while p.acc(b',') {
                    let i = match p.peek() {
                        Some(Tok::Int(i)) => *i as usize,
                        _ => break,
                    };
                    p.i += 1;
                    ty = match ty {
                        Ty::Struct(_, f) => {
                            o += f[..i].iter().map(nleaves).sum::<u32>();
                            f[i].clone()
                        }
                        Ty::Arr(_, e) => {
                            o += nleaves(&e) * i as u32;
                            *e
                        }
                        _ => return Err("iv".into()),
                    };
                }
                for (i, x) in e.into_iter().enumerate() {
                    v[o as usize + i] = x;
                }
                code.push(I::Move { ms: v.into_iter().enumerate().map(|(i, x)| (dst + i as u32, x)).collect() });
            }
            "extractelement" => {
                let ty = p.ty()?;
                let v = self.value(&mut p, &ty)?;
                p.p(b',')?;
                let it = p.ty()?;
                match self.scalar(&mut p, &it)? {
                    Opn::C(k) => code.push(I::Move { ms: vec![(dst, v[k as usize])].into() }),
                    _ => return Err("ee var".into()),
                }
            }
            "insertelement" => {
                let ty = p.ty()?;
                let mut v = self.value(&mut p, &ty)?;
                p.p(b',')?;
                let et = p.ty()?;
                let e = self.scalar(&mut p, &et)?;
                p.p(b',')?;
                let it = p.ty()?;
                match self.scalar(&mut p, &it)? {
                    Opn::C(k) => v[k as usize] = e,
                    _ => return Err("ie var".into()),
                }
                code.push(I::Move { ms: v.into_iter().enumerate().map(|(i, x)| (dst + i as u32, x)).collect() });
            }
            "shufflevector" => {
                let ty = p.ty()?;
                let mut a = self.value(&mut p, &ty)?;
                p.p(b',')?;
                p.ty()?;
                let b = self.value(&mut p, &ty)?;
                a.extend(b);
                p.p(b',')?;
                let mt = p.ty()?;
                let mut mk = vec![];
                p.konst(&mt, &mut mk)?;
                code.push(I::Move {
                    ms: mk
                        .into_iter()
                        .enumerate()
                        .map(|(i, k)| (dst + i as u32, if let Opn::C(k) = k { a[k as usize] } else { Opn::U }))
                        .collect(),
                });
            }
            "alloca" => {
                while let Some(Tok::Id("inalloca")) = p.peek() {
                    p.i += 1;
                }
                let ty = p.ty()?;
                let mut n = 1u64;
                let mut al = size_align(&ty).1;
                while p.acc(b',') {
                    if p.accid("align") {
                        al = al.max(p.int()? as u64);
                    } else if matches!(p.peek(), Some(Tok::Id(_))) {
                        let it = p.ty()?;
                        match self.scalar(&mut p, &it)? {
                            Opn::C(k) => n = k,
                            _ => return Err("dynamic alloca".into()),
                        }
                    } else {
                        break;
                    }
                }
                let sz = size_align(&ty).0 * n;
                // red zone of 16 bytes before each slot
                let off = (self.frame + 16 + al - 1) / al * al;
                self.allocas.push((off, sz));
                self.frame = off + sz;
                code.push(I::Alloca { dst, off });
            }
            "br" => {
                if matches!(p.peek(), Some(Tok::Id("label"))) {
                    code.push(I::Br(label(&mut p)?));
                } else {
                    p.ty()?;
                    let c = self.scalar(&mut p, &Ty::Int(1))?;
                    p.p(b',')?;
                    let t = label(&mut p)?;
                    p.p(b',')?;
                    let f = label(&mut p)?;
                    code.push(I::CondBr { c, t, f });
                }
            }
            "switch" => {
                let ty = p.ty()?;
                let v = self.scalar(&mut p, &ty)?;
                p.p(b',')?;
                let d = label(&mut p)?;
                p.p(b'[')?;
                let mut cases = vec![];
                while !p.isp(b']') {
                    let t = p.ty()?;
                    let k = p.kscalar()?.ok_or("switch")? & crate::term::mask(width(&t));
                    p.p(b',')?;
                    cases.push((k, label(&mut p)?));
                }
                code.push(I::Switch { v, w: width(&ty) as u8, d, cases: cases.into() });
            }
            "ret" => {
                let ty = p.ty()?;
                let v = if ty == Ty::Void { vec![] } else { self.value(&mut p, &ty)? };
                code.push(I::Ret(v.into()));
            }
            "unreachable" => code.push(I::Unreachable),
            "resume" => code.push(I::Resume),
            "landingpad" => code.push(I::LandingPad { dst }),
            "fence" => {}
            "atomicrmw" => {
                p.accid("volatile");
                let o = match p.next()? {
                    Tok::Id(s) => match s {
                        "xchg" => 0,
                        "add" => 1,
                        "sub" => 2,
                        "and" => 3,
                        "or" => 4,
                        "xor" => 5,
                        "max" => 6,
                        "min" => 7,
                        "umax" => 8,
                        "umin" => 9,
                        "nand" => 10,
                        s => return Err(format!("rmw {}", s)),
                    },
                    _ => return Err("rmw".into()),
                };
                p.ty()?;
                let ptr = self.scalar(&mut p, &Ty::Ptr)?;
                p.p(b',')?;
                let ty = p.ty()?;
                let v = self.scalar(&mut p, &ty)?;
                code.push(I::Rmw { op: o, w: width(&ty) as u8, dst, p: ptr, v });
            }
            "cmpxchg" => {
                while p.accid("weak") || p.accid("volatile") {}
                p.ty()?;
                let ptr = self.scalar(&mut p, &Ty::Ptr)?;
                p.p(b',')?;
                let ty = p.ty()?;
                let cmp = self.scalar(&mut p, &ty)?;
                p.p(b',')?;
                p.ty()?;
                let new = self.scalar(&mut p, &ty)?;
                code.push(I::CmpXchg { w: width(&ty) as u8, dst, p: ptr, cmp, new });
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" {
                    p.next()?;
                }
                self.call_prefix(&mut p)?;
                let rty = p.ty()?;
                let callee;
                let mut intr = None;
                match p.next()? {
                    Tok::G(n) => {
                        let mut n = n.to_string();
                        while let Some(a) = self.m.aliases.get(&n) {
                            n = a.clone();
                        }
                        if n.starts_with("llvm.") {
                            intr = Some(n.clone());
                        }
                        callee = Callee::Direct(*self.m.fmap.get(&n).ok_or_else(|| format!("callee {}", n))?);
                    }
                    Tok::L(n) => {
                        let (s, _) = self.slots.get(n).ok_or("callee")?;
                        callee = Callee::Indirect(Opn::R(*s));
                    }
                    Tok::Id("asm") => {
                        if rty == Ty::Void {
                            return Ok(());
                        }
                        return Err("asm".into());
                    }
                    t => return Err(format!("callee {:?}", t)),
                }
                p.p(b'(')?;
                let mut args = vec![];
                let mut aw = 0;
                let mut meta = false;
                while !p.isp(b')') {
                    let ty = p.ty()?;
                    if ty == Ty::Other {
                        // metadata argument
                        p.next()?;
                        meta = true;
                        p.acc(b',');
                        continue;
                    }
                    p.attrs()?;
                    if aw == 0 {
                        aw = width(&ty);
                    }
                    args.extend(self.value(&mut p, &ty)?);
                    p.acc(b',');
                }
                let _ = meta;
                p.p(b')')?;
                let (mut normal, mut unwind) = (None, None);
                if op == "invoke" {
                    while !p.accid("to") {
                        p.next()?;
                    }
                    normal = Some(label(&mut p)?);
                    if !p.accid("unwind") {
                        return Err("unwind".into());
                    }
                    unwind = Some(label(&mut p)?);
                }
                if let Some(n) = intr {
                    let k = intrinsic(&n).ok_or_else(|| format!("intrinsic {}", n))?;
                    let w = match k {
                        Intr::UCmp | Intr::SCmp | Intr::Memcpy | Intr::Memmove | Intr::Memset | Intr::Nop | Intr::Assume => aw,
                        Intr::AddO | Intr::SubO | Intr::MulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => aw,
                        _ => {
                            if rty == Ty::Void {
                                0
                            } else {
                                aw
                            }
                        }
                    };
                    if w > 64 {
                        return Err("wide intrinsic".into());
                    }
                    if matches!(rty, Ty::Vector(..)) {
                        if !matches!(k, Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax) {
                            return Err("vector intrinsic".into());
                        }
                        let n = nleaves(&rty);
                        for i in 0..n {
                            code.push(I::Intr { k, w: w as u8, dst: dst + i, args: vec![args[i as usize], args[(n + i) as usize]].into() });
                        }
                    } else if k != Intr::Nop {
                        let mut a = args;
                        if matches!(k, Intr::UCmp | Intr::SCmp) {
                            a.push(Opn::C(width(&rty) as u64));
                        }
                        code.push(I::Intr { k, w: w as u8, dst, args: a.into() });
                    }
                    if let Some(e) = normal {
                        code.push(I::Br(e));
                    }
                    return Ok(());
                }
                let widths: Vec<u32> = lv(&rty).iter().map(|x| x.1).collect();
                code.push(I::Call(Box::new(CallI { callee, args: args.into(), dst, widths: widths.into(), normal, unwind })));
            }
            o => return Err(format!("opcode {}", o)),
        }
        Ok(())
    }
    fn align(&self, p: &Ps) -> u32 {
        for i in 0..p.t.len().saturating_sub(1) {
            if p.t[i] == Tok::Id("align") {
                if let Tok::Int(k) = p.t[i + 1] {
                    return k as u32;
                }
            }
        }
        1
    }
}

fn intrinsic(n: &str) -> Option<Intr> {
    let s = &n[5..];
    let b = |p: &str| s.starts_with(p);
    Some(if b("memcpy.") {
        Intr::Memcpy
    } else if b("memmove.") {
        Intr::Memmove
    } else if b("memset.") {
        Intr::Memset
    } else if b("uadd.with") {
        Intr::AddO
    } else if b("usub.with") {
        Intr::SubO
    } else if b("umul.with") {
        Intr::MulO
    } else if b("sadd.with") {
        Intr::SAddO
    } else if b("ssub.with") {
        Intr::SSubO
    } else if b("smul.with") {
        Intr::SMulO
    } else if b("uadd.sat") {
        Intr::UAddSat
    } else if b("usub.sat") {
        Intr::USubSat
    } else if b("sadd.sat") {
        Intr::SAddSat
    } else if b("ssub.sat") {
        Intr::SSubSat
    } else if b("umin.") {
        Intr::UMin
    } else if b("umax.") {
        Intr::UMax
    } else if b("smin.") {
        Intr::SMin
    } else if b("smax.") {
        Intr::SMax
    } else if b("abs.") {
        Intr::Abs
    } else if b("ucmp.") {
        Intr::UCmp
    } else if b("scmp.") {
        Intr::SCmp
    } else if b("ctpop.") {
        Intr::Ctpop
    } else if b("ctlz.") {
        Intr::Ctlz
    } else if b("cttz.") {
        Intr::Cttz
    } else if b("fshl.") {
        Intr::Fshl
    } else if b("fshr.") {
        Intr::Fshr
    } else if b("bswap.") {
        Intr::Bswap
    } else if b("bitreverse.") {
        Intr::Bitreverse
    } else if b("assume") {
        Intr::Assume
    } else if b("expect.") {
        Intr::Expect
    } else if b("is.constant") {
        Intr::IsConst
    } else if b("trap") || b("ubsantrap") || b("debugtrap") {
        Intr::Trap
    } else if b("threadlocal.address") {
        Intr::ThreadLocal
    } else if b("objectsize") {
        Intr::ObjSize
    } else if b("ptrmask") {
        Intr::PtrMask
    } else if b("lifetime.") || b("experimental.noalias") || b("dbg.") || b("donothing") || b("prefetch") || b("x86.sse2.pause") || b("invariant.") || b("sideeffect") || b("fake.use") {
        Intr::Nop
    } else {
        return None;
    })
}
