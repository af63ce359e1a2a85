//! Symbolic execution of the compiled IR.
use crate::ir::*;
use crate::mem::*;
use crate::term::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FKind {
    Body,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Nop,
    AllocError,
    Panic,
    UbPanic,
    AbortPanic,
    CatchCleanup,
    ResumeUnwind,
    Memcmp,
    Bcmp,
    Memcpy,
    Memmove,
    Memset,
    Strlen,
    RandomKeys,
    V(Vf),
    Unknown,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Vf {
    Sym(u8),
    Choose,
    Assume,
    Check,
    Cover,
    Obs,
    Param,
    Conc,
    AllowPanic,
    AllowAbort,
    Live,
    LeakOk,
    Freeze,
    Havoc,
    IsSymbolic,
    Panic,
    Sel,
    Unique,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Infeasible,
    PanicEnd,
    AbortEnd,
    Viol(&'static str, String),
    Incomplete(String),
}
type X<T> = Result<T, Stop>;

pub struct Frame {
    pub f: &'static Func,
    pub fid: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub call: Option<&'static CallI>,
    pub sid: u32, // stack object id
}
impl Clone for Frame {
    fn clone(&self) -> Frame {
        Frame { f: self.f, fid: self.fid, pc: self.pc, regs: self.regs.clone(), call: self.call, sid: self.sid }
    }
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub frames: Vec<Rc<Frame>>,
    pub stack: Vec<(u32, Option<Rc<Obj>>)>,
    pub heap: Heap,
    pub globals: Rc<HashMap<u32, Rc<Obj>>>,
    pub gen: u32,
    pub pc: Vec<u32>,
    pub ivs: Vec<(u64, u64)>,
    pub model: Vec<u64>,
    pub inputs: Vec<u32>, // variable terms in creation order
    pub known: Vec<(u32, u64)>,
    pub obs: Vec<Val>,
    pub steps: u64,
    pub allow_panic: bool,
    pub allow_abort: bool,
    pub leak_ok: bool,
    pub panics: u32,
    pub freeze: bool,
    pub havoc: u8,
    pub hv: Rc<Vec<(u64, Vec<Val>)>>,
    pub sched: Vec<u32>,
    pub conc: u32,
    pub last_check: u32,
}

pub struct Violation {
    pub kind: &'static str,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u32, u64)>,
    pub sched: Vec<u32>,
}
pub struct Sample {
    pub inputs: Vec<(u32, u64)>,
    pub obs: Vec<u64>,
    pub panicked: bool,
}
#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub panic_paths: u64,
    pub forks: u64,
    pub instrs: u64,
    pub checks_concrete: u64,
    pub checks_solver: u64,
    pub decided_model: u64,
    pub decided_interval: u64,
    pub confirmed: u64,
    pub undef_queries: u64,
    pub max_inputs: usize,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub incomplete: BTreeMap<String, u64>,
    pub left: u64,
    pub covers: BTreeMap<u32, u64>,
    pub funcs: BTreeSet<u32>,
    pub checks_seen: BTreeMap<u32, u64>,
}

pub struct Limits {
    pub steps: u64,
    pub depth: usize,
    pub deadline: Instant,
    pub max_viol: usize,
    pub exact: bool,
    pub samples: usize,
}

pub struct Engine {
    pub m: &'static Module,
    pub gobjs: &'static [Obj],
    pub t: Terms,
    pub z: Z3,
    pub work: Vec<State>,
    pub rep: Report,
    pub lim: Limits,
    pub params: Vec<u64>,
    pub cfg_is_sym: bool,
    templates: Vec<Option<Rc<Obj>>>,
    seen_fn: Vec<bool>,
    pool: Vec<Vec<Val>>,
}

pub fn classify(name: &str, defined: bool) -> FKind {
    use FKind::*;
    if let Some(v) = name.strip_prefix("vf_") {
        return match v {
            "bool" => V(Vf::Sym(1)),
            "u8" => V(Vf::Sym(8)),
            "u16" => V(Vf::Sym(16)),
            "u32" => V(Vf::Sym(32)),
            "u64" => V(Vf::Sym(64)),
            "choose" => V(Vf::Choose),
            "assume" => V(Vf::Assume),
            "check" => V(Vf::Check),
            "cover" => V(Vf::Cover),
            "obs" => V(Vf::Obs),
            "param" => V(Vf::Param),
            "conc" => V(Vf::Conc),
            "allow_panic" => V(Vf::AllowPanic),
            "allow_abort" => V(Vf::AllowAbort),
            "live" => V(Vf::Live),
            "leak_ok" => V(Vf::LeakOk),
            "freeze" => V(Vf::Freeze),
            "havoc" => V(Vf::Havoc),
            "is_symbolic" => V(Vf::IsSymbolic),
            "panic" => V(Vf::Panic),
            "sel" => V(Vf::Sel),
            "unique" => V(Vf::Unique),
            _ => Unknown,
        };
    }
    match name {
        "memcmp" => return Memcmp,
        "bcmp" => return Bcmp,
        "memcpy" => return Memcpy,
        "memmove" => return Memmove,
        "memset" => return Memset,
        "strlen" => return Strlen,
        "abort" => return AbortPanic,
        _ => {}
    }
    let has = |s: &str| name.contains(s);
    if has("12___rust_alloc") && !has("12___rust_alloc_") {
        return Alloc;
    }
    if has("19___rust_alloc_zeroed") {
        return AllocZeroed;
    }
    if has("14___rust_dealloc") {
        return Dealloc;
    }
    if has("14___rust_realloc") {
        return Realloc;
    }
    if has("___rust_no_alloc_shim_is_unstable") {
        return Nop;
    }
    if has("___rust_alloc_error_handler") || has("18handle_alloc_error") {
        return AllocError;
    }
    if has("4core9panicking") {
        for s in [
            "18panic_nounwind_fmt",
            "14panic_nounwind",
            "26panic_nounwind_nobacktrace",
            "36panic_misaligned_pointer_dereference",
            "32panic_null_reference_constructed",
            "30panic_null_pointer_dereference",
            "28panic_invalid_enum_construction",
        ] {
            if name.ends_with(s) {
                return UbPanic;
            }
        }
        if name.ends_with("19panic_cannot_unwind") || name.ends_with("16panic_in_cleanup") {
            return AbortPanic;
        }
        if name.ends_with("9panic_fmt") || name.ends_with("18panic_bounds_check") || name.ends_with("9panicking5panic") || name.ends_with("14panic_explicit") {
            return Panic;
        }
        if has("19assert_failed_inner") {
            return Panic;
        }
    }
    if has("3std9panicking") && (has("11begin_panic") || has("15panic_with_hook")) && !has("7Payload") {
        return Panic;
    }
    if has("9panicking12catch_unwind7cleanup") || has("9panicking3try7cleanup") {
        return CatchCleanup;
    }
    if has("3std5panic13resume_unwind") || name.ends_with("panicking13resume_unwind") || name.ends_with("rust_panic_without_hook") {
        return ResumeUnwind;
    }
    if has("20hashmap_random_keys") {
        return RandomKeys;
    }
    if defined {
        Body
    } else {
        Unknown
    }
}

enum Dec {
    T,
    F,
    Both(Vec<u64>),
}

#[inline(always)]
fn le(b: &[u8]) -> u64 {
    match b.len() {
        8 => u64::from_le_bytes(b.try_into().unwrap()),
        4 => u32::from_le_bytes(b.try_into().unwrap()) as u64,
        2 => u16::from_le_bytes(b.try_into().unwrap()) as u64,
        1 => b[0] as u64,
        _ => {
            let mut v = 0u64;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            v
        }
    }
}

enum Loc {
    Global(u32),
    Stack(usize),
    Heap(usize),
}

impl Engine {
    pub fn new(m: &'static Module, gobjs: &'static [Obj], lim: Limits, params: Vec<u64>) -> Engine {
        Engine {
            m,
            gobjs,
            t: Terms::new(),
            z: Z3::new(),
            work: vec![],
            rep: Report::default(),
            lim,
            params,
            cfg_is_sym: true,
            templates: vec![None; m.funcs.len()],
            seen_fn: vec![false; m.funcs.len()],
            pool: vec![],
        }
    }
    pub fn make_globals(m: &Module) -> Vec<Obj> {
        m.globals
            .iter()
            .map(|g| Obj {
                align: 1,
                frozen: false,
                constant: g.constant,
                tag: 0,
                data: g.data.clone(),
                fl: g.flags.clone(),
                sym: vec![],
            })
            .collect()
    }

    pub fn run_harness(&mut self, name: &str) -> Result<(), String> {
        let fid = *self.m.fmap.get(name).ok_or_else(|| format!("no harness {}", name))?;
        let f = self.m.body(fid).map_err(|e| e.clone())?;
        let st = State {
            top: Frame { f, fid, pc: f.entry, regs: vec![Val::undef(); f.nslots as usize], call: None, sid: 0 },
            frames: vec![],
            stack: vec![],
            heap: Heap::default(),
            globals: Rc::new(HashMap::new()),
            gen: 0,
            pc: vec![],
            ivs: vec![],
            model: vec![],
            inputs: vec![],
            known: vec![],
            obs: vec![],
            steps: 0,
            allow_panic: false,
            allow_abort: false,
            leak_ok: false,
            panics: 0,
            freeze: false,
            havoc: 0,
            hv: Rc::new(vec![]),
            sched: vec![],
            conc: 0,
            last_check: 0,
        };
        let mut st = st;
        st.top.sid = self.push_stack(&mut st, fid, f);
        self.rep.funcs.insert(fid);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if Instant::now() > self.lim.deadline || self.rep.violations.len() >= self.lim.max_viol {
                self.rep.left += 1 + self.work.len() as u64;
                self.work.clear();
                break;
            }
            let r = loop {
                match self.run(&mut st) {
                    Ok(()) => {}
                    Err(s) => break s,
                }
            };
            self.finish(&mut st, r);
        }
        Ok(())
    }

    fn concrete_inputs(&self, st: &State) -> Vec<(u32, u64)> {
        st.inputs
            .iter()
            .enumerate()
            .map(|(i, t)| (self.t.w(*t), st.model.get(i).copied().unwrap_or(0) & mask(self.t.w(*t))))
            .collect()
    }

    fn finish(&mut self, st: &mut State, r: Stop) {
        self.rep.max_inputs = self.rep.max_inputs.max(st.inputs.len());
        let mut r = r;
        if matches!(r, Stop::Done) && !st.leak_ok && st.heap.live > 0 {
            let ids = st.heap.live_ids();
            let sz: Vec<usize> = ids.iter().take(6).map(|i| st.heap.get(*i).unwrap().data.len()).collect();
            r = Stop::Viol("leak", format!("{} heap objects never released (sizes {:?}...)", ids.len(), sz));
        }
        match r {
            Stop::Done | Stop::PanicEnd | Stop::AbortEnd => {
                self.rep.paths += 1;
                let panicked = !matches!(r, Stop::Done);
                if panicked {
                    self.rep.panic_paths += 1;
                }
                let n = self.rep.paths;
                if n % 64 == 1 && !st.pc.is_empty() {
                    // the path is one that can be taken: its condition is satisfiable
                    self.rep.confirmed += 1;
                    if let Res::Unsat = self.z.check(&self.t, &st.pc, None, &st.inputs) {
                        eprintln!("solver refutes an explored path");
                        std::process::exit(4);
                    }
                }
                // keep the first few and then exponentially spaced ones
                let k = self.lim.samples as u64;
                if k > 0 && st.sched.is_empty() && (n <= k / 2 || n.is_power_of_two() || (self.rep.samples.len() as u64) < k && n % 37 == 0) {
                    let obs = st.obs.iter().map(|v| if v.t == 0 { v.v } else { self.t.eval(v.t, &st.model) }).collect();
                    self.rep.samples.push(Sample { inputs: self.concrete_inputs(st), obs, panicked });
                }
            }
            Stop::Infeasible => self.rep.infeasible += 1,
            Stop::Viol(kind, msg) => {
                let mut stack = vec![];
                stack.push(self.m.funcs[st.top.fid as usize].name.clone());
                for f in st.frames.iter().rev().take(12) {
                    stack.push(self.m.funcs[f.fid as usize].name.clone());
                }
                let inputs = self.concrete_inputs(st);
                self.rep.violations.push(Violation { kind, msg, stack, inputs, sched: st.sched.clone() });
            }
            Stop::Incomplete(m) => {
                let mut m = m;
                m.push_str(&format!(" in {}", self.m.funcs[st.top.fid as usize].name));
                *self.rep.incomplete.entry(m).or_default() += 1;
            }
        }
    }

    // ------------------------------------------------------------------------------ decisions
    fn push_c(&mut self, st: &mut State, c: u32, val: bool) {
        let t = if val { c } else { self.t.not(c) };
        st.pc.push(t);
        let mut iv = std::mem::take(&mut st.ivs);
        self.t.refine(c, val, &mut iv);
        st.ivs = iv;
    }
    fn sat_model(&self, st: &State, model: &[u64], vars: u64) -> bool {
        st.pc.iter().all(|&p| self.t.vars_of[p as usize] & vars == 0 || self.t.eval(p, model) == 1)
    }
    /// is `pc /\ (c == val)` satisfiable? returns a model
    fn feasible(&mut self, st: &State, c: u32, val: bool) -> X<Option<Vec<u64>>> {
        if !self.lim.exact {
            let mut cand = vec![];
            self.t.suggest(c, val, &st.model, &mut cand, 8);
            for (v, x) in cand.into_iter().take(12) {
                if v >= st.model.len() {
                    continue;
                }
                let w = self.t.w(st.inputs[v]);
                let mut m = st.model.clone();
                m[v] = x & mask(w);
                if self.t.eval(c, &m) == val as u64 && self.sat_model(st, &m, 1u64 << (v % 64)) {
                    self.rep.decided_model += 1;
                    return Ok(Some(m));
                }
            }
        }
        let e = if val { c } else { self.t.not(c) };
        match self.z.check(&self.t, &st.pc, Some(e), &st.inputs) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Incomplete("solver gave no answer".into())),
        }
    }
    /// a sample of the decisions made without the solver is put to it; a disagreement stops the engine
    fn confirm(&mut self, st: &State, c: u32, val: bool) {
        let e = if val { self.t.not(c) } else { c };
        self.rep.confirmed += 1;
        if let Res::Sat(_) = self.z.check(&self.t, &st.pc, Some(e), &st.inputs) {
            eprintln!("solver finds a branch possible which interval reasoning excluded");
            std::process::exit(4);
        }
    }
    fn decide(&mut self, st: &State, c: u32) -> X<Dec> {
        if !self.lim.exact {
            if let Some(b) = self.t.eval3(c, &st.ivs, 12) {
                self.rep.decided_interval += 1;
                if self.rep.decided_interval % 64 == 1 {
                    self.confirm(st, c, b);
                }
                return Ok(if b { Dec::T } else { Dec::F });
            }
        }
        let x = self.t.t[c as usize];
        let (pos, inv) = if x.op == Op::Not { (x.a, true) } else { (c, false) };
        for &p in st.pc.iter().rev() {
            if p == pos {
                return Ok(if inv { Dec::F } else { Dec::T });
            }
            let y = self.t.t[p as usize];
            if y.op == Op::Not && y.a == pos {
                return Ok(if inv { Dec::T } else { Dec::F });
            }
        }
        let v = self.t.eval(c, &st.model) == 1;
        let k = self.rep.decided_model;
        let f = self.feasible(st, c, !v)?;
        if self.rep.decided_model > k && k % 64 == 0 {
            // the solver must find both sides possible as well
            for b in [v, !v] {
                let e = if b { c } else { self.t.not(c) };
                self.rep.confirmed += 1;
                if let Res::Unsat = self.z.check(&self.t, &st.pc, Some(e), &st.inputs) {
                    eprintln!("solver refutes a branch taken");
                    std::process::exit(4);
                }
            }
        }
        match f {
            Some(m) => Ok(Dec::Both(m)),
            None => Ok(if v { Dec::T } else { Dec::F }),
        }
    }
    /// the truth of a width-1 value on this path, forking when both are possible. On a fork `other`
    /// receives the state for the other side (same program point) and must be queued by the caller.
    fn undef_check(&mut self, st: &State, c: Val, w: u32, what: &str) -> X<()> {
        if c.t == UNDEF {
            return Err(Stop::Viol("uninit", format!("{} depends on an uninitialised value", what)));
        }
        if c.t != 0 && self.t.has_undef(c.t) {
            let mut memo = HashMap::new();
            let d = self.t.rename_undef(c.t, &mut memo);
            let e = self.t.eq(c.t, d);
            let ne = self.t.not(e);
            self.rep.undef_queries += 1;
            match self.z.check(&self.t, &st.pc, Some(ne), &st.inputs) {
                Res::Sat(_) => return Err(Stop::Viol("uninit", format!("{} depends on an uninitialised value", what))),
                Res::Unsat => {}
                Res::Unknown => return Err(Stop::Incomplete("solver gave no answer (uninit)".into())),
            }
        }
        let _ = w;
        Ok(())
    }
    fn branch(&mut self, st: &mut State, c: Val, what: &str) -> X<(bool, Option<State>)> {
        if c.t == 0 {
            return Ok((c.v & 1 == 1, None));
        }
        self.undef_check(st, c, 1, what)?;
        if self.t.w(c.t) != 1 {
            return Err(Stop::Incomplete("branch width".into()));
        }
        match self.decide(st, c.t)? {
            Dec::T => Ok((true, None)),
            Dec::F => Ok((false, None)),
            Dec::Both(m) => {
                let v = self.t.eval(c.t, &st.model) == 1;
                self.rep.forks += 1;
                let mut o = st.clone();
                o.model = m;
                self.push_c(&mut o, c.t, !v);
                self.push_c(st, c.t, v);
                Ok((v, Some(o)))
            }
        }
    }
    /// make a value concrete; other values are explored by re-executing the current instruction
    fn conc(&mut self, st: &mut State, v: Val, w: u32, what: &str) -> X<u64> {
        if v.t == 0 {
            return Ok(v.v);
        }
        self.undef_check(st, v, w, what)?;
        if let Some(&(_, k)) = st.known.iter().find(|(t, _)| *t == v.t) {
            return Ok(k);
        }
        let k = self.t.eval(v.t, &st.model);
        let kt = self.t.konst(k, self.t.w(v.t));
        let c = self.t.eq(v.t, kt);
        if self.t.t[c as usize].op != Op::Const {
            match self.decide(st, c)? {
                Dec::T => {}
                Dec::F => return Err(Stop::Incomplete("internal: model violates path condition".into())),
                Dec::Both(m) => {
                    self.rep.forks += 1;
                    let mut o = st.clone();
                    o.model = m;
                    o.conc += 1;
                    if o.conc > 3000 {
                        return Err(Stop::Incomplete(format!("too many values for {}", what)));
                    }
                    self.push_c(&mut o, c, false);
                    self.work.push(o);
                    self.push_c(st, c, true);
                }
            }
        }
        st.conc = 0;
        st.known.push((v.t, k));
        for r in st.top.regs.iter_mut() {
            if r.t == v.t {
                *r = Val::c(k);
            }
        }
        for f in st.frames.iter_mut() {
            if f.regs.iter().any(|r| r.t == v.t) {
                for r in Rc::make_mut(f).regs.iter_mut() {
                    if r.t == v.t {
                        *r = Val::c(k);
                    }
                }
            }
        }
        Ok(k)
    }

    // --------------------------------------------------------------------------------- memory
    fn push_stack(&mut self, st: &mut State, fid: u32, f: &'static Func) -> u32 {
        let depth = st.stack.len() as u32;
        st.gen = (st.gen + 1) & 511;
        let sid = STACK0 as u32 + (depth & 4095) + st.gen * 4096;
        if f.frame_size == 0 {
            st.stack.push((sid, None));
        } else {
            if self.templates[fid as usize].is_none() {
                let mut o = Obj::new(f.frame_size as usize, 16, false);
                o.fl.iter_mut().for_each(|x| *x = RED);
                for (off, sz) in &f.allocas {
                    o.fl[*off as usize..(*off + *sz) as usize].iter_mut().for_each(|x| *x = UNINIT);
                }
                self.templates[fid as usize] = Some(Rc::new(o));
            }
            st.stack.push((sid, self.templates[fid as usize].clone()));
        }
        sid
    }
    #[inline(always)]
    fn loc(&self, st: &State, addr: u64) -> X<(Loc, i64)> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as i64 - BASE_OFF as i64;
        if id >= HEAP0 {
            return Ok((Loc::Heap((id - HEAP0) as usize), off));
        }
        if id >= STACK0 {
            let d = ((id - STACK0) & 4095) as usize;
            if d < st.stack.len() && st.stack[d].0 as u64 == id {
                return Ok((Loc::Stack(d), off));
            }
            return Err(Stop::Viol("memory", "access to a stack frame that has returned".into()));
        }
        if id == 0 {
            return Err(Stop::Viol("memory", format!("access through null or dangling address {:#x}", addr)));
        }
        if id >= FUNC0 {
            return Err(Stop::Viol("memory", "data access to a function".into()));
        }
        Ok((Loc::Global(id as u32 - 1), off))
    }
    #[inline(always)]
    fn rd<'a>(&'a self, st: &'a State, addr: u64, n: usize) -> X<(&'a Obj, usize)> {
        let (l, off) = self.loc(st, addr)?;
        let o: &Obj = match l {
            Loc::Heap(i) => match st.heap.get(i) {
                Some(o) => o,
                None => return Err(Stop::Viol("memory", if st.heap.existed(i) { "use after free (read)".into() } else { format!("wild address {:#x}", addr) })),
            },
            Loc::Stack(d) => match &st.stack[d].1 {
                Some(o) => o,
                None => return Err(Stop::Viol("memory", "wild stack address".into())),
            },
            Loc::Global(g) => {
                if let Some(o) = st.globals.get(&g) {
                    o
                } else {
                    match self.gobjs.get(g as usize) {
                        Some(o) => {
                            if self.m.globals[g as usize].external {
                                return Err(Stop::Incomplete(format!("external global {}", self.m.globals[g as usize].name)));
                            }
                            o
                        }
                        None => return Err(Stop::Viol("memory", format!("wild address {:#x}", addr))),
                    }
                }
            }
        };
        if off < 0 || off as usize + n > o.data.len() {
            return Err(Stop::Viol("memory", format!("out-of-bounds read of {} bytes at offset {} of a {}-byte object", n, off, o.data.len())));
        }
        Ok((o, off as usize))
    }
    #[inline(always)]
    fn wr<'a>(&self, st: &'a mut State, addr: u64, n: usize, atomic: bool) -> X<(&'a mut Obj, usize)> {
        let (l, off) = self.loc(st, addr)?;
        let freeze = st.freeze;
        let o: &mut Obj = match l {
            Loc::Heap(i) => {
                let ex = st.heap.existed(i);
                match st.heap.get_mut(i) {
                    Some(o) => {
                        if freeze && o.frozen && !atomic {
                            return Err(Stop::Viol("race", "a read-only operation writes shared memory without synchronisation".into()));
                        }
                        o
                    }
                    None => return Err(Stop::Viol("memory", if ex { "use after free (write)".into() } else { format!("wild address {:#x}", addr) })),
                }
            }
            Loc::Stack(d) => match &mut st.stack[d].1 {
                Some(o) => Rc::make_mut(o),
                None => return Err(Stop::Viol("memory", "wild stack address".into())),
            },
            Loc::Global(g) => {
                let base = self.gobjs.get(g as usize).ok_or_else(|| Stop::Viol("memory", "wild address".into()))?;
                if base.constant {
                    return Err(Stop::Viol("memory", "write to constant memory".into()));
                }
                let gs = Rc::make_mut(&mut st.globals);
                Rc::make_mut(gs.entry(g).or_insert_with(|| Rc::new(base.clone())))
            }
        };
        if off < 0 || off as usize + n > o.data.len() {
            return Err(Stop::Viol("memory", format!("out-of-bounds write of {} bytes at offset {} of a {}-byte object", n, off, o.data.len())));
        }
        Ok((o, off as usize))
    }
    fn load(&mut self, st: &State, addr: u64, w: u32) -> X<Val> {
        let n = ((w + 7) / 8) as usize;
        let (o, off) = self.rd(st, addr, n)?;
        let fl = &o.fl[off..off + n];
        if all_init(fl) && (o.sym.is_empty() || o.sym[off..off + n].iter().all(|s| *s == 0)) {
            return Ok(Val::c(le(&o.data[off..off + n]) & mask(w)));
        }
        if fl.iter().any(|f| *f == RED) {
            return Err(Stop::Viol("memory", "out-of-bounds stack read".into()));
        }
        if fl.iter().all(|f| *f == UNINIT) {
            return Ok(Val::undef());
        }
        // mixed or symbolic
        let mut bytes = [(0u8, 0u8, 0u32); 8];
        for i in 0..n {
            bytes[i] = (fl[i], o.data[off + i], if o.sym.is_empty() { 0 } else { o.sym[off + i] });
        }
        let t0 = bytes[0].2 >> 3;
        let r = if t0 != 0 && self.t.w(t0) == n as u32 * 8 && (0..n).all(|i| bytes[i].0 == INIT && bytes[i].2 == (t0 << 3 | i as u32)) {
            t0
        } else {
            let mut acc: Option<u32> = None;
            for i in 0..n {
                let (f, d, s) = bytes[i];
                let b = if f == UNINIT {
                    self.t.undef(8)
                } else if s == 0 {
                    self.t.konst(d as u64, 8)
                } else {
                    let (t, k) = (s >> 3, s & 7);
                    self.t.extract(t, k * 8, 8)
                };
                acc = Some(match acc {
                    None => b,
                    Some(a) => self.t.concat(b, a),
                });
            }
            acc.unwrap()
        };
        let r = if w < n as u32 * 8 { self.t.extract(r, 0, w) } else { r };
        let v = self.t.val(r);
        if v.t != 0 && v.t != UNDEF {
            if let Some(&(_, k)) = st.known.iter().find(|(t, _)| *t == v.t) {
                return Ok(Val::c(k));
            }
        }
        Ok(v)
    }
    fn store(&mut self, st: &mut State, addr: u64, v: Val, w: u32, atomic: bool) -> X<()> {
        let n = ((w + 7) / 8) as usize;
        let mut v = v;
        if v.t != 0 && v.t != UNDEF && (w as usize) < n * 8 {
            let z = self.t.zext(v.t, n as u32 * 8);
            v = Val { v: 0, t: z };
        }
        let (o, off) = self.wr(st, addr, n, atomic)?;
        for f in &mut o.fl[off..off + n] {
            if *f == RED {
                return Err(Stop::Viol("memory", "out-of-bounds stack write".into()));
            }
            *f = if v.t == UNDEF { UNINIT } else { INIT };
        }
        if v.t == 0 {
            o.data[off..off + n].copy_from_slice(&v.v.to_le_bytes()[..n]);
            o.clear_sym(off, n);
        } else if v.t == UNDEF {
            o.clear_sym(off, n);
        } else {
            o.need_sym();
            for i in 0..n {
                o.sym[off + i] = v.t << 3 | i as u32;
            }
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize, overlap_ok: bool) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        if dst >> 32 == src >> 32 && dst != src {
            let d = dst.abs_diff(src);
            if d < n as u64 && !overlap_ok {
                return Err(Stop::Viol("memory", "overlapping copy_nonoverlapping".into()));
            }
        }
        // bounds first
        let rc: Rc<Obj>;
        let so;
        {
            let (l, _) = self.loc(st, src)?;
            let (o, off) = self.rd(st, src, n)?;
            so = off;
            if o.fl[off..off + n].iter().any(|f| *f == RED) {
                return Err(Stop::Viol("memory", "out-of-bounds stack read".into()));
            }
            if dst >> 32 == src >> 32 {
                let (o, doff) = self.wr(st, dst, n, false)?;
                if o.fl[doff..doff + n].iter().any(|f| *f == RED) {
                    return Err(Stop::Viol("memory", "out-of-bounds stack write".into()));
                }
                o.data.copy_within(so..so + n, doff);
                o.fl.copy_within(so..so + n, doff);
                if !o.sym.is_empty() {
                    o.sym.copy_within(so..so + n, doff);
                }
                return Ok(());
            }
            rc = match l {
                Loc::Heap(i) => st.heap.rc(i).unwrap(),
                Loc::Stack(d) => st.stack[d].1.clone().unwrap(),
                Loc::Global(g) => match st.globals.get(&g) {
                    Some(o) => o.clone(),
                    None => {
                        let (data, fl) = (self.gobjs[g as usize].data[so..so + n].to_vec(), self.gobjs[g as usize].fl[so..so + n].to_vec());
                        let (o, doff) = self.wr(st, dst, n, false)?;
                        if o.fl[doff..doff + n].iter().any(|f| *f == RED) {
                            return Err(Stop::Viol("memory", "out-of-bounds stack write".into()));
                        }
                        o.data[doff..doff + n].copy_from_slice(&data);
                        o.fl[doff..doff + n].copy_from_slice(&fl);
                        o.clear_sym(doff, n);
                        return Ok(());
                    }
                },
            };
        }
        let (o, doff) = self.wr(st, dst, n, false)?;
        if o.fl[doff..doff + n].iter().any(|f| *f == RED) {
            return Err(Stop::Viol("memory", "out-of-bounds stack write".into()));
        }
        o.data[doff..doff + n].copy_from_slice(&rc.data[so..so + n]);
        o.fl[doff..doff + n].copy_from_slice(&rc.fl[so..so + n]);
        if !rc.sym.is_empty() && rc.sym[so..so + n].iter().any(|s| *s != 0) {
            o.need_sym();
            o.sym[doff..doff + n].copy_from_slice(&rc.sym[so..so + n]);
        } else {
            o.clear_sym(doff, n);
        }
        Ok(())
    }
    fn set(&mut self, st: &mut State, dst: u64, v: Val, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.wr(st, dst, n, false)?;
        for f in &mut o.fl[off..off + n] {
            if *f == RED {
                return Err(Stop::Viol("memory", "out-of-bounds stack write".into()));
            }
            *f = if v.t == UNDEF { UNINIT } else { INIT };
        }
        if v.t == 0 {
            o.data[off..off + n].iter_mut().for_each(|b| *b = v.v as u8);
            o.clear_sym(off, n);
        } else if v.t != UNDEF {
            o.need_sym();
            o.sym[off..off + n].iter_mut().for_each(|b| *b = v.t << 3);
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zeroed: bool) -> X<u64> {
        if size > 64 << 20 {
            return Err(Stop::Incomplete(format!("allocation of {} bytes", size)));
        }
        let mut o = Obj::new(size as usize, align as u32, zeroed);
        o.tag = st.heap.next as u32;
        let i = st.heap.add(o);
        Ok(((i as u64 + HEAP0) << 32) | BASE_OFF)
    }
    fn dealloc(&mut self, st: &mut State, p: u64, size: u64, align: u64) -> X<()> {
        let id = p >> 32;
        if id < HEAP0 || p & 0xffff_ffff != BASE_OFF {
            return Err(Stop::Viol("memory", format!("free of an address that is not the start of a heap object ({:#x})", p)));
        }
        let i = (id - HEAP0) as usize;
        match st.heap.get(i) {
            None => Err(Stop::Viol("memory", if st.heap.existed(i) { "double free".into() } else { "free of a wild address".into() })),
            Some(o) => {
                if o.data.len() as u64 != size || o.align as u64 != align {
                    return Err(Stop::Viol("memory", format!("free with layout ({},{}) of an object allocated with ({},{})", size, align, o.data.len(), o.align)));
                }
                if st.freeze && o.frozen {
                    return Err(Stop::Viol("race", "a read-only operation frees shared memory".into()));
                }
                st.heap.free(i);
                Ok(())
            }
        }
    }

    // ------------------------------------------------------------------------------ execution
    #[inline(always)]
    fn v(&self, st: &State, o: Opn) -> Val {
        match o {
            Opn::R(i) => st.top.regs[i as usize],
            Opn::C(k) => Val::c(k),
            Opn::U => Val::undef(),
        }
    }
    #[inline(always)]
    fn take(&self, st: &mut State, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => {
                let (d, o) = e.moves[0];
                let v = self.v(st, o);
                st.top.regs[d as usize] = v;
            }
            n => {
                let mut buf = [Val::c(0); 24];
                if n <= 24 {
                    for (i, (_, o)) in e.moves.iter().enumerate() {
                        buf[i] = self.v(st, *o);
                    }
                    for (i, (d, _)) in e.moves.iter().enumerate() {
                        st.top.regs[*d as usize] = buf[i];
                    }
                } else {
                    let vs: Vec<Val> = e.moves.iter().map(|(_, o)| self.v(st, *o)).collect();
                    for (i, (d, _)) in e.moves.iter().enumerate() {
                        st.top.regs[*d as usize] = vs[i];
                    }
                }
            }
        }
        st.top.pc = e.to;
    }
    fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        if a.t == 0 && b.t == 0 {
            let (x, y) = (a.v, b.v);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
            };
            return Val::c(r as u64);
        }
        if a.t == UNDEF || b.t == UNDEF {
            return Val::undef();
        }
        let (a, b) = (self.t.id(a, w), self.t.id(b, w));
        let r = match p {
            Pred::Eq => self.t.eq(a, b),
            Pred::Ne => {
                let e = self.t.eq(a, b);
                self.t.not(e)
            }
            Pred::Ult => self.t.ult(a, b),
            Pred::Ugt => self.t.ult(b, a),
            Pred::Ule => {
                let e = self.t.ult(b, a);
                self.t.not(e)
            }
            Pred::Uge => {
                let e = self.t.ult(a, b);
                self.t.not(e)
            }
            Pred::Slt => self.t.slt(a, b),
            Pred::Sgt => self.t.slt(b, a),
            Pred::Sle => {
                let e = self.t.slt(b, a);
                self.t.not(e)
            }
            Pred::Sge => {
                let e = self.t.slt(a, b);
                self.t.not(e)
            }
        };
        self.t.val(r)
    }
    fn ite(&mut self, c: u32, a: Val, b: Val, w: u32) -> Val {
        if a == b {
            return a;
        }
        let (x, y) = (self.t.id(a, w), self.t.id(b, w));
        let r = self.t.ite(c, x, y);
        if self.t.has_undef(r) {
            Val { v: 0, t: r }
        } else {
            self.t.val(r)
        }
    }
    /// start or continue unwinding from the current frame (whose pending call is `ci`)
    fn unwind(&mut self, st: &mut State, ci: Option<&'static CallI>) -> X<()> {
        let mut ci = ci;
        loop {
            if let Some(c) = ci {
                if let Some(e) = &c.unwind {
                    self.take(st, e);
                    return Ok(());
                }
            }
            let call = st.top.call;
            if st.frames.is_empty() {
                return Err(Stop::PanicEnd);
            }
            self.pop(st);
            ci = call;
        }
    }
    fn pop(&mut self, st: &mut State) {
        st.stack.pop();
        let f = st.frames.pop().unwrap();
        let nt = match Rc::try_unwrap(f) {
            Ok(f) => f,
            Err(rc) => (*rc).clone(),
        };
        let old = std::mem::replace(&mut st.top, nt);
        if self.pool.len() < 64 {
            self.pool.push(old.regs);
        }
    }
    fn panic(&mut self, st: &mut State, ci: &'static CallI, what: &str) -> X<()> {
        if !st.allow_panic {
            return Err(Stop::Viol("panic", what.to_string()));
        }
        st.panics += 1;
        self.unwind(st, Some(ci))
    }
    fn ret_to(&mut self, st: &mut State, ci: &'static CallI, vals: &[Val]) {
        for (i, v) in vals.iter().enumerate().take(ci.widths.len()) {
            st.top.regs[ci.dst as usize + i] = *v;
        }
        match &ci.normal {
            Some(e) => self.take(st, e),
            None => st.top.pc += 1,
        }
    }
    fn kind(&self, f: u32) -> FKind {
        let d = &self.m.funcs[f as usize];
        *d.kind.get_or_init(|| classify(&d.name, d.defined))
    }
    fn call(&mut self, st: &mut State, ci: &'static CallI) -> X<()> {
        let fid = match ci.callee {
            Callee::Direct(f) => f,
            Callee::Indirect(o) => {
                let v = self.v(st, o);
                let a = self.conc(st, v, 64, "call target")?;
                let id = a >> 32;
                if id < FUNC0 || id >= FUNC0 + self.m.funcs.len() as u64 || a & 0xffff_ffff != BASE_OFF {
                    return Err(Stop::Viol("memory", format!("call through a bad function pointer {:#x}", a)));
                }
                (id - FUNC0) as u32
            }
        };
        let k = self.kind(fid);
        if k == FKind::Body {
            if st.frames.len() >= self.lim.depth {
                return Err(Stop::Viol("recursion", format!("call depth exceeds {}", self.lim.depth)));
            }
            let f = match self.m.body(fid) {
                Ok(f) => f,
                Err(e) => return Err(Stop::Incomplete(format!("cannot parse {}: {}", self.m.funcs[fid as usize].name, e))),
            };
            if !self.seen_fn[fid as usize] {
                self.seen_fn[fid as usize] = true;
            }
            let mut regs = self.pool.pop().unwrap_or_default();
            regs.clear();
            regs.resize(f.nslots as usize, Val::undef());
            for (i, a) in ci.args.iter().enumerate().take(f.nargs as usize) {
                regs[i] = self.v(st, *a);
            }
            let sid = self.push_stack(st, fid, f);
            let nf = Frame { f, fid, pc: f.entry, regs, call: Some(ci), sid };
            let old = std::mem::replace(&mut st.top, nf);
            st.frames.push(Rc::new(old));
            return Ok(());
        }
        let arg = |i: usize| -> Opn { ci.args[i] };
        match k {
            FKind::Body => unreachable!(),
            FKind::Nop => self.ret_to(st, ci, &[]),
            FKind::Alloc | FKind::AllocZeroed => {
                let (s, a) = (self.v(st, arg(0)), self.v(st, arg(1)));
                let s = self.conc(st, s, 64, "allocation size")?;
                let a = self.conc(st, a, 64, "allocation alignment")?;
                let p = self.alloc(st, s, a, k == FKind::AllocZeroed)?;
                self.ret_to(st, ci, &[Val::c(p)]);
            }
            FKind::Dealloc => {
                let (p, s, a) = (self.v(st, arg(0)), self.v(st, arg(1)), self.v(st, arg(2)));
                let p = self.conc(st, p, 64, "freed pointer")?;
                let s = self.conc(st, s, 64, "free size")?;
                let a = self.conc(st, a, 64, "free alignment")?;
                self.dealloc(st, p, s, a)?;
                self.ret_to(st, ci, &[]);
            }
            FKind::Realloc => {
                let (p, s, a, ns) = (self.v(st, arg(0)), self.v(st, arg(1)), self.v(st, arg(2)), self.v(st, arg(3)));
                let p = self.conc(st, p, 64, "realloc pointer")?;
                let s = self.conc(st, s, 64, "realloc size")?;
                let a = self.conc(st, a, 64, "realloc alignment")?;
                let ns = self.conc(st, ns, 64, "realloc new size")?;
                let q = self.alloc(st, ns, a, false)?;
                if p >> 32 < HEAP0 {
                    return Err(Stop::Viol("memory", "realloc of a non-heap address".into()));
                }
                self.copy(st, q, p, s.min(ns) as usize, true)?;
                self.dealloc(st, p, s, a)?;
                self.ret_to(st, ci, &[Val::c(q)]);
            }
            FKind::AllocError => return Err(Stop::Incomplete("allocation error path".into())),
            FKind::Panic => {
                let n = &self.m.funcs[fid as usize].name;
                let mut at = self.m.funcs[st.top.fid as usize].name.clone();
                at.truncate(160);
                let s = format!("{} called from {}", n, at);
                return self.panic(st, ci, &s);
            }
            FKind::UbPanic => {
                let mut at = self.m.funcs[st.top.fid as usize].name.clone();
                at.truncate(160);
                return Err(Stop::Viol("ub", format!("unsafe precondition violated in {}", at)));
            }
            FKind::AbortPanic => {
                if st.allow_abort {
                    return Err(Stop::AbortEnd);
                }
                return Err(Stop::Viol("abort", "the process aborts".into()));
            }
            FKind::CatchCleanup => {
                // Box<dyn Any + Send> of a zero-sized payload: dangling data pointer, any vtable with no drop glue
                let vt = self.alloc_const_vtable(st)?;
                self.ret_to(st, ci, &[Val::c(1), Val::c(vt)]);
            }
            FKind::ResumeUnwind => {
                // the payload is leaked or owned by the unwinder; boxes of zero-sized payloads own no memory
                return self.panic(st, ci, "resume_unwind");
            }
            FKind::Memcpy | FKind::Memmove => {
                let (d, s, n) = (self.v(st, arg(0)), self.v(st, arg(1)), self.v(st, arg(2)));
                let n = self.conc(st, n, 64, "copy length")?;
                let d = self.conc(st, d, 64, "copy destination")?;
                let s = self.conc(st, s, 64, "copy source")?;
                self.copy(st, d, s, n as usize, k == FKind::Memmove)?;
                self.ret_to(st, ci, &[Val::c(d)]);
            }
            FKind::Memset => {
                let (d, c, n) = (self.v(st, arg(0)), self.v(st, arg(1)), self.v(st, arg(2)));
                let n = self.conc(st, n, 64, "memset length")?;
                let d = self.conc(st, d, 64, "memset destination")?;
                let c = if c.t == 0 { Val::c(c.v & 255) } else { Val::c(self.conc(st, c, 32, "memset value")? & 255) };
                self.set(st, d, c, n as usize)?;
                self.ret_to(st, ci, &[Val::c(d)]);
            }
            FKind::Memcmp | FKind::Bcmp => {
                let (a, b, n) = (self.v(st, arg(0)), self.v(st, arg(1)), self.v(st, arg(2)));
                let n = self.conc(st, n, 64, "compare length")?;
                let a = self.conc(st, a, 64, "compare pointer")?;
                let b = self.conc(st, b, 64, "compare pointer")?;
                let mut r = Val::c(0);
                for i in (0..n).rev() {
                    let x = self.load(st, a + i, 8)?;
                    let y = self.load(st, b + i, 8)?;
                    if x.t == UNDEF || y.t == UNDEF {
                        return Err(Stop::Viol("uninit", "comparison of uninitialised memory".into()));
                    }
                    if x.t == 0 && y.t == 0 {
                        if x.v != y.v {
                            r = Val::c(if x.v < y.v { 0xffff_ffff } else { 1 });
                        }
                        continue;
                    }
                    let lt = self.icmp(Pred::Ult, 8, x, y);
                    let eq = self.icmp(Pred::Eq, 8, x, y);
                    let (lt, eq) = (self.t.id(lt, 1), self.t.id(eq, 1));
                    let o = self.ite(lt, Val::c(0xffff_ffff), Val::c(1), 32);
                    r = self.ite(eq, r, o, 32);
                }
                self.ret_to(st, ci, &[r]);
            }
            FKind::Strlen => return Err(Stop::Incomplete("strlen".into())),
            FKind::RandomKeys => self.ret_to(st, ci, &[Val::c(1), Val::c(2)]),
            FKind::Unknown => {
                return Err(Stop::Incomplete(format!("call to external function {}", self.m.funcs[fid as usize].name)));
            }
            FKind::V(v) => return self.builtin(st, ci, v),
        }
        Ok(())
    }
    fn alloc_const_vtable(&mut self, st: &mut State) -> X<u64> {
        // a 32-byte immortal object {drop: null, size: 0, align: 1}; not counted as a live heap object
        let p = self.alloc(st, 32, 8, true)?;
        self.store(st, p + 16, Val::c(1), 64, false)?;
        st.heap.live -= 1;
        Ok(p)
    }
    fn fresh(&mut self, st: &mut State, w: u32) -> u32 {
        let i = st.inputs.len() as u32;
        let t = self.t.var_at(i, w);
        st.inputs.push(t);
        st.model.resize(st.inputs.len(), 0);
        st.model[i as usize] = 0;
        st.ivs.push((0, mask(w)));
        t
    }
    fn builtin(&mut self, st: &mut State, ci: &'static CallI, v: Vf) -> X<()> {
        let a0 = ci.args.first().map(|o| self.v(st, *o)).unwrap_or(Val::c(0));
        match v {
            Vf::Sym(w) => {
                let t = self.fresh(st, w as u32);
                self.ret_to(st, ci, &[Val { v: 0, t }]);
            }
            Vf::Choose => {
                let n = self.conc(st, a0, 32, "choose bound")?;
                if n == 0 {
                    return Err(Stop::Infeasible);
                }
                let t = self.fresh(st, 32);
                let i = st.inputs.len() - 1;
                for k in (0..n).rev() {
                    let kt = self.t.konst(k, 32);
                    let c = self.t.eq(t, kt);
                    if k == 0 {
                        st.model[i] = 0;
                        self.push_c(st, c, true);
                        self.ret_to(st, ci, &[Val::c(0)]);
                    } else {
                        self.rep.forks += 1;
                        let mut o = st.clone();
                        o.model[i] = k;
                        self.push_c(&mut o, c, true);
                        self.ret_to(&mut o, ci, &[Val::c(k)]);
                        self.work.push(o);
                    }
                }
            }
            Vf::Assume => {
                if a0.t == 0 {
                    if a0.v & 1 == 0 {
                        return Err(Stop::Infeasible);
                    }
                } else {
                    self.undef_check(st, a0, 1, "assumption")?;
                    if self.t.eval(a0.t, &st.model) != 1 {
                        match self.feasible(st, a0.t, true)? {
                            Some(m) => st.model = m,
                            None => return Err(Stop::Infeasible),
                        }
                    }
                    self.push_c(st, a0.t, true);
                }
                self.ret_to(st, ci, &[]);
            }
            Vf::Check => {
                let a1 = self.v(st, ci.args[1]);
                let id = a1.v as u32;
                *self.rep.checks_seen.entry(id).or_default() += 1;
                st.last_check = id;
                if a0.t == 0 {
                    self.rep.checks_concrete += 1;
                    if a0.v & 1 == 0 {
                        return Err(Stop::Viol("check", format!("{}", id)));
                    }
                } else {
                    self.undef_check(st, a0, 1, "checked condition")?;
                    self.rep.checks_solver += 1;
                    let e = self.t.not(a0.t);
                    match self.z.check(&self.t, &st.pc, Some(e), &st.inputs) {
                        Res::Sat(m) => {
                            st.model = m;
                            return Err(Stop::Viol("check", format!("{}", id)));
                        }
                        Res::Unsat => {}
                        Res::Unknown => return Err(Stop::Incomplete(format!("solver gave no answer for check {}", id))),
                    }
                }
                self.ret_to(st, ci, &[]);
            }
            Vf::Cover => {
                *self.rep.covers.entry(a0.v as u32).or_default() += 1;
                self.ret_to(st, ci, &[]);
            }
            Vf::Obs => {
                self.undef_check(st, a0, 64, "observed value")?;
                st.obs.push(a0);
                self.ret_to(st, ci, &[]);
            }
            Vf::Param => {
                let i = a0.v as usize;
                let r = self.params.get(i).copied().unwrap_or(0);
                self.ret_to(st, ci, &[Val::c(r)]);
            }
            Vf::Conc => {
                let k = self.conc(st, a0, 64, "concretised value")?;
                self.ret_to(st, ci, &[Val::c(k)]);
            }
            Vf::AllowPanic => {
                st.allow_panic = a0.v & 1 == 1;
                self.ret_to(st, ci, &[]);
            }
            Vf::AllowAbort => {
                st.allow_abort = a0.v & 1 == 1;
                self.ret_to(st, ci, &[]);
            }
            Vf::Live => {
                let n = st.heap.live as u64;
                self.ret_to(st, ci, &[Val::c(n)]);
            }
            Vf::LeakOk => {
                st.leak_ok = true;
                self.ret_to(st, ci, &[]);
            }
            Vf::Freeze => {
                let on = a0.v & 1 == 1;
                st.freeze = on;
                st.heap.for_each_mut(|_, o| o.frozen = on);
                self.ret_to(st, ci, &[]);
            }
            Vf::Havoc => {
                st.havoc = a0.v as u8;
                if st.havoc == 0 {
                    st.hv = Rc::new(vec![]);
                }
                self.ret_to(st, ci, &[]);
            }
            Vf::IsSymbolic => self.ret_to(st, ci, &[Val::c(1)]),
            Vf::Panic => {
                st.panics += 1;
                return self.unwind(st, Some(ci));
            }
            Vf::Sel => {
                let (a, b) = (self.v(st, ci.args[1]), self.v(st, ci.args[2]));
                let r = if a0.t == 0 {
                    if a0.v & 1 == 1 {
                        a
                    } else {
                        b
                    }
                } else {
                    self.undef_check(st, a0, 1, "select")?;
                    self.ite(a0.t, a, b, 64)
                };
                self.ret_to(st, ci, &[r]);
            }
            Vf::Unique => {
                // fork on a width-1 value and return it concretely
                let (b, o) = self.branch(st, a0, "condition")?;
                if let Some(mut o) = o {
                    self.ret_to(&mut o, ci, &[Val::c(!b as u64)]);
                    self.work.push(o);
                }
                self.ret_to(st, ci, &[Val::c(b as u64)]);
            }
        }
        Ok(())
    }

    fn hv_record(&mut self, st: &mut State, addr: u64, v: Val) {
        let h = Rc::make_mut(&mut st.hv);
        match h.iter_mut().find(|(a, _)| *a == addr) {
            Some((_, vs)) => {
                if !vs.contains(&v) {
                    vs.push(v)
                }
            }
            None => h.push((addr, vec![v])),
        }
    }

    fn run(&mut self, st: &mut State) -> X<()> {
        let start = st.steps;
        loop {
            let f = st.top.f;
            let ins: &'static I = &f.code[st.top.pc as usize];
            st.steps += 1;
            if st.steps - start >= 65536 {
                self.rep.instrs += st.steps - start;
                if st.steps > self.lim.steps {
                    return Err(Stop::Viol("steps", format!("no termination within {} steps", self.lim.steps)));
                }
                if Instant::now() > self.lim.deadline {
                    return Err(Stop::Incomplete("time limit".into()));
                }
                return Ok(());
            }
            let r = self.step(st, ins);
            if let Err(e) = r {
                self.rep.instrs += st.steps - start;
                return Err(e);
            }
        }
    }

    #[inline(always)]
    fn step(&mut self, st: &mut State, ins: &'static I) -> X<()> {
        match ins {
            I::Bin { op, w, dst, a, b, flags } => {
                let (a, b) = (self.v(st, *a), self.v(st, *b));
                let w = *w as u32;
                let r = if a.t == 0 && b.t == 0 {
                    if b.v == 0 && matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                        return Err(Stop::Viol("ub", "division by zero".into()));
                    }
                    let r = fold(*op, w, a.v, b.v);
                    if *flags != 0 && overflow(*op, w, a.v, b.v, *flags) {
                        Val::undef()
                    } else {
                        Val::c(r)
                    }
                } else {
                    self.t.bin(*op, w, a, b)
                };
                st.top.regs[*dst as usize] = r;
                st.top.pc += 1;
            }
            I::Icmp { p, w, dst, a, b } => {
                let (a, b) = (self.v(st, *a), self.v(st, *b));
                let r = self.icmp(*p, *w as u32, a, b);
                st.top.regs[*dst as usize] = r;
                st.top.pc += 1;
            }
            I::Load { dst, w, p, off, al, atomic } => {
                let p = self.v(st, *p);
                let a = if p.t == 0 { p.v } else { self.conc(st, p, 64, "load address")? };
                let a = a.wrapping_add(*off as u64);
                if a & (*al as u64 - 1) != 0 {
                    return Err(Stop::Viol("memory", format!("misaligned read at {:#x} (align {})", a, al)));
                }
                if *atomic && st.havoc != 0 {
                    return self.atomic_load(st, *dst, a, *w as u32);
                }
                let r = self.load(st, a, *w as u32)?;
                st.top.regs[*dst as usize] = r;
                st.top.pc += 1;
            }
            I::Store { v, w, p, off, al, atomic } => {
                let p = self.v(st, *p);
                let a = if p.t == 0 { p.v } else { self.conc(st, p, 64, "store address")? };
                let a = a.wrapping_add(*off as u64);
                if a & (*al as u64 - 1) != 0 {
                    return Err(Stop::Viol("memory", format!("misaligned write at {:#x} (align {})", a, al)));
                }
                let v = self.v(st, *v);
                if *atomic && st.havoc != 0 {
                    let shared = a >> 32 >= HEAP0 && st.heap.get(((a >> 32) - HEAP0) as usize).map_or(false, |o| o.frozen);
                    if shared {
                        let old = self.load(st, a, *w as u32)?;
                        self.hv_record(st, a, old);
                        self.hv_record(st, a, v);
                    }
                }
                self.store(st, a, v, *w as u32, *atomic)?;
                st.top.pc += 1;
            }
            I::Gep { dst, base, off, idx } => {
                let b = self.v(st, *base);
                let b = if b.t == 0 {
                    b.v
                } else if b.t == UNDEF {
                    st.top.regs[*dst as usize] = Val::undef();
                    st.top.pc += 1;
                    return Ok(());
                } else {
                    self.conc(st, b, 64, "pointer")?
                };
                let mut r = b.wrapping_add(*off);
                for (o, w, sc) in idx.iter() {
                    let v = self.v(st, *o);
                    if v.t == UNDEF {
                        st.top.regs[*dst as usize] = Val::undef();
                        st.top.pc += 1;
                        return Ok(());
                    }
                    let k = if v.t == 0 { v.v } else { self.conc(st, v, *w as u32, "index")? };
                    r = r.wrapping_add((sx(k, *w as u32) as u64).wrapping_mul(*sc));
                }
                st.top.regs[*dst as usize] = Val::c(r);
                st.top.pc += 1;
            }
            I::VCast { dst, from, to, n, a } => {
                let (fw, tw) = (*from as u32, *to as u32);
                for j in 0..*n {
                    let r = if tw < fw {
                        let x = self.v(st, a[(j * tw / fw) as usize]);
                        let sh = j * tw % fw;
                        match x.t {
                            0 => Val::c(x.v >> sh & mask(tw)),
                            UNDEF => Val::undef(),
                            t => {
                                let t = self.t.extract(t, sh, tw);
                                self.t.val(t)
                            }
                        }
                    } else {
                        let m = tw / fw;
                        let xs: Vec<Val> = (0..m).map(|i| self.v(st, a[(j * m + i) as usize])).collect();
                        if xs.iter().any(|x| x.t == UNDEF) {
                            Val::undef()
                        } else if xs.iter().all(|x| x.t == 0) {
                            Val::c(xs.iter().rev().fold(0, |r, x| r << fw | x.v))
                        } else {
                            let mut t = self.t.id(xs[0], fw);
                            for x in &xs[1..] {
                                let h = self.t.id(*x, fw);
                                t = self.t.concat(h, t);
                            }
                            self.t.val(t)
                        }
                    };
                    st.top.regs[*dst as usize + j as usize] = r;
                }
                st.top.pc += 1;
            }
            I::Cast { k, dst, from, to, a } => {
                let a = self.v(st, *a);
                let (fw, tw) = (*from as u32, *to as u32);
                let r = if a.t == 0 {
                    Val::c(match k {
                        CastK::Zext | CastK::Same => a.v,
                        CastK::Trunc => a.v & mask(tw),
                        CastK::Sext => sx(a.v, fw) as u64 & mask(tw),
                    })
                } else if a.t == UNDEF && matches!(k, CastK::Zext) && tw > fw {
                    // the upper bits are zero: packing undefined bytes next to others is common
                    let u = self.t.undef(fw);
                    let t = self.t.zext(u, tw);
                    self.t.val(t)
                } else if a.t == UNDEF {
                    Val::undef()
                } else {
                    let t = match k {
                        CastK::Zext => self.t.zext(a.t, tw),
                        CastK::Sext => self.t.sext(a.t, tw),
                        CastK::Trunc => self.t.extract(a.t, 0, tw),
                        CastK::Same => a.t,
                    };
                    self.t.val(t)
                };
                st.top.regs[*dst as usize] = r;
                st.top.pc += 1;
            }
            I::Select { c, n, dst, ab, ptrlike } => {
                let c = self.v(st, *c);
                let _ = n;
                if c.t == 0 {
                    let mut i = *dst as usize;
                    for (a, b, _) in ab.iter() {
                        let v = if c.v & 1 == 1 { self.v(st, *a) } else { self.v(st, *b) };
                        st.top.regs[i] = v;
                        i += 1;
                    }
                    st.top.pc += 1;
                    return Ok(());
                }
                if c.t == UNDEF {
                    for i in 0..ab.len() {
                        st.top.regs[*dst as usize + i] = Val::undef();
                    }
                    st.top.pc += 1;
                    return Ok(());
                }
                if *ptrlike && !self.t.has_undef(c.t) {
                    let (b, o) = self.branch(st, c, "select condition")?;
                    let put = |e: &Engine, s: &mut State, b: bool| {
                        let vs: Vec<Val> = ab.iter().map(|(x, y, _)| e.v(s, if b { *x } else { *y })).collect();
                        for (i, v) in vs.into_iter().enumerate() {
                            s.top.regs[*dst as usize + i] = v;
                        }
                        s.top.pc += 1;
                    };
                    if let Some(mut o) = o {
                        put(self, &mut o, !b);
                        self.work.push(o);
                    }
                    put(self, st, b);
                } else {
                    for (i, (a, b, w)) in ab.iter().enumerate() {
                        let (a, b) = (self.v(st, *a), self.v(st, *b));
                        let r = self.ite(c.t, a, b, *w as u32);
                        st.top.regs[*dst as usize + i] = r;
                    }
                    st.top.pc += 1;
                }
            }
            I::Move { ms } => {
                if ms.len() == 1 {
                    let v = self.v(st, ms[0].1);
                    st.top.regs[ms[0].0 as usize] = v;
                } else {
                    let vs: Vec<Val> = ms.iter().map(|(_, o)| self.v(st, *o)).collect();
                    for (i, (d, _)) in ms.iter().enumerate() {
                        st.top.regs[*d as usize] = vs[i];
                    }
                }
                st.top.pc += 1;
            }
            I::Freeze { dst, a } => {
                let a = self.v(st, *a);
                st.top.regs[*dst as usize] = if a.t == UNDEF { Val::c(0) } else { a };
                st.top.pc += 1;
            }
            I::Alloca { dst, off } => {
                let a = ((st.top.sid as u64) << 32 | BASE_OFF) + off;
                st.top.regs[*dst as usize] = Val::c(a);
                st.top.pc += 1;
            }
            I::Br(e) => self.take(st, e),
            I::CondBr { c, t, f } => {
                let c = self.v(st, *c);
                if c.t == 0 {
                    self.take(st, if c.v & 1 == 1 { t } else { f });
                    return Ok(());
                }
                let (b, o) = self.branch(st, c, "branch")?;
                if let Some(mut o) = o {
                    self.take(&mut o, if !b { t } else { f });
                    self.work.push(o);
                }
                self.take(st, if b { t } else { f });
            }
            I::Switch { v, w, d, cases } => {
                let v = self.v(st, *v);
                if v.t == 0 {
                    for (k, e) in cases.iter() {
                        if *k == v.v {
                            self.take(st, e);
                            return Ok(());
                        }
                    }
                    self.take(st, d);
                    return Ok(());
                }
                let k = self.switch_conc(st, v, *w as u32, cases)?;
                match k {
                    Some(k) => {
                        let e = &cases.iter().find(|c| c.0 == k).unwrap().1;
                        self.take(st, e);
                    }
                    None => self.take(st, d),
                }
            }
            I::Ret(vs) => {
                let mut buf = [Val::c(0); 8];
                let n = vs.len();
                let big: Vec<Val>;
                let vals: &[Val] = if n <= 8 {
                    for (i, o) in vs.iter().enumerate() {
                        buf[i] = self.v(st, *o);
                    }
                    &buf[..n]
                } else {
                    big = vs.iter().map(|o| self.v(st, *o)).collect();
                    &big
                };
                let call = st.top.call;
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                self.pop(st);
                self.ret_to(st, call.unwrap(), vals);
            }
            I::Call(ci) => return self.call(st, ci),
            I::Intr { k, w, dst, args } => {
                self.intr(st, *k, *w as u32, *dst, args)?;
                st.top.pc += 1;
            }
            I::Rmw { op, w, dst, p, v } => {
                let p = self.v(st, *p);
                let a = self.conc(st, p, 64, "atomic address")?;
                let v = self.v(st, *v);
                let w = *w as u32;
                let old = self.load(st, a, w)?;
                let new = match op {
                    0 => v,
                    1 => self.t.bin(Op::Add, w, old, v),
                    2 => self.t.bin(Op::Sub, w, old, v),
                    3 => self.t.bin(Op::And, w, old, v),
                    4 => self.t.bin(Op::Or, w, old, v),
                    5 => self.t.bin(Op::Xor, w, old, v),
                    6..=9 => {
                        let c = self.icmp(if *op < 8 { Pred::Slt } else { Pred::Ult }, w, old, v);
                        // old < v
                        let (x, y) = if op & 1 == 1 { (old, v) } else { (v, old) };
                        match c.t {
                            0 => [y, x][c.v as usize & 1],
                            UNDEF => Val::undef(),
                            t => self.ite(t, x, y, w),
                        }
                    }
                    _ => {
                        let x = self.t.bin(Op::And, w, old, v);
                        self.t.bin(Op::Xor, w, x, Val::c(mask(w)))
                    }
                };
                if st.havoc != 0 {
                    self.hv_record(st, a, old);
                    self.hv_record(st, a, new);
                }
                self.store(st, a, new, w, true)?;
                st.top.regs[*dst as usize] = old;
                st.top.pc += 1;
            }
            I::CmpXchg { w, dst, p, cmp, new } => {
                let p = self.v(st, *p);
                let a = self.conc(st, p, 64, "atomic address")?;
                let (cmp, new) = (self.v(st, *cmp), self.v(st, *new));
                let w = *w as u32;
                let old = self.load(st, a, w)?;
                let c = self.icmp(Pred::Eq, w, old, cmp);
                let (b, o) = self.branch(st, c, "compare-exchange")?;
                let dst = *dst;
                let done = |e: &mut Engine, s: &mut State, b: bool| -> X<()> {
                    if b {
                        if s.havoc != 0 {
                            e.hv_record(s, a, old);
                            e.hv_record(s, a, new);
                        }
                        e.store(s, a, new, w, true)?;
                    }
                    s.top.regs[dst as usize] = old;
                    s.top.regs[dst as usize + 1] = Val::c(b as u64);
                    s.top.pc += 1;
                    Ok(())
                };
                if let Some(mut o) = o {
                    done(self, &mut o, !b)?;
                    self.work.push(o);
                }
                done(self, st, b)?;
            }
            I::LandingPad { dst } => {
                st.top.regs[*dst as usize] = Val::c(0x10);
                st.top.regs[*dst as usize + 1] = Val::c(1);
                st.top.pc += 1;
            }
            I::Resume => return self.unwind(st, None),
            I::Unreachable => return Err(Stop::Viol("ub", "unreachable code reached".into())),
            I::Unsupported(s) => {
                let mut s = s.to_string();
                s.truncate(120);
                return Err(Stop::Incomplete(format!("unsupported instruction: {}", s)));
            }
        }
        Ok(())
    }

    /// an atomic load of shared memory while other readers run: any value stored so far by any of them
    fn atomic_load(&mut self, st: &mut State, dst: u32, a: u64, w: u32) -> X<()> {
        let cur = self.load(st, a, w)?;
        if st.havoc == 2 {
            if let Some((_, vs)) = st.hv.iter().find(|(x, _)| *x == a) {
                let mut c = vec![cur];
                for v in vs {
                    if !c.contains(v) {
                        c.push(*v);
                    }
                }
                for (i, v) in c.iter().enumerate().skip(1) {
                    self.rep.forks += 1;
                    let mut o = st.clone();
                    o.sched.push(i as u32);
                    o.top.regs[dst as usize] = *v;
                    o.top.pc += 1;
                    self.work.push(o);
                }
                if c.len() > 1 {
                    st.sched.push(0);
                }
            }
        }
        st.top.regs[dst as usize] = cur;
        st.top.pc += 1;
        Ok(())
    }

    /// choose one feasible switch case on this path, queueing the rest (re-executed at this instruction)
    fn switch_conc(&mut self, st: &mut State, v: Val, w: u32, cases: &[(u64, Edge)]) -> X<Option<u64>> {
        self.undef_check(st, v, w, "switch")?;
        let k = self.t.eval(v.t, &st.model);
        if let Some((c, _)) = cases.iter().find(|c| c.0 == k) {
            let kt = self.t.konst(*c, w);
            let e = self.t.eq(v.t, kt);
            if self.t.t[e as usize].op != Op::Const {
                match self.decide(st, e)? {
                    Dec::T => {}
                    Dec::F => return Err(Stop::Incomplete("internal: switch".into())),
                    Dec::Both(m) => {
                        self.rep.forks += 1;
                        let mut o = st.clone();
                        o.model = m;
                        self.push_c(&mut o, e, false);
                        self.work.push(o);
                        self.push_c(st, e, true);
                    }
                }
            }
            return Ok(Some(*c));
        }
        // the model goes to the default; is any case feasible?
        for (c, _) in cases {
            let kt = self.t.konst(*c, w);
            let e = self.t.eq(v.t, kt);
            let x = self.t.t[e as usize];
            if x.op == Op::Const {
                continue;
            }
            match self.decide(st, e)? {
                Dec::F => {}
                Dec::T => return Err(Stop::Incomplete("internal: switch default".into())),
                Dec::Both(m) => {
                    self.rep.forks += 1;
                    let mut o = st.clone();
                    o.model = m;
                    self.push_c(&mut o, e, true);
                    self.work.push(o);
                    self.push_c(st, e, false);
                }
            }
        }
        Ok(None)
    }

    fn intr(&mut self, st: &mut State, k: Intr, w: u32, dst: u32, args: &[Opn]) -> X<()> {
        let a = |e: &Engine, st: &State, i: usize| e.v(st, args[i]);
        let m = mask(w);
        match k {
            Intr::Nop => {}
            Intr::Memcpy | Intr::Memmove => {
                let n = a(self, st, 2);
                let n = self.conc(st, n, 64, "copy length")?;
                if n == 0 {
                    return Ok(());
                }
                let (d, s) = (a(self, st, 0), a(self, st, 1));
                let d = self.conc(st, d, 64, "copy destination")?;
                let s = self.conc(st, s, 64, "copy source")?;
                self.copy(st, d, s, n as usize, k == Intr::Memmove)?;
            }
            Intr::Memset => {
                let n = a(self, st, 2);
                let n = self.conc(st, n, 64, "memset length")?;
                if n == 0 {
                    return Ok(());
                }
                let d = a(self, st, 0);
                let d = self.conc(st, d, 64, "memset destination")?;
                let v = a(self, st, 1);
                self.set(st, d, v, n as usize)?;
            }
            Intr::AddO | Intr::SubO | Intr::MulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let (x, y) = (a(self, st, 0), a(self, st, 1));
                let op = match k {
                    Intr::AddO | Intr::SAddO => Op::Add,
                    Intr::SubO | Intr::SSubO => Op::Sub,
                    _ => Op::Mul,
                };
                let (r, o);
                if x.t == 0 && y.t == 0 {
                    r = Val::c(fold(op, w, x.v, y.v));
                    let fl = if matches!(k, Intr::AddO | Intr::SubO | Intr::MulO) { 1 } else { 2 };
                    o = Val::c(overflow(op, w, x.v, y.v, fl) as u64);
                } else if x.t == UNDEF || y.t == UNDEF {
                    r = Val::undef();
                    o = Val::undef();
                } else {
                    let (tx, ty) = (self.t.id(x, w), self.t.id(y, w));
                    let rt = self.t.tbin(op, w, tx, ty);
                    r = self.t.val(rt);
                    let ot = match k {
                        Intr::AddO => self.t.ult(rt, tx),
                        Intr::SubO => self.t.ult(tx, ty),
                        Intr::SAddO | Intr::SSubO => {
                            // sign of x, y, r
                            let z = self.t.konst(0, w);
                            let (sx_, sy, sr) = (self.t.slt(tx, z), self.t.slt(ty, z), self.t.slt(rt, z));
                            let sy = if k == Intr::SSubO { self.t.not(sy) } else { sy };
                            let e = self.t.eq(sx_, sy);
                            let e2 = self.t.eq(sx_, sr);
                            let ne = self.t.not(e2);
                            self.t.tbin(Op::And, 1, e, ne)
                        }
                        _ => {
                            if w > 32 {
                                // x * k with constant k: x > max / k
                                let (v, kk) = match (x.t, y.t) {
                                    (0, _) => (ty, x.v),
                                    (_, 0) => (tx, y.v),
                                    _ => return Err(Stop::Incomplete("wide symbolic multiplication overflow".into())),
                                };
                                if k == Intr::SMulO {
                                    return Err(Stop::Incomplete("signed multiplication overflow".into()));
                                }
                                if kk == 0 {
                                    self.t.konst(0, 1)
                                } else {
                                    let lim = self.t.konst(m / kk, w);
                                    self.t.ult(lim, v)
                                }
                            } else {
                                let (zx, zy) = if k == Intr::MulO { (self.t.zext(tx, 2 * w), self.t.zext(ty, 2 * w)) } else { (self.t.sext(tx, 2 * w), self.t.sext(ty, 2 * w)) };
                                let p = self.t.tbin(Op::Mul, 2 * w, zx, zy);
                                let back = if k == Intr::MulO { self.t.zext(rt, 2 * w) } else { self.t.sext(rt, 2 * w) };
                                let e = self.t.eq(p, back);
                                self.t.not(e)
                            }
                        }
                    };
                    o = self.t.val(ot);
                }
                st.top.regs[dst as usize] = r;
                st.top.regs[dst as usize + 1] = o;
            }
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let (x, y) = (a(self, st, 0), a(self, st, 1));
                let p = if matches!(k, Intr::UMin | Intr::UMax) { Pred::Ult } else { Pred::Slt };
                let c = self.icmp(p, w, x, y);
                let (x, y) = if matches!(k, Intr::UMin | Intr::SMin) { (x, y) } else { (y, x) };
                let r = if c.t == 0 {
                    if c.v == 1 {
                        x
                    } else {
                        y
                    }
                } else if c.t == UNDEF {
                    Val::undef()
                } else {
                    self.ite(c.t, x, y, w)
                };
                st.top.regs[dst as usize] = r;
            }
            Intr::UCmp | Intr::SCmp => {
                let (x, y) = (a(self, st, 0), a(self, st, 1));
                let rw = match args[2] {
                    Opn::C(k) => k as u32,
                    _ => 8,
                };
                let p = if k == Intr::UCmp { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, w, x, y);
                let gt = self.icmp(p, w, y, x);
                let r = if lt.t == UNDEF {
                    Val::undef()
                } else {
                    let (lt, gt) = (self.t.id(lt, 1), self.t.id(gt, 1));
                    let r = self.ite(gt, Val::c(1), Val::c(0), rw);
                    self.ite(lt, Val::c(mask(rw)), r, rw)
                };
                st.top.regs[dst as usize] = r;
            }
            Intr::UAddSat | Intr::USubSat => {
                let (x, y) = (a(self, st, 0), a(self, st, 1));
                let r = if x.t == UNDEF || y.t == UNDEF {
                    Val::undef()
                } else {
                    let op = if k == Intr::UAddSat { Op::Add } else { Op::Sub };
                    let s = self.t.bin(op, w, x, y);
                    let c = if k == Intr::UAddSat { self.icmp(Pred::Ult, w, s, x) } else { self.icmp(Pred::Ult, w, x, y) };
                    let lim = Val::c(if k == Intr::UAddSat { m } else { 0 });
                    let c = self.t.id(c, 1);
                    self.ite(c, lim, s, w)
                };
                st.top.regs[dst as usize] = r;
            }
            Intr::Assume => {
                let c = a(self, st, 0);
                if c.t == 0 {
                    if c.v & 1 == 0 {
                        return Err(Stop::Viol("ub", "assumption of the compiler or of unsafe code is false".into()));
                    }
                } else {
                    self.undef_check(st, c, 1, "assume")?;
                    if self.decide_false(st, c.t)? {
                        return Err(Stop::Viol("ub", "assumption of the compiler or of unsafe code is false".into()));
                    }
                }
            }
            Intr::Expect => {
                let v = a(self, st, 0);
                st.top.regs[dst as usize] = v;
            }
            Intr::IsConst => st.top.regs[dst as usize] = Val::c(0),
            Intr::ThreadLocal => {
                let v = a(self, st, 0);
                st.top.regs[dst as usize] = v;
            }
            Intr::ObjSize => {
                st.top.regs[dst as usize] = Val::c(m);
            }
            Intr::Trap => return Err(Stop::Viol("ub", "trap".into())),
            _ => {
                // remaining bit operations: concrete operands only
                let n = args.len();
                let mut vs = vec![];
                for i in 0..n {
                    let v = a(self, st, i);
                    if v.t == UNDEF {
                        st.top.regs[dst as usize] = Val::undef();
                        return Ok(());
                    }
                    vs.push(self.conc(st, v, w, "bit operation operand")?);
                }
                let x = vs[0];
                let r = match k {
                    Intr::Ctpop => x.count_ones() as u64,
                    Intr::Ctlz => {
                        if x == 0 {
                            w as u64
                        } else {
                            (x.leading_zeros() - (64 - w)) as u64
                        }
                    }
                    Intr::Cttz => {
                        if x == 0 {
                            w as u64
                        } else {
                            x.trailing_zeros() as u64
                        }
                    }
                    Intr::Bswap => x.swap_bytes() >> (64 - w),
                    Intr::Bitreverse => x.reverse_bits() >> (64 - w),
                    Intr::Abs => (sx(x, w).wrapping_abs()) as u64,
                    Intr::Fshl | Intr::Fshr => {
                        let s = (vs[2] % w as u64) as u32;
                        let c = ((vs[0] as u128) << w) | vs[1] as u128;
                        if k == Intr::Fshl {
                            ((c << s) >> w) as u64
                        } else {
                            (c >> s) as u64
                        }
                    }
                    Intr::SAddSat | Intr::SSubSat => {
                        let (p, q) = (sx(vs[0], w) as i128, sx(vs[1], w) as i128);
                        let r = if k == Intr::SAddSat { p + q } else { p - q };
                        let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                        r.clamp(lo, hi) as u64
                    }
                    Intr::PtrMask => vs[0] & vs[1],
                    _ => return Err(Stop::Incomplete(format!("intrinsic {:?}", k))),
                };
                st.top.regs[dst as usize] = Val::c(r & m);
            }
        }
        Ok(())
    }
    fn decide_false(&mut self, st: &mut State, c: u32) -> X<bool> {
        if self.t.eval(c, &st.model) == 0 {
            return Ok(true);
        }
        Ok(match self.feasible(st, c, false)? {
            Some(m) => {
                st.model = m;
                true
            }
            None => false,
        })
    }
    pub fn functions_seen(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for (i, s) in self.seen_fn.iter().enumerate() {
            if *s {
                v.push(self.m.funcs[i].name.clone());
            }
        }
        v
    }
    pub fn reset(&mut self, params: Vec<u64>) {
        self.params = params;
        self.rep = Report::default();
        self.work.clear();
        self.seen_fn.iter_mut().for_each(|x| *x = false);
        if self.t.t.len() > 300_000 {
            self.t = Terms::new();
            self.z = Z3::new();
        }
    }
}

fn overflow(op: Op, w: u32, a: u64, b: u64, flags: u8) -> bool {
    if flags & 1 != 0 {
        let r = match op {
            Op::Add => (a as u128 + b as u128) >> w != 0,
            Op::Sub => a < b,
            Op::Mul => (a as u128 * b as u128) >> w != 0,
            Op::Shl => b < w as u64 && ((a as u128) << b) >> w != 0,
            _ => false,
        };
        if r {
            return true;
        }
    }
    if flags & 2 != 0 {
        let (x, y) = (sx(a, w) as i128, sx(b, w) as i128);
        let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let r = match op {
            Op::Add => x + y,
            Op::Sub => x - y,
            Op::Mul => x * y,
            _ => return false,
        };
        if r < lo || r > hi {
            return true;
        }
    }
    false
}
