//! Memory objects and the persistent heap table.
use std::rc::Rc;

pub const UNINIT: u8 = 0;
pub const INIT: u8 = 1;
pub const RED: u8 = 2;

#[derive(Clone, Default)]
pub struct Obj {
    pub align: u32,
    pub frozen: bool,
    pub constant: bool,
    pub tag: u32,
    pub data: Vec<u8>,
    pub fl: Vec<u8>,
    /// per byte: term << 3 | byte index within the term, 0 = concrete. Empty when everything is concrete.
    pub sym: Vec<u32>,
}

#[inline(always)]
pub fn all_init(fl: &[u8]) -> bool {
    match fl.len() {
        8 => u64::from_ne_bytes(fl.try_into().unwrap()) == 0x0101_0101_0101_0101,
        4 => u32::from_ne_bytes(fl.try_into().unwrap()) == 0x0101_0101,
        2 => fl[0] == 1 && fl[1] == 1,
        1 => fl[0] == 1,
        _ => fl.iter().all(|&b| b == 1),
    }
}

impl Obj {
    pub fn new(size: usize, align: u32, init: bool) -> Obj {
        Obj {
            align,
            frozen: false,
            constant: false,
            tag: 0,
            data: vec![0; size],
            fl: vec![if init { INIT } else { UNINIT }; size],
            sym: vec![],
        }
    }
    #[inline(always)]
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if !self.sym.is_empty() {
            for s in &mut self.sym[off..off + n] {
                *s = 0
            }
        }
    }
    pub fn need_sym(&mut self) {
        if self.sym.is_empty() {
            self.sym = vec![0; self.data.len()];
        }
    }
}

const CH: usize = 32;
type Chunk = Vec<Option<Rc<Obj>>>;

/// Table of heap objects by serial number; cloning is cheap and chunks are shared between states.
#[derive(Clone, Default)]
pub struct Heap {
    chunks: Vec<Rc<Chunk>>,
    pub next: usize,
    pub live: usize,
}
impl Heap {
    pub fn add(&mut self, o: Obj) -> usize {
        let i = self.next;
        self.next += 1;
        self.live += 1;
        if i % CH == 0 {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(&mut self.chunks[i / CH]).push(Some(Rc::new(o)));
        i
    }
    #[inline(always)]
    pub fn get(&self, i: usize) -> Option<&Obj> {
        self.chunks.get(i / CH)?.get(i % CH)?.as_deref()
    }
    pub fn rc(&self, i: usize) -> Option<Rc<Obj>> {
        self.chunks.get(i / CH)?.get(i % CH)?.clone()
    }
    #[inline(always)]
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(i / CH)?;
        let o = Rc::make_mut(c).get_mut(i % CH)?.as_mut()?;
        Some(Rc::make_mut(o))
    }
    pub fn existed(&self, i: usize) -> bool {
        i < self.next
    }
    pub fn free(&mut self, i: usize) {
        Rc::make_mut(&mut self.chunks[i / CH])[i % CH] = None;
        self.live -= 1;
    }
    pub fn for_each_mut(&mut self, mut f: impl FnMut(usize, &mut Obj)) {
        for i in 0..self.next {
            if self.get(i).is_some() {
                f(i, self.get_mut(i).unwrap());
            }
        }
    }
    pub fn live_ids(&self) -> Vec<usize> {
        (0..self.next).filter(|i| self.get(*i).is_some()).collect()
    }
}
