//! C14: the descending visitor. Parameters as in C01; 6: 0 valid choices to a leaf, 1 any choice (invalid ones must
//! panic), 2 cancel or complete at a symbolic level
use crate::sym::*;
use crate::world::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::tree::visit::*;
use sweep_bptree::*;

struct Vis<'a> {
    md: &'a [(u16, u32)],
    lo: usize,
    hi: usize,
    mode: u64,
    stop: u8,
    level: u8,
    /// 0 still walking, 1 cancelled, 2 completed, 3 an invalid child was chosen
    end: &'a mut u8,
}
impl DescendVisit<u16, u32, Count> for Vis<'_> {
    type Result = u32;
    fn visit_inner(&mut self, keys: &[u16], a: &[Count]) -> DescendVisitResult<u32> {
        let n = a.len();
        chk!(*self.end == 0);
        chk!(keys.len() + 1 == n);
        chk!(keys.len() >= 1);
        // ascending separators, child summaries exact, separators bound both sides
        let mut at = self.lo;
        for i in 0..n {
            if i > 0 {
                if i > 1 {
                    chk!(keys[i - 2] < keys[i - 1]);
                }
                chk!(at == 0 || self.md[at - 1].0 < keys[i - 1]);
                chk!(at < self.md.len() && keys[i - 1] <= self.md[at].0);
            }
            at += a[i].count();
        }
        chk!(at == self.hi);
        if self.mode == 2 && unique(self.level == self.stop) {
            if unique(sym_bool()) {
                *self.end = 1;
                return DescendVisitResult::Cancel;
            }
            *self.end = 2;
            return DescendVisitResult::Complete(77);
        }
        self.level += 1;
        let c = sym_u64() as usize;
        if self.mode != 1 {
            assume(c < n);
        }
        // one path per child, and one for everything beyond
        let mut i = 0;
        while i < n && unique(c != i) {
            i += 1;
        }
        if i == n {
            *self.end = 3;
            return DescendVisitResult::GoDown(c);
        }
        let mut at = self.lo;
        for j in 0..i {
            at += a[j].count();
        }
        self.lo = at;
        self.hi = at + a[i].count();
        DescendVisitResult::GoDown(i)
    }
    fn visit_leaf(&mut self, keys: &[u16], values: &[u32]) -> Option<u32> {
        chk!(*self.end == 0);
        chk!(keys.len() == values.len());
        chk!(keys.len() == self.hi - self.lo);
        for i in 0..keys.len() {
            chk!(keys[i] == self.md[self.lo + i].0);
            chk!(values[i] == self.md[self.lo + i].1);
        }
        if unique(sym_bool()) {
            Some(5)
        } else {
            *self.end = 1;
            None
        }
    }
}
fn run<T: Api<K = u16, V = u32>>(visit: impl Fn(&T, Vis) -> Option<u32>) {
    let mut w = World::<T>::from_params();
    w.ops();
    let mut end = 0;
    let stop = if param(6) == 2 { sym_u8() } else { 255 };
    let md = w.md.clone();
    let v = Vis { md: &md, lo: 0, hi: md.len(), mode: param(6), stop, level: 0, end: &mut end };
    let t = &w.t;
    allow_panic(param(6) == 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| visit(t, v)));
    allow_panic(false);
    obs(end as u64);
    match r {
        Err(p) => {
            leak_ok();
            std::mem::forget(p);
            chk!(end == 3);
        }
        Ok(r) => {
            chk!(end != 3);
            chk!(r == [Some(5), None, Some(77)][end as usize]);
        }
    }
    // a visit changes nothing
    w.same_contents();
    w.size_ok();
}
pub fn h_c14_tree() {
    run::<Tree<u16, u32, Count>>(|t, v| t.descend_visit(v))
}
pub fn h_c14_map() {
    run::<BPlusTreeMap<u16, u32, Count>>(|t, v| t.descend_visit(v))
}
