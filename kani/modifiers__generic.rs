//@ subst* cut `for (\w+) in &self\.zeros \{` `for \1 in vk::Terms::of(0, &raw mut y) {`
//@ subst* cut `for (\w+) in &self\.poles \{` `for \1 in vk::Terms::of(1, &raw mut y) {`
//@ subst* cut `Samples::new\(\)` `vk::fresh()`
//@ subst* cut `for (\w+) in 0\.\.(.*?) \{` `for \1 in crate::vkp::queue::fill(\2) {`
use crate::vkp::*;

fn deque(a: &[f32]) -> Samples { let mut v = Samples::new(); let mut i = 0; while i < a.len() { v.push_back(a[i]); i += 1; } v }
/// One sample through a filter of two zeros and two poles, each at most three samples back.
fn step(d: Dom, z: [usize; 2], p: [usize; 2]) {
    let c = [f32_in(d), f32_in(d), f32_in(d), f32_in(d)];
    let (i, o) = ([samp(d), samp(d), samp(d)], [samp(d), samp(d), samp(d)]);
    let x = samp(d);
    let mut zeros = Zeros::new();
    zeros.push_back((z[0], c[0]));
    zeros.push_back((z[1], c[1]));
    let mut poles = Poles::new();
    poles.push_back((p[0], c[2]));
    poles.push_back((p[1], c[3]));
    let mut s = Generic { zeros, poles, inputs: deque(&i), outputs: deque(&o) };
    let y = s.process(x);
    let n = [x, i[0], i[1]];
    assert!(same32(y, 0.0 + n[z[0]] * c[0] + n[z[1]] * c[1] + o[p[0]] * c[2] + o[p[1]] * c[3]), "generic filter: not the sum of its weighted inputs and outputs");
    assert!(s.inputs.len() == 3 && s.outputs.len() == 3, "generic filter: forgets samples");
    assert!(same32(s.inputs[0], x) && same32(s.inputs[1], i[0]) && same32(s.inputs[2], i[1]), "generic filter: other inputs remembered");
    assert!(same32(s.outputs[0], y) && same32(s.outputs[1], o[0]) && same32(s.outputs[2], o[1]), "generic filter: other outputs remembered");
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
fn generic_far(d: Dom) { step(d, [0, 2], [2, 0]) }
fn generic_same(d: Dom) { step(d, [1, 1], [1, 2]) }
//@GEN C14 generic_far generic_same solver=cvc5 unwind=5 bounded='two zeros and two poles, up to two samples back'
//# C14 bounded='two zeros and two poles, up to two samples back, integers -8..7'
#[kani::proof]
#[kani::unwind(5)]
pub fn generic_step() {
    let (z, p): ([usize; 2], [usize; 2]) = kani::any();
    kani::assume(z[0] < 3 && z[1] < 3 && p[0] < 3 && p[1] < 3);
    step(Dom::Int, z, p)
}

// Any number of zeros and poles, any number of samples back: the histories (0: inputs,
// 1: outputs) are stretches of endless streams, from HEAD, of LEN, of each of which one position, POS, is watched.
#[derive(Clone, Copy)]
struct Hist { head: usize, len: usize, pos: usize, val: f32 }
static mut HIST: [Hist; 2] = [Hist { head: 0, len: 0, pos: 0, val: 0.0 }; 2];
static mut WERE: [Hist; 2] = [Hist { head: 0, len: 0, pos: 0, val: 0.0 }; 2];
static mut INPUTS: *const u8 = std::ptr::null();
static mut OUTPUTS: *const u8 = std::ptr::null();
fn which<T, A: std::alloc::Allocator>(q: &VecDeque<T, A>) -> usize {
    let p = q as *const VecDeque<T, A> as *const u8;
    unsafe { if p == INPUTS { 0 } else { assert!(p == OUTPUTS, "another history"); 1 } }
}
pub fn push_front<T, A: std::alloc::Allocator>(q: &mut VecDeque<T, A>, v: T) {
    let k = which(q);
    unsafe { HIST[k].head -= 1; HIST[k].len += 1; if HIST[k].head == HIST[k].pos { HIST[k].val = *(&v as *const T as *const f32); } }
    std::mem::forget(v);
}
pub fn pop_back<T, A: std::alloc::Allocator>(q: &mut VecDeque<T, A>) -> Option<T> {
    let k = which(q);
    unsafe {
        if HIST[k].len == 0 { return None; }
        HIST[k].len -= 1;
        let v: f32 = if HIST[k].head + HIST[k].len == HIST[k].pos { HIST[k].val } else { kani::any() };
        Some(std::ptr::read(&v as *const f32 as *const T))
    }
}
pub fn get<T, A: std::alloc::Allocator>(q: &VecDeque<T, A>, i: usize) -> Option<&T> {
    let k = which(q);
    unsafe {
        if i >= HIST[k].len { return None; }
        assert!(HIST[k].head + i == HIST[k].pos, "generic filter: the sample of another time");
        Some(&*(&raw const HIST[k].val as *const T))
    }
}
/// `b` is `a` with `v` in front and without its last.
fn shifted(a: Hist, b: Hist, v: f32) -> bool {
    b.head == a.head - 1 && b.len == a.len && (b.pos < b.head || b.pos >= b.head + b.len || same32(b.val, if b.pos == b.head { v } else { a.val }))
}
/// Which of the loops takes a step; those before it are at their end.
static mut PART: u8 = 0;
static mut TERM: (usize, f32) = (0, 0.0);
static mut INPUT: f32 = 0.0;
static mut SUM: f32 = 0.0;
/// The rule for the loops over zeros and poles: what is summed up after each term is one more product.
pub struct Terms { k: u8, y: *mut f32, was: f32, calls: u8 }
impl Terms { pub fn of(k: u8, y: *mut f32) -> Terms { Terms { k, y, was: 0.0, calls: 0 } } }
impl Iterator for Terms {
    type Item = &'static (usize, f32);
    fn next(&mut self) -> Option<&'static (usize, f32)> {
        unsafe {
            let k = self.k as usize;
            self.calls += 1;
            if self.calls == 2 {
                let e = if k == 0 && TERM.0 == 0 { INPUT } else { WERE[k].val };
                assert!(same32(*self.y, self.was + e * TERM.1), "generic filter: a term that is not the sample so many before times its coefficient");
                kani::assume(false);
            }
            if k == 0 { assert!(*self.y == 0.0, "generic filter: does not start with nothing"); } else { assert!(same32(*self.y, SUM), "generic filter: loses the sum of its inputs"); }
            self.was = kani::any();
            *self.y = self.was;
            if PART > self.k { SUM = self.was; return None; }
            // any term (see generic_made: no delay is longer than the history), at the watched position
            TERM = (kani::any(), kani::any());
            kani::assume(TERM.0 < WERE[k].len && WERE[k].pos == WERE[k].head + TERM.0 - if k == 0 { 1 } else { 0 });
            Some(&*(&raw const TERM))
        }
    }
}
fn hist() -> Hist { let h = Hist { head: kani::any(), len: kani::any(), pos: kani::any(), val: kani::any() }; kani::assume(h.head > 0 && h.head < 1 << 40 && h.len < 1 << 40); h }
fn term(part: u8) {
    unsafe {
        let mut s = Generic { zeros: Zeros::new(), poles: Poles::new(), inputs: Samples::default(), outputs: Samples::default() };
        INPUTS = &s.inputs as *const Samples as *const u8;
        OUTPUTS = &s.outputs as *const Samples as *const u8;
        HIST = [hist(), hist()];
        WERE = HIST;
        PART = part;
        INPUT = kani::any();
        kani::cover!(WERE[0].len > 1000, "reached");
        let y = s.process(INPUT);
        assert!(same32(y, SUM), "generic filter: not the sum of its terms");
        assert!(shifted(WERE[0], HIST[0], INPUT), "generic filter: other inputs remembered");
        assert!(shifted(WERE[1], HIST[1], y), "generic filter: other outputs remembered");
        std::mem::forget(s);
    }
}
//# C14 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(cvc5)]
#[kani::stub(std::collections::VecDeque::push_front, push_front)]
#[kani::stub(std::collections::VecDeque::pop_back, pop_back)]
#[kani::stub(std::collections::VecDeque::get, get)]
pub fn generic_zeros() { term(0) }
//# C14 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(cadical)]
#[kani::stub(std::collections::VecDeque::push_front, push_front)]
#[kani::stub(std::collections::VecDeque::pop_back, pop_back)]
#[kani::stub(std::collections::VecDeque::get, get)]
pub fn generic_poles() { term(1) }
//# C14 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(cvc5)]
#[kani::stub(std::collections::VecDeque::push_front, push_front)]
#[kani::stub(std::collections::VecDeque::pop_back, pop_back)]
#[kani::stub(std::collections::VecDeque::get, get)]
pub fn generic_sum() { term(2) }

static mut MADE: usize = 0;
static mut FIRST: queue::St = queue::St { head: 0, len: 0, pos: 0, val: 0.0 };
/// A history that is made.
pub fn fresh() -> Samples {
    unsafe {
        if MADE == 1 { FIRST = queue::now(); }
        MADE += 1;
    }
    queue::empty();
    Samples::default()
}
//# C14 C10 variant=cut
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(std::collections::VecDeque::push_back, crate::vkp::queue::push_back)]
pub fn generic_made() {
    let (a, b, c, d): (usize, usize, usize, usize) = kani::any();
    kani::assume(a < 1 << 40 && b < 1 << 40 && c < 1 << 40 && d < 1 << 40);
    let n: (u8, u8) = kani::any();
    kani::assume(n.0 <= 2 && n.1 <= 2);
    let z = if n.0 == 0 { Zeros::new() } else if n.0 == 1 { Zeros::from([(a, 1.0)]) } else { Zeros::from([(a, 1.0), (b, 2.0)]) };
    let p = if n.1 == 0 { Poles::new() } else if n.1 == 1 { Poles::from([(c, 3.0)]) } else { Poles::from([(c, 3.0), (d, 4.0)]) };
    let most = |n: u8, a: usize, b: usize| if n == 0 { 0 } else if n == 1 || a > b { a + 1 } else { b + 1 };
    let s = Generic::new(z, p);
    unsafe { assert!(MADE == 2 && queue::zeros(FIRST, most(n.0, a, b)) && queue::zeros(queue::now(), most(n.1, c, d)), "generic filter: not as many zeros before its first sample as its delays need"); }
    kani::cover!(n.0 == 2 && n.1 == 2 && a > 1000, "reached");
    std::mem::forget(s);
}
