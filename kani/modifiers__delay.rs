//@ subst* cut `for (\w+) in 0\.\.(.*?) \{` `for \1 in crate::vkp::queue::fill(\2) {`
use crate::vkp::*;
use crate::vkp::queue;

//# C12
#[kani::proof]
#[kani::stub(std::collections::VecDeque::push_back, crate::vkp::queue::push_back)]
#[kani::stub(std::collections::VecDeque::pop_front, crate::vkp::queue::pop_front)]
pub fn delay_step() {
    let x: f32 = kani::any();
    let mut s = Delay { delay: VecDeque::new() };
    let o = queue::any();
    let y = s.process(x);
    let n = queue::now();
    assert!(queue::advanced(o, n, x), "delay: does not keep the samples of its delay");
    assert!(o.len == 0 || queue::first(o, y), "delay: not the oldest sample");
    assert!(o.len != 0 || o.pos != o.head || same32(x, y), "delay: does not pass on without delay");
    kani::cover!(o.len > 1000 && o.pos == o.head, "reached");
    kani::cover!(o.len == 0, "reached");
}
/// What a number of seconds is in samples, to the nearest.
fn count(d: Duration) -> usize { (d.as_secs_f64() * 48000.0).round() as usize }
//# C12 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(cvc5)]
#[kani::stub(std::collections::VecDeque::push_back, crate::vkp::queue::push_back)]
#[kani::stub(std::time::Duration::as_secs_f64, secs)]
pub fn delay_new() {
    let t: f64 = kani::any();
    kani::assume(t >= 0.0 && t <= 1.0e9);
    unsafe { SECS = t; }
    queue::empty();
    let s = Delay::new(Duration::new(0, 0));
    let n = (t * 48000.0).round() as usize;
    assert!(queue::zeros(queue::now(), n), "delay: not silence of its length at first");
    std::mem::forget(s);
    kani::cover!(n > 1000, "reached");
}
static mut SECS: f64 = 0.0;
/// A length of time: some number of seconds.
fn secs(d: &Duration) -> f64 { unsafe { SECS } }
//# C12 C10 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(std::collections::VecDeque::push_back, crate::vkp::queue::push_back)]
#[kani::stub(std::collections::VecDeque::len, crate::vkp::queue::len)]
pub fn delay_clone() {
    let s = Delay { delay: VecDeque::new() };
    queue::empty();
    let n = unsafe { queue::OTHER = kani::any(); queue::OTHER };
    let c = s.clone();
    assert!(queue::zeros(queue::now(), n), "clone of a delay: not silence of the same length");
    std::mem::forget((s, c));
    kani::cover!(n > 1000, "reached");
}

static mut ARG: f64 = 0.0;
/// Notes the number of seconds asked for.
pub fn from_secs(t: f64) -> Duration { unsafe { ARG = t; } Duration::new(1, 0) }
//# C29
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(std::collections::VecDeque::len, crate::vkp::queue::len)]
#[kani::stub(std::time::Duration::from_secs_f64, from_secs)]
pub fn delay_get() {
    let s = Delay { delay: VecDeque::new() };
    let n: usize = kani::any();
    unsafe { queue::OTHER = n; }
    let d = s.get_delay();
    assert!(d == Duration::new(1, 0) && same64(unsafe { ARG }, n as f64 / 48000.0), "delay: not the time its samples take");
    kani::cover!(n > 1000, "reached");
    std::mem::forget(s);
}
