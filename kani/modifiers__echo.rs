//@ subst* cut `for (\w+) in 0\.\.(.*?) \{` `for \1 in crate::vkp::queue::fill(\2) {`
use crate::vkp::*;
use crate::vkp::queue;

fn echo_out(d: Dom) {
    let (x, g) = (samp(d), f32_in(d));
    let mut s = Echo { delay: VecDeque::new(), gain: g };
    let o = queue::any();
    kani::assume(o.len > 0);
    let v = samp(d);
    unsafe { queue::POS = queue::HEAD; queue::VAL = v; }
    let y = s.process(x);
    assert!(same32(y, v * g + x), "echo: not the input plus the fed back output of its delay ago");
    assert!(same32(s.gain, g), "echo: gain changes");
    kani::cover!(o.len > 1000, "reached");
    std::mem::forget(s);
}
fn echo_keeps(d: Dom) {
    let (x, g) = (samp(d), f32_in(d));
    let mut s = Echo { delay: VecDeque::new(), gain: g };
    let o = queue::any();
    kani::assume(o.len > 0);
    let y = s.process(x);
    assert!(queue::advanced(o, queue::now(), y), "echo: does not keep its output for its delay");
    kani::cover!(o.len == 1, "reached");
    kani::cover!(o.len > 1000 && o.pos == o.head, "reached");
}
//@GEN C13 echo_out solver=cvc5 stub=std::collections::VecDeque::push_back,crate::vkp::queue::push_back stub=std::collections::VecDeque::pop_front,crate::vkp::queue::pop_watched
//@GEN C13 echo_keeps solver=cvc5 stub=std::collections::VecDeque::push_back,crate::vkp::queue::push_back stub=std::collections::VecDeque::pop_front,crate::vkp::queue::pop_front
static mut SECS: f64 = 0.0;
/// A length of time: some number of seconds.
fn secs(d: &Duration) -> f64 { unsafe { SECS } }
//# C13 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(cvc5)]
#[kani::stub(std::collections::VecDeque::push_back, crate::vkp::queue::push_back)]
#[kani::stub(std::time::Duration::as_secs_f64, secs)]
pub fn echo_new() {
    let (t, g): (f64, f64) = kani::any();
    kani::assume(t >= 0.0 && t <= 1.0e9);
    unsafe { SECS = t; }
    queue::empty();
    let s = Echo::new(Duration::new(0, 0), g);
    let n = ((t * 48000.0) as usize).max(1);
    assert!(queue::zeros(queue::now(), n), "echo: not silence of its length at first");
    assert!(same32(s.gain, g as f32), "echo: not the gain given");
    kani::cover!(n > 1000, "reached");
    std::mem::forget(s);
}
//# C13 C10 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(std::collections::VecDeque::push_back, crate::vkp::queue::push_back)]
#[kani::stub(std::collections::VecDeque::len, crate::vkp::queue::len)]
pub fn echo_clone() {
    let s = Echo { delay: VecDeque::new(), gain: kani::any() };
    queue::empty();
    let n = unsafe { queue::OTHER = kani::any(); queue::OTHER };
    let c = s.clone();
    assert!(queue::zeros(queue::now(), n), "clone of an echo: not silence of the same length");
    assert!(same32(c.gain, s.gain), "clone of an echo: another gain");
    kani::cover!(n > 1000, "reached");
    std::mem::forget((s, c));
}
