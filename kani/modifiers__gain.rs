//@ in `impl Modifier for Gain` fn process
//@   ensures(|y| crate::vkp::same32(*y, x * old(self.a)) && crate::vkp::same32(self.a, old(self.a)))
//@   modifies(self)
use crate::vkp::*;
//# C17
#[kani::proof_for_contract(<Gain as Modifier>::process)]
#[kani::solver(cvc5)]
pub fn c_gain_process() { let mut g = Gain { a: kani::any() }; g.process(kani::any()); kani::cover!(true, "reached"); }
const T: [f32; 8] = [0.0, 1.0, -0.1, 0.33333, -7.0, 1.0e-30, 3.0e38, f32::INFINITY];
fn pick(d: Dom) -> f32 { if d == Dom::Int { let i: u8 = kani::any(); kani::assume(i < 8); T[i as usize] } else { kani::any() } }
fn gain_process(d: Dom) {
    let (a, x) = (pick(d), pick(d));
    let mut g = Gain { a };
    let y = g.process(x);
    assert!(same32(y, x * a), "gain does not multiply its input");
    assert!(same32(g.a, a), "gain changed by processing");
}
//@TW c_gain_process gain_process
//# C17
#[kani::proof]
pub fn gain_new() {
    let a: f32 = kani::any();
    assert!(same32(Gain::new(a).a, a), "gain not the one given");
    kani::cover!(true, "reached");
}
//# C10
#[kani::proof]
pub fn gain_clone() {
    let g = Gain { a: kani::any() };
    assert!(same32(g.clone().a, g.a), "clone of a gain: another gain");
    kani::cover!(true, "reached");
}
