//@ in `impl Modifier for Passthrough` fn process
//@   ensures(|y| y.to_bits() == x.to_bits())
//@   modifies(self)
use crate::vkp::*;
//# C17
#[kani::proof_for_contract(<Passthrough as Modifier>::process)]
pub fn c_pass_process() { let mut g = Passthrough {}; g.process(kani::any()); kani::cover!(true, "reached"); }
//# twin c_pass_process
#[kani::proof]
pub fn t_pass_process() { let x: f32 = kani::any(); assert!(Passthrough {}.process(x).to_bits() == x.to_bits(), "passthrough changed its input"); }
