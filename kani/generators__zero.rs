//@ in `impl Generator for Zero` fn process
//@   ensures(|y| *y == 0.0)
//@   modifies(self)
use crate::vkp::*;
//# C17
#[kani::proof_for_contract(<Zero as Generator>::process)]
pub fn c_zero_process() { let mut g = Zero {}; g.process(); kani::cover!(true, "reached"); }
//# twin c_zero_process
#[kani::proof]
pub fn t_zero_process() { let mut z = Zero::new(); z.process(); assert!(z.process() == 0.0, "zero is not silent"); }
