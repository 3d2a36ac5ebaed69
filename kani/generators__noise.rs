use crate::vkp::*;
use rand::RngCore;

/// The engine by its contract: any 32 bits.
pub fn bits(r: &mut rand::rngs::ThreadRng) -> u32 { kani::any() }
//# C08
#[kani::proof]
#[kani::stub(<rand::rngs::ThreadRng as rand::RngCore>::next_u32, bits)]
pub fn noise_range() {
    let mut u: usize = 64;
    // the engine itself is never touched
    let g = unsafe { &mut *(&raw mut u as *mut Noise) };
    let y = g.process();
    assert!(y >= -1.0 && y <= 1.0, "noise outside of [-1,1]");
    kani::cover!(y < -0.99, "low");
    kani::cover!(y > 0.99, "high");
}
