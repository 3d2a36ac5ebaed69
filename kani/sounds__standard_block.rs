use crate::vkp::*;

static mut GEN: (u8, f32) = (0, 0.0);
static mut MOD: (u8, f32, f32) = (0, 0.0, 0.0);
static mut INT: (u8, f32, f32, f32) = (0, 0.0, 0.0, 0.0);
/// A generator: any sample; counts.
pub struct G;
impl Generator for G { fn process(&mut self) -> f32 { unsafe { GEN.0 += 1; GEN.1 } } }
/// A modifier: any sample; counts, notes its input.
pub struct M;
impl Modifier for M { fn process(&mut self, x: f32) -> f32 { unsafe { MOD.0 += 1; MOD.1 = x; MOD.2 } } }
/// An interactor: any sample; counts, notes its inputs.
fn inter() -> Inter { Arc::new(|a, b| unsafe { INT.0 += 1; INT.1 = a; INT.2 = b; INT.3 }) }
fn start() { unsafe { GEN = (0, kani::any()); MOD = (0, 0.0, kani::any()); INT = (0, 0.0, 0.0, kani::any()); } }
fn stop<T>(t: T) { std::mem::forget(t) }
//# C22
#[kani::proof]
pub fn block_process() {
    start();
    let mut b = StandardBlock::new(G, M, inter());
    assert!(b.input == 0.0, "block: primed when new");
    let x: f32 = kani::any();
    b.input = x;
    let y = b.process();
    unsafe {
        assert!(GEN.0 == 1 && MOD.0 == 1 && INT.0 == 1, "block: not one sample of everything in it");
        assert!(same32(MOD.1, x), "block: modifier not given the primed input");
        assert!(same32(INT.1, GEN.1) && same32(INT.2, MOD.2), "block: interactor not given the generator's and the modifier's sample");
        assert!(same32(y, INT.3), "block: not what its interactor makes");
    }
    assert!(b.input == 0.0, "block: input kept");
    kani::cover!(true, "reached");
    stop(b);
}
//# C22
#[kani::proof]
#[kani::solver(cvc5)]
pub fn block_prime() {
    start();
    let mut b = StandardBlock::new(G, M, inter());
    let (o, x): (f32, f32) = kani::any();
    b.input = o;
    b.prime_input(x);
    assert!(same32(b.input, o + x), "block: input not added up");
    assert!(unsafe { GEN.0 == 0 && MOD.0 == 0 && INT.0 == 0 }, "block: processed when primed");
    kani::cover!(true, "reached");
    stop(b);
}
//# C22
#[kani::proof]
pub fn block_kinds() {
    start();
    let (p, q): (f32, f32) = kani::any();
    let mut b = StandardBlock::from_generator(G);
    b.prime_input(p);
    assert!(same32(b.process(), unsafe { GEN.1 }), "generator block: not its generator's sample");
    stop(b);
    let mut b = StandardBlock::from_modifier(M);
    b.prime_input(q);
    let y = b.process();
    assert!(same32(y, unsafe { MOD.2 }) && same32(unsafe { MOD.1 }, 0.0 + q), "modifier block: not its modifier's sample of its input");
    stop(b);
    kani::cover!(true, "reached");
}
//# C22
#[kani::proof]
#[kani::solver(cvc5)]
pub fn block_product() {
    let (p, q): (f32, f32) = kani::any();
    let mut i = StandardBlock::default_interactor();
    assert!(same32(Inter::get_mut(&mut i).unwrap()(p, q), p * q), "default interactor: not the product");
    kani::cover!(true, "reached");
    stop(i);
}
/// As a user sees it: two rounds of priming and processing.
//# weak block_process block_prime fallback block_process block_prime bounded='two rounds'
#[kani::proof]
pub fn block_rounds() {
    start();
    let mut b = StandardBlock::new(G, M, inter());
    let y = b.process();
    unsafe {
        assert!(MOD.1 == 0.0, "block: primed when new");
        assert!(GEN.0 == 1 && MOD.0 == 1 && INT.0 == 1 && same32(INT.1, GEN.1) && same32(INT.2, MOD.2) && same32(y, INT.3), "block: not what its interactor makes of one sample of everything in it");
        b.prime_input(3.0);
        b.prime_input(-5.0);
        b.prime_input(f32_in(Dom::Int));
        assert!(GEN.0 == 1 && MOD.0 == 1 && INT.0 == 1, "block: processed when primed");
    }
    let k = f32_in(Dom::Int);
    b.prime_input(k);
    b.process();
    b.prime_input(k);
    b.process();
    unsafe { assert!(MOD.1 == k && GEN.0 == 3 && MOD.0 == 3 && INT.0 == 3, "block: not given the sum of what was primed since the last sample"); }
    b.process();
    unsafe { assert!(MOD.1 == 0.0, "block: input kept"); }
    kani::cover!(true, "reached");
    stop(b);
}
//# weak block_prime fallback block_prime
#[kani::proof]
pub fn block_sums() {
    start();
    let mut b = StandardBlock::new(G, M, inter());
    let (p, q, r) = (f32_in(Dom::Int), f32_in(Dom::Int), f32_in(Dom::Int));
    b.prime_input(p);
    b.prime_input(q);
    b.prime_input(r);
    b.process();
    unsafe { assert!(MOD.1 == p + q + r, "block: not given the sum of what was primed since the last sample"); }
    stop(b);
}
