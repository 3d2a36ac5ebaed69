//@ subst cut `for m in &mut self\.modifier_list \{` `for m in crate::sounds::simple_sound::vk::chain(&mut self.modifier_list, &raw mut out) {`
use crate::vkp::*;

// What the blocks see: the sample each is to be given, what each gives, how often.
static mut NEXT: f32 = 0.0;
static mut GRID: bool = false;
static mut CALLS: u8 = 0;
static mut OK: bool = true;
static mut PRIMED: bool = false;
/// A block: given exactly the sample the one before it made, then makes any sample.
pub struct B;
impl Block for B {
    fn prime_input(&mut self, x: f32) { unsafe { OK = OK && !PRIMED && same32(x, NEXT); PRIMED = true; } }
    fn process(&mut self) -> f32 { unsafe { OK = OK && PRIMED; PRIMED = false; CALLS += 1; NEXT = if GRID { f32_in(Dom::Int) } else { kani::any() }; NEXT } }
}
/// The rule for the loop over the modifiers: any iteration, `out` being what the block before made.
pub struct Chain<'a> { l: &'a mut Vec<BlockSP>, out: *mut f32, calls: u8 }
pub fn chain(l: &mut Vec<BlockSP>, out: *mut f32) -> Chain { Chain { l, out, calls: 0 } }
impl<'a> Iterator for Chain<'a> {
    type Item = &'a mut BlockSP;
    fn next(&mut self) -> Option<&'a mut BlockSP> {
        unsafe {
            self.calls += 1;
            assert!(OK && !PRIMED && same32(*self.out, NEXT), "simple sound: a block is not given the sample of the one before");
            if self.calls == 2 { assert!(CALLS == 1, "simple sound: a block is not processed once"); kani::assume(false); }
            assert!(CALLS == 1, "simple sound: generator not processed once");
            NEXT = kani::any();
            *self.out = NEXT;
            CALLS = 0;
            if kani::any() { None } else { Some(&mut *(&mut self.l[0] as *mut BlockSP)) }
        }
    }
}
fn sound(n: usize) -> SimpleSound {
    let mut s = SimpleSound::new(0.0, 0.0, Arc::new(B));
    let mut i = 0;
    while i < n { s.add_modifier::<()>(Arc::new(B)); i += 1; }
    s
}
//# C22 C23 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(cvc5)]
pub fn simple_chain() {
    let (x, ig, og): (f32, f32, f32) = kani::any();
    let mut s = sound(1);
    s.input_gain = ig;
    s.output_gain = og;
    s.is_muted = kani::any();
    unsafe { NEXT = x * ig; CALLS = 0; PRIMED = false; OK = true; }
    let y = s.process(x);
    assert!(same32(y, if s.is_muted { 0.0 } else { (unsafe { NEXT }) * og }), "simple sound: not the last block's sample with the output gain, or silence when muted");
    kani::cover!(!s.is_muted, "reached");
    std::mem::forget(s);
}
/// The same without the loop rule and private parts, for a number of modifiers and some gains.
fn run(n: usize, ig: f64, og: f64) {
    let x = f32_in(Dom::Int);
    unsafe { GRID = true; }
    let mut s = sound(n);
    s.set_input_gain(ig);
    s.set_output_gain(og);
    let (mute, pause): (bool, bool) = kani::any();
    if mute { s.toggle_mute(); }
    if pause { s.toggle_pause(); }
    unsafe { NEXT = x * ig as f32; CALLS = 0; PRIMED = false; OK = true; }
    let y = s.process(x);
    if pause { assert!(y == 0.0 && unsafe { CALLS == 0 && !PRIMED }, "simple sound: plays though paused"); }
    else {
        assert!(unsafe { OK && CALLS as usize == n + 1 && !PRIMED }, "simple sound: its blocks are not processed once, in order, each with the sample of the one before");
        assert!(same32(y, if mute { 0.0 } else { (unsafe { NEXT }) * og as f32 }), "simple sound: not the last block's sample with the output gain, or silence when muted");
    }
    kani::cover!(!mute && !pause, "reached");
    std::mem::forget(s);
}
//# C22 C23 bounded='no modifiers'
#[kani::proof]
#[kani::unwind(6)]
pub fn simple_none() { run(0, 3.0, -1.5); }
//# C22 C23 weak simple_chain fallback simple_chain bounded='three modifiers'
#[kani::proof]
#[kani::unwind(6)]
pub fn simple_three() { run(3, -2.5, 0.5); }
//# C22 weak simple_chain fallback simple_chain bounded='three modifiers, added at once'
#[kani::proof]
#[kani::unwind(6)]
pub fn simple_extended() {
    let mut s = SimpleSound::new(2.0, 0.5, Arc::new(B));
    s.extend_modifiers(vec![Arc::new(B), Arc::new(B)]);
    s.add_modifier::<()>(Arc::new(B));
    unsafe { NEXT = 6.0; CALLS = 0; PRIMED = false; OK = true; }
    let y = s.process(3.0);
    assert!(unsafe { OK && CALLS == 4 && !PRIMED }, "simple sound: its blocks are not processed once, in order, each with the sample of the one before");
    assert!(same32(y, (unsafe { NEXT }) * 0.5), "simple sound: not the last block's sample with the output gain");
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
// ---- paused, muted, registered; gains --------------------------------------------
//# C23
#[kani::proof]
#[kani::solver(cvc5)]
pub fn simple_paused() {
    let mut s = sound(1);
    s.is_paused = true;
    s.is_muted = kani::any();
    s.input_gain = kani::any();
    s.output_gain = kani::any();
    unsafe { CALLS = 0; PRIMED = false; }
    assert!(s.process(kani::any()) == 0.0, "simple sound: paused but not silent");
    assert!(unsafe { CALLS == 0 && !PRIMED }, "simple sound: plays though paused");
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
//# C23
#[kani::proof]
pub fn simple_switches() {
    let mut s = sound(0);
    assert!(!s.is_paused() && !s.is_muted() && s.get_id().is_none(), "simple sound: paused, muted or registered when new");
    let (p, m, id): (bool, bool, Option<usize>) = kani::any();
    s.is_paused = p;
    s.is_muted = m;
    s.id = id;
    let c: u8 = kani::any();
    let i: usize = kani::any();
    match c { 0 => s.toggle_pause(), 1 => s.toggle_mute(), 2 => s.register(i), 3 => s.unregister(), _ => { s.process(1.0); } }
    assert!(s.is_paused() == if c == 0 { !p } else { p }, "simple sound: paused or not by something else");
    assert!(s.is_muted() == if c == 1 { !m } else { m }, "simple sound: muted or not by something else");
    assert!(s.get_id() == if c == 2 { Some(i) } else if c == 3 { None } else { id }, "simple sound: registered or not by something else");
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
//# C29
#[kani::proof]
#[kani::solver(cvc5)]
pub fn simple_gains() {
    let (a, b, c, d): (f64, f64, f64, f64) = kani::any();
    let mut s = SimpleSound::new(a, b, Arc::new(B));
    assert!(same64(s.get_input_gain(), a as f32 as f64) && same64(s.get_output_gain(), b as f32 as f64), "simple sound: gains not those given");
    s.set_input_gain(c);
    assert!(same64(s.get_input_gain(), c as f32 as f64) && same64(s.get_output_gain(), b as f32 as f64), "simple sound: input gain not the one set");
    s.set_output_gain(d);
    assert!(same64(s.get_input_gain(), c as f32 as f64) && same64(s.get_output_gain(), d as f32 as f64), "simple sound: output gain not the one set");
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
