//@ subst cut `for s in (t\.first\(\).*?) \{(\s*mt\.push)` `for s in vk::Each::of(\1) {\2`
use crate::vkp::*;

//# C18 bounded="one track of four samples"
#[kani::proof]
#[kani::unwind(8)]
pub fn wav_plays() {
    const X: [f32; 4] = [3.0, -5.0, 7.0, 11.0];
    let t = || { let mut v = MonoTrackT::new(); let mut i = 0; while i < 4 { v.push(Mono::from(X[i])); i += 1; } v };
    let mut w = MonoWav::from_track(24000.0, t());
    let mut r = MonoResampler::new(t(), 24000.0, 0, 0);
    w.get_mut().set_playback_speed(1.5);
    r.set_playback_speed(1.5);
    let mut i = 0;
    while i < 7 { let y = w.process(); assert!(y == r.process(), "wav: does not play its track"); i += 1; }
    assert!(w.get().get_playback_speed() == 1.5, "wav: not the speed set");
}

// ---- from data of any length: the track made is a ghost sequence of DONE samples, of
// which the one at AT is watched -------------------------------------------------------
static mut AT: usize = 0;
static mut DONE: usize = 0;
static mut VAL: f32 = 0.0;
static mut WANT: f32 = 0.0;
static mut LEN: usize = 0;
static mut RATE: u32 = 0;
static mut MORE: bool = false;
static mut MADE: u8 = 0;
fn filled(n: usize) -> bool { unsafe { DONE == n && (AT >= DONE || same32(VAL, WANT)) } }
/// The rule for the loop over the samples.
pub struct Each<'a> { t: &'a SampleTrackT, i: usize, calls: u8 }
impl<'a> Each<'a> { pub fn of(t: &'a SampleTrackT) -> Each<'a> { Each { t, i: 0, calls: 0 } } }
impl<'a> Iterator for Each<'a> {
    type Item = &'a SampleT;
    fn next(&mut self) -> Option<&'a SampleT> {
        self.calls += 1;
        if self.calls == 2 { assert!(filled(self.i + 1), "wav: not each sample of the first channel in order"); kani::assume(false); }
        assert!(filled(0) && self.t.len() == unsafe { LEN }, "wav: starts with other samples");
        let done: bool = kani::any();
        self.i = if done { self.t.len() } else { kani::any() };
        kani::assume(done || self.i < self.t.len());
        unsafe { DONE = kani::any(); VAL = kani::any(); }
        kani::assume(filled(self.i));
        if done { None } else { Some(&self.t[self.i]) }
    }
}
pub fn push<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
    unsafe {
        if DONE == AT { VAL = *(&x as *const T as *const f32); }
        DONE += 1;
    }
    std::mem::forget(x);
}
fn track(n: usize) -> SampleTrackT { let mut v = SampleTrackT::with_capacity(n); unsafe { v.set_len(n); } v }
/// read_wav by its contract (C20): a header and the tracks of its channels.
pub fn give(_: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, Vec<SampleTrackT>)> {
    unsafe {
        let t = track(LEN);
        if AT < LEN { WANT = t[AT]; }
        let m: usize = kani::any();
        kani::assume(m <= 1 << 24);
        let l = if MORE { vec![t, track(m)] } else { vec![t] };
        Ok((wav::Header::new(1, l.len() as u16, RATE, 16), l))
    }
}
/// The resampler (C18): what it is made of.
pub fn made(t: MonoTrackT, r: MathT, a: usize, b: usize) -> MonoResampler {
    unsafe {
        MADE += 1;
        assert!(filled(LEN), "wav: not the samples of the first channel");
        assert!(r == RATE as f64, "wav: not at the rate of its data");
        assert!(a == 0 && b == 0, "wav: plays in a loop");
        std::mem::forget(t);
        std::mem::MaybeUninit::<MonoResampler>::uninit().assume_init()
    }
}
//# C27 variant=cut
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(utils::read_wav, give)]
#[kani::stub(MonoResampler::new, made)]
#[kani::stub(std::vec::Vec::push, push)]
pub fn wav_source() {
    unsafe {
        LEN = kani::any();
        AT = kani::any();
        RATE = kani::any();
        MORE = kani::any();
        DONE = 0;
        kani::assume(LEN <= 1 << 24 && AT < 1 << 24 && RATE < 1 << 28);
        let w = MonoWav::from_source(&mut std::io::empty());
        assert!(MADE == 1, "wav: not one player of its data");
        kani::cover!(AT > 1000 && AT < LEN && MORE, "reached");
        std::mem::forget(w);
    }
}
/// What the resampler says next.
static mut SAYS: (u8, f32, usize) = (0, 0.0, 0);
pub fn says(r: &mut MonoResampler) -> SampleT { unsafe { SAYS.0 += 1; SAYS.2 = r as *mut MonoResampler as usize; SAYS.1 } }
//# C27 C18
#[kani::proof]
#[kani::stub(MonoResampler::process, says)]
pub fn wav_process() {
    let mut w = MonoWav { resam: unsafe { std::mem::MaybeUninit::uninit().assume_init() } };
    let x: f32 = kani::any();
    unsafe { SAYS.1 = x; }
    let y = w.process();
    assert!(same32(y, x), "wav: not its resampler's sample");
    unsafe { assert!(SAYS.0 == 1 && SAYS.2 == &w.resam as *const MonoResampler as usize, "wav: not one step of its resampler"); }
    assert!(w.get() as *const MonoResampler as usize == unsafe { SAYS.2 } && w.get_mut() as *mut MonoResampler as usize == unsafe { SAYS.2 }, "wav: another resampler");
    kani::cover!(true, "reached");
    std::mem::forget(w);
}
