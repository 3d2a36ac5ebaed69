//@ subst cut `for sample in &mut self\.output \{` `for sample in crate::channels::standard_channel::vk::samples(&mut self.output) {`
//@ subst cut `for mut sound in &mut self\.sounds \{` `for mut sound in crate::channels::standard_channel::vk::sounds(&mut self.sounds, sample) {`
use crate::vkp::*;
use crate::sample_format::*;
use crate::sounds::Sound;
use std::time::Duration;

static mut MADE: (u8, f32, f32) = (0, 0.0, 0.0);
static mut ID: (u8, usize) = (0, 0);
/// A sound: makes any sample; counts.
pub struct T;
impl Sound for T {
    fn toggle_pause(&mut self) {}
    fn is_paused(&self) -> bool { false }
    fn toggle_mute(&mut self) {}
    fn is_muted(&self) -> bool { false }
    fn process(&mut self, x: f32) -> f32 { unsafe { MADE = (MADE.0 + 1, x, kani::any()); MADE.2 } }
    fn register(&mut self, id: usize) { unsafe { ID = (ID.0 + 1, id); } }
    fn unregister(&mut self) {}
    fn get_id(&self) -> Option<usize> { None }
}
/// Any format of samples: its samples are told apart, nothing else is known of them;
/// what is added, multiplied and made of a sound's sample is noted.
#[derive(Default)]
pub struct Any(u32);
static mut ADD: (u8, u32, u32, u32) = (0, 0, 0, 0);
static mut MUL: (u8, u32, f64, u32) = (0, 0, 0.0, 0);
static mut FROM: (u8, f32, u32) = (0, 0.0, 0);
static mut ELSE: bool = false;
fn other() -> Any { unsafe { ELSE = true; } Any(kani::any()) }
impl std::ops::Neg for Any { type Output = Self; fn neg(self) -> Self { other() } }
impl std::ops::Add<Any> for Any { type Output = Self; fn add(self, o: Any) -> Self { unsafe { ADD = (ADD.0 + 1, self.0, o.0, kani::any()); Any(ADD.3) } } }
impl std::ops::AddAssign<Any> for Any { fn add_assign(&mut self, o: Any) { unsafe { ADD = (ADD.0 + 1, self.0, o.0, kani::any()); self.0 = ADD.3; } } }
impl std::ops::Sub<Any> for Any { type Output = Self; fn sub(self, o: Any) -> Self { other() } }
impl std::ops::SubAssign<Any> for Any { fn sub_assign(&mut self, o: Any) { *self = other(); } }
impl std::ops::Mul<Any> for Any { type Output = Self; fn mul(self, o: Any) -> Self { other() } }
impl std::ops::MulAssign<Any> for Any { fn mul_assign(&mut self, o: Any) { *self = other(); } }
impl std::ops::Mul<f32> for Any { type Output = Self; fn mul(self, o: f32) -> Self { unsafe { MUL = (MUL.0 + 1, self.0, o as f64, kani::any()); Any(MUL.3) } } }
impl std::ops::MulAssign<f32> for Any { fn mul_assign(&mut self, o: f32) { unsafe { MUL = (MUL.0 + 1, self.0, o as f64, kani::any()); self.0 = MUL.3; } } }
impl std::ops::Mul<f64> for Any { type Output = Self; fn mul(self, o: f64) -> Self { unsafe { MUL = (MUL.0 + 1, self.0, o, kani::any()); Any(MUL.3) } } }
impl std::ops::MulAssign<f64> for Any { fn mul_assign(&mut self, o: f64) { unsafe { MUL = (MUL.0 + 1, self.0, o, kani::any()); self.0 = MUL.3; } } }
impl From<f32> for Any { fn from(x: f32) -> Self { other() } }
impl Into<f32> for Any { fn into(self) -> f32 { other(); 0.0 } }
macro_rules! vectors { ($t:ty) => {
    impl std::convert::TryFrom<Vec<$t>> for Any { type Error = String; fn try_from(x: Vec<$t>) -> Result<Self, String> { Ok(other()) } }
    impl Into<Vec<$t>> for Any { fn into(self) -> Vec<$t> { other(); Vec::new() } }
} }
vectors!(u8);
vectors!(i16);
vectors!(i32);
impl SampleFormat for Any {
    fn from_sample(x: f32) -> Self { unsafe { FROM = (FROM.0 + 1, x, kani::any()); Any(FROM.2) } }
    fn into_sample(self) -> f32 { other(); 0.0 }
    fn num_samples() -> usize { 1 }
}
static mut SUM: u32 = 0;
static mut GAIN: f32 = 0.0;
static mut DONE: bool = false;
/// The rule for the loop over the samples: any of them.
pub struct Samples<'a, SF> { l: &'a mut Vec<SF>, calls: u8 }
pub fn samples<SF>(l: &mut Vec<SF>) -> Samples<SF> { Samples { l, calls: 0 } }
impl<'a, SF> Iterator for Samples<'a, SF> {
    type Item = &'a mut SF;
    fn next(&mut self) -> Option<&'a mut SF> {
        unsafe {
            self.calls += 1;
            if self.calls == 2 {
                assert!(DONE && MADE.0 == 0 && FROM.0 == 0 && ADD.0 == 0 && !ELSE, "channel: sounds are not processed once for each sample");
                assert!(MUL.0 == 1 && MUL.1 == SUM && same64(MUL.2, GAIN as f64) && num(&self.l[0]) == MUL.3, "channel: not the sum of its sounds' samples with its gain");
                kani::assume(false);
            }
            if kani::any() { None } else { Some(&mut *(&mut self.l[0] as *mut SF)) }
        }
    }
}
/// The rule for the loop over the sounds: any of them, the sum being any sample.
pub struct Sounds<'a> { l: SoundSP, id: usize, at: *mut u32, calls: u8, p: std::marker::PhantomData<&'a ()> }
pub fn sounds<'a, SF>(l: &'a mut HashMap<usize, SoundSP>, s: &mut SF) -> Sounds<'a> { Sounds { l: Arc::new(T), id: 0, at: s as *mut SF as *mut u32, calls: 0, p: std::marker::PhantomData } }
impl<'a> Iterator for Sounds<'a> {
    type Item = (&'a usize, &'a mut SoundSP);
    fn next(&mut self) -> Option<(&'a usize, &'a mut SoundSP)> {
        unsafe {
            self.calls += 1;
            if self.calls == 2 {
                assert!(MADE.0 == 1 && MADE.1 == 0.0, "channel: a sound is not processed once, without an input, for a sample");
                assert!(FROM.0 == 1 && same32(FROM.1, MADE.2), "channel: a sound's sample is not put into its format");
                assert!(ADD.0 == 1 && (ADD.1 == SUM && ADD.2 == FROM.2 || ADD.2 == SUM && ADD.1 == FROM.2) && *self.at == ADD.3 && MUL.0 == 0 && !ELSE, "channel: a sound's sample is not added");
                kani::assume(false);
            }
            assert!(*self.at == 0 && MADE.0 == 0 && FROM.0 == 0 && ADD.0 == 0 && MUL.0 == 0, "channel: a sample does not start from silence");
            SUM = kani::any();
            *self.at = SUM;
            if kani::any() { DONE = true; None } else { Some((&*(&self.id as *const usize), &mut *(&mut self.l as *mut SoundSP))) }
        }
    }
}
/// Default samples are 0, others any number.
fn num<SF>(s: &SF) -> u32 { unsafe { *(s as *const SF as *const u32) } }
/// The keys of hashing: any.
pub fn state() -> std::collections::hash_map::RandomState { unsafe { std::mem::transmute((1u64, 2u64)) } }
fn any(n: usize) -> StandardChannel<Any> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n { v.push(Any(kani::any())); i += 1; }
    StandardChannel { output: v, sounds: HashMap::new(), gain: kani::any(), id_counter: kani::any() }
}
//# C26 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(std::collections::hash_map::RandomState::new, state)]
pub fn channel_process() {
    let mut c = any(1);
    unsafe { GAIN = c.gain; }
    let i = c.id_counter;
    c.process();
    assert!(same32(c.gain, unsafe { GAIN }) && c.id_counter == i && c.output.len() == 1, "channel: changed by processing");
    kani::cover!(true, "reached");
    std::mem::forget(c);
}
static mut LOG: (u8, usize, usize) = (0, 0, 0);
pub struct Maps<K, V, S, A>(K, V, S, A);
impl<K, V, S, A: std::alloc::Allocator> Maps<K, V, S, A> {
    pub fn remove<Q: ?Sized>(m: &mut HashMap<K, V, S, A>, k: &Q) -> Option<V> { unsafe { LOG = (LOG.0 + 1, *(k as *const Q as *const usize), 1); } None }
    pub fn insert(m: &mut HashMap<K, V, S, A>, k: K, v: V) -> Option<V> {
        unsafe { LOG = (LOG.0 + 1, *(&k as *const K as *const usize), *(&v as *const V as *const usize)); }
        std::mem::forget(v);
        None
    }
}
//# C26
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(std::collections::hash_map::RandomState::new, state)]
#[kani::stub(std::collections::HashMap::insert, Maps::insert)]
pub fn channel_add() {
    let mut c = any(0);
    let i = c.id_counter;
    kani::assume(i < usize::MAX);
    let mut s: SoundSP = Arc::new(T);
    c.add_sound(&mut s);
    unsafe {
        assert!(ID == (1, i) && c.id_counter == i + 1, "channel: not a new id, or the sound not registered with it");
        assert!(LOG.0 == 1 && LOG.1 == i && LOG.2 == *(&s as *const SoundSP as *const usize), "channel: sound not kept under its id");
    }
    kani::cover!(true, "reached");
    std::mem::forget((c, s));
}
//# C26
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(std::collections::hash_map::RandomState::new, state)]
#[kani::stub(std::collections::HashMap::remove, Maps::remove)]
pub fn channel_remove() {
    let mut c = any(0);
    let (i, k) = (c.id_counter, kani::any());
    c.remove_sound(k);
    unsafe { assert!(LOG == (1, k, 1) && c.id_counter == i, "channel: not the sound of the id removed"); }
    kani::cover!(true, "reached");
    std::mem::forget(c);
}
static mut SIZE: (u8, usize) = (0, 0);
static mut SECS: f64 = 0.0;
pub fn secs(d: &Duration) -> f64 { unsafe { SECS } }
pub struct Vecs<T, A>(T, A);
impl<T, A: std::alloc::Allocator> Vecs<T, A> {
    pub fn resize_with<F>(v: &mut Vec<T, A>, n: usize, mut f: F) where F: FnMut() -> T {
        unsafe {
            assert!(v.len() == 0 && num(&f()) == 0, "channel: output not silent");
            SIZE = (SIZE.0 + 1, n);
        }
    }
}
//# C26
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(cvc5)]
#[kani::stub(std::collections::hash_map::RandomState::new, state)]
#[kani::stub(std::time::Duration::as_secs_f64, secs)]
#[kani::stub(std::vec::Vec::resize_with, Vecs::resize_with)]
pub fn channel_time() {
    let mut c = any(1);
    let t: f64 = kani::any();
    kani::assume(t >= 0.0 && t <= 1.0e9);
    unsafe { SECS = t; }
    let (g, i) = (c.gain, c.id_counter);
    c.set_process_time(Duration::new(0, 0));
    assert!(unsafe { SIZE == (1, (t * 48000.0) as usize) }, "channel: not as many samples as in its time");
    assert!(same32(c.gain, g) && c.id_counter == i, "channel: changed by its time");
    kani::cover!(t > 1.0, "reached");
    std::mem::forget(c);
}
//# C26
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(cvc5)]
#[kani::stub(std::collections::hash_map::RandomState::new, state)]
#[kani::stub(std::vec::Vec::resize_with, Vecs::resize_with)]
pub fn channel_new() {
    let g: f64 = kani::any();
    let c = StandardChannel::<Any>::new(g);
    assert!(unsafe { SIZE == (1, 480) }, "new channel: not ten milliseconds");
    assert!(same32(c.gain, g as f32) && c.sounds.len() == 0, "new channel: not the gain given, or not empty");
    kani::cover!(true, "reached");
    std::mem::forget(c);
}
//# C26
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(cvc5)]
#[kani::stub(std::collections::hash_map::RandomState::new, state)]
pub fn channel_gain() {
    let mut c = any(1);
    let (g, i): (f64, usize) = (kani::any(), c.id_counter);
    c.set_gain(g);
    assert!(same32(c.gain, g as f32) && c.id_counter == i && c.get_output().len() == 1, "channel: not the gain set");
    kani::cover!(true, "reached");
    std::mem::forget(c);
}
