//! Delay and Echo as a user sees them: real queues of a few samples.
use crate::vkp::*;
use crate::modifiers::*;
use std::time::Duration;

/// Lengths of time in ns with the number of samples they are, to the nearest and cut off.
const T: [(u64, usize, usize); 8] = [(0, 0, 0), (10_400, 0, 0), (10_500, 1, 0), (20_834, 1, 1), (31_200, 1, 1), (31_300, 2, 1), (41_667, 2, 2), (62_501, 3, 3)];
fn x() -> [f32; 6] { [3.0, -5.0, 7.0, 11.0, -13.0, 17.0] }
fn delays(mut s: Delay, n: usize) {
    let x = x();
    let mut i = 0;
    while i < 6 {
        assert!(s.process(x[i]) == if i >= n { x[i - n] } else { 0.0 }, "delay: not the samples of its delay ago");
        i += 1;
    }
}
fn delay(i: usize) {
    let (t, n, _) = T[i];
    let s = Delay::new(Duration::from_nanos(t));
    let mut o = s.clone();
    o.process(3.0);
    delays(o.clone(), n);
    delays(s, n);
}
//# weak delay_step delay_new delay_clone fallback delay_step delay_new delay_clone
#[kani::proof]
#[kani::unwind(10)]
pub fn delay_real_a() { let mut i = 0; while i < 4 { delay(i); i += 1; } }
//# weak delay_step delay_new delay_clone fallback delay_step delay_new delay_clone
#[kani::proof]
#[kani::unwind(10)]
pub fn delay_real_b() { let mut i = 4; while i < 8 { delay(i); i += 1; } }
fn echoes(mut s: Echo, n: usize, g: f32) {
    let x = x();
    let mut y = [0.0; 6];
    let mut i = 0;
    while i < 6 {
        y[i] = x[i] + if i >= n { y[i - n] * g } else { 0.0 };
        assert!(s.process(x[i]) == y[i], "echo: not the input plus the fed back output of its delay ago");
        i += 1;
    }
}
fn echo(i: usize) {
    let (t, _, n) = T[i];
    let n = if n == 0 { 1 } else { n };
    let s = Echo::new(Duration::from_nanos(t), 0.5);
    let mut o = s.clone();
    o.process(3.0);
    echoes(o.clone(), n, 0.5);
    echoes(s, n, 0.5);
}
//# weak s_echo_out s_echo_keeps echo_new echo_clone fallback s_echo_out s_echo_keeps echo_new echo_clone
#[kani::proof]
#[kani::unwind(10)]
pub fn echo_real_a() { echo(0); echo(2); echo(3); echo(5); }
//# weak s_echo_out s_echo_keeps echo_new echo_clone fallback s_echo_out s_echo_keeps echo_new echo_clone
#[kani::proof]
#[kani::unwind(10)]
pub fn echo_real_b() { echo(1); echo(4); echo(6); echo(7); }
//# weak delay_get fallback delay_get
#[kani::proof]
#[kani::unwind(10)]
pub fn delay_get_real() {
    let mut i = 0;
    while i < 8 {
        let d = Delay::new(Duration::from_nanos(T[i].0)).get_delay();
        let e = (T[i].1 * 20834) as i64 - d.as_nanos() as i64;
        assert!(e >= 0 && e <= 3, "delay: reports another time than its samples take");
        i += 1;
    }
}
fn filter(n: usize, z: [(usize, f32); 2], m: usize, p: [(usize, f32); 2]) {
    let (mut zeros, mut poles) = (Zeros::new(), Poles::new());
    let mut i = 0;
    while i < n { zeros.push_back(z[i]); i += 1; }
    i = 0;
    while i < m { poles.push_back(p[i]); i += 1; }
    let mut s = Generic::new(zeros, poles);
    s.process(5.0);
    s.process(-3.0);
    let mut c = s.clone();
    let x: [f32; 7] = [3.0, -5.0, 7.0, 0.0, 11.0, -13.0, 17.0];
    let mut y: [f32; 7] = [0.0; 7];
    let mut t = 0;
    while t < 7 {
        let mut e = 0.0;
        i = 0;
        while i < n { if t >= z[i].0 { e += x[t - z[i].0] * z[i].1; } i += 1; }
        i = 0;
        while i < m { if t >= p[i].0 + 1 { e += y[t - 1 - p[i].0] * p[i].1; } i += 1; }
        y[t] = e;
        assert!(c.process(x[t]) == e, "generic filter: not the sum of its weighted inputs and outputs since it was made");
        t += 1;
    }
    std::mem::forget((s, c));
}
//# C14 C10 fallback s_generic_same s_generic_far generic_step bounded='some filters of up to two zeros and poles, seven samples'
#[kani::proof]
#[kani::unwind(10)]
pub fn generic_runs_a() { filter(2, [(0, 2.0), (2, -1.0)], 1, [(1, 0.5), (0, 0.0)]); filter(1, [(0, 3.0), (0, 0.0)], 0, [(0, 0.0); 2]); }
//# C14 C10 fallback s_generic_same s_generic_far generic_step bounded='some filters of up to two zeros and poles, seven samples'
#[kani::proof]
#[kani::unwind(10)]
pub fn generic_runs_b() { filter(2, [(3, 2.0), (1, 1.0)], 2, [(0, 0.5), (3, -2.0)]); filter(0, [(0, 3.0); 2], 2, [(1, 1.0), (0, 2.0)]); }
/// Public behaviour: a track of five samples, played at a rate, a speed, in a loop.
fn plays(rate: f64, speed: f64, a: usize, b: usize, ls: usize, le: usize) {
    use crate::sample_format::*;
    const X: [f32; 5] = [4.0, -8.0, 16.0, 12.0, -20.0];
    let mut v = MonoTrackT::new();
    let mut i = 0;
    while i < 5 { v.push(Mono::from(X[i])); i += 1; }
    let mut s = crate::utils::MonoResampler::new(v, rate, a, b);
    s.set_playback_speed(speed);
    let step = rate * speed / 48000.0;
    let mut p: f64 = 0.0;
    i = 0;
    while i < 12 {
        let k = p as usize;
        let e = if k >= 5 { 0.0 } else {
            let j = if le > 0 && k + 1 >= le { ls } else if k + 1 >= 5 { k } else { k + 1 };
            X[k] as f64 + (p - k as f64) * (X[j] - X[k]) as f64
        };
        assert!(within(s.process() as f64, e, 1.0e-4), "resampler: not on the line between its neighbours");
        if k < 5 { p += step; }
        while le > 0 && p >= le as f64 { p -= (le - ls) as f64; }
        i += 1;
    }
}
//# C18 fallback res_value_once res_moves res_safe res_new res_rate bounded='one track of five samples, some rates, speeds and loops'
#[kani::proof]
#[kani::unwind(14)]
pub fn res_plays_once() { plays(48000.0, 1.0, 0, 0, 0, 0); plays(24000.0, 1.0, 0, 0, 0, 0); plays(48000.0, 1.25, 3, 3, 0, 0); plays(12000.0, 7.0, 5, 9, 0, 0); plays(24000.0, 0.0, 0, 0, 0, 0); }
//# C18 fallback res_value_loop res_moves res_safe res_new res_rate bounded='one track of five samples, some rates, speeds and loops'
#[kani::proof]
#[kani::unwind(14)]
pub fn res_plays_loop() { plays(48000.0, 1.0, 1, 4, 1, 4); plays(24000.0, 1.5, 0, 5, 0, 5); plays(48000.0, 2.5, 3, 1, 1, 3); plays(48000.0, 7.25, 2, 9, 2, 5); plays(48000.0, 0.25, 2, 3, 2, 3); }
