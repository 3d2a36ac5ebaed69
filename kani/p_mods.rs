//! Modifiers and oscillators as a user sees them: bounded stand-ins, executed
//! natively, for contracts that do not apply to the current source any more, and
//! the judges of whether a state a proof fails on can be reached.
use crate::*;
use crate::vkp::*;
use crate::utils::*;
use crate::generators::*;
use crate::modifiers::*;
use crate::sample_format::{Mono, MonoTrackT, SampleFormat};
use std::time::Duration;

struct Any(u64);
impl Any {
    fn n(&mut self, k: usize) -> usize { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (self.0 >> 33) as usize % k }
    fn x(&mut self) -> f32 { (self.n(2001) as f32 - 1000.0) / 1000.0 }
}
/// Signals: a step, impulses, noise of several magnitudes, something quiet, silence now and then.
fn signal(kind: usize, n: usize) -> Vec<f32> {
    let mut a = Any(kind as u64 * 77 + 5);
    (0..n).map(|i| match kind % 8 {
        0 => 1.0,
        1 => if i % 7 == 0 { -1.0 } else { 0.0 },
        2 => a.x(),
        3 => a.x() * 40.0,
        4 => a.x() * 1e-6,
        5 => if a.n(3) == 0 { 0.0 } else { a.x() * 3.0 },
        6 => if i < n / 2 { 0.5 } else { -2.0 },
        _ => [1.0, -1.0, 1e-20, -0.25, 0.0, 1e4, 0.75, -1e-3, 0.0, 0.0, 0.0][a.n(11)],
    }).collect()
}
fn secs(samples: f64) -> Duration { Duration::from_secs_f64(samples / 48000.0) }
fn close(a: f64, b: f64, e: f64) -> bool { (a - b).abs() <= e }

// ---- ADSR ---------------------------------------------------------------------------
/// The gain at a sample, observed by what becomes of 1 (and of others in proportion).
fn adsr(a: f64, d: f64, db: f64, r: f64, hold: usize, kind: usize) {
    let s = 10f64.powf(db.min(0.0) / 20.0);
    let what = || format!("envelope of {} {} samples, {} dB, {} samples, released after {}", a, d, db, r, hold);
    let (mut m, mut n) = (ADSR::new(secs(a), secs(d), db, secs(r)), ADSR::new(secs(a), secs(d), db, secs(r)));
    let len = hold + (r / s.min(1.0)).min(5000.0) as usize + 50;
    let x = signal(kind, len);
    let (mut g, mut last, mut stage, mut since, mut from) = (vec![], 0.0f64, 0, 0usize, 0.0f64);
    for i in 0..len {
        if i == hold || i == hold + 1 + kind * 9 || i == len - 20 { m.release(); n.release(); stage = 3; since = 0; from = last; }
        let y = m.process(1.0) as f64;
        assert!(y >= 0.0 && y <= 1.0, "gain outside of [0,1] at {}: {}", i, what());
        assert!(close(n.process(x[i]) as f64, x[i] as f64 * y, 1e-6 * x[i].abs() as f64), "output is not the input times the gain at {}: {}", i, what());
        since += 1;
        let (e, step, to) = match stage {
            0 => (since as f64 / a, 1.0 / a, 1.0),
            1 => (1.0 - since as f64 * (1.0 - s) / d, (1.0 - s) / d, s),
            2 => (s, 0.0, s),
            3 => (from - since as f64 * s / r, s / r, 0.0),
            _ => (0.0, 0.0, 0.0),
        };
        let e = if e != e { to } else if stage == 0 { e.min(to) } else { e.max(to) };
        let tol = 2e-4 + if (e - to).abs() <= 1e-3 { step.min(2e-3) } else { 0.0 };
        assert!(close(y, e, tol), "gain {} instead of {} at {}: {}", y, e, i, what());
        if stage < 2 && close(y, to, 1e-6) && (y as f32 == to as f32) { stage += 1; since = 0; }
        if stage == 3 && y == 0.0 { stage = 4; }
        last = y;
        g.push(y);
    }
    if stage == 4 { assert!(m.process(std::f32::NAN) == 0.0 && m.process(7.0) == 0.0, "not silent when it is over: {}", what()); }
}
//# native fallback C11@modifiers/adsr bounded='some thousand envelopes and releases'
pub fn adsr_plays() {
    let t = [0.0, 0.4, 1.0, 2.5, 10.0, 63.0, 400.0];
    for (i, a) in t.iter().enumerate() { for (j, d) in t.iter().enumerate() { for db in [-3.0, -20.0, -60.0, 0.0, 6.0].iter() { for (k, r) in t.iter().enumerate() {
        for hold in [0, 1, 5, 70, 1000].iter() { if (i + j + k + *hold) % 3 == 0 || i + j < 4 { adsr(*a, *d, *db, *r, *hold, i + j + k); } }
    } } } }
}

// ---- filters ------------------------------------------------------------------------
const PI: f64 = std::f64::consts::PI;
struct Lp { b: [f64; 4], a: [f64; 3], x: [f64; 3], y: [f64; 3] }
impl Lp {
    fn set(&mut self, high: bool, fc: f64, r: f64) {
        let k = 1.0 - 2.0 * (PI * (4.0 - r.min(1.0).max(0.0)) / 6.0).cos();
        let t = 2.0 * PI * fc.min(24000.0) / 48000.0;
        let g = t * t * t + k * t * t + k * t + 1.0;
        self.b = if high { [1.0 / g, -3.0 / g, 3.0 / g, -1.0 / g] } else { [t * t * t / g, 0.0, 0.0, 0.0] };
        self.a = [(k * t * t + 2.0 * k * t + 3.0) / g, (-k * t - 3.0) / g, 1.0 / g];
        for c in self.b.iter_mut().chain(self.a.iter_mut()) { *c = *c as f32 as f64; }
    }
    fn step(&mut self, x: f64) -> f64 {
        let y = self.b[0] * x + (0..3).map(|i| self.b[i + 1] * self.x[i] + self.a[i] * self.y[i]).sum::<f64>();
        self.x = [x, self.x[0], self.x[1]];
        self.y = [y as f32 as f64, self.y[0], self.y[1]];
        y
    }
}
fn lp() -> Lp { Lp { b: [0.0; 4], a: [0.0; 3], x: [0.0; 3], y: [0.0; 3] } }
const FC: [f64; 9] = [1000.0, 1000.4, 5000.0, 12000.0, 23999.0, 24000.0, 60000.0, 300.0, 2000.0];
const RS: [f64; 7] = [0.0, 0.5, 0.51, 1.0, 2.0, -3.0, 0.9];
macro_rules! filters { ($name:ident, $t:ident, $high:expr) => {
    fn $name(kind: usize, f0: usize, r0: usize) {
        let (mut f, mut r) = (FC[f0], RS[r0]);
        let (mut m, mut o) = ($t::new(f, r), lp());
        o.set($high, f, r);
        let mut top = 1e-9;
        for (i, x) in signal(kind, 120).iter().enumerate() {
            // both parameters, the one or the other
            let mode = (f0 + r0) % 4;
            if i % 20 == 19 && mode != 1 { f = if mode == 3 { f * 1.0005 + 0.01 } else { FC[(f0 + i / 20) % 9] }; m.set_central_frequency(f); o.set($high, f, r); }
            if i % 30 == 17 && mode != 2 { r = if mode == 1 && kind % 2 == 0 { (r + 0.004) % 1.0 } else { RS[(r0 + i / 30) % 7] }; m.set_resonance(r); o.set($high, f, r); }
            let (y, e) = (m.process(*x) as f64, o.step(*x as f64));
            top = e.abs().max(top).max(x.abs() as f64);
            assert!(close(y, e, 2e-5 * top), "{} instead of {} at {} from {} Hz, resonance {}, signal {}", y, e, i, FC[f0], RS[r0], kind);
            assert!(m.get_central_frequency() == f.min(24000.0) && m.get_resonance() == r.min(1.0).max(0.0), "parameters");
            // go on from what it made, so that rounding does not add up
            o.y[0] = y;
        }
    }
} }
filters!(low, LowPass, false);
filters!(high, HighPass, true);
//# native fallback C15@modifiers/lowpass bounded='some hundred runs of 120 samples, changing parameters'
pub fn low_plays() { for k in 0..8 { for f in 0..9 { for r in 0..7 { low(k, f, r); } } } }
//# native fallback C15@modifiers/highpass bounded='some hundred runs of 120 samples, changing parameters'
pub fn high_plays() { for k in 0..8 { for f in 0..9 { for r in 0..7 { high(k, f, r); } } } }

struct Bp { a0: f64, b1: f64, b2: f64, x: [f64; 2], y: [f64; 2] }
fn corners(f: f64, q: f64) -> (f64, f64) { let b = f / q; let h = (b + (b * b + 4.0 * f * f).sqrt()) / 2.0; (h - b, h) }
impl Bp {
    fn set(&mut self, f: f64, q: f64) {
        let (l, h) = corners(f, q);
        let (tl, th) = ((PI * h / 48000.0).tan(), (PI * l / 48000.0).tan());
        let (al, ah, bl, bh) = (1.0 / (1.0 + tl), 1.0 / (1.0 + th), (1.0 - tl) / (1.0 + tl), (1.0 - th) / (1.0 + th));
        self.a0 = (1.0 - al) * ah;
        self.b1 = bl + bh;
        self.b2 = bl * bh;
    }
    fn step(&mut self, x: f64) -> f64 {
        let y = self.a0 * (x - self.x[1]) + self.b1 * self.y[0] - self.b2 * self.y[1];
        self.x = [x, self.x[0]];
        self.y = [y, self.y[0]];
        y
    }
}
fn band(kind: usize, i0: usize) {
    const F: [f64; 7] = [1000.0, 440.0, 3000.0, 1000.5, 7000.0, 50.0, 9000.0];
    const Q: [f64; 6] = [0.7, 1.0, 10.0, 2.5, 0.71, 30.0];
    let (mut f, mut q) = (F[i0 % 7], Q[i0 % 6]);
    let mut o = Bp { a0: 0.0, b1: 0.0, b2: 0.0, x: [0.0; 2], y: [0.0; 2] };
    let mut m = if i0 % 3 == 0 { let c = corners(f, q); let c = if i0 % 2 == 0 { c } else { (c.1, c.0) }; BandPass::from_corners(c) } else { BandPass::new(f, q) };
    o.set(f, q);
    let mut top = 1e-9;
    for (i, x) in signal(kind, 120).iter().enumerate() {
        if i % 20 == 19 && i0 % 4 < 2 { f = F[(i0 + i / 20) % 7]; m.set_central_frequency(f); o.set(f, q); }
        if i % 30 == 17 { q = Q[(i0 + i / 30) % 6]; m.set_quality(q); o.set(f, q); }
        if i % 40 == 33 { f = F[(i0 + i) % 7]; q = Q[(i0 + i) % 6]; let c = corners(f, q); m.set_corner_frequencies(if i % 80 < 40 { c } else { (c.1, c.0) }); o.set(f, q); }
        // corners with the same centre, lower or upper end, or distance as before
        if i0 % 4 > 1 && i % 10 == 6 {
            let k = (i0 + i / 10) % 7;
            let c = if i0 % 4 == 2 { let w = [2.0, 4.0, 1.5, 8.0, 1.25, 16.0, 3.0][k]; (1200.0 / w, 1200.0 * w) } else { [(500.0, 2000.0), (500.0, 800.0), (100.0, 800.0), (100.0, 1600.0), (700.0, 2200.0), (2200.0, 700.0), (1540.0, 1000.0)][k] };
            m.set_corner_frequencies(c);
            f = (c.0 * c.1 as f64).sqrt();
            q = f / (c.0 - c.1 as f64).abs();
            o.set(f, q);
        }
        let (y, e) = (m.process(*x) as f64, o.step(*x as f64));
        top = e.abs().max(top).max(x.abs() as f64);
        assert!(close(y, e, 1e-4 * top), "{} instead of {} at {} from {}, signal {}", y, e, i, i0, kind);
        assert!(close(m.get_central_frequency() / f, 1.0, 1e-9) && close(m.get_quality() / q, 1.0, 1e-9), "parameters");
        let (c, d) = (m.get_corner_frequencies(), corners(f, q));
        assert!(close(c.0 / d.0, 1.0, 1e-6) && close(c.1 / d.1, 1.0, 1e-9), "corners");
        o.y[0] = y;
    }
}
//# native fallback C15@modifiers/bandpass bounded='some hundred runs of 120 samples, changing parameters'
pub fn band_plays() { for k in 0..8 { for i in 0..42 { band(k, i); } } }

//# native fallback C16@modifiers/envelope bounded='some hundred runs of 200 samples'
pub fn envelope_plays() {
    for k in 0..16 { for i in 0..25 {
        const F: [f32; 5] = [20.0, 1000.0, 2.0, 8000.0, 11999.0];
        let (l, u) = (F[i % 5], F[i / 5]);
        let mut m = Envelope::new(l, u);
        let c = |f: f32| { let t = (PI * f as f64 / 48000.0).tan(); (t / (1.0 + t), (1.0 - t) / (1.0 + t)) };
        let (mut x1, mut y1) = (0.0f64, 0.0f64);
        for (j, x) in signal(k, 200).iter().enumerate() {
            let a = x.abs() as f64;
            let (p, q) = if x.abs() > y1 as f32 { c(u) } else { c(l) };
            let e = p * (a + x1) + q * y1;
            let y = m.process(*x);
            assert!(y >= 0.0, "negative at {}: {} {} {}", j, l, u, k);
            assert!(close(y as f64, e, 1e-5 * (a + x1 + y1)), "{} instead of {} at {}: {} {} {}", y, e, j, l, u, k);
            x1 = a;
            y1 = y as f64;
        }
    } }
}
//# native fallback C17@modifiers/gain C17@modifiers/passthrough C17@generators/zero bounded='some hundred gains and samples'
pub fn gain_plays() {
    let v = [0.0f32, -0.0, 1.0, -1.0, 0.1, 0.3, 3.0, -7.7, 17.0, -33.0, 200.0, 1e3, -5e3, 7e4, 2e6, -1e9, 1e20, 1e-4, -1e-9, std::f32::MAX, std::f32::MIN_POSITIVE, 1e30, -1e-30, 1e-40, std::f32::INFINITY, std::f32::NEG_INFINITY, std::f32::NAN];
    let (mut p, mut z) = (Passthrough::new(), Zero::new());
    for a in v.iter() {
        let mut g = Gain::new(*a);
        for x in v.iter().chain(signal(3, 50).iter()) {
            assert!(same32(g.process(*x), *x * *a), "gain of {} makes something else of {}", a, x);
            assert!(p.process(*x).to_bits() == x.to_bits(), "passthrough changes {}", x);
            assert!(z.process() == 0.0, "zero is not silent");
        }
    }
}

// ---- oscillators --------------------------------------------------------------------
/// Frequencies now and then changed, never above half the sampling rate.
fn tune<G: FreqMod + Generator + Clone>(seed: u64, wave: &dyn Fn(f64) -> (f64, f64), phase: bool, only: &[f32]) {
    let mut a = Any(seed);
    let fs = [440.0, 0.0, 1.0, 10.0, 12000.0, 24000.0, 23999.9, 1000.3, 7.0, 3.0, 19999.0, 8000.0];
    let mut f = fs[a.n(12)];
    let mut g = G::new(f);
    let (mut p, mut drift) = (0.0f64, 0.0f64);
    for i in 0..3000 {
        if a.n(200) == 0 { f = if a.n(2) == 0 { fs[a.n(12)] } else { a.n(24_000_001) as f64 / 1000.0 }; g.set_frequency(f); }
        if a.n(900) == 0 { let c = g.clone(); assert!(close(c.get_frequency(), f, 1e-6 * f + 1e-9), "clone at another frequency"); g = c; p = 0.0; drift = 0.0; }
        let y = g.process() as f64;
        assert!(y >= -1.0 && y <= 1.0, "outside of [-1,1] at {}, {} Hz", i, f);
        if !only.is_empty() { assert!(only.contains(&(y as f32)), "neither 1 nor -1 at {}", i); }
        if phase {
            // the value at the phase, or just beside it (rounding of the phase)
            let e = 1e-9 + drift;
            let (u, v) = (wave(p - e), wave(p + e));
            let (lo, hi) = (u.0.min(v.0).min(wave(p).0), u.1.max(v.1).max(wave(p).1));
            assert!(y >= lo - 1e-6 && y <= hi + 1e-6, "{} instead of {}..{} at {}, {} Hz", y, lo, hi, i, f);
        }
        p = (p + f / 48000.0).fract();
        drift += 1e-12;
    }
    assert!(close(g.get_frequency(), f, 1e-6 * f + 1e-9), "another frequency");
}
//# C08 native weak noise_range fallback noise_range bounded='three million samples'
pub fn noise_plays() {
    let mut g = generators::Noise::new();
    let mut c = g.clone();
    for i in 0..3_000_000 { let y = if i % 3 == 0 { c.process() } else { g.process() }; assert!(y >= -1.0 && y <= 1.0, "noise outside of [-1,1]: {}", y); }
}
/// Least and largest value near a phase.
fn saw(p: f64) -> (f64, f64) { let q = (p + 1.0).fract(); let y = if q < 0.5 { 2.0 * q } else { 2.0 * q - 2.0 }; if (q - 0.5).abs() < 1e-8 { (-1.0, 1.0) } else { (y, y) } }
fn tri(p: f64) -> (f64, f64) { let q = (p + 1.0).fract(); let y = if q < 0.25 { 4.0 * q } else if q < 0.75 { 2.0 - 4.0 * q } else { 4.0 * q - 4.0 }; (y, y) }
fn sin(p: f64) -> (f64, f64) {
    // the line between the entries of a table of 4800
    let q = (p + 1.0).fract() * 4800.0;
    let s = |k: f64| (2.0 * PI * k / 4800.0).sin();
    let y = s(q.floor()) + q.fract() * (s(q.floor() + 1.0) - s(q.floor()));
    (y, y)
}
fn none(_: f64) -> (f64, f64) { (-1.0, 1.0) }
//# native fallback C08@generators/sawtooth C08@generators/triangle C08@generators/square C08@generators/sine bounded='200 runs of each, of 3000 samples, changing frequencies'
pub fn osc_range() {
    for s in 0..200 {
        tune::<Sawtooth>(s, &none, false, &[]);
        tune::<Triangle>(s, &none, false, &[]);
        tune::<Sine>(s, &none, false, &[]);
        tune::<Square>(s, &none, false, &[1.0, -1.0]);
    }
}
//# native fallback C09@generators/sawtooth C09@generators/triangle C09@generators/sine C10@generators/sawtooth C10@generators/triangle C10@generators/sine bounded='200 runs of each, of 3000 samples, changing frequencies'
pub fn osc_phase() {
    for s in 0..200 {
        tune::<Sawtooth>(s, &saw, true, &[]);
        tune::<Triangle>(s, &tri, true, &[]);
        tune::<Sine>(s, &sin, true, &[]);
    }
}
//# native fallback C09@generators/square C10@generators/square bounded='twelve frequencies and changes between them'
pub fn square_phase() {
    let mut a = Any(5);
    let some: Vec<f64> = (0..40).map(|i| if i % 2 == 0 { a.n(24_000_000) as f64 / 1000.0 + 0.5 } else { (a.n(500_000) + 500) as f64 / 1000.0 }).collect();
    // as many periods as there should be
    for f in [24000.0, 7001.0, 19999.0, 16000.5, 48000.0 / 7.0].iter().chain(some.iter()) {
        let mut g = Square::new(*f);
        let (mut ups, mut last) = (0.0, 1.0);
        for _ in 0..100_000 { let y = g.process(); if y > last { ups += 1.0; } last = y; }
        assert!(close(ups, 100_000.0 * f / 48000.0, 1.5), "{} periods of {} Hz", ups, f);
    }
    for f in [24000.0, 12000.0, 8000.0, 440.0, 1000.3, 100.0, 23999.0, 3.0].iter().chain(some.iter()) {
        let n = 48000.0 / (2.0 * f);
        let mut g = Square::new(*f);
        for _ in 0..100 { g.process(); }
        let mut g = g.clone();
        // counts of samples at 1 and -1: half periods
        let (mut run, mut last, mut first) = (0usize, 1.0, true);
        for i in 0..20000 {
            let y = g.process();
            if y == last { run += 1; } else {
                assert!((run as f64 - n).abs() <= 1.0 + 1e-9 || first && (run as f64 - n).abs() <= 1.0 + 1e-9, "half a period of {} samples instead of {} at {}", run, n, i);
                first = false;
                last = y;
                run = 1;
            }
        }
    }
}

// ---- clones and getters -------------------------------------------------------------
/// A clone of a modifier with a history goes on as a new one, and is independent.
fn clones<M: Modifier + Clone>(what: &str, new: &dyn Fn() -> M) {
    for k in 0..8 { for n in [0, 1, 2, 3, 10, 57, 200].iter() {
        let (mut m, mut t) = (new(), new());
        for x in signal(k, *n) { m.process(x); t.process(x); }
        let (mut c, mut f) = (m.clone(), new());
        for x in signal(k + 1, 120) {
            let y = c.process(x);
            assert!(same32(y, f.process(x)), "clone of {} is not as a new one after {} samples", what, n);
            assert!(same32(m.process(-x), t.process(-x)), "clone of {} is not independent", what);
        }
    } }
}
//# native fallback C10@modifiers/adsr C10@modifiers/delay C10@modifiers/echo C10@modifiers/envelope C10@modifiers/gain C10@modifiers/generic C10@modifiers/lowpass C10@modifiers/highpass C10@modifiers/bandpass C10@modifiers/passthrough bounded='some parameters and histories of each modifier'
pub fn modifiers_clone() {
    clones("ADSR", &|| ADSR::new(secs(20.0), secs(30.0), -6.0, secs(10.0)));
    clones("ADSR", &|| { ADSR::new(secs(2.0), secs(3.0), -16.0, secs(10.0)) });
    for k in [0.0, 1.0, 2.0, 2.6, 30.0].iter() { clones("Delay", &|| Delay::new(secs(*k))); clones("Echo", &|| Echo::new(secs(*k), 0.5)); }
    clones("Envelope", &|| Envelope::new(20.0, 2000.0));
    clones("Gain", &|| Gain::new(0.3));
    clones("Passthrough", &|| Passthrough::new());
    for f in [500.0, 24000.0].iter() { clones("LowPass", &|| LowPass::new(*f, 0.4)); clones("HighPass", &|| HighPass::new(*f, 0.6)); }
    clones("BandPass", &|| BandPass::new(900.0, 1.5));
    clones("BandPass", &|| BandPass::from_corners((300.0, 900.0)));
    let q = |v: &[(usize, f32)]| v.iter().cloned().collect::<std::collections::VecDeque<_>>();
    clones("Generic", &|| Generic::new(q(&[(0, 0.5), (2, -0.25)]), q(&[(1, 0.5)])));
    clones("Generic", &|| Generic::new(q(&[(3, 0.5), (1, -0.25)]), q(&[(4, 0.25), (0, 0.125)])));
    clones("Generic", &|| Generic::new(q(&[]), q(&[])));
    // after a release, too
    for n in 0..40 {
        let mut m = ADSR::new(secs(10.0), secs(5.0), -6.0, secs(10.0));
        for _ in 0..n { m.process(1.0); }
        m.release();
        for _ in 0..n { m.process(1.0); }
        let (mut c, mut f) = (m.clone(), ADSR::new(secs(10.0), secs(5.0), -6.0, secs(10.0)));
        for _ in 0..40 { assert!(c.process(1.0) == f.process(1.0), "clone of a released ADSR is not as a new one"); }
    }
}
//# native fallback C10@utils/mono_resampler bounded='some tracks, rates, loops and histories'
pub fn resampler_clone() {
    let t: MonoTrackT = (0..20).map(|i| Mono::from_sample((i * i % 17) as f32)).collect();
    for l in [(0, 0), (3, 15), (0, 20), (19, 20)].iter() { for r in [48000.0, 24000.0, 61000.0].iter() { for s in [1.0, 0.3, 2.5].iter() { for n in [0, 1, 7, 60].iter() {
        let new = || { let mut m = MonoResampler::new(t.clone(), *r, l.0, l.1); m.set_playback_speed(*s); m };
        let mut m = new();
        for _ in 0..*n { m.process(); }
        let (mut c, mut f) = (m.clone(), new());
        assert!(c.get_playback_speed() == *s, "clone of a resampler at another speed");
        for _ in 0..80 { assert!(c.process() == f.process(), "clone of a resampler is not as a new one"); m.process(); }
    } } } }
}
//# native fallback C29@modifiers/lowpass C29@modifiers/highpass C29@modifiers/bandpass C29@modifiers/delay C29@utils/mono_resampler C29@generators/sawtooth C29@generators/triangle C29@generators/square C29@generators/sine bounded='some values and histories'
pub fn parameters_read_back() {
    let mut a = Any(9);
    for _ in 0..400 {
        let f = 1.0 + a.n(24000) as f64 + a.n(1000) as f64 / 1000.0;
        let (r, q) = (a.n(1001) as f64 / 1000.0, 0.1 + a.n(400) as f64 / 10.0);
        let (g, s) = (FC[a.n(9)], RS[a.n(7)]);
        macro_rules! pass { ($t:ident) => { {
            let mut m = $t::new(f, r);
            let mut p = (f.min(24000.0), r);
            for step in 0..4 {
                for x in signal(step + 2, 5) { m.process(x); }
                assert!((m.get_central_frequency(), m.get_resonance()) == p && { let c = m.clone(); (c.get_central_frequency(), c.get_resonance()) == p }, "{} {}: not as set", f, r);
                if step == 1 { m.set_central_frequency(g); p.0 = g.min(24000.0); }
                if step == 2 { m.set_resonance(s); p.1 = s.min(1.0).max(0.0); }
            }
        } } }
        pass!(LowPass);
        pass!(HighPass);
        let mut m = BandPass::new(f, q);
        m.process(1.0);
        assert!(m.get_central_frequency() == f && m.get_quality() == q, "band pass: not as set");
        m.set_central_frequency(g);
        m.process(1.0);
        assert!(m.get_central_frequency() == g && m.get_quality() == q, "band pass: not as set");
        m.set_quality(0.5 + q);
        m.process(1.0);
        assert!(m.get_central_frequency() == g && m.get_quality() == 0.5 + q, "band pass: not as set");
        let n = a.n(3000);
        assert!(close(Delay::new(secs(n as f64)).get_delay().as_secs_f64(), n as f64 / 48000.0, 2e-9), "delay: not as set");
        let mut m = MonoResampler::new(vec![Mono::from_sample(1.0); 4], 48000.0, 0, 4);
        assert!(m.get_playback_speed() == 1.0, "speed: not 1");
        m.set_playback_speed(q);
        m.process();
        assert!(m.get_playback_speed() == q, "speed: not as set");
    }
    macro_rules! reads { ($t:ident) => { for f in [0.0, 0.001, 1.0, 440.0, 8000.0, 12000.0, 16000.0, 23999.999, 24000.0, 23040.0, 48.0].iter() {
        let mut g = $t::new(*f);
        assert!(close(g.get_frequency(), *f, 1e-6 * f + 1e-9), "not the frequency of the start");
        g = $t::new(100.0);
        g.process();
        g.set_frequency(*f);
        assert!(close(g.get_frequency(), *f, 1e-6 * f + 1e-9), "not the frequency set");
        g.process();
        assert!(close(g.get_frequency(), *f, 1e-6 * f + 1e-9) && close(g.clone().get_frequency(), *f, 1e-6 * f + 1e-9), "not the frequency set, later");
    } } }
    reads!(Sawtooth);
    reads!(Triangle);
    reads!(Sine);
    reads!(Square);
    for s in 0..20 { tune::<Sawtooth>(s, &none, false, &[]); tune::<Triangle>(s, &none, false, &[]); tune::<Sine>(s, &none, false, &[]); tune::<Square>(s, &none, false, &[]); }
}

// ---- delays, echoes, generic filters --------------------------------------------------
/// Lengths of time in ns: around whole and half samples, short and long.
fn lengths() -> Vec<u64> {
    let mut a = Any(3);
    let mut v: Vec<u64> = vec![0, 1, 10_416, 10_417, 20_833, 20_834, 1_000_000_000, 999_999_999, 2_000_010_000, 7_999_990_000, 8_000_400_000, 10_000_417_000, 61_000_005_000];
    for i in 0..60u64 { v.push((i as f64 * 1e9 / 48000.0 * 0.5) as u64 + 3); }
    for _ in 0..300 { v.push(a.n(3_000_000) as u64); }
    for _ in 0..60 { v.push(a.n(200_000_000) as u64); }
    for _ in 0..12 { v.push(a.n(2_000_000_000) as u64); }
    v
}
fn samples(ns: u64) -> f64 { Duration::from_nanos(ns).as_secs_f64() * 48000.0 }
//# C12 native weak delay_step delay_new delay_clone fallback delay_step delay_new delay_clone bounded='400 lengths to 61 seconds, signals of eight kinds'
pub fn delay_plays() {
    for (k, ns) in lengths().iter().enumerate() {
        let s = samples(*ns);
        if (s.fract() - 0.5).abs() < 1e-6 { continue; }
        let n = s.round() as usize;
        let mut m = Delay::new(Duration::from_nanos(*ns));
        let long = n > 20000;
        if k % 2 == 0 { for x in signal(k + 3, 30) { m.process(x); } m = m.clone(); }
        let mut x = signal(k, n + if long { 50 } else { 300 });
        // any samples at all come out as they went in
        for (i, q) in [std::f32::INFINITY, std::f32::NAN, std::f32::NEG_INFINITY, 1e-44, -0.0, std::f32::MAX, 2e20, -std::f32::MIN_POSITIVE].iter().enumerate() { x[i * 5 + k % 5] = *q; }
        for i in 0..x.len() {
            let y = m.process(x[i]);
            assert!(same32(y, if i >= n { x[i - n] } else { 0.0 }), "delay of {} ns: not the sample {} before, at {}", ns, n, i);
        }
    }
}
//# C13 native weak s_echo_out s_echo_keeps echo_new echo_clone fallback s_echo_out s_echo_keeps echo_new echo_clone bounded='400 lengths to 61 seconds, gains to 1e20, signals of eight kinds'
pub fn echo_plays() {
    for (k, ns) in lengths().iter().enumerate() {
        let s = samples(*ns);
        if (s - s.round()).abs() < 1e-6 && *ns > 0 { continue; }
        let n = (s as usize).max(1);
        let g = [0.5, -0.75, 1.0, 0.0, 0.3, -1.5, 2.0, 5.0, -30.0, 1e4, -1e7, 1e-9, 1e20][k % 13];
        let mut m = Echo::new(Duration::from_nanos(*ns), g);
        let long = n > 20000;
        if k % 2 == 0 { for x in signal(k + 3, 30) { m.process(x); } m = m.clone(); }
        let x = signal(k, n + if long { n + 50 } else { 300 }.min(100_000));
        let mut y = vec![0.0f32; x.len()];
        for i in 0..x.len() {
            let w = if i >= n { y[i - n] } else { 0.0 };
            y[i] = m.process(x[i]);
            let e = x[i] as f64 + w as f64 * g as f32 as f64;
            assert!(close(y[i] as f64, e, 1e-6 * (x[i].abs() as f64 + w.abs() as f64 * g.abs()) + 1e-40) || !y[i].is_finite(), "echo of {} ns: {} instead of {} at {}", ns, y[i], e, i);
            if !y[i].is_finite() { break; }
        }
    }
}
//# C14 native weak generic_zeros generic_poles generic_sum generic_made generic_far generic_same generic_step fallback generic_runs_a generic_runs_b generic_zeros generic_poles generic_sum generic_made generic_far generic_same s_generic_same s_generic_far generic_step bounded='some hundred filters of up to forty zeros and poles up to 3000 samples back'
pub fn generic_plays() {
    let mut a = Any(11);
    for k in 0..400usize {
        let far = [1, 2, 4, 9, 60, 3000][k % 6];
        let (nz, np) = (a.n(if k % 5 == 0 { 40 } else { 4 }), a.n(if k % 7 == 0 { 40 } else { 4 }));
        let z: Vec<(usize, f32)> = (0..nz).map(|_| (a.n(far), a.x() * 2.0)).collect();
        let p: Vec<(usize, f32)> = (0..np).map(|_| (a.n(far), a.x() / np as f32)).collect();
        // now and then the same more than once
        let (mut z, mut p) = (z, p);
        if k % 3 == 0 { for l in [&mut z, &mut p].iter_mut() { if l.len() > 0 { let q = l[a.n(l.len())]; let i = a.n(l.len() + 1); l.insert(i, q); } } }
        if k % 8 == 1 { for q in z.iter_mut() { q.1 *= [1e3, 1e-6, 0.0, 1e10][a.n(4)]; } }
        let mut m = Generic::new(z.iter().cloned().collect(), p.iter().cloned().collect());
        if k % 2 == 0 { for x in signal(k + 3, 30) { m.process(x); } m = m.clone(); }
        let x = signal(k / 6, far * 2 + 100);
        let mut y = vec![0.0f32; x.len()];
        for i in 0..x.len() {
            let (mut e, mut t) = (0.0f64, 0.0f64);
            let mut add = |v: f64| { e += v; t += v.abs(); };
            for z in z.iter() { if i >= z.0 { add(x[i - z.0] as f64 * z.1 as f64); } }
            for p in p.iter() { if i > p.0 { add(y[i - 1 - p.0] as f64 * p.1 as f64); } }
            y[i] = m.process(x[i]);
            assert!(close(y[i] as f64, e, 1e-5 * t + 1e-30), "generic filter {:?} {:?}: {} instead of {} at {}", z, p, y[i], e, i);
        }
    }
}
//# C18 native weak res_value_once res_value_loop res_moves res_rate fallback res_value_once res_value_loop res_moves res_rate res_safe res_new res_silent res_plays_once res_plays_loop wav_plays bounded='5000 tracks to 5000 samples, with rates, speeds, changes of speed, loops of all kinds'
pub fn resampler_plays() {
    let mut a = Any(31);
    for k in 0..5000usize {
        let n = match k % 7 { 0 => a.n(4), 1 => 1, 2 => 5000, _ => 2 + a.n(60) };
        let t: Vec<f32> = (0..n).map(|i| match k % 4 { 0 => a.x(), 1 => (i + 1) as f32, 2 => if i % 2 == 0 { 1.0 } else { -1.0 }, _ => a.n(3) as f32 }).collect();
        let exact = k % 3 != 0;
        let rate = if exact { 6000.0 * (1 + a.n(32)) as f64 } else { [44100.0, 22050.0, 8000.0, 96000.0, 11025.0, 192000.0, 47999.0][a.n(7)] };
        let pick = |a: &mut Any| if exact { [1.0, 0.5, 2.0, 0.125, 4.0, 0.0, 3.0, 1.5][a.n(8)] } else { [1.0, 0.7, 1.3, 3.3, 0.01, 12.7, 1.0, 100.0][a.n(8)] };
        let (s, e) = match k % 5 { 0 => (0, 0), 1 => (a.n(n + 2), a.n(n + 2)), 2 => (a.n(n + 1), n + a.n(9)), 3 => (0, 1 + a.n(n + 1)), _ => { let s = a.n(n + 1); (s, s + 1 + a.n(2)) } };
        let track: MonoTrackT = t.iter().map(|x| Mono::from_sample(*x)).collect();
        let mut wav = if s == 0 && e == 0 && k % 2 == 0 { Some(generators::MonoWav::from_track(rate, track.clone())) } else { None };
        let mut m = MonoResampler::new(track, rate, s, e);
        // the loop that was asked for, in order and inside of the track
        let (ls, le) = (s.min(e), s.max(e).min(n));
        let looped = ls < le;
        let mut v = 1.0;
        let mut p = 0.0f64;
        let mut drift = 0.0f64;
        let far = t.iter().fold(0.0f64, |m, x| m.max(x.abs() as f64));
        for i in 0..if n == 5000 { 2000 } else { 200 } {
            if i == 0 && k % 2 == 1 || a.n(60) == 0 {
                v = pick(&mut a);
                m.set_playback_speed(v);
                if let Some(w) = &mut wav { w.get_mut().set_playback_speed(v); }
            }
            let at = p as usize;
            let y = m.process();
            if let Some(w) = &mut wav { let z = w.process(); assert!(z == y, "wav player: {} where the resampler of its track has {}", z, y); }
            let want = if at >= n { 0.0 } else {
                let j = if looped && at + 1 >= le { ls } else if at + 1 >= n { at } else { at + 1 };
                t[at] as f64 + (p - at as f64) * (t[j] as f64 - t[at] as f64)
            };
            // where it falls silent a little sooner or later makes a difference
            if looped || at >= n && p - n as f64 >= drift || at < n && n as f64 - p > drift {
                assert!(close(y as f64, want, far * 2.0 * (drift + 1.0e-6)), "track of {}, loop {} to {}, {} Hz, sample {}: {} instead of {} at {}", n, s, e, rate, i, y, want, p);
            }
            assert!(m.get_playback_speed() == v, "resampler: speed changes");
            if at < n || looped {
                let step = rate / 48000.0 * v;
                p += step;
                if !exact { drift += step * 3.0e-7; }
                if looped && p >= le as f64 { p = ls as f64 + (p - ls as f64) % (le - ls) as f64; }
            }
        }
    }
}
