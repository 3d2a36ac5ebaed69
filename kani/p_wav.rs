//! Writing and reading wav data: what is handed to and taken from the wav crate.
use crate::*;
use crate::vkp::*;
use crate::utils::*;
use crate::sample_format::*;

static mut WROTE: Option<(wav::Header, wav::BitDepth)> = None;
static mut CALLS: u8 = 0;
static mut FAIL: bool = false;
fn failure() -> std::io::Error { std::io::Error::from(std::io::ErrorKind::Other) }
/// The wav crate's writer: notes what it is given; may fail.
pub fn note(h: wav::Header, d: wav::BitDepth, _: &mut dyn std::io::Write) -> std::io::Result<()> {
    unsafe {
        CALLS += 1;
        WROTE = Some((h, d));
        if FAIL { Err(failure()) } else { Ok(()) }
    }
}
fn limited(x: f32, clip: bool) -> f32 { if !clip { x } else if x > 1.0 { 1.0 } else if x < -1.0 { -1.0 } else { x } }
/// Stands in for the conversions to 8, 16 and 24 bits (C01, C02): other numbers for other samples.
pub fn enc8(x: f32) -> u8 { (x.to_bits() >> 24) as u8 ^ (x.to_bits() >> 11) as u8 }
pub fn enc16(x: f32) -> i16 { (x.to_bits() >> 16) as i16 ^ (x.to_bits() as i16) }
pub fn enc24(x: f32) -> i32 { x.to_bits() as i32 }
/// Any tracks of these lengths.
fn writes(d: Dom, a: usize, b: usize, two: bool, bps: u16) {
    let x: [f32; 4] = if d == Dom::All { kani::any() } else { let k: [i8; 4] = kani::any(); [k[0] as f32 / 64.0, k[1] as f32 / 64.0, k[2] as f32 / 64.0, k[3] as f32 / 64.0] };
    kani::assume(x[0] == x[0] && x[1] == x[1] && x[2] == x[2] && x[3] == x[3]);
    let mut t: Vec<SampleTrackT> = Vec::new();
    let mut u = SampleTrackT::new();
    let mut i = 0;
    while i < a { u.push(x[i]); i += 1; }
    t.push(u);
    if two {
        let mut u = SampleTrackT::new();
        i = 0;
        while i < b { u.push(x[2 + i]); i += 1; }
        t.push(u);
    }
    let clip: bool = kani::any();
    unsafe { FAIL = kani::any(); CALLS = 0; }
    let r = write_wav(t, bps, &mut std::io::sink(), clip);
    let ok = !two || a == b;
    kani::cover!(clip, "reached");
    if !ok {
        assert!(r.is_err() && unsafe { CALLS } == 0, "write: accepts channels of different lengths"); return; }
    assert!(unsafe { CALLS } == 1, "write: not written once");
    assert!(r.is_err() == unsafe { FAIL }, "write: success and failure mixed up");
    let n = if two { 2 } else { 1 };
    let (h, d) = unsafe { WROTE.take().unwrap() };
    assert!(h.audio_format == 1 && h.channel_count == n as u16 && h.sampling_rate == 48000 && h.bits_per_sample == bps, "write: wrong header");
    assert!(h.bytes_per_sample == bps / 8 * n as u16 && h.bytes_per_second == (bps / 8) as u32 * n as u32 * 48000, "write: wrong header");
    match d {
        wav::BitDepth::Eight(v) => { assert!(bps == 8 && v.len() == n * a, "write: wrong amount of data"); i = 0; while i < n * a { assert!(v[i] == sample_to_u8(limited(x[i % n * 2 + i / n], clip)), "write: wrong sample"); i += 1; } }
        wav::BitDepth::Sixteen(v) => { assert!(bps == 16 && v.len() == n * a, "write: wrong amount of data"); i = 0; while i < n * a { assert!(v[i] == sample_to_i16(limited(x[i % n * 2 + i / n], clip)), "write: wrong sample"); i += 1; } }
        wav::BitDepth::TwentyFour(v) => { assert!(bps == 24 && v.len() == n * a, "write: wrong amount of data"); i = 0; while i < n * a { assert!(v[i] == sample_to_i24(limited(x[i % n * 2 + i / n], clip)), "write: wrong sample"); i += 1; } }
        wav::BitDepth::Empty => assert!(false, "write: nothing written"),
    }
}
//# C19 weak write_8_mono write_8_stereo fallback write_8_mono write_8_stereo bounded='two channels of two samples'
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn wav_write_8_even() { writes(Dom::All, 2, 2, true, 8) }
//# weak wav_write_8_even
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
pub fn w_wav_write_8_even() { writes(Dom::Int, 2, 2, true, 8) }
//# C19 weak write_8_mono write_8_stereo fallback write_8_mono write_8_stereo bounded='one channel of two samples'
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn wav_write_8_mono() { writes(Dom::All, 2, 0, false, 8) }
//# weak wav_write_8_mono
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
pub fn w_wav_write_8_mono() { writes(Dom::Int, 2, 0, false, 8) }
//# C19 weak write_16_mono write_16_stereo fallback write_16_mono write_16_stereo bounded='two channels of two samples'
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn wav_write_16_even() { writes(Dom::All, 2, 2, true, 16) }
//# weak wav_write_16_even
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
pub fn w_wav_write_16_even() { writes(Dom::Int, 2, 2, true, 16) }
//# C19 weak write_16_mono write_16_stereo fallback write_16_mono write_16_stereo bounded='one channel of two samples'
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn wav_write_16_mono() { writes(Dom::All, 2, 0, false, 16) }
//# weak wav_write_16_mono
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
pub fn w_wav_write_16_mono() { writes(Dom::Int, 2, 0, false, 16) }
//# C19 weak write_16_mono write_16_stereo fallback write_16_mono write_16_stereo bounded='channels of one and two samples'
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn wav_write_16_odd() { writes(Dom::All, 1, 2, true, 16) }
//# weak wav_write_16_odd
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
pub fn w_wav_write_16_odd() { writes(Dom::Int, 1, 2, true, 16) }
//# C19 weak write_24_mono write_24_stereo fallback write_24_mono write_24_stereo bounded='two channels of two samples'
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn wav_write_24_even() { writes(Dom::All, 2, 2, true, 24) }
//# weak wav_write_24_even
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
pub fn w_wav_write_24_even() { writes(Dom::Int, 2, 2, true, 24) }
//# C19 weak write_24_mono write_24_stereo fallback write_24_mono write_24_stereo bounded='one channel of two samples'
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn wav_write_24_mono() { writes(Dom::All, 2, 0, false, 24) }
//# weak wav_write_24_mono
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
pub fn w_wav_write_24_mono() { writes(Dom::Int, 2, 0, false, 24) }
//# C19 weak write_24_mono write_24_stereo fallback write_24_mono write_24_stereo bounded='channels of one and two samples'
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn wav_write_24_odd() { writes(Dom::All, 2, 1, true, 24) }
//# weak wav_write_24_odd
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
pub fn w_wav_write_24_odd() { writes(Dom::Int, 2, 1, true, 24) }
//# C19 bounded='two channels of one sample'
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(wav::write_wav, note)]
pub fn wav_write_else() {
    let bps: u16 = kani::any();
    kani::assume(bps != 8 && bps != 16 && bps != 24);
    unsafe { CALLS = 0; FAIL = false; }
    let mut t: Vec<SampleTrackT> = Vec::new();
    let clip: bool = kani::any();
    if kani::any() { assert!(write_wav(t, if kani::any() { bps } else { 16 }, &mut std::io::sink(), clip).is_err() && unsafe { CALLS } == 0, "write: accepts nothing"); return; }
    t.push(vec![kani::any()]);
    t.push(vec![kani::any()]);
    assert!(write_wav(t, bps, &mut std::io::sink(), clip).is_err() && unsafe { CALLS } == 0, "write: accepts another width");
    kani::cover!(true, "reached");
}

static mut GIVE: (bool, u16, u16, usize) = (false, 0, 0, 0);
static mut X: [i32; 6] = [0; 6];
fn head() -> wav::Header { unsafe { wav::Header::new(1, GIVE.1, 44100, GIVE.2) } }
/// The wav crate's reader: as asked for.
pub fn give(_: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, wav::BitDepth)> {
    let (fail, ch, bps, n) = unsafe { GIVE };
    let x = unsafe { X };
    if fail { return Err(failure()); }
    let mut i = 0;
    let d = match bps {
        8 => { let mut v = Vec::with_capacity(6); while i < n { v.push(x[i] as u8); i += 1; } wav::BitDepth::Eight(v) }
        16 => { let mut v = Vec::with_capacity(6); while i < n { v.push(x[i] as i16); i += 1; } wav::BitDepth::Sixteen(v) }
        24 => { let mut v = Vec::with_capacity(6); while i < n { v.push(x[i]); i += 1; } wav::BitDepth::TwentyFour(v) }
        _ => wav::BitDepth::Empty,
    };
    Ok((head(), d))
}
pub fn dec8(x: u8) -> f32 { x as f32 + 1024.0 }
pub fn dec16(x: i16) -> f32 { x as f32 + 0.5 }
pub fn dec24(x: i32) -> f32 { f32::from_bits(x as u32 & 0x3fff_ffff) }
fn reads(ch: u16, n: usize, bps: u16, some: bool) {
    let x: [i32; 6] = kani::any();
    unsafe { GIVE = (!some, ch, bps, n); X = x; }
    let h = head();
    let mut i = 0;
    match read_wav(&mut std::io::empty()) {
        Err(_) => assert!(!some || ch == 0, "read: refuses valid data"),
        Ok((g, t)) => {
            assert!(some && ch > 0, "read: accepts what cannot be read");
            assert!(g == h && t.len() == ch as usize, "read: not a track for each channel");
            i = 0;
            while i < ch as usize { assert!(t[i].len() == (if bps == 0 { 0 } else { (n + ch as usize - 1 - i) / ch as usize }), "read: wrong number of samples"); i += 1; }
            i = 0;
            while i < n && bps != 0 {
                let y = t[i % ch as usize][i / ch as usize];
                assert!(y == match bps { 8 => sample_from_u8(x[i] as u8), 16 => sample_from_i16(x[i] as i16), _ => sample_from_i24(x[i]) }, "read: wrong sample");
                i += 1;
            }
        }
    }
    kani::cover!(true, "reached");
}
//# weak read_8_1 fallback read_8_1 bounded='1 channels, 3 samples'
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn wav_read_8_1() { reads(1, 3, 8, true) }
//# weak read_8_2 fallback read_8_2 bounded='2 channels, 3 samples'
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn wav_read_8_2() { reads(2, 3, 8, true) }
//# weak read_16_2 fallback read_16_2 bounded='2 channels, 3 samples'
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn wav_read_16_2() { reads(2, 3, 16, true) }
//# weak read_16_1 fallback read_16_1 bounded='1 channels, 3 samples'
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn wav_read_16_1() { reads(1, 3, 16, true) }
//# weak read_24_1 fallback read_24_1 bounded='1 channels, 3 samples'
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn wav_read_24_1() { reads(1, 3, 24, true) }
//# weak read_24_2 fallback read_24_2 bounded='2 channels, 3 samples'
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn wav_read_24_2() { reads(2, 3, 24, true) }
//# C20 bounded='0 channels, 2 samples'
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn wav_read_16_0() { reads(0, 2, 16, true) }
//# C20 bounded='2 channels, 0 samples'
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn wav_read_0_2_none() { reads(2, 0, 0, true) }
//# C20 bounded='2 channels, 0 samples'
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn wav_read_16_2_none() { reads(2, 0, 16, true) }
//# C20 bounded='failure of the wav crate'
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(wav::read_wav, give)]
pub fn wav_read_fails() { reads(2, 2, 16, false) }

/// Wav data by its bytes: header and samples of n channels.
fn data(ch: usize, bps: u16, v: &[i32]) -> Vec<u8> { data_at(48000, ch, bps, v) }
fn data_at(rate: usize, ch: usize, bps: u16, v: &[i32]) -> Vec<u8> {
    let w = bps as usize / 8;
    let mut b = Vec::new();
    let le = |b: &mut Vec<u8>, x: usize, n: usize| b.extend_from_slice(&(x as u64).to_le_bytes()[..n]);
    b.extend_from_slice(b"RIFF");
    le(&mut b, 0, 4);
    b.extend_from_slice(b"WAVEfmt ");
    for (x, n) in [(16, 4), (1, 2), (ch, 2), (rate, 4), (rate * ch * w, 4), (ch * w, 2), (bps as usize, 2)].iter() { le(&mut b, *x, *n); }
    b.extend_from_slice(b"data");
    le(&mut b, v.len() * w, 4);
    for x in v { le(&mut b, *x as i64 as u64 as usize, w); }
    // chunks are of even length
    if b.len() % 2 == 1 { b.push(0); }
    let n = b.len() - 8;
    b[4..8].copy_from_slice(&(n as u32).to_le_bytes());
    b
}
fn level(bps: u16, x: f32) -> i32 { match bps { 8 => sample_to_u8(x) as i32, 16 => sample_to_i16(x) as i32, _ => sample_to_i24(x) } }
/// Samples of n tracks, each of its own, some beyond [-1,1].
fn tracks(n: usize, len: usize, loud: f32) -> Vec<SampleTrackT> { (0..n).map(|c| (0..len).map(|i| ((i * 37 + c * 101 + c * i * 7) % 2003) as f32 / 1001.0 * loud - loud).collect()).collect() }
//# C19 native weak write_8_mono write_8_stereo write_16_mono write_16_stereo write_24_mono write_24_stereo fallback write_8_mono write_8_stereo write_16_mono write_16_stereo write_24_mono write_24_stereo bounded='to 300 tracks, to 70000 frames, through the real wav crate'
pub fn wav_writes_many() {
    for n in (0..21).chain([33, 70, 300].iter().cloned()) { for len in [0, 1, 2, 3, 17, 300, 70_000].iter() { for bps in [8u16, 16, 24, 0, 4, 12, 32, 64].iter() { for (clip, loud) in [(false, 1.0), (true, 2.5), (false, 1.5), (true, 0.9), (true, 0.8), (true, 0.7)].iter() {
        if n * len > 150_000 { continue; }
        let mut t = tracks(n, *len, *loud);
        if *loud >= 1.0 && n > 0 && *len > 1 && n % 2 == 1 { t[n - 1][0] = std::f32::INFINITY; t[0][*len - 1] = std::f32::NEG_INFINITY; }
        if *loud >= 1.0 && n > 1 && *len > 16 { for (i, x) in [0.0, -0.0, 1.0, -1.0, 1.0e-30, 0.999, -0.999, 1.0001, 3.0e38, -1.0e9].iter().enumerate() { t[1][i + 3] = *x; } }
        // only one sample beyond [-1,1], somewhere
        if *loud < 1.0 && n > 0 && *len > 0 { let (c, i) = if *loud == 0.9 { (n - 1, *len - 1) } else if *loud == 0.8 { (n / 2, *len * 2 / 3) } else { (0, 0) }; t[c][i] = if (n + len) % 2 == 0 { -1.5 } else { 1.0e4 }; }
        let mut b = Vec::new();
        let r = write_wav(t.clone(), *bps, &mut b, *clip);
        let good = n > 0 && [8, 16, 24].contains(bps);
        assert!(r.is_ok() == good, "write: {} tracks of {} bits refused or accepted", n, bps);
        if !good { assert!(b.is_empty(), "write: writes though it refuses"); continue; }
        let mut v = vec![];
        for i in 0..*len { for c in 0..n { v.push(level(*bps, if *clip { t[c][i].min(1.0).max(-1.0) } else { t[c][i] })); } }
        let e = data(n, *bps, &v);
        assert!(b.len() == e.len() && b[..4] == e[..4] && b[8..] == e[8..], "write: other data for {} tracks of {} samples of {} bits", n, len, bps);
        for c in 0..n {
            if n > 100 && ![0, 1, 128, 256, n - 1].contains(&c) || *len > 1000 && c > 1 { continue; }
            let mut u = t.clone();
            if c % 2 == 0 { u[c].push(0.5); } else if *len > 0 { u[c].pop(); } else { continue; }
            let mut b = Vec::new();
            let r = write_wav(u, *bps, &mut b, *clip);
            assert!(n == 1 || r.is_err() && b.is_empty(), "write: accepts tracks of different lengths");
        }
    } } } }
}
//# C20 native weak read_8_1 read_8_2 read_8_3 read_16_1 read_16_2 read_16_3 read_24_1 read_24_2 read_24_3 fallback read_8_1 read_8_2 read_8_3 read_16_1 read_16_2 read_16_3 read_24_1 read_24_2 read_24_3 bounded='to 300 channels, to 70000 frames, complete or not, through the real wav crate'
pub fn wav_reads_many() {
    for n in (1..21).chain([33, 70, 300].iter().cloned()) { for len in [0, 1, 2, 3, 17, 300, 70_000].iter() { for bps in [8u16, 16, 24].iter() { for more in [0, 1, n / 2, n - 1].iter() {
        if n * len > 150_000 || *more >= n || *more > 0 && (*bps != 8 || *len > 20 && n > 3) { continue; }
        let v: Vec<i32> = tracks(n, *len + 1, 1.0).iter().flatten().take(n * *len + *more).map(|x| level(*bps, *x)).collect();
        let b = data(n, *bps, &v);
        let (h, t) = read_wav(&mut &b[..]).expect("read: refuses valid data");
        assert!(h.channel_count as usize == n && h.bits_per_sample == *bps && t.len() == n, "read: another header or number of tracks");
        for c in 0..n {
            let len = *len + if c < *more { 1 } else { 0 };
            assert!(t[c].len() == len, "read: track {} of {} has {} samples instead of {}", c, n, t[c].len(), len);
            for i in 0..len {
                let x = v[i * n + c];
                assert!(t[c][i] == match bps { 8 => sample_from_u8(x as u8), 16 => sample_from_i16(x as i16), _ => sample_from_i24(x) }, "read: other sample of track {} of {} at {}", c, n, i);
            }
        }
    } } } }
}
//# C27 native weak wav_source wav_process fallback wav_source wav_process bounded='to twenty channels, to 70000 frames, several rates and speeds'
pub fn wav_sources_play() {
    use crate::generators::Generator;
    let mut k = 0;
    for n in &[1usize, 2, 3, 8, 20] { for len in &[1usize, 2, 3, 17, 300, 70_000] { for bps in &[8u16, 16, 24] { for rate in &[48000usize, 44100, 8000, 96000, 24000, 192000, 11025, 6000, 12000] {
        if n * len > 150_000 { continue; }
        k += 1;
        let mut v: Vec<i32> = tracks(*n, *len, 1.0).iter().flatten().map(|x| level(*bps, *x)).collect();
        // silence, the same again, the ends of the range
        for i in 0..v.len() { match (k + i / n) % 7 { 0 if k % 3 == 0 => v[i] = level(*bps, 0.0), 1 if i >= *n && k % 2 == 0 => v[i] = v[i - n], 2 => v[i] = level(*bps, 1.0), 3 if k % 3 == 1 => v[i] = level(*bps, -1.0), 4 | 5 if k % 5 == 0 => v[i] = level(*bps, 0.0), _ => {} } }
        let b = data_at(*rate, *n, *bps, &v);
        let mut r = crate::debug::VecReader::new(b.clone());
        let mut w = generators::MonoWav::from_source(if k % 2 == 0 { &mut r } else { Box::leak(Box::new(std::io::Cursor::new(b))) });
        let x: Vec<f32> = (0..*len).map(|i| { let x = v[i * n]; match *bps { 8 => sample_from_u8(x as u8), 16 => sample_from_i16(x as i16), _ => sample_from_i24(x) } }).collect();
        assert!(w.get().get_playback_speed() == 1.0, "wav: not at its own speed");
        let speed = [1.0, 0.5, 2.0, 0.25][k % 4];
        if k % 4 > 0 { w.get_mut().set_playback_speed(speed); assert!(w.get().get_playback_speed() == speed, "wav: not the speed set"); }
        let mut p = 0.0f64;
        // exact where the positions are
        let exact = [6000, 12000, 24000, 48000, 96000, 192_000].contains(rate);
        let mut m = MonoTrackT::new();
        for q in x.iter() { m.push(sample_format::Mono::from_sample(*q)); }
        let mut r = utils::mono_resampler::MonoResampler::new(m, *rate as f64, 0, 0);
        if k % 4 > 0 { r.set_playback_speed(speed); }
        for i in 0..(*len as f64 * 48000.0 / *rate as f64 / speed) as usize + 20 {
            let y = w.process();
            let q = p as usize;
            let e = if q >= *len { 0.0 } else { let (a, b) = (x[q], x[(q + 1).min(*len - 1)]); a + p.fract() as f32 * (b - a) };
            assert!(!exact || (y - e).abs() < 1e-6, "wav of {} channels of {} samples of {} bits at {} Hz: {} instead of {} at {}", n, len, bps, rate, y, e, i);
            assert!((y - r.process()).abs() < 1e-6, "wav of {} channels of {} samples of {} bits at {} Hz: not as its samples resampled, at {}", n, len, bps, rate, i);
            p += *rate as f64 / 48000.0 * speed;
        }
    } } } }
}
//# C30 native weak reader_reads fallback reader_reads reader_no_room equal_numbers equal_doubles bounded='to 100000 bytes, in pieces of all sizes'
pub fn reader_plays() {
    use std::io::Read;
    let mut r = 0x9e37_79b9_7f4a_7c15u64;
    let mut rand = move |n: usize| { r ^= r << 13; r ^= r >> 7; r ^= r << 17; (r >> 20) as usize % n };
    for k in 0..2000usize {
        let n = match k % 9 { 0 => rand(3), 1 => 100_000, 2 => 4096, 3 => 65536, _ => rand(500) };
        if n > 1000 && k > 400 { continue; }
        let v: Vec<u8> = (0..n).map(|_| rand(256) as u8).collect();
        let mut s = crate::debug::VecReader::new(v.clone());
        let mut at = 0;
        let mut end = 0;
        while end < 3 {
            let m = match rand(8) { 0 => 0, 1 => 1, 2 => rand(n + 10), 3 => 8192, 4 => n - at, _ => rand(40) };
            let was: Vec<u8> = (0..m).map(|_| rand(256) as u8).collect();
            let mut b = was.clone();
            let got = s.read(&mut b).expect("reader: fails");
            assert!(got == m.min(n - at), "reader: {} bytes instead of {}, at {} of {}", got, m.min(n - at), at, n);
            assert!(b[..got] == v[at..at + got] && b[got..] == was[got..], "reader: other bytes, at {} of {}", at, n);
            at += got;
            if at == n { end += 1; }
        }
        let mut s = crate::debug::VecReader::new(v.clone());
        let mut b = vec![];
        assert!(s.read_to_end(&mut b).expect("reader: fails") == n && b == v, "reader: not all of {} bytes", n);
    }
    for a in &[0.0, 1.0, -1.0, 1e-8, -1e30, 0.1, 1.0 + 1e-7, f64::INFINITY, f64::NAN] { for b in &[0.0, 1.0, -1.0, 0.3, 1e30, -1e-8, f64::NEG_INFINITY] { for e in &[0.0, -1.0, 1e-9, 0.5, 1.0, 2.0, f64::INFINITY, f64::NAN] {
        assert!(crate::debug::float_equal(*a, *b, *e, f64::abs) == ((a - b).abs() < *e), "equality of {} and {} up to {}", a, b, e);
        assert!(crate::debug::float_equal(*a as f32, *b as f32, *e as f32, f32::abs) == ((*a as f32 - *b as f32).abs() < *e as f32), "equality of {} and {} up to {}", a, b, e);
    } } }
}
