//@ fn sample_to_u8
//@   ensures(|r| vk::near_u8(s, *r))
//@ fn sample_to_i16
//@   ensures(|r| vk::near_i16(s, *r))
//@ fn sample_to_i24
//@   ensures(|r| vk::near_i24(s, *r))
//@ fn sample_from_u8
//@   ensures(|r| vk::value_u8(v, *r))
//@ fn sample_from_i16
//@   ensures(|r| vk::value_i16(v, *r))
//@ fn sample_from_i24
//@   ensures(|r| vk::value_i24((v << 8) >> 8, *r))
use crate::vkp::*;

// What a level stands for: value_*: the code v means the sample r (within half
// a unit in the last place of a sample near full scale).
pub fn value_u8(v: u8, r: f32) -> bool { r as f64 * 128.0 == v as f64 - 128.0 }
pub fn value_i16(v: i16, r: f32) -> bool {
    let e = r as f64 * 32767.0 - v as f64;
    r >= -1.01 && r <= 1.0 && e <= 0.002 && e >= -0.002
}
pub fn value_i24(v: i32, r: f32) -> bool {
    let e = r as f64 * 8388607.0 - v as f64;
    r >= -1.01 && r <= 1.0 && e <= 0.51 && e >= -0.51
}

// The code r is the level closest to the sample s, saturating out of range.
pub fn near_u8(s: f32, r: u8) -> bool {
    let e = r as f64 - (s as f64 * 128.0 + 128.0);
    s.is_nan() || if s >= 1.0 { r == 255 } else if s <= -1.0 { r == 0 }
    else if s as f64 * 128.0 + 128.0 >= 255.0 { r == 255 }
    else { e <= 0.5 + 1.0/65536.0 && e >= -0.5 - 1.0/65536.0 }
}
pub fn near_i16(s: f32, r: i16) -> bool {
    let e = r as f64 - (s as f64 * 32767.0).max(-32768.0).min(32767.0);
    s.is_nan() || e <= 0.5 + 1.0/512.0 && e >= -0.5 - 1.0/512.0
}
pub fn near_i24(s: f32, r: i32) -> bool {
    let e = r as f64 - (s as f64 * 8388607.0).max(-8388608.0).min(8388607.0);
    s.is_nan() || r >= -8388608 && r <= 8388607 && e <= 0.76 && e >= -0.76
}

// ---- C01: what is decoded encodes to the same level -------------------------

//# C01
#[kani::proof]
pub fn rt_u8() {
    let v: u8 = kani::any();
    assert!(sample_to_u8(sample_from_u8(v)) == v, "u8 level changed by decode+encode");
    assert!(sample_from_u8_bytes([v]) == sample_from_u8(v), "u8 byte form differs from the value form");
    assert!(sample_to_u8_bytes(sample_from_u8_bytes([v])) == [v], "u8 byte changed by decode+encode");
    kani::cover!(true, "reached");
}
//# C01
#[kani::proof]
#[kani::solver(kissat)]
pub fn rt_i16() {
    let v: i16 = kani::any();
    assert!(sample_to_i16(sample_from_i16(v)) == v, "i16 level changed by decode+encode");
    kani::cover!(true, "reached");
}
//# C01
#[kani::proof]
pub fn rt_i16_bytes() {
    let v: i16 = kani::any();
    let b = [v as u8, (v >> 8) as u8];
    let s = sample_from_i16_bytes(b);
    assert!(s == sample_from_i16(v), "i16 byte form differs from the value form");
    kani::cover!(true, "reached");
}
//# C01
#[kani::proof]
#[kani::solver(kissat)]
pub fn enc_i16_bytes() {
    let s: f32 = kani::any();
    let v = sample_to_i16(s);
    assert!(sample_to_i16_bytes(s) == [v as u8, (v >> 8) as u8], "i16 byte form is not the little-endian value form");
    kani::cover!(true, "reached");
}
//# C01
#[kani::proof]
#[kani::solver(kissat)]
pub fn rt_i24() {
    let v: i32 = kani::any();
    kani::assume(v >= -8388608 && v <= 8388607);
    assert!(sample_to_i24(sample_from_i24(v)) == v, "24-bit level changed by decode+encode");
    kani::cover!(true, "reached");
}
//# C01
#[kani::proof]
pub fn dec_i24_upper() {
    let v: i32 = kani::any();
    let w = (v << 8) >> 8;
    assert!(sample_from_i24(v) == sample_from_i24(w), "the upper byte of a 24-bit level is not ignored");
    let b = [v as u8, (v >> 8) as u8, (v >> 16) as u8];
    assert!(sample_from_i24_bytes(b) == sample_from_i24(w), "24-bit byte form differs from the value form");
    kani::cover!(true, "reached");
}
//# C01
#[kani::proof]
#[kani::solver(kissat)]
pub fn enc_i24_bytes() {
    let s: f32 = kani::any();
    let v = sample_to_i24(s);
    assert!(sample_to_i24_bytes(s) == [v as u8, (v >> 8) as u8, (v >> 16) as u8], "24-bit byte form is not the little-endian value form");
    kani::cover!(true, "reached");
}

// ---- C02: nearest level, saturating, monotone -------------------------------

//# C02
#[kani::proof_for_contract(sample_from_u8)]
pub fn c_from_u8() { sample_from_u8(kani::any()); kani::cover!(true, "reached"); }
//# C02
#[kani::proof_for_contract(sample_from_i16)]
pub fn c_from_i16() { sample_from_i16(kani::any()); kani::cover!(true, "reached"); }
//# C02
#[kani::proof_for_contract(sample_from_i24)]
#[kani::solver(kissat)]
pub fn c_from_i24() { sample_from_i24(kani::any()); kani::cover!(true, "reached"); }
//# C02
#[kani::proof_for_contract(sample_to_u8)]
pub fn c_to_u8() { sample_to_u8(kani::any()); kani::cover!(true, "reached"); }
//# C02
#[kani::proof_for_contract(sample_to_i16)]
#[kani::solver(kissat)]
pub fn c_to_i16() { sample_to_i16(kani::any()); kani::cover!(true, "reached"); }
//# C02
#[kani::proof_for_contract(sample_to_i24)]
#[kani::solver(kissat)]
pub fn c_to_i24() { sample_to_i24(kani::any()); kani::cover!(true, "reached"); }

//# twin c_from_u8
#[kani::proof]
pub fn t_from_u8() { let v = kani::any(); assert!(value_u8(v, sample_from_u8(v)), "sample_from_u8: wrong sample for the level"); }
//# twin c_from_i16
#[kani::proof]
pub fn t_from_i16() { let v = kani::any(); assert!(value_i16(v, sample_from_i16(v)), "sample_from_i16: wrong sample for the level"); }
//# twin c_from_i24
#[kani::proof]
pub fn t_from_i24() { let v: i32 = kani::any(); assert!(value_i24((v << 8) >> 8, sample_from_i24(v)), "sample_from_i24: wrong sample for the level"); }
//# twin c_to_u8
#[kani::proof]
pub fn t_to_u8() { let s = kani::any(); assert!(near_u8(s, sample_to_u8(s)), "sample_to_u8: not the nearest level"); }
//# twin c_to_i16
#[kani::proof]
pub fn t_to_i16() { let s = kani::any(); assert!(near_i16(s, sample_to_i16(s)), "sample_to_i16: not the nearest level"); }
//# twin c_to_i24
#[kani::proof]
pub fn t_to_i24() { let s = kani::any(); assert!(near_i24(s, sample_to_i24(s)), "sample_to_i24: not the nearest level"); }
