//@ subst cut `while (n < buf\.len\(\).*?) \{` `while vk::step(&raw mut n) && (\1) {`
use crate::vkp::*;
use std::io::Read;

// ---- VecReader: any bytes, any position, any room; byte AT of the room is watched ------
static mut READER: *mut VecReader = std::ptr::null_mut();
static mut ROOM: (*mut u8, usize) = (std::ptr::null_mut(), 0);
static mut AT: usize = 0;
static mut WAS: u8 = 0;
static mut FROM: usize = 0;
static mut STEPS: (u8, usize) = (0, 0);
/// The first n bytes of the room are those from the position on, the others as they were.
fn copied(n: usize) -> bool {
    unsafe {
        let r = &*READER;
        n <= ROOM.1 && FROM + n <= r.vec.len() && r.pos == FROM + n
            && *ROOM.0.add(AT) == if AT < n { r.vec[FROM + AT] } else { WAS }
    }
}
/// The rule for the loop over the bytes.
pub fn step(n: *mut usize) -> bool {
    unsafe {
        STEPS.0 += 1;
        if STEPS.0 == 2 { assert!(*n == STEPS.1 + 1 && copied(*n), "reader: not the next byte"); kani::assume(false); }
        assert!(*n == 0 && copied(0), "reader: begins elsewhere");
        *n = kani::any();
        let p: usize = kani::any();
        (*READER).pos = p;
        *ROOM.0.add(AT) = kani::any();
        kani::assume(copied(*n));
        STEPS.1 = *n;
        true
    }
}
//# C30 variant=cut
#[kani::proof]
#[kani::unwind(3)]
pub fn reader_reads() {
    let (n, m): (usize, usize) = kani::any();
    kani::assume(n <= 1 << 24 && m > 0 && m <= 1 << 24);
    let mut v: Vec<u8> = Vec::with_capacity(n);
    let mut b: Vec<u8> = Vec::with_capacity(m);
    unsafe { v.set_len(n); b.set_len(m); }
    let mut r = VecReader::new(v);
    assert!(r.pos == 0 && r.vec.len() == n, "reader: does not begin at its first byte");
    let p: usize = kani::any();
    kani::assume(p <= n);
    r.pos = p;
    unsafe {
        AT = kani::any();
        kani::assume(AT < m);
        READER = &mut r;
        ROOM = (b.as_mut_ptr(), m);
        WAS = b[AT];
        FROM = p;
        let x = std::slice::from_raw_parts_mut(ROOM.0, m);
        let got = (*READER).read(x);
        let e = if n - p < m { n - p } else { m };
        assert!(matches!(got, Ok(k) if k == e), "reader: not as many bytes as there are, or there is room for");
        assert!(copied(e), "reader: other bytes");
        kani::cover!(AT > 1000 && AT < e && p > 1000, "reached");
        std::mem::forget(got);
    }
    std::mem::forget(r);
    std::mem::forget(b);
}
//# C30
#[kani::proof]
pub fn reader_no_room() {
    let n: usize = kani::any();
    kani::assume(n <= 1 << 24);
    let mut v: Vec<u8> = Vec::with_capacity(n);
    unsafe { v.set_len(n); }
    let mut r = VecReader { vec: v, pos: kani::any() };
    kani::assume(r.pos <= n);
    let p = r.pos;
    assert!(matches!(r.read(&mut []), Ok(0)) && r.pos == p, "reader: moves though there is no room");
    kani::cover!(n > 1000, "reached");
    std::mem::forget(r);
}
//# C30
#[kani::proof]
#[kani::solver(cvc5)]
pub fn equal_numbers() {
    let (a, b, e): (f32, f32, f32) = kani::any();
    let d = a - b;
    let m = if d < 0.0 { -d } else { d };
    assert!(float_equal(a, b, e, |x| if x < 0.0 { -x } else { x }) == (m < e), "equality: not whether they differ by less than that");
    kani::cover!(m < e, "reached");
}
//# C30
#[kani::proof]
#[kani::solver(cvc5)]
pub fn equal_doubles() {
    let (a, b, e): (f64, f64, f64) = kani::any();
    let d = a - b;
    let m = if d < 0.0 { -d } else { d };
    assert!(float_equal(a, b, e, |x| if x < 0.0 { -x } else { x }) == (m < e), "equality: not whether they differ by less than that");
    kani::cover!(m < e, "reached");
}
