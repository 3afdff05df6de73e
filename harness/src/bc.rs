//! C01-C07: BCn and ATC block decoders against the reference models.
use crate::refs::bc::*;
use crate::vp::*;
use texture2ddecoder as t;

type Dec = fn(&[u8], &mut [u32]);

/// run a real 8/16-byte block decoder on a dirty output buffer
#[inline(always)]
fn run(f: Dec, d: &[u8]) -> [u32; 16] {
    let mut o = [0u32; 16];
    sym32(&mut o);
    f(d, &mut o);
    o
}
#[no_mangle]
pub extern "C" fn h_bc1() {
    let mut d = [0u8; 8];
    sym(&mut d);
    let mut r = [0u32; 16];
    let o = run(t::decode_bc1_block, &d);
    ref_bc1(&d, Bc1::Opaque, &mut r);
    check_eq(&o, &r, 1);
    cover(o[3] == 0xff102031, 2);
    cover(o[3] == 0xff000000 && o[0] == 0xffffffff, 3);
}
#[no_mangle]
pub extern "C" fn h_bc1a() {
    let mut d = [0u8; 8];
    sym(&mut d);
    let mut r = [0u32; 16];
    let o = run(t::decode_bc1a_block, &d);
    ref_bc1(&d, Bc1::Punch, &mut r);
    check_eq(&o, &r, 1);
    cover(o[3] == 0 && o[0] == 0xffffffff, 2);
}
#[no_mangle]
pub extern "C" fn h_bc2() {
    let mut d = [0u8; 16];
    sym(&mut d);
    let mut r = [0u32; 16];
    let o = run(t::decode_bc2_block, &d);
    ref_bc2(&d, &mut r);
    check_eq(&o, &r, 1);
    cover(o[15] >> 24 == 0x77, 2);
}
#[no_mangle]
pub extern "C" fn h_bc3() {
    let mut d = [0u8; 16];
    sym(&mut d);
    let mut r = [0u32; 16];
    let o = run(t::decode_bc3_block, &d);
    ref_bc3(&d, &mut r);
    check_eq(&o, &r, 1);
    cover(o[15] >> 24 == 0x77, 2);
}
/// channel shift of red is 16, of green 8; other bits keep their previous contents
#[no_mangle]
pub extern "C" fn h_bc4() {
    let mut d = [0u8; 8];
    sym(&mut d);
    let mut prev = [0u32; 16];
    sym32(&mut prev);
    let mut o = prev;
    t::decode_bc4_block(&d, &mut o);
    let mut a = [0u32; 16];
    ref_ramp(&d, &mut a);
    let mut r = [0u32; 16];
    for i in 0..16 {
        r[i] = a[i] << 16;
        o[i] &= 0x00ff_0000;
    }
    check_eq(&o, &r, 1);
    cover(o[15] >> 16 == 0x77, 2);
}
#[no_mangle]
pub extern "C" fn h_bc5() {
    let mut d = [0u8; 16];
    sym(&mut d);
    let mut o = run(t::decode_bc5_block, &d);
    let mut a = [0u32; 16];
    let mut b = [0u32; 16];
    ref_ramp(&d, &mut a);
    ref_ramp(&d[8..], &mut b);
    let mut r = [0u32; 16];
    for i in 0..16 {
        r[i] = a[i] << 16 | b[i] << 8;
        o[i] &= 0x00ff_ff00;
    }
    check_eq(&o, &r, 1);
    cover(o[15] == 0x00776600, 2);
}
/// whole images of BC4/BC5: other channels are 0, alpha 255
#[no_mangle]
pub extern "C" fn h_bc45_image() {
    let mut d = [0u8; 32];
    sym(&mut d);
    let five = case(2) == 1;
    let mut o = [0u32; 32];
    sym32(&mut o);
    let ok = if five { t::decode_bc5(&d, 8, 4, &mut o) } else { t::decode_bc4(&d[..16], 8, 4, &mut o) };
    check(ok.is_ok(), 1);
    let mut r = [0u32; 32];
    for b in 0..2 {
        let s = if five { 16 } else { 8 };
        let mut x = [0u32; 16];
        ref_ramp(&d[b * s..], &mut x);
        let mut y = [0u32; 16];
        if five {
            ref_ramp(&d[b * s + 8..], &mut y);
        }
        for i in 0..16 {
            r[(i / 4) * 8 + b * 4 + i % 4] = 0xff00_0000 | x[i] << 16 | y[i] << 8;
        }
    }
    check_eq(&o, &r, 2);
    cover(o[31] == 0xff770000, 3);
}
fn bc6(signed: bool) {
    let k = case(18);
    let mut d = [0u8; 16];
    sym(&mut d);
    if k < 14 {
        let m = &BC6[k];
        d[0] = (d[0] & !((1u32 << m.nbits) - 1) as u8) | m.code;
    } else {
        d[0] = (d[0] & !31) | BC6_RESERVED[k - 14];
    }
    let o = run(if signed { t::decode_bc6_block_signed } else { t::decode_bc6_block_unsigned }, &d);
    let mut r = [0u32; 16];
    ref_bc6(&d, k, signed, &mut r);
    check_eq(&o, &r, 1);
    cover(k < 14 && o[15] == 0xff112233, 2);
    cover(k >= 14, 3);
}
#[no_mangle]
pub extern "C" fn h_bc6u() {
    bc6(false)
}
#[no_mangle]
pub extern "C" fn h_bc6s() {
    bc6(true)
}
#[no_mangle]
pub extern "C" fn h_bc7() {
    let m = case(9);
    let mut d = [0u8; 16];
    sym(&mut d);
    if m < 8 {
        d[0] = (((d[0] as u16) << (m + 1)) | (1 << m)) as u8;
    } else {
        d[0] = 0;
    }
    let o = run(t::decode_bc7_block, &d);
    let mut r = [0u32; 16];
    ref_bc7(&d, m, &mut r);
    check_eq(&o, &r, 1);
    cover(o[15] == 0x41112233, 2);
    cover(m == 8, 3);
}
#[no_mangle]
pub extern "C" fn h_atc_rgb() {
    let mut d = [0u8; 8];
    sym(&mut d);
    let o = run(t::decode_atc_rgb4_block, &d);
    let mut r = [0u32; 16];
    ref_atc_rgb(&d, &mut r);
    check_eq(&o, &r, 1);
    cover(o[3] == 0xff102030, 2);
}
#[no_mangle]
pub extern "C" fn h_atc_rgba() {
    let mut d = [0u8; 16];
    sym(&mut d);
    let o = run(t::decode_atc_rgba8_block, &d);
    let mut r = [0u32; 16];
    ref_atc_rgba(&d, &mut r);
    check_eq(&o, &r, 1);
    cover(o[3] >> 24 == 0x77, 2);
}
