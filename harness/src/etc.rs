//! C08-C10: ETC and EAC block decoders against the reference model.
use crate::refs::etc::*;
use crate::vp::*;
use texture2ddecoder as t;

#[no_mangle]
pub extern "C" fn h_etc1() {
    let mut d = [0u8; 8];
    sym(&mut d);
    // differential blocks whose second colour leaves 0..31 are not ETC1
    assume(etc_mode(&d, Etc::Etc1) < 2);
    let mut o = [0u32; 16];
    sym32(&mut o);
    t::decode_etc1_block(&d, &mut o);
    let mut r = [0u32; 16];
    let mut m = [0u32; 16];
    ref_etc(&d, Etc::Etc1, &mut r, &mut m);
    check_eq(&o, &r, 1);
    cover(d[3] & 2 != 0 && o[15] & 0xff00ff00 == 0xff002000, 2);
    cover(d[3] & 2 == 0 && o[0] != o[15], 3);
}
fn etc2(kind: Etc, f: fn(&[u8], &mut [u32])) {
    let mut d = [0u8; 8];
    sym(&mut d);
    let mut o = [0u32; 16];
    sym32(&mut o);
    f(&d, &mut o);
    let mut r = [0u32; 16];
    let mut m = [0u32; 16];
    ref_etc(&d, kind, &mut r, &mut m);
    for i in 0..16 {
        o[i] &= m[i];
        r[i] &= m[i];
    }
    check_eq(&o, &r, 1);
    let mode = etc_mode(&d, kind);
    for k in 0..5 {
        if !(kind == Etc::Rgba1 && k == 0) {
            cover(mode == k && o[3] != o[12], 2 + k);
        }
    }
    if kind == Etc::Rgba1 {
        cover(o[5] == 0, 10);
    }
}
#[no_mangle]
pub extern "C" fn h_etc2_rgb() {
    etc2(Etc::Rgb, t::decode_etc2_rgb_block)
}
#[no_mangle]
pub extern "C" fn h_etc2_rgba1() {
    etc2(Etc::Rgba1, t::decode_etc2_rgba1_block)
}
#[no_mangle]
pub extern "C" fn h_etc2_rgba8() {
    let mut d = [0u8; 16];
    sym(&mut d);
    let mut o = [0u32; 16];
    sym32(&mut o);
    t::decode_etc2_rgba8_block(&d, &mut o);
    let mut r = [0u32; 16];
    let mut m = [0u32; 16];
    let mut a = [0u32; 16];
    ref_etc(&d[8..], Etc::Rgb, &mut r, &mut m);
    ref_eac_alpha(&d, &mut a);
    for i in 0..16 {
        r[i] = (r[i] & 0x00ff_ffff) | a[i] << 24;
    }
    check_eq(&o, &r, 1);
    cover(o[7] == 0x40ff0000, 2);
}
/// alpha half alone: only the alpha of the 16 texels changes
#[no_mangle]
pub extern "C" fn h_etc2_a8() {
    let mut d = [0u8; 8];
    sym(&mut d);
    let mut p = [0u32; 16];
    sym32(&mut p);
    let mut o = p;
    t::decode_etc2_a8_block(&d, &mut o);
    let mut a = [0u32; 16];
    ref_eac_alpha(&d, &mut a);
    for i in 0..16 {
        p[i] = (p[i] & 0x00ff_ffff) | a[i] << 24;
    }
    check_eq(&o, &p, 1);
    cover(o[7] == 0x40ff0000, 2);
}
#[no_mangle]
pub extern "C" fn h_eac() {
    let k = case(4);
    let signed = k & 1 == 1;
    let mut d = [0u8; 16];
    sym(&mut d);
    let mut o = [0u32; 16];
    sym32(&mut o);
    let f: fn(&[u8], &mut [u32]) = match k {
        0 => t::decode_eacr_block,
        1 => t::decode_eacr_signed_block,
        2 => t::decode_eacrg_block,
        _ => t::decode_eacrg_signed_block,
    };
    f(&d, &mut o);
    let mut a = [0u32; 16];
    let mut b = [0u32; 16];
    ref_eac_r11(&d, signed, &mut a);
    if k >= 2 {
        ref_eac_r11(&d[8..], signed, &mut b);
    }
    let mut r = [0u32; 16];
    for i in 0..16 {
        r[i] = 0xff00_0000 | a[i] << 16 | b[i] << 8;
    }
    check_eq(&o, &r, 1);
    cover(k >= 2 && o[2] == 0xff807f00, 2);
    cover(k < 2 && o[2] == 0xff810000, 3);
}
/// single-channel functions on a cleared channel, for every channel: other bits stay
#[no_mangle]
pub extern "C" fn h_eac_channel() {
    let k = case(8);
    let signed = k & 1 == 1;
    let ch = k / 2;
    let mut d = [0u8; 8];
    sym(&mut d);
    let mut p = [0u32; 16];
    sym32(&mut p);
    for i in 0..16 {
        p[i] &= !(0xff << (8 * ch));
    }
    let mut o = p;
    if signed {
        t::decode_eac_signed_block(&d, ch, &mut o)
    } else {
        t::decode_eac_block(&d, ch, &mut o)
    }
    let mut a = [0u32; 16];
    ref_eac_r11(&d, signed, &mut a);
    for i in 0..16 {
        p[i] |= a[i] << (8 * ch);
    }
    check_eq(&o, &p, 1);
    cover(o[2] == 0x11223344, 2);
}
/// decoded images of R11/RG11: other channels 0, alpha 255
#[no_mangle]
pub extern "C" fn h_eac_image() {
    let k = case(4);
    let signed = k & 1 == 1;
    let bs = if k >= 2 { 16 } else { 8 };
    let mut d = [0u8; 32];
    sym(&mut d);
    let mut o = [0u32; 32];
    sym32(&mut o);
    let f: fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str> = match k {
        0 => t::decode_eacr,
        1 => t::decode_eacr_signed,
        2 => t::decode_eacrg,
        _ => t::decode_eacrg_signed,
    };
    check(f(&d[..2 * bs], 8, 4, &mut o).is_ok(), 1);
    let mut r = [0u32; 32];
    for n in 0..2 {
        let mut a = [0u32; 16];
        let mut b = [0u32; 16];
        ref_eac_r11(&d[n * bs..], signed, &mut a);
        if k >= 2 {
            ref_eac_r11(&d[n * bs + 8..], signed, &mut b);
        }
        for i in 0..16 {
            r[(i / 4) * 8 + 4 * n + i % 4] = 0xff00_0000 | a[i] << 16 | b[i] << 8;
        }
    }
    check_eq(&o, &r, 2);
}
