//! C11, C12, C25: PVRTC images against the reference model.
use crate::refs::pvrtc::*;
use crate::vp::*;
use texture2ddecoder as t;

/// block grids and how much is cropped
const G: [(usize, usize, usize, usize); 9] = [(1, 1, 0, 0), (2, 1, 1, 0), (1, 2, 0, 2), (2, 2, 3, 3), (4, 1, 0, 3), (1, 4, 1, 0), (4, 2, 0, 0), (2, 4, 2, 1), (4, 4, 0, 0)];
/// grids in which a single block (each in turn) is symbolic
const ONE: [(usize, usize, usize, usize); 6] = [(4, 4, 0, 0), (8, 2, 1, 0), (2, 8, 0, 1), (8, 4, 2, 1), (4, 8, 1, 3), (16, 1, 0, 0)];

fn run(nx: usize, ny: usize, cx: usize, cy: usize, two: bool, one: bool) {
    let bw = if two { 8 } else { 4 };
    let (w, h) = (nx * bw - cx, ny * 4 - cy);
    let n = nx * ny * 8;
    let np = w * h;
    let mut d = [0u8; MAXB * 8 + 3];
    if one {
        let k = case(nx * ny) * 8;
        let mut x = 12345u32;
        for b in d[..n].iter_mut() {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            *b = (x >> 24) as u8;
        }
        // its modulation bits and mode, or its colours
        if case(2) == 0 {
            sym(&mut d[k..k + 4]);
            let m = sym_u8();
            d[k + 4] = d[k + 4] & 0xfe | m & 1;
        } else {
            sym(&mut d[k + 4..k + 8]);
        }
    } else {
        sym(&mut d[..n + 3]);
    }
    let mut o = [0u32; 1028];
    let mut r = [0u32; 1028];
    sym32(&mut o[..np + 4]);
    r[..np + 4].copy_from_slice(&o[..np + 4]);
    let ok = t::decode_pvrtc(&d[..n + 3], w, h, &mut o[..np + 4], two);
    check(ok.is_ok(), 1);
    ref_pvrtc(&d[..n], w, h, two, &mut r);
    check_eq(&o[..np + 4], &r[..np + 4], 2);
    cover(o[0] != o[np - 1] && o[0] >> 24 == 0xff, 3);
    if !one {
        cover(o[np - 1] == 0xff0000ff && d[4] & 1 != 0, 4);
    }
    // too little data or room is refused, the image stays as it is
    let e = t::decode_pvrtc(&d[..n - 1], w, h, &mut r[..np], two);
    check(e.is_err(), 5);
    let e = t::decode_pvrtc(&d[..n], w, h, &mut r[..np - 1], two);
    check(e.is_err(), 6);
    check_eq(&o[..np + 4], &r[..np + 4], 7);
}
fn image(two: bool) {
    let (nx, ny, cx, cy) = G[case(param(0))];
    run(nx, ny, cx, cy, two, false);
}
fn image1(two: bool) {
    let (nx, ny, cx, cy) = ONE[case(param(0))];
    run(nx, ny, cx, cy, two, true);
}
#[no_mangle]
pub extern "C" fn h_pvrtc4() {
    image(false)
}
#[no_mangle]
pub extern "C" fn h_pvrtc2() {
    image(true)
}
#[no_mangle]
pub extern "C" fn h_pvrtc4_one() {
    image1(false)
}
#[no_mangle]
pub extern "C" fn h_pvrtc2_one() {
    image1(true)
}
