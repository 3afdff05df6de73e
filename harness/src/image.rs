//! C16-C19: image-level behaviour of the block decoders, and their block functions.
use crate::refs::bc::{BC6, BC6_RESERVED};
use crate::vp::*;
use texture2ddecoder as t;

type Img = fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>;
type Blk = fn(&[u8], &mut [u32]);
pub struct Dec {
    img: Img,
    blk: Blk,
    /// bytes per block
    n: usize,
    /// bits of a texel the block function defines
    mask: u32,
    /// fixes the mode bits of a block, to keep its decoding simple
    simple: fn(&mut [u8]),
    /// the block function adds to a cleared channel
    ors: bool,
}
fn any(_: &mut [u8]) {}
fn bc6_simple(b: &mut [u8]) {
    b[..10].copy_from_slice(&[0xe3, 0x4b, 0x31, 0x8a, 0x57, 0x19, 0xd6, 0xe2, 0x3c, 0x7f]);
}
fn bc7_simple(b: &mut [u8]) {
    b[..10].copy_from_slice(&[0x40, 0x4b, 0x31, 0x8a, 0x57, 0x19, 0xd6, 0xe2, 0x3c, 0x7f]);
}
fn etc_simple(b: &mut [u8]) {
    b[3] &= !2;
}
/// differential mode whose delta is 0, so no T, H or planar block
fn rgba1_simple(b: &mut [u8]) {
    b[0] &= !7;
    b[1] &= !7;
    b[2] &= !7;
}
fn etc_simple8(b: &mut [u8]) {
    b[11] &= !2;
}
const W: u32 = !0;
const R: u32 = 0x00ff_0000;
const RG: u32 = 0x00ff_ff00;
fn bc6s(d: &[u8], o: &mut [u32]) {
    t::decode_bc6_block_signed(d, o)
}
fn bc6u(d: &[u8], o: &mut [u32]) {
    t::decode_bc6_block_unsigned(d, o)
}
fn eac_r(d: &[u8], o: &mut [u32]) {
    t::decode_eac_block(d, 2, o)
}
fn eac_g(d: &[u8], o: &mut [u32]) {
    t::decode_eac_block(d, 1, o)
}
fn eacs_r(d: &[u8], o: &mut [u32]) {
    t::decode_eac_signed_block(d, 2, o)
}
fn eacs_b(d: &[u8], o: &mut [u32]) {
    t::decode_eac_signed_block(d, 0, o)
}
const fn d(img: Img, blk: Blk, n: usize, mask: u32, simple: fn(&mut [u8])) -> Dec {
    Dec { img, blk, n, mask, simple, ors: false }
}
pub static DECS: [Dec; 19] = [
    d(t::decode_atc_rgb4, t::decode_atc_rgb4_block, 8, W, any),
    d(t::decode_atc_rgba8, t::decode_atc_rgba8_block, 16, W, any),
    d(t::decode_bc1, t::decode_bc1_block, 8, W, any),
    d(t::decode_bc1a, t::decode_bc1a_block, 8, W, any),
    d(t::decode_bc2, t::decode_bc2_block, 16, W, any),
    d(t::decode_bc3, t::decode_bc3_block, 16, W, any),
    d(t::decode_bc4, t::decode_bc4_block, 8, R, any),
    d(t::decode_bc5, t::decode_bc5_block, 16, RG, any),
    d(t::decode_bc6_signed, bc6s, 16, W, bc6_simple),
    d(t::decode_bc6_unsigned, bc6u, 16, W, bc6_simple),
    d(t::decode_bc7, t::decode_bc7_block, 16, W, bc7_simple),
    d(t::decode_etc1, t::decode_etc1_block, 8, W, etc_simple),
    d(t::decode_etc2_rgb, t::decode_etc2_rgb_block, 8, W, etc_simple),
    d(t::decode_etc2_rgba1, t::decode_etc2_rgba1_block, 8, W, rgba1_simple),
    d(t::decode_etc2_rgba8, t::decode_etc2_rgba8_block, 16, W, etc_simple8),
    d(t::decode_eacr, t::decode_eacr_block, 8, W, any),
    d(t::decode_eacr_signed, t::decode_eacr_signed_block, 8, W, any),
    d(t::decode_eacrg, t::decode_eacrg_block, 16, W, any),
    d(t::decode_eacrg_signed, t::decode_eacrg_signed_block, 16, W, any),
];
/// single-channel functions that exist only as block functions
static CHANNEL: [Dec; 5] = [
    Dec { img: t::decode_bc1, blk: eac_r, n: 8, mask: R, simple: any, ors: true },
    Dec { img: t::decode_bc1, blk: eac_g, n: 8, mask: 0xff00, simple: any, ors: true },
    Dec { img: t::decode_bc1, blk: eacs_r, n: 8, mask: R, simple: any, ors: true },
    Dec { img: t::decode_bc1, blk: eacs_b, n: 8, mask: 0xff, simple: any, ors: true },
    Dec { img: t::decode_bc1, blk: t::decode_etc2_a8_block, n: 8, mask: 0xff00_0000, simple: any, ors: false },
];

fn ceil(a: usize, b: usize) -> usize {
    a / b + (a % b != 0) as usize
}
/// the image is what the block function gives for each block, nothing else is touched
fn layout(img: &dyn Fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>, blk: &dyn Fn(&[u8], &mut [u32]), n: usize, simple: &dyn Fn(&mut [u8]), bw: usize, bh: usize, w: usize, h: usize) {
    const PIX: usize = 1800;
    const EXTRA: usize = 5;
    let mut data = [0u8; 1700];
    let mut image = [0u32; PIX];
    let mut before = [0u32; PIX];
    let (nx, ny) = (ceil(w, bw), ceil(h, bh));
    let len = nx * ny * n;
    sym(&mut data[..len + 3]);
    for b in data[..len].chunks_exact_mut(n) {
        simple(b);
    }
    let data = &data[..len + 3];
    let np = w * h + EXTRA;
    sym32(&mut image[..np]);
    before[..np].copy_from_slice(&image[..np]);
    let r = img(data, w, h, &mut image[..np]);
    check(r.is_ok(), 1);
    for by in 0..ny {
        for bx in 0..nx {
            let k = (by * nx + bx) * n;
            let mut o = [0xff00_0000u32; 144];
            blk(&data[k..k + n], &mut o[..bw * bh]);
            for y in 0..bh {
                for x in 0..bw {
                    let (px, py) = (bx * bw + x, by * bh + y);
                    if px < w && py < h {
                        before[py * w + px] = o[y * bw + x];
                    }
                }
            }
        }
    }
    check_eq(&image[..np], &before[..np], 2);
    cover(w * h > 4 && image[0] != image[w * h - 1] && image[0] != image[1], 3);
}
/// sizes 0..=max in both directions
#[no_mangle]
pub extern "C" fn h_layout() {
    let k = case(DECS.len());
    let n = param(0) + 1;
    let (w, h) = (case(n), case(n));
    let c = &DECS[k];
    layout(&c.img, &c.blk, c.n, &c.simple, 4, 4, w, h);
}
/// a few long or large images
#[no_mangle]
pub extern "C" fn h_layout_big() {
    const S: [(usize, usize); 6] = [(1, 37), (37, 1), (17, 13), (12, 23), (33, 5), (40, 40)];
    let k = case(DECS.len());
    let (w, h) = S[case(param(0))];
    let c = &DECS[k];
    layout(&c.img, &c.blk, c.n, &c.simple, 4, 4, w, h);
}

pub static FOOT: [(usize, usize, Img); 14] = [
    (4, 4, t::decode_astc_4_4),
    (5, 4, t::decode_astc_5_4),
    (5, 5, t::decode_astc_5_5),
    (6, 5, t::decode_astc_6_5),
    (6, 6, t::decode_astc_6_6),
    (8, 5, t::decode_astc_8_5),
    (8, 6, t::decode_astc_8_6),
    (8, 8, t::decode_astc_8_8),
    (10, 5, t::decode_astc_10_5),
    (10, 6, t::decode_astc_10_6),
    (10, 8, t::decode_astc_10_8),
    (10, 10, t::decode_astc_10_10),
    (12, 10, t::decode_astc_12_10),
    (12, 12, t::decode_astc_12_12),
];
/// single partition, LDR luminance, 4x4 grid of 1-bit weights
fn astc_simple(b: &mut [u8]) {
    b[..11].copy_from_slice(&[0x42, 0x00, 0x40, 0x31, 0x8a, 0x57, 0x19, 0xd6, 0xe2, 0x3c, 0x7f]);
}
fn astc_void(b: &mut [u8]) {
    b[0] = 0xfc;
    b[1] = 0xfd;
}
fn astc_sizes(bw: usize, bh: usize, i: usize) -> (usize, usize) {
    match i {
        0 => (bw, bh),
        1 => (bw + 1, bh + 2),
        2 => (2 * bw - 1, 2 * bh - 1),
        3 => (1, 2 * bh + 1),
        4 => (2 * bw + 1, 1),
        5 => (bw - 1, bh - 1),
        6 => (3, 0),
        7 => (0, 3),
        8 => (3 * bw, 3 * bh),
        _ => (1, 1),
    }
}
#[no_mangle]
pub extern "C" fn h_layout_astc() {
    let (bw, bh, img) = FOOT[case(14)];
    let f = case(2) == 0;
    let (w, h) = astc_sizes(bw, bh, case(10));
    let s: &dyn Fn(&mut [u8]) = if f { &astc_simple } else { &astc_void };
    // nine blocks: void-extent ones only, one block: full ones only
    if !f && w * h <= bw * bh || f && w == 3 * bw {
        return;
    }
    layout(&img, &|d, o| t::decode_astc_block(d, bw, bh, o), 16, s, bw, bh, w, h);
}

// ---- C17 ------------------------------------------------------------------
static ONE: [u8; 1] = [0];
static mut ONE32: [u32; 1] = [0];
/// mode 0: everything symbolic; 1: width fixed; 2: height fixed
fn dims(mode: usize) -> (usize, usize, &'static [u8], &'static mut [u32]) {
    const M: usize = usize::MAX;
    const S: [usize; 24] = [1, 5, 64, (1 << 32) - 1, 1 << 32, (1 << 61) + 1, 1 << 62, M / 3, 1 << 63, M, 2, 3, 4, 7, 8, 9, 24, 100, 4096, 65535, 65536, (1 << 33) + 4, M - 7, M - 2];
    let n = if param(1) == 0 { 10 } else { 24 };
    let (mut w, mut h) = (sym_u64() as usize, sym_u64() as usize);
    match mode {
        1 => w = S[case(n)],
        2 => h = S[case(n)],
        3 => {
            w &= 1023;
            h &= 1023;
        }
        _ => {}
    }
    let (mut dl, mut il) = (sym_u64() as usize, sym_u64() as usize);
    if mode == 3 {
        dl &= (4 << 20) - 1;
        il &= (4 << 20) - 1;
    }
    assume(dl <= isize::MAX as usize);
    assume(il <= isize::MAX as usize / 4);
    // never dereferenced in the branches explored: a decoder that does is reported
    unsafe { (w, h, core::slice::from_raw_parts(ONE.as_ptr().add(1), dl), core::slice::from_raw_parts_mut((&raw mut ONE32 as *mut u32).add(1), il)) }
}
fn enough(w: usize, h: usize, bw: usize, bh: usize, n: usize, dl: usize, il: usize) -> bool {
    if w == 0 || h == 0 {
        return true;
    }
    let need = w.div_ceil(bw).checked_mul(h.div_ceil(bh)).and_then(|x| x.checked_mul(n));
    let texels = w.checked_mul(h);
    match (need, texels) {
        (Some(a), Some(b)) => dl >= a && il >= b,
        _ => false,
    }
}
fn short(img: &dyn Fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>, bw: usize, bh: usize, n: usize) {
    let (w, h, d, im) = dims(param(0));
    let (dl, il) = (d.len(), im.len());
    let zero = w == 0 || h == 0;
    let ok = enough(w, h, bw, bh, n, dl, il);
    // non-empty images with enough room are h_layout's part
    assume(zero || !ok);
    cover(!zero && w < 100 && h < 100 && dl > 100, 10);
    if param(0) < 3 {
        cover(w > 1 << 40 && h > 1 << 40, 11);
    }
    if param(0) == 0 {
        cover(w == 0 && h > 1 << 40, 12);
        cover(h == 0 && w > 1 << 40, 13);
    }
    let r = img(d, w, h, im);
    check(r.is_ok() == ok, 1);
}
#[no_mangle]
pub extern "C" fn h_short() {
    let k = case(DECS.len());
    let c = &DECS[k];
    short(&c.img, 4, 4, c.n);
}
#[no_mangle]
pub extern "C" fn h_short_bc6() {
    let s = case(2) == 1;
    short(&|d, w, h, i| t::decode_bc6(d, w, h, i, s), 4, 4, 16);
}
#[no_mangle]
pub extern "C" fn h_short_astc() {
    let (bw, bh, img) = FOOT[case(14)];
    if case(2) == 0 {
        short(&img, bw, bh, 16);
    } else {
        short(&|d, w, h, i| t::decode_astc(d, w, h, bw, bh, i), bw, bh, 16);
    }
}
/// block sizes which are no ASTC footprint at all: refused or decoded, never a panic
#[no_mangle]
pub extern "C" fn h_astc_badsize() {
    let (w, h, d, im) = dims(param(0));
    const M: usize = usize::MAX;
    const S: [(usize, usize); 16] = [(0, 0), (0, 4), (4, 0), (1, 1), (1, 4), (12, 1), (1, 144), (144, 1), (145, 1), (13, 12), (12, 13), (M, 2), (1 << 32, 1 << 32), (M, M), (2, 1 << 63), (1 << 60, 24)];
    let (bw, bh) = S[case(16)];
    let r = t::decode_astc(d, w, h, bw, bh, im);
    check(r.is_err(), 1);
    cover(bw == 0 && w > 9, 2);
    cover(bw > 1 << 60 && bh > 1 << 60 && d.len() > 1000, 3);
}
#[no_mangle]
pub extern "C" fn h_short_pvrtc() {
    let two = case(2) == 1;
    let (w, h, d, im) = dims(param(0));
    let (dl, il) = (d.len(), im.len());
    let bw = if two { 8 } else { 4 };
    let zero = w == 0 || h == 0;
    let room = enough(w, h, bw, 4, 8, dl, il);
    let p2 = |n: usize| n & n.wrapping_sub(1) == 0;
    let ok = zero || room && p2(w.div_ceil(bw)) && p2(h.div_ceil(4));
    assume(zero || !ok);
    cover(!zero && room, 10);
    if param(0) < 3 {
        cover(w > 1 << 40 && h > 1 << 40, 11);
    }
    if param(0) == 0 {
        cover(w == 0 && h > 1 << 40, 12);
    }
    let r = match case(2) {
        0 if param(0) < 3 => t::decode_pvrtc(d, w, h, im, two),
        _ => (if two { t::decode_pvrtc_2bpp } else { t::decode_pvrtc_4bpp })(d, w, h, im),
    };
    check(r.is_ok() == ok, 1);
}

// ---- C18 ------------------------------------------------------------------
fn total(blk: &dyn Fn(&[u8], &mut [u32]), n: usize, mask: u32, ors: bool, fix: &dyn Fn(&mut [u8]), texels: usize) {
    let mut a = [0u8; 21];
    let mut b = [0u8; 21];
    sym(&mut a[..n + 5]);
    sym(&mut b[..n + 5]);
    fix(&mut a);
    b[..n].copy_from_slice(&a[..n]);
    let mut p = [0u32; 150];
    let mut q = [0u32; 150];
    let m = texels + 6;
    sym32(&mut p[..m]);
    sym32(&mut q[..m]);
    if ors {
        for i in 0..texels {
            p[i] &= !mask;
            q[i] &= !mask;
        }
    }
    let (p0, q0) = (p, q);
    blk(&a[..n + 5], &mut p[..m]);
    blk(&b[..n], &mut q[..texels]);
    let mut e = [0u32; 150];
    let mut f = [0u32; 150];
    for i in 0..texels {
        // the channel is the same in both, the other channels are kept
        e[i] = (q[i] & mask) | (p0[i] & !mask);
        f[i] = (q[i] & mask) | (q0[i] & !mask);
    }
    e[texels..m].copy_from_slice(&p0[texels..m]);
    f[texels..m].copy_from_slice(&q0[texels..m]);
    check_eq(&p[..m], &e[..m], 1);
    check_eq(&q[..m], &f[..m], 2);
    cover(p[0] != p0[0], 3);
}
#[no_mangle]
pub extern "C" fn h_block_total() {
    let k = case(DECS.len() + CHANNEL.len());
    let c = if k < DECS.len() { &DECS[k] } else { &CHANNEL[k - DECS.len()] };
    match k {
        8 | 9 => {
            let m = case(18);
            let f = move |d: &mut [u8]| {
                if m < 14 {
                    d[0] = (d[0] & !((1u32 << BC6[m].nbits) - 1) as u8) | BC6[m].code;
                } else {
                    d[0] = (d[0] & !31) | BC6_RESERVED[m - 14];
                }
            };
            total(&c.blk, c.n, c.mask, c.ors, &f, 16)
        }
        10 => {
            let m = case(9);
            let f = move |d: &mut [u8]| d[0] = if m < 8 { (((d[0] as u16) << (m + 1)) | (1 << m)) as u8 } else { 0 };
            total(&c.blk, c.n, c.mask, c.ors, &f, 16)
        }
        _ => total(&c.blk, c.n, c.mask, c.ors, &any, 16),
    }
}

// ---- C19 ------------------------------------------------------------------
fn same(a: &dyn Fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>, b: &dyn Fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>, len: usize, w: usize, h: usize, np: usize, n: usize, simple: &dyn Fn(&mut [u8])) {
    let mut data = [0u8; 600];
    let mut i1 = [0u32; 700];
    let mut i2 = [0u32; 700];
    sym(&mut data[..len]);
    for b in data[..len].chunks_exact_mut(n) {
        simple(b);
    }
    sym32(&mut i1[..np]);
    i2[..np].copy_from_slice(&i1[..np]);
    let r1 = a(&data[..len], w, h, &mut i1[..np]);
    let r2 = b(&data[..len], w, h, &mut i2[..np]);
    check(r1 == r2, 1);
    check_eq(&i1[..np], &i2[..np], 2);
    cover(np > 1 && i1[0] != i1[1], 3);
}
/// enough room, one byte short, one texel short
fn room(k: usize, need: usize, texels: usize) -> (usize, usize) {
    match k {
        0 => (need, texels),
        1 => (need - 1, texels),
        _ => (need, texels - 1),
    }
}
#[no_mangle]
pub extern "C" fn h_same_astc() {
    let (bw, bh, img) = FOOT[case(14)];
    let (w, h) = [(bw, bh), (bw + 1, bh), (bw, bh + 1), (2 * bw, bh - 1)][case(4)];
    let (len, np) = room(case(3), ceil(w, bw) * ceil(h, bh) * 16, w * h);
    let s: &dyn Fn(&mut [u8]) = if case(2) == 0 { &astc_simple } else { &astc_void };
    same(&img, &|d, w, h, i| t::decode_astc(d, w, h, bw, bh, i), len, w, h, np, 16, s);
}
#[no_mangle]
pub extern "C" fn h_same_bc6() {
    let s = case(2) == 1;
    let (w, h) = [(4, 4), (5, 6), (0, 4)][case(3)];
    let k = case(3);
    if w * h == 0 && k > 0 {
        return;
    }
    let (len, np) = room(k, ceil(w, 4) * ceil(h, 4) * 16, w * h);
    same(&(if s { t::decode_bc6_signed } else { t::decode_bc6_unsigned }), &|d, w, h, i| t::decode_bc6(d, w, h, i, s), len, w, h, np, 16, &bc6_simple);
}
/// block functions: every block
#[no_mangle]
pub extern "C" fn h_same_bc6_block() {
    let s = case(2) == 1;
    let mut d = [0u8; 16];
    sym(&mut d);
    let mut a = [0u32; 16];
    let mut b = [0u32; 16];
    if s {
        t::decode_bc6_block_signed(&d, &mut a);
    } else {
        t::decode_bc6_block_unsigned(&d, &mut a);
    }
    t::decode_bc6_block(&d, &mut b, s);
    check_eq(&a, &b, 1);
    cover(a[0] == 0xff112233, 2);
}
#[no_mangle]
pub extern "C" fn h_same_pvrtc() {
    let two = case(2) == 1;
    let bw = if two { 8 } else { 4 };
    let (w, h) = [(bw, 4), (2 * bw, 7), (bw + 1, 4), (3 * bw, 4)][case(4)];
    let (len, np) = room(case(3), ceil(w, bw) * ceil(h, 4) * 8, w * h);
    same(&(if two { t::decode_pvrtc_2bpp } else { t::decode_pvrtc_4bpp }), &|d, w, h, i| t::decode_pvrtc(d, w, h, i, two), len, w, h, np, 8, &any);
}
