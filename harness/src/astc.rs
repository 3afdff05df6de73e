//! C13-C15: ASTC blocks against the reference model.
use crate::image::FOOT;
use crate::refs::astc::*;
use crate::vp::*;
use texture2ddecoder as t;

const EXTRA: usize = 3;

fn blk(b: u128, bw: usize, bh: usize, out: &mut [u32]) {
    let mut d = [0u8; 16];
    d.copy_from_slice(&b.to_le_bytes());
    t::decode_astc_block(&d, bw, bh, out);
}
fn sym128() -> u128 {
    let mut d = [0u8; 16];
    sym(&mut d);
    u128::from_le_bytes(d)
}
/// void-extent blocks
#[no_mangle]
pub extern "C" fn h_astc_void() {
    let (bw, bh, _) = FOOT[case(14)];
    let b = sym128() & !0x1ff | 0x1fc;
    let hdr = b >> 9 & 1 != 0;
    for i in 0..4 {
        assume(!hdr || !nan_or_inf((b >> (64 + 16 * i)) as u32 & 0xffff));
    }
    let n = bw * bh;
    let mut o = [0u32; 147];
    let mut r = [0u32; 147];
    sym32(&mut o[..n + EXTRA]);
    r[..n + EXTRA].copy_from_slice(&o[..n + EXTRA]);
    blk(b, bw, bh, &mut o[..n + EXTRA]);
    let mut e = [0u32; 144];
    astc(&b.to_le_bytes(), bw, bh, &mut e);
    r[..n].copy_from_slice(&e[..n]);
    check_eq(&o[..n + EXTRA], &r[..n + EXTRA], 1);
    cover(hdr && o[0] == 0x11223344, 2);
    cover(!hdr && o[0] == 0x55667788, 3);
    cover(b >> 10 & 3 == 3 && o[n - 1] == ERROR && b >> 120 == 0, 4);
}
/// illegal encodings of all other kinds
#[no_mangle]
pub extern "C" fn h_astc_illegal() {
    let (bw, bh, _) = FOOT[case(14)];
    let b = sym128();
    assume(!is_void(b));
    assume(config(b, bw, bh).is_none());
    let n = bw * bh;
    let mut o = [0u32; 147];
    let mut r = [0u32; 147];
    sym32(&mut o[..n + EXTRA]);
    r[..n + EXTRA].copy_from_slice(&o[..n + EXTRA]);
    blk(b, bw, bh, &mut o[..n + EXTRA]);
    r[..n].fill(ERROR);
    check_eq(&o[..n + EXTRA], &r[..n + EXTRA], 1);
}

fn set(b: &mut u128, lo: usize, n: usize, v: usize) {
    let m = ((1u128 << n) - 1) << lo;
    *b = *b & !m | (v as u128) << lo & m;
}
/// one configuration: mode, partitions, endpoint mode selector (2 bits) and selector bits, plane of a dual plane block
#[derive(Clone, Copy)]
struct Set {
    mode: usize,
    parts: usize,
    sel: usize,
    s: usize,
    plane: Option<usize>,
}
/// (first bit, number of bits) of the endpoint values
fn apply(b: &mut u128, c: &Set) -> (usize, usize) {
    set(b, 0, 11, c.mode);
    set(b, 11, 2, c.parts - 1);
    let m = block_mode(c.mode as u32).unwrap();
    let mut top = 128 - ise_bits(weight_quant(m.r, m.hp), m.w * m.h * (1 + m.dual as usize));
    let low;
    if c.parts == 1 {
        set(b, 13, 4, c.s);
        low = 17;
    } else {
        low = 29;
        set(b, 23, 2, c.sel);
        set(b, 25, 4, c.s);
        if c.sel != 0 {
            top -= 3 * c.parts - 4;
            set(b, top, 3 * c.parts - 4, c.s >> 4);
        }
    }
    if m.dual {
        top -= 2;
        if let Some(p) = c.plane {
            set(b, top, 2, p);
        }
    }
    (low, top - low)
}
/// position of the bits of value i in a sequence
fn pos(k: Quant, i: usize) -> usize {
    let (p, n) = match k.base {
        3 => ((i / 5) * (5 * k.bits as usize + 8) + [0, 2, 4, 5, 7][i % 5], i % 5),
        5 => ((i / 3) * (3 * k.bits as usize + 7) + [0, 3, 5][i % 3], i % 3),
        _ => (0, i),
    };
    p + n * k.bits as usize
}
/// bits which give the highest value (together with a zero trit or quint)
fn full(k: Quant) -> usize {
    if k.base == 1 {
        (1 << k.bits) - 1
    } else {
        1
    }
}
fn run(b: u128, bw: usize, bh: usize) -> ([u32; 147], [u32; 147]) {
    let n = bw * bh;
    let mut o = [0u32; 147];
    let mut r = [0u32; 147];
    sym32(&mut o[n..n + EXTRA]);
    r[n..n + EXTRA].copy_from_slice(&o[n..n + EXTRA]);
    let c = config(b, bw, bh);
    check(c.is_some(), 9);
    blk(b, bw, bh, &mut o[..n + EXTRA]);
    decode(b, &c.unwrap(), bw, bh, &mut r[..n]);
    check_eq(&o[..n + EXTRA], &r[..n + EXTRA], 1);
    (o, r)
}
#[no_mangle]
pub extern "C" fn h_astc_one() {
    let (bw, bh, _) = FOOT[param(0)];
    let mut b = sym128();
    apply(&mut b, &Set { mode: param(1), parts: param(2), sel: param(3), s: param(4), plane: Some(param(5)) });
    run(b, bw, bh);
}
/// size of the groups a range is stored in
fn group(k: Quant) -> usize {
    match k.base {
        3 => 5,
        5 => 3,
        _ => 1,
    }
}
/// Groups of weights with any(group) take all values, the others 0 and 64 (just 0 if the range has no bits or not two).
fn restrict(b: u128, c: &Cfg, any: &dyn Fn(usize) -> bool, two: bool) -> u128 {
    let k = weight_quant(c.m.r, c.m.hp);
    let per = group(k);
    let g = (c.weights + per - 1) / per;
    let mut keep = 0u128;
    let mut sel = 0u128;
    let end = |i: usize| if i == g { c.wbits } else { pos(k, i * per) };
    for i in 0..g {
        if any(i) {
            set(&mut keep, end(i), end(i + 1) - end(i), usize::MAX);
        }
    }
    let f = full(k) as u128;
    for i in 0..c.weights {
        if two && k.bits > 0 {
            // the lowest bit of the weight decides
            let p = pos(k, i);
            sel |= (b.reverse_bits() >> p & 1) * f << p;
        }
    }
    let w = (1u128 << c.wbits) - 1;
    let v = b.reverse_bits();
    (v & (keep | !w) | sel & !keep & w).reverse_bits()
}
/// makes the endpoint values 0, or 255 where one(value) holds
fn fix(b: &mut u128, c: &Cfg, one: &dyn Fn(usize) -> bool) {
    let low = if c.parts == 1 { 17 } else { 29 };
    let k = color_quant(c);
    set(b, low, ise_bits(k, c.values), 0);
    for i in 0..c.values {
        if one(i) {
            set(b, low + pos(k, i), k.bits as usize, full(k));
        }
    }
}
/// all weights, or 0 and 64 (see restrict); fixed endpoints 0 and 255
fn weights(fp: usize, mode: usize, any: &dyn Fn(usize) -> bool, two: bool) {
    let (bw, bh, _) = FOOT[fp];
    let mut b = sym128();
    let m = block_mode(mode as u32).unwrap();
    apply(&mut b, &Set { mode, parts: 1, sel: 0, s: if m.dual { 4 } else { 0 }, plane: None });
    let c = config(b, bw, bh).unwrap();
    fix(&mut b, &c, &|i| i % 2 != 0);
    b = restrict(b, &c, any, two);
    let (o, _) = run(b, bw, bh);
    cover(o[0] != o[bw * bh - 1] && o[0] & 0xff != 0, 2);
}
fn fits(m: usize, fp: usize) -> bool {
    let Some(m) = block_mode(m as u32) else { return false };
    let n = m.w * m.h * (1 + m.dual as usize);
    let b = ise_bits(weight_quant(m.r, m.hp), n);
    let (bw, bh, _) = FOOT[fp];
    m.w <= bw && m.h <= bh && n <= 64 && b >= 24 && b <= 96
}
/// every block mode with the first footprint it fits (param 0: 0) or with all (1)
#[no_mangle]
pub extern "C" fn h_astc_modes() {
    let m = case(2048);
    let mut fp = 0;
    while fp < 14 && !fits(m, fp) {
        fp += 1;
    }
    if fp == 14 {
        stop();
    }
    if param(0) == 1 {
        fp = case(14);
        if !fits(m, fp) {
            stop();
        }
    }
    let k = block_mode(m as u32).unwrap();
    let (bw, bh, _) = FOOT[fp];
    let last = (k.w * k.h * (1 + k.dual as usize) - 1) / group(weight_quant(k.r, k.hp));
    let same = k.w == bw && k.h == bh;
    if param(0) == 0 {
        weights(fp, m, &|g| same || m % 3 == 0 && g == [0, last, last / 2][m / 3 % 3], !same);
    } else {
        weights(fp, m, &|g| same || g == 0 || g == last, false);
    }
}
/// every weight grid with every footprint
#[no_mangle]
pub extern "C" fn h_astc_grids() {
    let fp = case(14);
    let (w, h) = (2 + case(11), 2 + case(11));
    let mut best = 2048;
    let mut bits = 1000;
    for i in 0..2048 {
        if fits(i, fp) {
            let m = block_mode(i as u32).unwrap();
            let n = ise_bits(weight_quant(m.r, m.hp), m.w * m.h * (1 + m.dual as usize));
            if m.w == w && m.h == h && n < bits && weight_quant(m.r, m.hp).bits > 0 {
                (best, bits) = (i, n);
            }
        }
    }
    if best == 2048 || param(0) == 0 && w * h < 7 && fp > 7 && (w + h + fp) % 3 > 0 {
        stop();
    }
    weights(fp, best, &|_| false, true);
}

/// every partition index: which partition each texel belongs to
#[no_mangle]
pub extern "C" fn h_astc_part() {
    let fp = case(14);
    let (bw, bh, _) = FOOT[fp];
    let parts = 2 + case(3);
    // param 0: 0: three footprints with all numbers of partitions, one number for each of the others
    if param(0) == 0 && ![0, 3, 4].contains(&fp) && (if fp < 10 { fp % 3 } else { (fp == 10) as usize }) != parts - 2 {
        stop();
    }
    let mut b = sym128();
    // endpoint mode 4: luminance and alpha tell the partitions apart
    apply(&mut b, &Set { mode: 66, parts, sel: 0, s: 4, plane: None });
    let c = config(b, bw, bh).unwrap();
    fix(&mut b, &c, &|i| (i / 4) >> (i / 2 % 2) & 1 != 0);
    let (o, _) = run(b, bw, bh);
    let p = parts as u32 - 1;
    cover(o[0] == (255 * (p >> 1)) << 24 | (p & 1) * 0xffffff, 2);
}
/// an index where every partition has at least three texels
fn index(parts: usize, bw: usize, bh: usize) -> usize {
    for i in 0..1024 {
        let s = partition_seeds(i as u32, parts as u32);
        let mut n = [0; 4];
        for y in 0..bh {
            for x in 0..bw {
                n[partition(&s, parts as u32, x as u32, y as u32, bw * bh < 31)] += 1;
            }
        }
        if n[..parts].iter().all(|&n| n >= 3) {
            return i;
        }
    }
    stop()
}
/// 5x5 blocks with full grids, by number of weight bits
const M55: [usize; 10] = [225, 241, 226, 1249, 242, 227, 243, 1265, 737, 753];
/// all endpoint values with weights 0 and 64, one partition index
fn ends(mode: usize, parts: usize, sel: usize, s: usize, first: &dyn Fn(usize) -> bool) {
    let (bw, bh) = (5, 5);
    let mut b = sym128();
    apply(&mut b, &Set { mode, parts, sel, s, plane: None });
    if parts > 1 {
        set(&mut b, 13, 10, index(parts, bw, bh));
    }
    let Some(c) = config(b, bw, bh) else { stop() };
    if !(0..parts).all(|i| first(c.cem[i] as usize)) {
        stop();
    }
    b = restrict(b, &c, &|_| false, true);
    let (o, _) = run(b, bw, bh);
    cover(o[0] != o[24] && o[0] & 0xff != 0, 2);
}
const LDR: [usize; 10] = [0, 1, 4, 5, 6, 8, 9, 10, 12, 13];
const HDR: [usize; 6] = [2, 3, 7, 11, 14, 15];
/// every number of endpoint values in every range they can have: direct modes
#[no_mangle]
pub extern "C" fn h_astc_ranges() {
    let mode = M55[case(10)];
    let parts = 1 + case(4);
    ends(mode, parts, 0, [0, 4, 8, 12][case(4)], &|_| true);
}
/// every LDR endpoint mode, one partition
#[no_mangle]
pub extern "C" fn h_astc_ldr() {
    ends(225, 1, 0, LDR[case(10)], &|_| true);
}
/// every HDR endpoint mode
#[no_mangle]
pub extern "C" fn h_astc_hdr() {
    ends(225, 1, 0, HDR[case(6)], &|_| true);
}
/// endpoint mode selectors of two to four partitions; param 0: LDR only (0), with HDR (1); param 1: more combinations
#[no_mangle]
pub extern "C" fn h_astc_cem() {
    let parts = 2 + case(3);
    let sel = 1 + case(3);
    // one partition's class and mode bits, the others' class bits (param 1: or all their bits)
    let i = case(4);
    let (k, o) = (case(8), case(2 + param(1)));
    if i >= parts {
        stop();
    }
    let mut s = 0;
    let mut hdr = false;
    for j in 0..parts {
        let v = if j == i { k } else { [0, 1, 7][o] };
        s |= (v & 1) << j | (v >> 1) << (parts + 2 * j);
        hdr |= HDR.contains(&((sel - 1 + (v & 1)) << 2 | v >> 1));
    }
    if hdr != (param(0) == 1) {
        stop();
    }
    ends(225, parts, sel, s, &|_| true);
}
/// plane selector: its position and effect
#[no_mangle]
pub extern "C" fn h_astc_dual() {
    let (bw, bh, _) = FOOT[0];
    let parts = 1 + case(3);
    let sel = case(3);
    if parts == 1 && sel > 0 {
        stop();
    }
    let mut b = sym128();
    // LA in all partitions (sel 1: as class 1 of 0 and 1, sel 2: class 0 of 1 and 2)
    let s = if sel == 0 { 4 } else { (1 << parts) - 1 };
    apply(&mut b, &Set { mode: 1089, parts, sel, s: if sel == 2 { 0 } else { s }, plane: None });
    if parts > 1 {
        set(&mut b, 13, 10, index(parts, bw, bh));
    }
    let c = config(b, bw, bh).unwrap();
    fix(&mut b, &c, &|i| i % 2 != 0);
    b = restrict(b, &c, &|_| false, true);
    let (o, _) = run(b, bw, bh);
    cover(o[0] >> 24 == 255 && o[0] & 0xffffff == 0, 2);
    cover(o[0] == 0xff0000, 3);
    cover(o[0] == 0xff00, 4);
    cover(o[0] == 0xff, 5);
}
/// interpolation: all endpoint values and all weights of one texel (param 0: HDR)
#[no_mangle]
pub extern "C" fn h_astc_interp() {
    let (bw, bh) = (5, 5);
    let n = bw * bh;
    let mut b = sym128();
    apply(&mut b, &Set { mode: [227, 243, 737][case(3)], parts: 1, sel: 0, s: if param(0) == 0 { 0 } else { 2 }, plane: None });
    let c = config(b, bw, bh).unwrap();
    let i = case(2) * 24;
    b = restrict(b, &c, &|g| g == i / group(weight_quant(c.m.r, c.m.hp)), false);
    let mut o = [0u32; 25];
    let mut r = [0u32; 25];
    blk(b, bw, bh, &mut o[..n]);
    decode(b, &c, bw, bh, &mut r[..n]);
    check(o[i] == r[i], 1);
    cover(o[i] & 0xff == 100, 2);
}
