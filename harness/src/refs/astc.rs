//! ASTC 2D blocks, HDR profile, from the Khronos Data Format Specification ("ASTC Compressed Texture Image Formats").

#[derive(Clone, Copy, Default)]
pub struct Mode {
    /// weight grid
    pub w: usize,
    pub h: usize,
    /// R (three bits) and the high precision bit
    pub r: usize,
    pub hp: bool,
    pub dual: bool,
}
fn f(v: u32, lo: u32, n: u32) -> usize {
    (v >> lo & ((1 << n) - 1)) as usize
}
/// the 11 block mode bits, None: reserved (or void extent)
pub fn block_mode(m: u32) -> Option<Mode> {
    let (a, b) = (f(m, 5, 2), f(m, 7, 2));
    let (mut dual, mut hp) = (m >> 10 & 1 != 0, m >> 9 & 1 != 0);
    let r0 = f(m, 4, 1);
    let (r, w, h);
    if m & 3 != 0 {
        r = f(m, 0, 2) << 1 | r0;
        (w, h) = match m >> 2 & 3 {
            0 => (b + 4, a + 2),
            1 => (b + 8, a + 2),
            2 => (a + 2, b + 8),
            _ if b & 2 == 0 => (a + 2, (b & 1) + 6),
            _ => ((b & 1) + 2, a + 2),
        };
    } else {
        if m & 15 == 0 {
            return None;
        }
        r = f(m, 2, 2) << 1 | r0;
        (w, h) = match b {
            0 => (12, a + 2),
            1 => (a + 2, 12),
            2 => {
                dual = false;
                hp = false;
                (a + 6, f(m, 9, 2) + 6)
            }
            _ => match a {
                0 => (6, 10),
                1 => (10, 6),
                _ => return None,
            },
        };
    }
    Some(Mode { w, h, r, hp, dual })
}
/// how a range is stored: with a trit, a quint, and how many bits per value
#[derive(Clone, Copy)]
pub struct Quant {
    pub base: u32,
    pub bits: u32,
}
const fn q(base: u32, bits: u32) -> Quant {
    Quant { base, bits }
}
pub fn weight_quant(r: usize, hp: bool) -> Quant {
    match (r, hp) {
        (2, false) => q(1, 1),
        (3, false) => q(3, 0),
        (4, false) => q(1, 2),
        (5, false) => q(5, 0),
        (6, false) => q(3, 1),
        (7, false) => q(1, 3),
        (2, true) => q(5, 1),
        (3, true) => q(3, 2),
        (4, true) => q(1, 4),
        (5, true) => q(5, 2),
        (6, true) => q(3, 3),
        _ => q(1, 5),
    }
}
/// bits of n values
pub fn ise_bits(q: Quant, n: usize) -> usize {
    let b = n * q.bits as usize;
    match q.base {
        3 => b + (8 * n + 4) / 5,
        5 => b + (7 * n + 2) / 3,
        _ => b,
    }
}
/// colour ranges, largest first
pub const COLOR: [Quant; 17] = [q(1, 8), q(3, 6), q(5, 5), q(1, 7), q(3, 5), q(5, 4), q(1, 6), q(3, 4), q(5, 3), q(1, 5), q(3, 3), q(5, 2), q(1, 4), q(3, 2), q(5, 1), q(1, 3), q(3, 1)];

fn at(b: u128, i: usize, n: usize) -> u32 {
    (b >> i) as u32 & ((1u32 << n) - 1)
}
#[derive(Clone, Copy, Default)]
pub struct Cfg {
    pub m: Mode,
    pub weights: usize,
    pub wbits: usize,
    pub parts: usize,
    pub cem: [u32; 4],
    /// plane 1's channel
    pub plane: u32,
    pub values: usize,
    pub cbits: usize,
}
pub fn is_void(b: u128) -> bool {
    b as u32 & 0x1ff == 0x1fc
}
pub fn void_illegal(b: u128) -> bool {
    let (s0, s1, t0, t1) = (at(b, 12, 13), at(b, 25, 13), at(b, 38, 13), at(b, 51, 13));
    let none = s0 & s1 & t0 & t1 == 0x1fff;
    at(b, 10, 2) != 3 || !none && (s0 >= s1 || t0 >= t1)
}
/// number of endpoint values of a mode
fn values(cem: u32) -> usize {
    2 + 2 * (cem as usize / 4)
}
/// None: illegal encoding
pub fn config(b: u128, bw: usize, bh: usize) -> Option<Cfg> {
    let m = block_mode(b as u32 & 0x7ff)?;
    let parts = at(b, 11, 2) as usize + 1;
    let weights = m.w * m.h * (1 + m.dual as usize);
    let wbits = ise_bits(weight_quant(m.r, m.hp), weights);
    if m.w > bw || m.h > bh || weights > 64 || wbits < 24 || wbits > 96 || m.dual && parts == 4 {
        return None;
    }
    let mut cem = [0; 4];
    let mut used;
    let mut top = 128 - wbits;
    if parts == 1 {
        cem[0] = at(b, 13, 4);
        used = 17;
    } else {
        used = 29;
        let sel = at(b, 23, 2);
        if sel == 0 {
            cem = [at(b, 25, 4); 4];
        } else {
            // C bits, then M pairs: four of these bits at 25, the others below the weights
            let extra = 3 * parts - 4;
            top -= extra;
            let s = at(b, 25, 4) | at(b, top, extra) << 4;
            for i in 0..parts {
                cem[i] = (sel - 1 + (s >> i & 1)) << 2 | s >> (parts + 2 * i) & 3;
            }
            used += extra;
        }
    }
    let mut plane = 0;
    if m.dual {
        top -= 2;
        used += 2;
        plane = at(b, top, 2);
    }
    let values = cem[..parts].iter().map(|&c| values(c)).sum();
    let room = 128 - wbits;
    if values > 18 || room < used || (room - used) * 5 < 13 * values {
        return None;
    }
    Some(Cfg { m, weights, wbits, parts, cem, plane, values, cbits: room - used })
}
pub fn color_quant(c: &Cfg) -> Quant {
    let mut r = COLOR[16];
    for &k in COLOR.iter().rev() {
        if ise_bits(k, c.values) <= c.cbits {
            r = k;
        }
    }
    r
}

fn bit(v: u32, i: u32) -> u32 {
    v >> i & 1
}
fn trits(t: u32) -> [u32; 5] {
    let (c, t3, t4);
    if t >> 2 & 7 == 7 {
        c = t >> 5 << 2 | t & 3;
        (t3, t4) = (2, 2);
    } else {
        c = t & 31;
        (t3, t4) = if t >> 5 & 3 == 3 { (bit(t, 7), 2) } else { (t >> 5 & 3, bit(t, 7)) };
    }
    if c & 3 == 3 {
        [bit(c, 3) << 1 | bit(c, 2) & !bit(c, 3), bit(c, 4), 2, t3, t4]
    } else if c >> 2 & 3 == 3 {
        [c & 3, 2, 2, t3, t4]
    } else {
        [bit(c, 1) << 1 | bit(c, 0) & !bit(c, 1), c >> 2 & 3, bit(c, 4), t3, t4]
    }
}
fn quints(v: u32) -> [u32; 3] {
    if v >> 1 & 3 == 3 && v >> 5 & 3 == 0 {
        let n = !bit(v, 0);
        return [4, 4, bit(v, 0) << 2 | (bit(v, 4) & n) << 1 | bit(v, 3) & n];
    }
    let (c, q2);
    if v >> 1 & 3 == 3 {
        q2 = 4;
        c = (v >> 3 & 3) << 3 | (!v >> 5 & 3) << 1 | v & 1;
    } else {
        q2 = v >> 5 & 3;
        c = v & 31;
    }
    if c & 7 == 5 {
        [c >> 3, 4, q2]
    } else {
        [c & 7, c >> 3, q2]
    }
}
/// values of an integer sequence which starts at bit 0 of b: (bits, trit or quint)
pub fn ise(b: u128, k: Quant, n: usize, out: &mut [(u32, u32)]) {
    // bits past the end of the sequence are 0
    let b = b & ((1u128 << ise_bits(k, n)) - 1);
    let mut pos = 0;
    let mut take = |n: u32| {
        if n == 0 {
            return 0;
        }
        let v = if pos < 128 { at(b, pos, n as usize) } else { 0 };
        pos += n as usize;
        v
    };
    let mut i = 0;
    while i < n {
        match k.base {
            3 => {
                let mut m = [0; 5];
                let mut t = 0;
                let mut sh = 0;
                for (j, l) in [2, 2, 1, 2, 1].into_iter().enumerate() {
                    m[j] = take(k.bits);
                    t |= take(l) << sh;
                    sh += l;
                }
                let d = trits(t);
                for j in 0..5 {
                    if i + j < n {
                        out[i + j] = (m[j], d[j]);
                    }
                }
                i += 5;
            }
            5 => {
                let mut m = [0; 3];
                let mut t = 0;
                let mut sh = 0;
                for (j, l) in [3, 2, 2].into_iter().enumerate() {
                    m[j] = take(k.bits);
                    t |= take(l) << sh;
                    sh += l;
                }
                let d = quints(t);
                for j in 0..3 {
                    if i + j < n {
                        out[i + j] = (m[j], d[j]);
                    }
                }
                i += 3;
            }
            _ => {
                out[i] = (take(k.bits), 0);
                i += 1;
            }
        }
    }
}
/// repeats the n bits of v to fill `to` bits
fn replicate(v: u32, n: u32, to: u32) -> u32 {
    let mut r = 0;
    let mut left = to;
    while left > 0 {
        if left >= n {
            r = r << n | v;
            left -= n;
        } else {
            r = r << left | v >> (n - left);
            left = 0;
        }
    }
    r
}
/// places the letters of a pattern like "cb000cbcb": the bits of m, a lowest
fn pattern(p: &[u8], m: u32) -> u32 {
    let mut r = 0;
    for &c in p {
        r = r << 1 | if c == b'0' { 0 } else { bit(m, (c - b'a') as u32) };
    }
    r
}
pub fn unquant_color((m, d): (u32, u32), k: Quant) -> u32 {
    let (p, c): (&[u8; 9], u32) = match (k.base, k.bits) {
        (3, 1) => (b"000000000", 204),
        (3, 2) => (b"b000b0bb0", 93),
        (3, 3) => (b"cb000cbcb", 44),
        (3, 4) => (b"dcb000dcb", 22),
        (3, 5) => (b"edcb000ed", 11),
        (3, _) => (b"fedcb000f", 5),
        (5, 1) => (b"000000000", 113),
        (5, 2) => (b"b0000bb00", 54),
        (5, 3) => (b"cb0000cbc", 26),
        (5, 4) => (b"dcb0000dc", 13),
        (5, _) => (b"edcb0000e", 6),
        (_, n) => return replicate(m, n, 8),
    };
    let a = if m & 1 != 0 { 0x1ff } else { 0 };
    let t = (d * c + pattern(p, m)) ^ a;
    a & 0x80 | t >> 2
}
pub fn unquant_weight((m, d): (u32, u32), k: Quant) -> u32 {
    let (p, c): (&[u8; 7], u32) = match (k.base, k.bits) {
        (3, 0) => return d * 32,
        (5, 0) => return d * 16,
        (3, 1) => (b"0000000", 50),
        (3, 2) => (b"b000b0b", 23),
        (3, _) => (b"cb000cb", 11),
        (5, 1) => (b"0000000", 28),
        (5, _) => (b"b0000b0", 13),
        (_, n) => {
            let v = replicate(m, n, 6);
            return v + (v > 32) as u32;
        }
    };
    let a = if m & 1 != 0 { 0x7f } else { 0 };
    let t = (d * c + pattern(p, m)) ^ a;
    let v = a & 0x20 | t >> 2;
    v + (v > 32) as u32
}

pub type Col = [i32; 4];
/// endpoint colours of a mode, and whether colour and alpha are HDR
pub fn endpoints(cem: u32, v: &[i32]) -> (Col, Col) {
    let contract = |c: Col| [(c[0] + c[2]) >> 1, (c[1] + c[2]) >> 1, c[2], c[3]];
    let clamp = |c: Col, max: i32| [c[0].clamp(0, max), c[1].clamp(0, max), c[2].clamp(0, max), c[3].clamp(0, max)];
    // (base, offset) of a pair
    let transfer = |i: usize| {
        let (b, a) = (v[i], v[i + 1]);
        let o = a >> 1 & 0x3f;
        (b >> 1 | a & 0x80, if o & 0x20 != 0 { o - 0x40 } else { o })
    };
    let one = 255;
    match cem {
        0 => ([v[0], v[0], v[0], one], [v[1], v[1], v[1], one]),
        1 => {
            let l0 = v[0] >> 2 | v[1] & 0xc0;
            let l1 = (l0 + (v[1] & 0x3f)).min(255);
            ([l0, l0, l0, one], [l1, l1, l1, one])
        }
        2 => {
            let (a, b) = if v[1] >= v[0] { (v[0] << 4, v[1] << 4) } else { ((v[1] << 4) + 8, (v[0] << 4) - 8) };
            ([a, a, a, 0x780], [b, b, b, 0x780])
        }
        3 => {
            let (a, d) = if v[0] & 0x80 != 0 { ((v[1] & 0xe0) << 4 | (v[0] & 0x7f) << 2, (v[1] & 0x1f) << 2) } else { ((v[1] & 0xf0) << 4 | (v[0] & 0x7f) << 1, (v[1] & 0xf) << 1) };
            let b = (a + d).min(0xfff);
            ([a, a, a, 0x780], [b, b, b, 0x780])
        }
        4 => ([v[0], v[0], v[0], v[2]], [v[1], v[1], v[1], v[3]]),
        5 => {
            let ((l, dl), (a, da)) = (transfer(0), transfer(2));
            ([l, l, l, a], clamp([l + dl, l + dl, l + dl, a + da], 255))
        }
        6 | 10 => {
            let s = |i: usize| (v[i] * v[3]) >> 8;
            let (a0, a1) = if cem == 6 { (one, one) } else { (v[4], v[5]) };
            ([s(0), s(1), s(2), a0], [v[0], v[1], v[2], a1])
        }
        7 => hdr_scale(v),
        8 | 12 => {
            let (a0, a1) = if cem == 8 { (one, one) } else { (v[6], v[7]) };
            if v[1] + v[3] + v[5] >= v[0] + v[2] + v[4] {
                ([v[0], v[2], v[4], a0], [v[1], v[3], v[5], a1])
            } else {
                (contract([v[1], v[3], v[5], a1]), contract([v[0], v[2], v[4], a0]))
            }
        }
        9 | 13 => {
            let ((r, dr), (g, dg), (b, db)) = (transfer(0), transfer(2), transfer(4));
            let (a, da) = if cem == 9 { (one, 0) } else { transfer(6) };
            let (lo, hi) = ([r, g, b, a], [r + dr, g + dg, b + db, a + da]);
            if dr + dg + db >= 0 {
                (clamp(lo, 255), clamp(hi, 255))
            } else {
                (clamp(contract(hi), 255), clamp(contract(lo), 255))
            }
        }
        _ => {
            let (mut e0, mut e1) = hdr_direct(v);
            (e0[3], e1[3]) = match cem {
                11 => (0x780, 0x780),
                14 => (v[6], v[7]),
                _ => hdr_alpha(v[6], v[7]),
            };
            (e0, e1)
        }
    }
}
fn bits(v: i32, i: u32) -> i32 {
    v >> i & 1
}
fn hdr_scale(v: &[i32]) -> (Col, Col) {
    let k = bits(v[0], 6) | bits(v[0], 7) << 1 | bits(v[1], 7) << 2 | bits(v[2], 7) << 3;
    let (maj, mode) = if k & 0xc != 0xc {
        (k >> 2, k & 3)
    } else if k != 15 {
        (k & 3, 4)
    } else {
        (0, 5)
    };
    let (mut r, mut g, mut b, mut s) = (v[0] & 0x3f, v[1] & 0x1f, v[2] & 0x1f, v[3] & 0x1f);
    let x = [bits(v[1], 6), bits(v[1], 5), bits(v[2], 6), bits(v[2], 5), bits(v[3], 7), bits(v[3], 6), bits(v[3], 5)];
    let ohm = 1 << mode;
    let on = |set: i32, i: usize, sh: u32| if ohm & set != 0 { x[i] << sh } else { 0 };
    g |= on(0x30, 0, 6) | on(0x3a, 1, 5);
    b |= on(0x30, 2, 6) | on(0x3a, 3, 5);
    s |= on(0x3d, 6, 5) | on(0x2d, 5, 6) | on(0x04, 4, 7);
    r |= on(0x3b, 4, 6) | on(0x04, 3, 6) | on(0x10, 5, 7) | on(0x0f, 2, 7) | on(0x05, 1, 8) | on(0x0a, 0, 8) | on(0x05, 0, 9) | on(0x02, 6, 9) | on(0x01, 3, 10) | on(0x02, 5, 10);
    let sh = if mode == 0 { 1 } else { mode };
    r <<= sh;
    g <<= sh;
    b <<= sh;
    s <<= sh;
    if mode != 5 {
        g = r - g;
        b = r - b;
    }
    let mut c = [r, g, b];
    if maj == 1 {
        c = [g, r, b];
    } else if maj == 2 {
        c = [b, g, r];
    }
    let cl = |x: i32| x.clamp(0, 0xfff);
    ([cl(c[0] - s), cl(c[1] - s), cl(c[2] - s), 0x780], [cl(c[0]), cl(c[1]), cl(c[2]), 0x780])
}
fn hdr_direct(v: &[i32]) -> (Col, Col) {
    let maj = bits(v[4], 7) | bits(v[5], 7) << 1;
    if maj == 3 {
        return ([v[0] << 4, v[2] << 4, (v[4] & 0x7f) << 5, 0], [v[1] << 4, v[3] << 4, (v[5] & 0x7f) << 5, 0]);
    }
    let mode = bits(v[1], 7) | bits(v[2], 7) << 1 | bits(v[3], 7) << 2;
    let mut va = v[0] | bits(v[1], 6) << 8;
    let (mut vb0, mut vb1, mut vc) = (v[2] & 0x3f, v[3] & 0x3f, v[1] & 0x3f);
    let x = [bits(v[2], 6), bits(v[3], 6), bits(v[4], 6), bits(v[5], 6), bits(v[4], 5), bits(v[5], 5)];
    // delta: two's complement of 7, 6 or 5 bits
    let n = match mode {
        0 | 2 => 7,
        4 | 6 => 5,
        _ => 6,
    };
    let delta = |d: i32| {
        let d = d & ((1 << n) - 1);
        if d >> (n - 1) != 0 {
            d - (1 << n)
        } else {
            d
        }
    };
    let (vd0, vd1) = (delta(v[4]), delta(v[5]));
    let ohm = 1 << mode;
    let on = |set: i32, i: usize, sh: u32| if ohm & set != 0 { x[i] << sh } else { 0 };
    va |= on(0xa4, 0, 9) | on(0x08, 2, 9) | on(0x50, 4, 9) | on(0x50, 5, 10) | on(0xa0, 1, 10) | on(0xc0, 2, 11);
    vc |= on(0x04, 1, 6) | on(0xe8, 3, 6) | on(0x20, 2, 7);
    vb0 |= on(0x5b, 0, 6) | on(0x12, 2, 7);
    vb1 |= on(0x5b, 1, 6) | on(0x12, 3, 7);
    let sh = 3 - (mode >> 1);
    let k = 1 << sh;
    let (va, vb0, vb1, vc, vd0, vd1) = (va << sh, vb0 << sh, vb1 << sh, vc << sh, vd0 * k, vd1 * k);
    let cl = |x: i32| x.clamp(0, 0xfff);
    let e1 = [cl(va), cl(va - vb0), cl(va - vb1)];
    let e0 = [cl(va - vc), cl(va - vb0 - vc - vd0), cl(va - vb1 - vc - vd1)];
    let o = |e: [i32; 3]| match maj {
        1 => [e[1], e[0], e[2], 0],
        2 => [e[2], e[1], e[0], 0],
        _ => [e[0], e[1], e[2], 0],
    };
    (o(e0), o(e1))
}
fn hdr_alpha(v6: i32, v7: i32) -> (i32, i32) {
    let mode = bits(v6, 7) | bits(v7, 7) << 1;
    let (a, d) = (v6 & 0x7f, v7 & 0x7f);
    if mode == 3 {
        return (a << 5, d << 5);
    }
    // the base has 8 + mode bits, the delta 6 - mode bits
    let nd = 6 - mode;
    let base = a | (d >> nd) << 7;
    let mut off = d & ((1 << nd) - 1);
    if off >> (nd - 1) != 0 {
        off -= 1 << nd;
    }
    let k = 1 << (4 - mode);
    (base * k, (base * k + off * k).clamp(0, 0xfff))
}
pub fn is_hdr(cem: u32) -> (bool, bool) {
    let c = matches!(cem, 2 | 3 | 7 | 11 | 14 | 15);
    (c, c && cem != 14)
}
/// interpolated channel to 8 bits
pub fn channel(e0: i32, e1: i32, w: i32, hdr: bool) -> u32 {
    if !hdr {
        let c = ((e0 << 8 | e0) * (64 - w) + (e1 << 8 | e1) * w + 32) >> 6;
        // round c / 65536 to 255ths
        ((c * 255 + 32768) / 65536) as u32
    } else {
        let c = (((e0 << 4) * (64 - w) + (e1 << 4) * w + 32) >> 6) as u32;
        let (e, m) = (c >> 11, c & 0x7ff);
        let m = if m < 512 {
            3 * m
        } else if m < 1536 {
            4 * m - 512
        } else {
            5 * m - 2048
        };
        half(e << 10 | m >> 3)
    }
}
/// floor(255 * f) of a half float, clamped to 0..255
pub fn half(h: u32) -> u32 {
    if h >> 15 != 0 {
        return 0;
    }
    let (e, m) = (h >> 10, h & 0x3ff);
    if e >= 15 {
        return 255;
    }
    // value = m' * 2^(max(e, 1) - 25)
    let m = if e == 0 { m } else { m | 0x400 };
    let s = if e == 0 { 1 } else { e };
    (m * 255) >> (25 - s)
}
pub fn nan_or_inf(h: u32) -> bool {
    h >> 10 & 31 == 31
}
fn hash(mut p: u32) -> u32 {
    p ^= p >> 15;
    p = p.wrapping_sub(p << 17);
    p = p.wrapping_add(p << 7);
    p = p.wrapping_add(p << 4);
    p ^= p >> 5;
    p = p.wrapping_add(p << 16);
    p ^= p >> 7;
    p ^= p >> 3;
    p ^= p << 6;
    p ^ p >> 17
}
/// seeds 1..8 and the hash for a partition index
pub fn partition_seeds(index: u32, parts: u32) -> ([u32; 8], u32) {
    let seed = index + (parts - 1) * 1024;
    let r = hash(seed);
    let odd = if seed & 2 != 0 { 4 } else { 5 };
    let other = if parts == 3 { 6 } else { 5 };
    let (sh1, sh2) = if seed & 1 != 0 { (odd, other) } else { (other, odd) };
    let mut s = [0; 8];
    for i in 0..8 {
        let k = r >> (4 * i) & 15;
        s[i] = k * k >> if i % 2 == 0 { sh1 } else { sh2 };
    }
    (s, r)
}
pub fn partition((s, r): &([u32; 8], u32), parts: u32, mut x: u32, mut y: u32, small: bool) -> usize {
    if small {
        x *= 2;
        y *= 2;
    }
    let k = |i: usize, sh: u32| s[i] * x + s[i + 1] * y + (r >> sh) & 63;
    let (a, b) = (k(0, 14), k(2, 10));
    let c = if parts < 3 { 0 } else { k(4, 6) };
    let d = if parts < 4 { 0 } else { k(6, 2) };
    if a >= b && a >= c && a >= d {
        0
    } else if b >= c && b >= d {
        1
    } else if c >= d {
        2
    } else {
        3
    }
}
/// weight of texel (x, y) in one plane
pub fn infill(w: &[i32], c: &Cfg, plane: usize, x: usize, y: usize, bw: usize, bh: usize) -> i32 {
    let grid = |p: usize, size: usize, n: usize| ((1024 + size / 2) / (size - 1) * p * (n - 1) + 32) >> 6;
    let (gs, gt) = (grid(x, bw, c.m.w), grid(y, bh, c.m.h));
    let (js, fs, jt, ft) = (gs >> 4, gs & 15, gt >> 4, gt & 15);
    let w11 = (fs * ft + 8) >> 4;
    let planes = 1 + c.m.dual as usize;
    // neighbours outside the grid have factor 0
    let p = |dx: usize, dy: usize, f: usize| if f == 0 { 0 } else { w[((jt + dy) * c.m.w + js + dx) * planes + plane] * f as i32 };
    (p(0, 0, 16 + w11 - fs - ft) + p(1, 0, fs - w11) + p(0, 1, ft - w11) + p(1, 1, w11) + 8) >> 4
}
pub const ERROR: u32 = 0xffff_00ff;
/// a block which is neither void-extent nor illegal
pub fn decode(b: u128, c: &Cfg, bw: usize, bh: usize, out: &mut [u32]) {
    let mut v = [0i32; 18];
    let mut s = [(0, 0); 64];
    let k = color_quant(c);
    ise(b >> if c.parts == 1 { 17 } else { 29 }, k, c.values, &mut s);
    for i in 0..c.values {
        v[i] = unquant_color(s[i], k) as i32;
    }
    let k = weight_quant(c.m.r, c.m.hp);
    let mut w = [0; 64];
    ise(b.reverse_bits(), k, c.weights, &mut s);
    for i in 0..c.weights {
        w[i] = unquant_weight(s[i], k) as i32;
    }
    let mut e = [([0; 4], [0; 4]); 4];
    let mut hdr = [(false, false); 4];
    let mut p = 0;
    for i in 0..c.parts {
        e[i] = endpoints(c.cem[i], &v[p..]);
        hdr[i] = is_hdr(c.cem[i]);
        p += values(c.cem[i]);
    }
    let seeds = partition_seeds(at(b, 13, 10), c.parts as u32);
    for y in 0..bh {
        for x in 0..bw {
            let i = if c.parts == 1 { 0 } else { partition(&seeds, c.parts as u32, x as u32, y as u32, bw * bh < 31) };
            let w0 = infill(&w, c, 0, x, y, bw, bh);
            let w1 = if c.m.dual { infill(&w, c, 1, x, y, bw, bh) } else { 0 };
            let (mut lo, mut hi, mut h) = (e[0].0, e[0].1, hdr[0]);
            for j in 1..c.parts {
                if i == j {
                    (lo, hi, h) = (e[j].0, e[j].1, hdr[j]);
                }
            }
            let ch = |n: usize| channel(lo[n], hi[n], if c.m.dual && c.plane as usize == n { w1 } else { w0 }, if n < 3 { h.0 } else { h.1 });
            out[y * bw + x] = ch(3) << 24 | ch(0) << 16 | ch(1) << 8 | ch(2);
        }
    }
}
/// any block; NaN and infinity in a void-extent block are not handled
pub fn astc(d: &[u8], bw: usize, bh: usize, out: &mut [u32]) {
    let b = u128::from_le_bytes(d[..16].try_into().unwrap());
    if is_void(b) {
        let k = |i: usize| at(b, 64 + 16 * i, 16);
        let c = if void_illegal(b) {
            ERROR
        } else if at(b, 9, 1) != 0 {
            half(k(3)) << 24 | half(k(0)) << 16 | half(k(1)) << 8 | half(k(2))
        } else {
            (k(3) >> 8) << 24 | (k(0) >> 8) << 16 | (k(1) >> 8) << 8 | k(2) >> 8
        };
        out[..bw * bh].fill(c);
    } else {
        match config(b, bw, bh) {
            None => out[..bw * bh].fill(ERROR),
            Some(c) => decode(b, &c, bw, bh, out),
        }
    }
}
