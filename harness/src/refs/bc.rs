//! Reference models of BC1-BC7 and ATC, written from the format specifications.
use super::bptc::*;

pub fn argb(r: u32, g: u32, b: u32, a: u32) -> u32 {
    (a << 24) | (r << 16) | (g << 8) | b
}
fn ex565(c: u32) -> [u32; 3] {
    let r = (c >> 11) & 31;
    let g = (c >> 5) & 63;
    let b = c & 31;
    [(r << 3) | (r >> 2), (g << 2) | (g >> 4), (b << 3) | (b >> 2)]
}
#[derive(Clone, Copy, PartialEq)]
pub enum Bc1 {
    Opaque,
    Punch,
    FourColour,
}
/// colour block of BC1 (opaque / punch-through) and of BC2/BC3 (always four colours)
pub fn ref_bc1(d: &[u8], kind: Bc1, out: &mut [u32; 16]) {
    let c0 = d[0] as u32 | (d[1] as u32) << 8;
    let c1 = d[2] as u32 | (d[3] as u32) << 8;
    let e0 = ex565(c0);
    let e1 = ex565(c1);
    let four = kind == Bc1::FourColour || c0 > c1;
    let mut pal = [0u32; 4];
    pal[0] = argb(e0[0], e0[1], e0[2], 255);
    pal[1] = argb(e1[0], e1[1], e1[2], 255);
    if four {
        pal[2] = argb((2 * e0[0] + e1[0]) / 3, (2 * e0[1] + e1[1]) / 3, (2 * e0[2] + e1[2]) / 3, 255);
        pal[3] = argb((e0[0] + 2 * e1[0]) / 3, (e0[1] + 2 * e1[1]) / 3, (e0[2] + 2 * e1[2]) / 3, 255);
    } else {
        pal[2] = argb((e0[0] + e1[0]) / 2, (e0[1] + e1[1]) / 2, (e0[2] + e1[2]) / 2, 255);
        pal[3] = if kind == Bc1::Punch { 0 } else { argb(0, 0, 0, 255) };
    }
    for i in 0..16 {
        let s = (d[4 + i / 4] >> (2 * (i % 4))) & 3;
        out[i] = pal[s as usize];
    }
}
/// BC3 alpha / BC4 / ATC alpha: the 16 interpolated 8-bit values
pub fn ref_ramp(d: &[u8], out: &mut [u32; 16]) {
    let a0 = d[0] as u32;
    let a1 = d[1] as u32;
    let mut v = [0u32; 8];
    v[0] = a0;
    v[1] = a1;
    if a0 > a1 {
        for k in 1..7u32 {
            v[1 + k as usize] = ((7 - k) * a0 + k * a1) / 7;
        }
    } else {
        for k in 1..5u32 {
            v[1 + k as usize] = ((5 - k) * a0 + k * a1) / 5;
        }
        v[6] = 0;
        v[7] = 255;
    }
    let mut bits = 0u64;
    for k in 0..6 {
        bits |= (d[2 + k] as u64) << (8 * k);
    }
    for i in 0..16 {
        out[i] = v[((bits >> (3 * i)) & 7) as usize];
    }
}
fn with_alpha(o: &mut [u32; 16], a: &[u32; 16]) {
    for i in 0..16 {
        o[i] = (o[i] & 0x00ff_ffff) | (a[i] << 24);
    }
}
pub fn ref_bc2(d: &[u8], out: &mut [u32; 16]) {
    ref_bc1(&d[8..], Bc1::FourColour, out);
    let mut a = [0u32; 16];
    for i in 0..16 {
        a[i] = ((d[i / 2] as u32 >> (4 * (i % 2))) & 15) * 17;
    }
    with_alpha(out, &a);
}
pub fn ref_bc3(d: &[u8], out: &mut [u32; 16]) {
    ref_bc1(&d[8..], Bc1::FourColour, out);
    let mut a = [0u32; 16];
    ref_ramp(d, &mut a);
    with_alpha(out, &a);
}

// ---- ATC
pub fn ref_atc_rgb(d: &[u8], out: &mut [u32; 16]) {
    let c0 = d[0] as u32 | (d[1] as u32) << 8;
    let c1 = d[2] as u32 | (d[3] as u32) << 8;
    let x5 = |v: u32| (v << 3) | (v >> 2);
    let e0 = [x5((c0 >> 10) & 31), x5((c0 >> 5) & 31), x5(c0 & 31)];
    let e1 = ex565(c1);
    let mut p = [[0u32; 3]; 4];
    for k in 0..3 {
        p[3][k] = e1[k];
        if c0 & 0x8000 == 0 {
            p[0][k] = e0[k];
            p[1][k] = (5 * e0[k] + 3 * e1[k]) / 8;
            p[2][k] = (3 * e0[k] + 5 * e1[k]) / 8;
        } else {
            p[0][k] = 0;
            p[1][k] = e0[k].saturating_sub(e1[k] / 4);
            p[2][k] = e0[k];
        }
    }
    for i in 0..16 {
        let s = ((d[4 + i / 4] >> (2 * (i % 4))) & 3) as usize;
        out[i] = argb(p[s][0], p[s][1], p[s][2], 255);
    }
}
pub fn ref_atc_rgba(d: &[u8], out: &mut [u32; 16]) {
    ref_atc_rgb(&d[8..], out);
    let mut a = [0u32; 16];
    ref_ramp(d, &mut a);
    with_alpha(out, &a);
}

// ---- BC7
pub struct Bits {
    pub v: u128,
    pub pos: u32,
}
impl Bits {
    pub fn new(d: &[u8]) -> Bits {
        let mut b = [0u8; 16];
        b.copy_from_slice(&d[..16]);
        Bits { v: u128::from_le_bytes(b), pos: 0 }
    }
    pub fn get(&mut self, n: u32) -> u32 {
        if n == 0 {
            return 0;
        }
        let r = (self.v >> self.pos) as u32 & ((1u32 << n) - 1);
        self.pos += n;
        r
    }
}
//             subsets partbits rot isel cb ab  endpoint-p shared-p ib ib2
static BC7: [[u32; 10]; 8] = [
    [3, 4, 0, 0, 4, 0, 1, 0, 3, 0],
    [2, 6, 0, 0, 6, 0, 0, 1, 3, 0],
    [3, 6, 0, 0, 5, 0, 0, 0, 2, 0],
    [2, 6, 0, 0, 7, 0, 1, 0, 2, 0],
    [1, 0, 2, 1, 5, 6, 0, 0, 2, 3],
    [1, 0, 2, 0, 7, 8, 0, 0, 2, 2],
    [1, 0, 0, 0, 7, 7, 1, 0, 4, 0],
    [2, 6, 0, 0, 5, 5, 1, 0, 2, 0],
];
fn weight(bits: u32, i: u32) -> u32 {
    (match bits {
        2 => W2[i as usize & 3],
        3 => W3[i as usize & 7],
        _ => W4[i as usize & 15],
    }) as u32
}
/// `mode`: the (concrete) position of the lowest set bit of the block
pub fn ref_bc7(d: &[u8], mode: usize, out: &mut [u32; 16]) {
    if mode == 8 {
        *out = [0; 16];
        return;
    }
    let [ns, pb, rb, isb, cb, ab, epb, spb, ib, ib2] = BC7[mode];
    let mut r = Bits::new(d);
    r.pos = mode as u32 + 1;
    let part = r.get(pb);
    let rot = r.get(rb);
    let isel = r.get(isb);
    let ne = 2 * ns as usize;
    let mut ep = [[255u32; 4]; 6];
    for c in 0..3 {
        for e in 0..ne {
            ep[e][c] = r.get(cb);
        }
    }
    if ab > 0 {
        for e in 0..ne {
            ep[e][3] = r.get(ab);
        }
    }
    let mut p = [0u32; 6];
    if epb > 0 {
        for e in 0..ne {
            p[e] = r.get(1);
        }
    }
    if spb > 0 {
        for s in 0..ns as usize {
            p[2 * s] = r.get(1);
            p[2 * s + 1] = p[2 * s];
        }
    }
    let hasp = epb + spb;
    let expand = |v: u32, p: u32, b: u32| {
        let (v, b) = if hasp > 0 { ((v << 1) | p, b + 1) } else { (v, b) };
        let w = v << (8 - b);
        w | (w >> b)
    };
    for e in 0..ne {
        for c in 0..3 {
            ep[e][c] = expand(ep[e][c], p[e], cb);
        }
        if ab > 0 {
            ep[e][3] = expand(ep[e][3], p[e], ab);
        }
    }
    let ix = r.v >> r.pos; // index data
    let mut o1 = 0u32;
    let mut o2 = 16 * ib - 1; // only used with one subset
    for i in 0..16usize {
        let (sub, anchor) = match ns {
            1 => (0, i == 0),
            2 => {
                let s = (P2[part as usize] as u32 >> i) & 1;
                (s, i == 0 || i == A2[part as usize] as usize)
            }
            _ => {
                let s = (P3[part as usize] >> (2 * i)) & 3;
                (s, i == 0 || i == A3[0][part as usize] as usize || i == A3[1][part as usize] as usize)
            }
        };
        let n1 = ib - anchor as u32;
        let i1 = (ix >> o1) as u32 & ((1 << n1) - 1);
        o1 += n1;
        let mut wc = weight(ib, i1);
        let mut wa = wc;
        if ib2 > 0 {
            let n2 = ib2 - anchor as u32;
            let i2 = (ix >> o2) as u32 & ((1 << n2) - 1);
            o2 += n2;
            wa = weight(ib2, i2);
            if isel == 1 {
                core::mem::swap(&mut wa, &mut wc);
            }
        }
        let s = 2 * sub as usize;
        let lerp = |a: u32, b: u32, w: u32| ((64 - w) * a + w * b + 32) >> 6;
        let mut c = [0u32; 4];
        for k in 0..4 {
            c[k] = lerp(ep[s][k], ep[s + 1][k], if k == 3 { wa } else { wc });
        }
        let c = match rot {
            1 => [c[3], c[1], c[2], c[0]],
            2 => [c[0], c[3], c[2], c[1]],
            3 => [c[0], c[1], c[3], c[2]],
            _ => c,
        };
        out[i] = argb(c[0], c[1], c[2], c[3]);
    }
}

// ---- BC6H
// endpoint fields: letter r/g/b and w/x/y/z (endpoint 0..3), then bit ranges in block order
#[derive(Clone, Copy)]
pub struct F(pub u8, pub u8, pub u8, pub u8); // channel, endpoint, first bit, last bit (in stream order)
const fn f(s: &[u8; 2], a: u8, b: u8) -> F {
    F(
        match s[0] {
            b'r' => 0,
            b'g' => 1,
            _ => 2,
        },
        match s[1] {
            b'w' => 0,
            b'x' => 1,
            b'y' => 2,
            _ => 3,
        },
        a,
        b,
    )
}
pub struct M6 {
    pub code: u8,
    pub nbits: u32,
    pub transformed: bool,
    pub two: bool,
    pub ep: u32,
    pub delta: [u32; 3],
    pub layout: &'static [F],
}
pub static BC6: [M6; 14] = [
    M6 { code: 0, nbits: 2, transformed: true, two: true, ep: 10, delta: [5, 5, 5], layout: &[
        f(b"gy", 4, 4), f(b"by", 4, 4), f(b"bz", 4, 4), f(b"rw", 0, 9), f(b"gw", 0, 9), f(b"bw", 0, 9),
        f(b"rx", 0, 4), f(b"gz", 4, 4), f(b"gy", 0, 3), f(b"gx", 0, 4), f(b"bz", 0, 0), f(b"gz", 0, 3),
        f(b"bx", 0, 4), f(b"bz", 1, 1), f(b"by", 0, 3), f(b"ry", 0, 4), f(b"bz", 2, 2), f(b"rz", 0, 4), f(b"bz", 3, 3)] },
    M6 { code: 1, nbits: 2, transformed: true, two: true, ep: 7, delta: [6, 6, 6], layout: &[
        f(b"gy", 5, 5), f(b"gz", 4, 4), f(b"gz", 5, 5), f(b"rw", 0, 6), f(b"bz", 0, 0), f(b"bz", 1, 1), f(b"by", 4, 4),
        f(b"gw", 0, 6), f(b"by", 5, 5), f(b"bz", 2, 2), f(b"gy", 4, 4), f(b"bw", 0, 6), f(b"bz", 3, 3), f(b"bz", 5, 5),
        f(b"bz", 4, 4), f(b"rx", 0, 5), f(b"gy", 0, 3), f(b"gx", 0, 5), f(b"gz", 0, 3), f(b"bx", 0, 5), f(b"by", 0, 3),
        f(b"ry", 0, 5), f(b"rz", 0, 5)] },
    M6 { code: 2, nbits: 5, transformed: true, two: true, ep: 11, delta: [5, 4, 4], layout: &[
        f(b"rw", 0, 9), f(b"gw", 0, 9), f(b"bw", 0, 9), f(b"rx", 0, 4), f(b"rw", 10, 10), f(b"gy", 0, 3), f(b"gx", 0, 3),
        f(b"gw", 10, 10), f(b"bz", 0, 0), f(b"gz", 0, 3), f(b"bx", 0, 3), f(b"bw", 10, 10), f(b"bz", 1, 1), f(b"by", 0, 3),
        f(b"ry", 0, 4), f(b"bz", 2, 2), f(b"rz", 0, 4), f(b"bz", 3, 3)] },
    M6 { code: 6, nbits: 5, transformed: true, two: true, ep: 11, delta: [4, 5, 4], layout: &[
        f(b"rw", 0, 9), f(b"gw", 0, 9), f(b"bw", 0, 9), f(b"rx", 0, 3), f(b"rw", 10, 10), f(b"gz", 4, 4), f(b"gy", 0, 3),
        f(b"gx", 0, 4), f(b"gw", 10, 10), f(b"gz", 0, 3), f(b"bx", 0, 3), f(b"bw", 10, 10), f(b"bz", 1, 1), f(b"by", 0, 3),
        f(b"ry", 0, 3), f(b"bz", 0, 0), f(b"bz", 2, 2), f(b"rz", 0, 3), f(b"gy", 4, 4), f(b"bz", 3, 3)] },
    M6 { code: 10, nbits: 5, transformed: true, two: true, ep: 11, delta: [4, 4, 5], layout: &[
        f(b"rw", 0, 9), f(b"gw", 0, 9), f(b"bw", 0, 9), f(b"rx", 0, 3), f(b"rw", 10, 10), f(b"by", 4, 4), f(b"gy", 0, 3),
        f(b"gx", 0, 3), f(b"gw", 10, 10), f(b"bz", 0, 0), f(b"gz", 0, 3), f(b"bx", 0, 4), f(b"bw", 10, 10), f(b"by", 0, 3),
        f(b"ry", 0, 3), f(b"bz", 1, 1), f(b"bz", 2, 2), f(b"rz", 0, 3), f(b"bz", 4, 4), f(b"bz", 3, 3)] },
    M6 { code: 14, nbits: 5, transformed: true, two: true, ep: 9, delta: [5, 5, 5], layout: &[
        f(b"rw", 0, 8), f(b"by", 4, 4), f(b"gw", 0, 8), f(b"gy", 4, 4), f(b"bw", 0, 8), f(b"bz", 4, 4), f(b"rx", 0, 4),
        f(b"gz", 4, 4), f(b"gy", 0, 3), f(b"gx", 0, 4), f(b"bz", 0, 0), f(b"gz", 0, 3), f(b"bx", 0, 4), f(b"bz", 1, 1),
        f(b"by", 0, 3), f(b"ry", 0, 4), f(b"bz", 2, 2), f(b"rz", 0, 4), f(b"bz", 3, 3)] },
    M6 { code: 18, nbits: 5, transformed: true, two: true, ep: 8, delta: [6, 5, 5], layout: &[
        f(b"rw", 0, 7), f(b"gz", 4, 4), f(b"by", 4, 4), f(b"gw", 0, 7), f(b"bz", 2, 2), f(b"gy", 4, 4), f(b"bw", 0, 7),
        f(b"bz", 3, 3), f(b"bz", 4, 4), f(b"rx", 0, 5), f(b"gy", 0, 3), f(b"gx", 0, 4), f(b"bz", 0, 0), f(b"gz", 0, 3),
        f(b"bx", 0, 4), f(b"bz", 1, 1), f(b"by", 0, 3), f(b"ry", 0, 5), f(b"rz", 0, 5)] },
    M6 { code: 22, nbits: 5, transformed: true, two: true, ep: 8, delta: [5, 6, 5], layout: &[
        f(b"rw", 0, 7), f(b"bz", 0, 0), f(b"by", 4, 4), f(b"gw", 0, 7), f(b"gy", 5, 5), f(b"gy", 4, 4), f(b"bw", 0, 7),
        f(b"gz", 5, 5), f(b"bz", 4, 4), f(b"rx", 0, 4), f(b"gz", 4, 4), f(b"gy", 0, 3), f(b"gx", 0, 5), f(b"gz", 0, 3),
        f(b"bx", 0, 4), f(b"bz", 1, 1), f(b"by", 0, 3), f(b"ry", 0, 4), f(b"bz", 2, 2), f(b"rz", 0, 4), f(b"bz", 3, 3)] },
    M6 { code: 26, nbits: 5, transformed: true, two: true, ep: 8, delta: [5, 5, 6], layout: &[
        f(b"rw", 0, 7), f(b"bz", 1, 1), f(b"by", 4, 4), f(b"gw", 0, 7), f(b"by", 5, 5), f(b"gy", 4, 4), f(b"bw", 0, 7),
        f(b"bz", 5, 5), f(b"bz", 4, 4), f(b"rx", 0, 4), f(b"gz", 4, 4), f(b"gy", 0, 3), f(b"gx", 0, 4), f(b"bz", 0, 0),
        f(b"gz", 0, 3), f(b"bx", 0, 5), f(b"by", 0, 3), f(b"ry", 0, 4), f(b"bz", 2, 2), f(b"rz", 0, 4), f(b"bz", 3, 3)] },
    M6 { code: 30, nbits: 5, transformed: false, two: true, ep: 6, delta: [6, 6, 6], layout: &[
        f(b"rw", 0, 5), f(b"gz", 4, 4), f(b"bz", 0, 0), f(b"bz", 1, 1), f(b"by", 4, 4), f(b"gw", 0, 5), f(b"gy", 5, 5),
        f(b"by", 5, 5), f(b"bz", 2, 2), f(b"gy", 4, 4), f(b"bw", 0, 5), f(b"gz", 5, 5), f(b"bz", 3, 3), f(b"bz", 5, 5),
        f(b"bz", 4, 4), f(b"rx", 0, 5), f(b"gy", 0, 3), f(b"gx", 0, 5), f(b"gz", 0, 3), f(b"bx", 0, 5), f(b"by", 0, 3),
        f(b"ry", 0, 5), f(b"rz", 0, 5)] },
    M6 { code: 3, nbits: 5, transformed: false, two: false, ep: 10, delta: [10, 10, 10], layout: &[
        f(b"rw", 0, 9), f(b"gw", 0, 9), f(b"bw", 0, 9), f(b"rx", 0, 9), f(b"gx", 0, 9), f(b"bx", 0, 9)] },
    M6 { code: 7, nbits: 5, transformed: true, two: false, ep: 11, delta: [9, 9, 9], layout: &[
        f(b"rw", 0, 9), f(b"gw", 0, 9), f(b"bw", 0, 9), f(b"rx", 0, 8), f(b"rw", 10, 10), f(b"gx", 0, 8), f(b"gw", 10, 10),
        f(b"bx", 0, 8), f(b"bw", 10, 10)] },
    M6 { code: 11, nbits: 5, transformed: true, two: false, ep: 12, delta: [8, 8, 8], layout: &[
        f(b"rw", 0, 9), f(b"gw", 0, 9), f(b"bw", 0, 9), f(b"rx", 0, 7), f(b"rw", 11, 10), f(b"gx", 0, 7), f(b"gw", 11, 10),
        f(b"bx", 0, 7), f(b"bw", 11, 10)] },
    M6 { code: 15, nbits: 5, transformed: true, two: false, ep: 16, delta: [4, 4, 4], layout: &[
        f(b"rw", 0, 9), f(b"gw", 0, 9), f(b"bw", 0, 9), f(b"rx", 0, 3), f(b"rw", 15, 10), f(b"gx", 0, 3), f(b"gw", 15, 10),
        f(b"bx", 0, 3), f(b"bw", 15, 10)] },
];
pub static BC6_RESERVED: [u8; 4] = [0b10011, 0b10111, 0b11011, 0b11111];

fn sext(v: i32, bits: u32) -> i32 {
    (v << (32 - bits)) >> (32 - bits)
}
fn unq6(x: i32, bits: u32, signed: bool) -> i32 {
    if !signed {
        if bits >= 15 || x == 0 {
            x
        } else if x == (1 << bits) - 1 {
            0xffff
        } else {
            ((x << 15) + 0x4000) >> (bits - 1)
        }
    } else {
        if bits >= 16 {
            return x;
        }
        let neg = x < 0;
        let m = if neg { -x } else { x };
        let u = if m == 0 {
            0
        } else if m >= (1 << (bits - 1)) - 1 {
            0x7fff
        } else {
            ((m << 15) + 0x4000) >> (bits - 1)
        };
        if neg {
            -u
        } else {
            u
        }
    }
}
/// half float (bit pattern) to 8 bits: floor(clamp(value * 255, 0, 255)), in exact integer arithmetic
pub fn half_to_u8(h: u32) -> u32 {
    let e = (h >> 10) & 31;
    let m = h & 0x3ff;
    if h & 0x8000 != 0 {
        return 0;
    }
    if e >= 15 {
        return 255;
    }
    // value = sig * 2^(e-25), sig = 1024+m (e>0); subnormals are below 2^-14
    if e == 0 {
        return 0;
    }
    let sig = 1024 + m;
    // e <= 14: value*255 = sig*255 >> (25-e)
    (sig * 255) >> (25 - e)
}
/// `k`: 0..14 = row of BC6, 14.. = reserved
pub fn ref_bc6(d: &[u8], k: usize, signed: bool, out: &mut [u32; 16]) {
    if k >= 14 {
        *out = [argb(0, 0, 0, 255); 16];
        return;
    }
    let m = &BC6[k];
    let mut r = Bits::new(d);
    r.pos = m.nbits;
    let mut ep = [[0i32; 4]; 3]; // [channel][endpoint]
    for &F(c, e, a, b) in m.layout {
        let mut i = a as i32;
        loop {
            ep[c as usize][e as usize] |= (r.get(1) as i32) << i;
            if i == b as i32 {
                break;
            }
            i += if a < b { 1 } else { -1 };
        }
    }
    let part = if m.two { r.get(5) } else { 0 };
    let ne = if m.two { 4 } else { 2 };
    for c in 0..3 {
        if signed {
            ep[c][0] = sext(ep[c][0], m.ep);
        }
        for e in 1..ne {
            if m.transformed {
                let v = ep[c][0] + sext(ep[c][e], m.delta[c]);
                ep[c][e] = if signed { sext(v, m.ep) } else { v & ((1 << m.ep) - 1) };
            } else if signed {
                ep[c][e] = sext(ep[c][e], m.ep);
            }
        }
        for e in 0..ne {
            ep[c][e] = unq6(ep[c][e], m.ep, signed);
        }
    }
    let ib = if m.two { 3 } else { 4 };
    let mut ix = r.v >> r.pos;
    for i in 0..16usize {
        let (s, anchor) = if m.two {
            ((P2[part as usize] as usize >> i) & 1, i == 0 || i == A2[part as usize] as usize)
        } else {
            (0, i == 0)
        };
        let n = ib - anchor as u32;
        let w = weight(ib, ix as u32 & ((1 << n) - 1)) as i32;
        ix >>= n;
        let mut px = [0u32; 3];
        for c in 0..3 {
            let v = (ep[c][2 * s] * (64 - w) + ep[c][2 * s + 1] * w + 32) >> 6;
            let h = if !signed {
                ((v * 31) >> 6) as u32
            } else if v < 0 {
                0x8000 | ((-v * 31) >> 5) as u32
            } else {
                ((v * 31) >> 5) as u32
            };
            px[c] = half_to_u8(h);
        }
        out[i] = argb(px[0], px[1], px[2], 255);
    }
}
