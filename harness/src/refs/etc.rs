//! Reference model of ETC1/ETC2/EAC, written from the Khronos Data Format Specification
//! (fields by bit position in the 64-bit big-endian word).
use super::bc::argb;

struct W(u64);
impl W {
    fn new(d: &[u8]) -> W {
        let mut v = 0u64;
        for i in 0..8 {
            v = (v << 8) | d[i] as u64;
        }
        W(v)
    }
    /// bits hi..=lo as an integer
    fn f(&self, hi: u32, lo: u32) -> i32 {
        ((self.0 >> lo) & ((1u64 << (hi - lo + 1)) - 1)) as i32
    }
}
const fn cl(v: i32) -> u32 {
    if v < 0 {
        0
    } else if v > 255 {
        255
    } else {
        v as u32
    }
}
static MOD: [[i32; 2]; 8] = [[2, 8], [5, 17], [9, 29], [13, 42], [18, 60], [24, 80], [33, 106], [47, 183]];
static DIST: [i32; 8] = [3, 6, 11, 16, 23, 32, 41, 64];
static EAC: [[i32; 8]; 16] = [
    [-3, -6, -9, -15, 2, 5, 8, 14],
    [-3, -7, -10, -13, 2, 6, 9, 12],
    [-2, -5, -8, -13, 1, 4, 7, 12],
    [-2, -4, -6, -13, 1, 3, 5, 12],
    [-3, -6, -8, -12, 2, 5, 7, 11],
    [-3, -7, -9, -11, 2, 6, 8, 10],
    [-4, -7, -8, -11, 3, 6, 7, 10],
    [-3, -5, -8, -11, 2, 4, 7, 10],
    [-2, -6, -8, -10, 1, 5, 7, 9],
    [-2, -5, -8, -10, 1, 4, 7, 9],
    [-2, -4, -8, -10, 1, 3, 7, 9],
    [-2, -5, -7, -10, 1, 4, 6, 9],
    [-3, -4, -7, -10, 2, 3, 6, 9],
    [-1, -2, -3, -10, 0, 1, 2, 9],
    [-4, -6, -8, -9, 3, 5, 7, 8],
    [-3, -5, -7, -9, 2, 4, 6, 8],
];
#[derive(Clone, Copy, PartialEq)]
pub enum Etc {
    Etc1,
    Rgb,
    Rgba1,
}
/// pixel index (2 bits) of texel (x, y)
fn index(w: &W, x: usize, y: usize) -> i32 {
    let k = (4 * x + y) as u32;
    (((w.0 >> (16 + k)) & 1) << 1 | ((w.0 >> k) & 1)) as i32
}
fn x4(v: i32) -> i32 {
    v * 17
}
fn x5(v: i32) -> i32 {
    (v << 3) | (v >> 2)
}
fn x6(v: i32) -> i32 {
    (v << 2) | (v >> 4)
}
fn x7(v: i32) -> i32 {
    (v << 1) | (v >> 6)
}
fn sx3(v: i32) -> i32 {
    if v >= 4 {
        v - 8
    } else {
        v
    }
}
/// 0 individual, 1 differential, 2 T, 3 H, 4 planar
pub fn etc_mode(d: &[u8], kind: Etc) -> u32 {
    let w = W::new(d);
    if kind != Etc::Rgba1 && w.f(33, 33) == 0 {
        return 0;
    }
    let s = |hi: u32| w.f(hi, hi - 4) + sx3(w.f(hi - 5, hi - 7));
    let out = |v: i32| v < 0 || v > 31;
    if out(s(63)) {
        2
    } else if out(s(55)) {
        3
    } else if out(s(47)) {
        4
    } else {
        1
    }
}
/// punch-through texels come out with alpha 0 and unspecified colour: `mask` has 0 there in the colour bits.
pub fn ref_etc(d: &[u8], kind: Etc, out: &mut [u32; 16], mask: &mut [u32; 16]) {
    let w = W::new(d);
    let mode = etc_mode(d, kind);
    let opaque = kind != Etc::Rgba1 || w.f(33, 33) == 1;
    *mask = [!0; 16];
    if kind != Etc::Etc1 && mode == 4 {
        let o = [x6(w.f(62, 57)), x7(w.f(56, 56) << 6 | w.f(54, 49)), x6(w.f(48, 48) << 5 | w.f(44, 43) << 3 | w.f(41, 39))];
        let h = [x6(w.f(38, 34) << 1 | w.f(32, 32)), x7(w.f(31, 25)), x6(w.f(24, 19))];
        let v = [x6(w.f(18, 13)), x7(w.f(12, 6)), x6(w.f(5, 0))];
        for y in 0..4 {
            for x in 0..4 {
                let mut c = [0u32; 3];
                for k in 0..3 {
                    c[k] = cl((x as i32 * (h[k] - o[k]) + y as i32 * (v[k] - o[k]) + 4 * o[k] + 2) >> 2);
                }
                out[4 * y + x] = argb(c[0], c[1], c[2], 255);
            }
        }
        return;
    }
    let paint = |p: &[[i32; 3]; 4], out: &mut [u32; 16], mask: &mut [u32; 16]| {
        for y in 0..4 {
            for x in 0..4 {
                let s = index(&w, x, y) as usize;
                let c = p[s];
                let t = !opaque && s == 2;
                out[4 * y + x] = argb(cl(c[0]), cl(c[1]), cl(c[2]), if t { 0 } else { 255 });
                if t {
                    mask[4 * y + x] = 0xff00_0000;
                }
            }
        }
    };
    if kind != Etc::Etc1 && mode == 2 {
        let a = [x4(w.f(60, 59) << 2 | w.f(57, 56)), x4(w.f(55, 52)), x4(w.f(51, 48))];
        let b = [x4(w.f(47, 44)), x4(w.f(43, 40)), x4(w.f(39, 36))];
        let e = DIST[(w.f(35, 34) << 1 | w.f(32, 32)) as usize];
        let p = [a, [b[0] + e, b[1] + e, b[2] + e], b, [b[0] - e, b[1] - e, b[2] - e]];
        paint(&p, out, mask);
        return;
    }
    if kind != Etc::Etc1 && mode == 3 {
        let a4 = [w.f(62, 59), w.f(58, 56) << 1 | w.f(52, 52), w.f(51, 51) << 3 | w.f(49, 47)];
        let b4 = [w.f(46, 43), w.f(42, 39), w.f(38, 35)];
        let va = a4[0] << 8 | a4[1] << 4 | a4[2];
        let vb = b4[0] << 8 | b4[1] << 4 | b4[2];
        let e = DIST[(w.f(34, 34) << 2 | w.f(32, 32) << 1 | (va >= vb) as i32) as usize];
        let a = [x4(a4[0]), x4(a4[1]), x4(a4[2])];
        let b = [x4(b4[0]), x4(b4[1]), x4(b4[2])];
        let p = [[a[0] + e, a[1] + e, a[2] + e], [a[0] - e, a[1] - e, a[2] - e], [b[0] + e, b[1] + e, b[2] + e], [b[0] - e, b[1] - e, b[2] - e]];
        paint(&p, out, mask);
        return;
    }
    // individual and differential
    let mut base = [[0i32; 3]; 2];
    for k in 0..3 {
        let hi = 63 - 8 * k as u32;
        if mode == 0 {
            base[0][k] = x4(w.f(hi, hi - 3));
            base[1][k] = x4(w.f(hi - 4, hi - 7));
        } else {
            let a = w.f(hi, hi - 4);
            base[0][k] = x5(a);
            base[1][k] = x5((a + sx3(w.f(hi - 5, hi - 7))) & 31);
        }
    }
    let t = [w.f(39, 37) as usize, w.f(36, 34) as usize];
    let flip = w.f(32, 32) == 1;
    for y in 0..4 {
        for x in 0..4 {
            let second = if flip { y >= 2 } else { x >= 2 } as usize;
            let i = index(&w, x, y);
            let mut m = MOD[t[second]][(i & 1) as usize];
            if !opaque && i & 1 == 0 {
                m = 0;
            }
            if i >= 2 {
                m = -m;
            }
            let c = base[second];
            let tr = !opaque && i == 2;
            out[4 * y + x] = argb(cl(c[0] + m), cl(c[1] + m), cl(c[2] + m), if tr { 0 } else { 255 });
            if tr {
                mask[4 * y + x] = 0xff00_0000;
            }
        }
    }
}
fn eac_index(w: &W, x: usize, y: usize) -> usize {
    let k = 4 * x + y;
    ((w.0 >> (45 - 3 * k)) & 7) as usize
}
/// ETC2 RGBA8 alpha half
pub fn ref_eac_alpha(d: &[u8], out: &mut [u32; 16]) {
    let w = W::new(d);
    let (base, mul, t) = (w.f(63, 56), w.f(55, 52), w.f(51, 48) as usize);
    for y in 0..4 {
        for x in 0..4 {
            out[4 * y + x] = cl(base + mul * EAC[t][eac_index(&w, x, y)]);
        }
    }
}
/// EAC R11: 11-bit value reduced to 8 bits (unsigned: 0..2047 >> 3, signed: (v + 1023) >> 3)
pub fn ref_eac_r11(d: &[u8], signed: bool, out: &mut [u32; 16]) {
    let w = W::new(d);
    let (mut base, mul, t) = (w.f(63, 56), w.f(55, 52), w.f(51, 48) as usize);
    if signed && base >= 128 {
        base -= 256;
        if base == -128 {
            base = -127;
        }
    }
    let m8 = if mul == 0 { 1 } else { 8 * mul };
    for y in 0..4 {
        for x in 0..4 {
            let mut v = base * 8 + m8 * EAC[t][eac_index(&w, x, y)];
            if signed {
                v = if v < -1023 {
                    -1023
                } else if v > 1023 {
                    1023
                } else {
                    v
                };
                out[4 * y + x] = ((v + 1023) >> 3) as u32;
            } else {
                v += 4;
                v = if v < 0 {
                    0
                } else if v > 2047 {
                    2047
                } else {
                    v
                };
                out[4 * y + x] = (v >> 3) as u32;
            }
        }
    }
}
