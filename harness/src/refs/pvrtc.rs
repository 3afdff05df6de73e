//! PVRTC1, per texel, from the format's description (Khronos Data Format Specification, PVRTC1).

/// position of block (x, y) in the data: the bits of y and x interleaved (y lowest) as long as
/// both coordinates have them, then the remaining bits of the longer side
fn order(x: usize, y: usize, nx: usize, ny: usize) -> usize {
    let (mut r, mut pos) = (0, 0);
    let mut bit = 0;
    while (1 << bit) < nx || (1 << bit) < ny {
        if (1 << bit) < ny {
            r |= ((y >> bit) & 1) << pos;
            pos += 1;
        }
        if (1 << bit) < nx {
            r |= ((x >> bit) & 1) << pos;
            pos += 1;
        }
        bit += 1;
    }
    r
}
#[derive(Clone, Copy, Default)]
struct Word {
    m: u32,
    flag: bool,
    a: [u32; 4],
    b: [u32; 4],
}
fn up(v: u32, bits: u32) -> u32 {
    // bit replication to 5 bits
    match bits {
        5 => v,
        4 => v << 1 | v >> 3,
        _ => v << 2 | v >> 1,
    }
}
fn field(c: u32, lo: u32, n: u32) -> u32 {
    c >> lo & ((1 << n) - 1)
}
fn word(d: &[u8]) -> Word {
    let ca = d[4] as u32 | (d[5] as u32) << 8;
    let cb = d[6] as u32 | (d[7] as u32) << 8;
    let a = if ca >> 15 != 0 {
        [field(ca, 10, 5), field(ca, 5, 5), up(field(ca, 1, 4), 4), 15]
    } else {
        [up(field(ca, 8, 4), 4), up(field(ca, 4, 4), 4), up(field(ca, 1, 3), 3), field(ca, 12, 3) << 1]
    };
    let b = if cb >> 15 != 0 {
        [field(cb, 10, 5), field(cb, 5, 5), field(cb, 0, 5), 15]
    } else {
        [up(field(cb, 8, 4), 4), up(field(cb, 4, 4), 4), up(field(cb, 0, 4), 4), field(cb, 12, 3) << 1]
    };
    Word { m: d[0] as u32 | (d[1] as u32) << 8 | (d[2] as u32) << 16 | (d[3] as u32) << 24, flag: ca & 1 != 0, a, b }
}
const STD: [u32; 4] = [0, 3, 5, 8];
/// modulation value the 2bpp block stores for its texel (x, y)
fn stored(w: &Word, x: usize, y: usize) -> u32 {
    if !w.flag {
        return if w.m >> (8 * y + x) & 1 != 0 { 8 } else { 0 };
    }
    let k = 4 * y + x / 2;
    let v = w.m >> (2 * k) & 3;
    // the low bit of the first value and, when it is set, of the one at (4, 2) select the mode
    if k == 0 || k == 10 && w.m & 1 != 0 {
        if v & 2 != 0 {
            8
        } else {
            0
        }
    } else {
        STD[v as usize]
    }
}
pub const MAXB: usize = 32;
pub fn ref_pvrtc(data: &[u8], w: usize, h: usize, two: bool, out: &mut [u32]) {
    let bw = if two { 8 } else { 4 };
    let (nx, ny) = (w / bw + (w % bw != 0) as usize, h / 4 + (h % 4 != 0) as usize);
    let mut words = [Word::default(); MAXB];
    for y in 0..ny {
        for x in 0..nx {
            let k = order(x, y, nx, ny) * 8;
            words[y * nx + x] = word(&data[k..k + 8]);
        }
    }
    for y in 0..h {
        for x in 0..w {
            out[y * w + x] = texel(&words, nx, ny, bw, x, y);
        }
    }
}
fn modulation(words: &[Word; MAXB], nx: usize, ny: usize, x: usize, y: usize) -> u32 {
    let get = |dx: usize, dy: usize| {
        let (x, y) = ((x + nx * 8 + dx - 1) % (nx * 8), (y + ny * 4 + dy - 1) % (ny * 4));
        stored(&words[(y / 4) * nx + x / 8], x % 8, y % 4)
    };
    let w = &words[(y / 4) * nx + x / 8];
    if !w.flag || (x + y) % 2 == 0 {
        return stored(w, x % 8, y % 4);
    }
    let (up, left, right, down) = (get(1, 0), get(0, 1), get(2, 1), get(1, 2));
    if w.m & 1 == 0 {
        (up + down + left + right + 2) / 4
    } else if w.m >> 20 & 1 != 0 {
        (up + down + 1) / 2
    } else {
        (left + right + 1) / 2
    }
}
fn texel(words: &[Word; MAXB], nx: usize, ny: usize, bw: usize, x: usize, y: usize) -> u32 {
    // the colour of a block is that of its texel (bw/2, 2)
    let (gx, gy) = ((x + nx * bw - bw / 2) % (nx * bw), (y + ny * 4 - 2) % (ny * 4));
    let (x0, y0) = (gx / bw, gy / 4);
    let (x1, y1) = ((x0 + 1) % nx, (y0 + 1) % ny);
    let (fx, fy) = ((gx % bw) as u32, (gy % 4) as u32);
    let q = [(x0, y0, (bw as u32 - fx) * (4 - fy)), (x1, y0, fx * (4 - fy)), (x0, y1, (bw as u32 - fx) * fy), (x1, y1, fx * fy)];
    let me = &words[(y / 4) * nx + x / bw];
    let (m, hole) = if bw == 8 {
        (modulation(words, nx, ny, x, y), false)
    } else {
        let v = me.m >> (2 * (4 * (y % 4) + x % 4)) & 3;
        if me.flag {
            ([0, 4, 4, 8][v as usize], v == 2)
        } else {
            (STD[v as usize], false)
        }
    };
    let mut c = [0u32; 4];
    for i in 0..4 {
        let (mut a, mut b) = (0, 0);
        for &(bx, by, f) in &q {
            a += words[by * nx + bx].a[i] * f;
            b += words[by * nx + bx].b[i] * f;
        }
        // scale 5 (alpha 4) bits times 16 or 32 to 8 bits
        let s = |v: u32| match (i < 3, bw == 8) {
            (true, false) => (v >> 1) + (v >> 6),
            (true, true) => (v >> 2) + (v >> 7),
            (false, false) => v + (v >> 4),
            (false, true) => (v >> 1) + (v >> 5),
        };
        c[i] = (s(a) * (8 - m) + s(b) * m) / 8;
    }
    if hole {
        c[3] = 0;
    }
    c[3] << 24 | c[0] << 16 | c[1] << 8 | c[2]
}
