//! Crunch and Unity Crunch files (C20 to C24). Files are assembled here: a concrete skeleton with symbolic parts.
use crate::refs::crunch::*;
use crate::vp::*;
use texture2ddecoder as t;

const CAP: usize = 2400;
struct W {
    b: [u8; CAP],
    pos: usize,
}
impl W {
    fn new() -> W {
        W { b: [0; CAP], pos: 0 }
    }
    fn bits(&mut self, v: u32, n: usize) {
        for i in (0..n).rev() {
            self.b[self.pos >> 3] |= ((v >> i & 1) as u8) << (7 - (self.pos & 7));
            self.pos += 1;
        }
    }
    fn be(&mut self, o: usize, v: usize, n: usize) {
        for i in 0..n {
            self.b[o + i] = (v >> (8 * (n - 1 - i))) as u8;
        }
    }
    fn align(&mut self) -> usize {
        self.pos = (self.pos + 7) & !7;
        self.pos >> 3
    }
    /// 21 code length codes of 5 bits each: the code of symbol s is s
    fn lens_header(&mut self, n: usize) {
        self.bits(n as u32, 14);
        self.bits(21, 5);
        for _ in 0..21 {
            self.bits(5, 3);
        }
    }
    /// the model with the given code lengths, runs where they fit
    fn model(&mut self, n: usize, len: &dyn Fn(usize) -> usize) {
        self.lens_header(n);
        let mut i = 0;
        while i < n {
            let l = len(i);
            self.bits(l as u32, 5);
            i += 1;
            let mut run = 0;
            while i + run < n && run < if l == 0 { 138 } else { 70 } && len(i + run) == l {
                run += 1;
            }
            if l == 0 {
                if run >= 11 {
                    self.bits(18, 5);
                    self.bits(run as u32 - 11, 7);
                    i += run;
                } else if run >= 3 {
                    self.bits(17, 5);
                    self.bits(run as u32 - 3, 3);
                    i += run;
                }
            } else if run >= 7 {
                self.bits(20, 5);
                self.bits(run as u32 - 7, 6);
                i += run;
            } else if run >= 3 {
                self.bits(19, 5);
                self.bits(run as u32 - 3, 2);
                i += run;
            }
        }
    }
    /// shape 0: equal lengths; 1: the first symbol has a 1-bit code, the others one bit more than needed
    fn shaped(&mut self, n: usize, shape: usize) {
        let l = log2(n);
        self.model(n, &|i| if shape == 0 { l } else if i == 0 { 1 } else { l + 1 });
    }
    /// symbolic bits up to the next byte boundary, then n symbolic bytes
    fn symbolic(&mut self, n: usize) {
        let mut s = [0u8; 256];
        sym(&mut s[..n + 1]);
        let i = self.pos >> 3;
        self.b[i] |= s[0] & (0xff >> (self.pos & 7));
        self.b[i + 1..i + 1 + n].copy_from_slice(&s[1..1 + n]);
        self.pos = (i + 1 + n) * 8;
    }
    /// n symbolic bits
    fn any(&mut self, n: usize) {
        for _ in 0..n {
            let b = sym_u8() & 1;
            self.b[self.pos >> 3] |= b << (7 - (self.pos & 7));
            self.pos += 1;
        }
    }
    /// k fixed symbols of models (in turn) with equal code lengths
    fn fixed(&mut self, k: usize, n: &[usize]) {
        for i in 0..k {
            let n = n[i % n.len()];
            self.bits(((i * 73 + 41 + i * i) % n) as u32, log2(n));
        }
    }
}
fn log2(n: usize) -> usize {
    let mut l = 1;
    while (1 << l) < n {
        l += 1;
    }
    l
}

/// sizes in texels: one block, one chunk, odd block counts in x, y, both, two rows of chunks
const SIZES: [(usize, usize); 8] = [(4, 4), (8, 8), (12, 8), (8, 12), (12, 12), (5, 3), (4, 16), (20, 12)];

struct Cfg {
    unity: bool,
    format: usize,
    w: usize,
    h: usize,
    faces: usize,
    /// entries of the four palettes
    n: [usize; 4],
    shape: [usize; 5],
    fixed: [bool; 5],
    /// bytes after the models in each palette section and in the level, symbolic unless fixed
    sym: [usize; 5],
    /// first bits of the level: the symbol of the chunk encodings or endpoint references
    first: Option<u32>,
    /// the chunk encodings or endpoint references are chosen by this number, everything else in the level is symbolic
    seed: Option<usize>,
}

fn level_with(f: &mut W, c: &Cfg, seed: usize) {
    let (bx, by) = ((c.w + 3) / 4, (c.h + 3) / 4);
    let mut r = (seed as u32).wrapping_mul(0x9e37_79b9).wrapping_add(12345);
    let mut next = || {
        r = r.wrapping_mul(1664525).wrapping_add(1013904223);
        r >> 16
    };
    let color = c.n[0] != 0;
    let alpha = c.n[2] != 0;
    let two = c.format == 7 || c.format == 8;
    let kinds = if color && alpha || two { 2 } else { 1 };
    let bits = log2(*c.n.iter().max().unwrap());
    let sub = c.format >= ETC1 && c.format <= ETC2A;
    for _ in 0..c.faces {
        if !c.unity {
            let mut enc = 0;
            for i in 0..(bx + 1) / 2 * ((by + 1) / 2) {
                if i % 3 == 0 {
                    enc = next() & 511;
                    f.bits(enc, 9);
                }
                f.any(([1, 2, 2, 3, 3, 3, 3, 4][(enc & 7) as usize] + 4) * kinds * bits);
                enc >>= 3;
            }
            continue;
        }
        let mut stored = [0u32; 8];
        for y in 0..(by + 1) & !1 {
            let mut group = 0;
            for x in 0..(bx + 1) & !1 {
                let r;
                if y & 1 == 1 {
                    r = stored[x];
                } else if sub {
                    group = next() & 255;
                    f.bits(group, 8);
                    r = (group & 3) | (group >> 2 & 12);
                    stored[x] = (group >> 2 & 3) | (group >> 4 & 12);
                } else {
                    if x & 1 == 0 {
                        group = next() & 255;
                        f.bits(group, 8);
                    }
                    r = group & 3;
                    stored[x] = group >> 2 & 3;
                    group >>= 4;
                }
                let mut symbols = kinds;
                if r & 3 == 0 {
                    symbols += kinds;
                }
                if r >> 2 != 0 {
                    symbols += 1;
                }
                f.any(symbols * bits);
            }
        }
    }
}


fn file(c: &Cfg) -> (W, usize) {
    let etc = c.format >= ETC1;
    let mut f = W::new();
    f.be(0, 0x4878, 2);
    f.be(2, 74, 2);
    f.be(12, c.w, 2);
    f.be(14, c.h, 2);
    f.be(16, 1, 1);
    f.be(17, c.faces, 1);
    f.be(18, c.format, 1);
    f.pos = 74 * 8;
    let o = f.align();
    f.shaped(if c.unity { 256 } else { 512 }, 0);
    for i in 0..2 {
        if c.n[2 * i] != 0 {
            f.shaped(c.n[2 * i], c.shape[4]);
            f.shaped(c.n[2 * i + 1], c.shape[4]);
        }
    }
    let e = f.align();
    f.be(65, e - o, 2);
    f.be(67, o, 3);
    for i in 0..4 {
        if c.n[i] == 0 {
            continue;
        }
        let o = f.align();
        let syms: &[usize] = match i {
            0 if etc => &[32],
            0 => &[32, 64],
            1 if c.unity => &[16],
            1 => &[49],
            2 => &[256],
            _ if c.unity => &[64],
            _ => &[225],
        };
        for &n in syms {
            f.shaped(n, c.shape[i]);
        }
        if !c.fixed[i] {
            f.symbolic(c.sym[i]);
        } else if i == 0 && !etc {
            f.fixed(6 * c.n[0], &[32, 64, 32, 32, 64, 32]);
        } else {
            f.fixed([4, 8, 2, 8][i] * c.n[i], syms);
        }
        let e = f.align();
        f.be(33 + 8 * i, o, 3);
        f.be(36 + 8 * i, e - o, 3);
        f.be(39 + 8 * i, c.n[i], 2);
    }
    let o = f.align();
    f.be(70, o, 4);
    if let Some(v) = c.first {
        f.bits(v, if c.unity { 8 } else { 9 });
    }
    if let Some(seed) = c.seed {
        level_with(&mut f, c, seed);
    } else if !c.fixed[4] {
        f.symbolic(c.sym[4]);
    } else {
        // the same entry everywhere
        let e = *c.n.iter().max().unwrap();
        let k = case(e) as u32;
        f.bits(0, if c.unity { 8 } else { 9 });
        for _ in 0..16 {
            f.bits(k, log2(e));
        }
    }
    let len = f.align();
    f.be(6, len, 4);
    (f, len)
}

fn image_of(format: usize, unity: bool, b: &[u8], w: usize, h: usize, img: &mut [u32]) -> bool {
    let r = match format {
        DXT1 => t::decode_bc1(b, w, h, img),
        2..=6 => t::decode_bc3(b, w, h, img),
        DXT5A => t::decode_bc4(b, w, h, img),
        7 | 8 => t::decode_bc5(b, w, h, img),
        ETC1 | ETC1S if unity => t::decode_etc1(b, w, h, img),
        ETC2 if unity => t::decode_etc2_rgb(b, w, h, img),
        ETC2A | ETC2AS if unity => t::decode_etc2_rgba8(b, w, h, img),
        _ => return false,
    };
    r.is_ok()
}

fn real(unity: bool, d: &[u8], w: usize, h: usize, img: &mut [u32]) -> bool {
    if unity {
        t::decode_unity_crunch(d, w, h, img).is_ok()
    } else {
        t::decode_crunch(d, w, h, img).is_ok()
    }
}

fn run(c: &Cfg) {
    let (f, len) = file(c);
    let n = c.w * c.h;
    let mut a = [0u32; 240];
    let mut b = [0u32; 240];
    let ok = real(c.unity, &f.b[..len], c.w, c.h, &mut a[..n]);
    let mut r: Crn<512, 8> = Crn::new();
    let mut out = [0u8; 240];
    let ok2 = r.decode(&f.b[..len], c.unity, &mut out).is_some();
    check(ok == ok2, 1);
    if ok2 {
        image_of(c.format, c.unity, &out, c.w, c.h, &mut b[..n]);
        check_eq(&a[..n], &b[..n], 2);
    }
    cover(ok2, 1);
}

/// h_crn:unity,format,size,shape,entries,split,fixed,faces
/// format 20: each of the DXT formats, 21: each ETC format; size 8: each but the last; faces - 1
/// shape: bit mask of the parts (four palettes, level) with codes of several lengths
/// fixed: bit mask of the parts whose bits are not symbolic (a fixed level uses one entry everywhere)
/// split 2 or more: so many choices of all the chunk encodings or references; split 1: the chunk encodings (rotated through all eight) or the references of the first group are case-split
#[no_mangle]
pub extern "C" fn h_crn() {
    let unity = param(0) != 0;
    let format = match param(1) {
        // all formats of the container
        20 => [0, 2, 3, 4, 5, 6, 7, 8, 9][case(9)],
        21 => 10 + case(5),
        f => f,
    };
    let (w, h) = SIZES[if param(2) < 8 { param(2) } else { case(7) }];
    let faces = 1 + param(7);
    let shape = param(3);
    let e = param(4);
    let color = format != DXT5A && format != 7 && format != 8;
    let alpha = format != DXT1 && format != ETC1 && format != ETC2 && format != ETC1S;
    let n = [if color { e } else { 0 }, if color { e } else { 0 }, if alpha { e } else { 0 }, if alpha { e } else { 0 }];
    let chunks = ((w + 7) / 8) * ((h + 7) / 8);
    let first = match (param(5), unity) {
        (0, _) | (2.., _) => None,
        (_, false) => {
            let e = case(8) as u32;
            Some(e | ((e + 3) & 7) << 3 | ((e + 5) & 7) << 6)
        }
        _ => Some(case(256) as u32),
    };
    let mut fixed = [false; 5];
    let mut sh = [0; 5];
    for i in 0..5 {
        fixed[i] = param(6) >> i & 1 == 1;
        sh[i] = shape >> i & 1;
    }
    run(&Cfg {
        first,
        seed: if param(5) >= 2 { Some(case(param(5))) } else { None },
        fixed,
        shape: sh, unity, format, w, h, faces, n, sym: [4 * e + 1, 6 * e + 1, 2 * e + 1, 8 * e + 1, 4 * faces * chunks * if color && alpha { 2 } else { 1 } + 2] });
}

const LENS: [usize; 15] = [0, 2, 73, 74, 75, 77, 78, 81, 82, 83, 86, 96, 1089, 1090, 1100];

/// h_crn_info: texture info of files of 15 lengths, all bytes and the claimed size symbolic
#[no_mangle]
pub extern "C" fn h_crn_info() {
    let len = LENS[case(15)];
    let mut d = [0u8; 1100];
    sym(&mut d);
    let claimed = sym_u64() as u32;
    // the fields which are filled must not depend on what was there before
    let mut i = t::CrnTextureInfo::default();
    i.width = sym_u64() as u32;
    i.height = sym_u64() as u32;
    i.levels = sym_u64() as u32;
    i.faces = sym_u64() as u32;
    i.bytes_per_block = sym_u64() as u32;
    i.userdata0 = sym_u64() as u32;
    i.userdata1 = sym_u64() as u32;
    let ok = i.crnd_get_texture_info(&d[..len], claimed);
    let c = claimed as usize;
    let mut want = c >= 74 && c <= len;
    want &= d[0] == 0x48 && d[1] == 0x78;
    want &= be(&d, 2, 2) >= 74;
    want &= be(&d, 6, 4) <= c;
    // every level has an entry in the level table
    want &= c >= 70 + 4 * d[16] as usize;
    want &= d[18] <= 14;
    check(ok == want, 1);
    if ok {
        check(i.width as usize == be(&d, 12, 2), 2);
        check(i.height as usize == be(&d, 14, 2), 3);
        check(i.levels == d[16] as u32, 4);
        check(i.faces == d[17] as u32, 5);
        let f = d[18];
        check(i.format as u32 == f as u32, 6);
        check(i.bytes_per_block == if f == 0 || f == 9 || f == 10 || f == 11 || f == 13 { 8 } else { 16 }, 7);
        check(i.userdata0 as usize == be(&d, 25, 4), 8);
        check(i.userdata1 as usize == be(&d, 29, 4), 9);
        check(i.struct_size as usize == core::mem::size_of::<t::CrnTextureInfo>(), 10);
    }
    cover(ok, 1);
    cover(!ok, 2);
}

/// a DXT5A file of one block whose alpha endpoint section is written by `put`: the image shows the sums of the even
/// and of the odd symbols of the first 2 * e ones
fn one_block(e: usize, put: &mut dyn FnMut(&mut W)) -> (W, usize) {
    let mut f = W::new();
    f.be(0, 0x4878, 2);
    f.be(2, 74, 2);
    f.be(12, 4, 2);
    f.be(14, 4, 2);
    f.be(16, 1, 1);
    f.be(17, 1, 1);
    f.be(18, DXT5A, 1);
    f.pos = 74 * 8;
    let o = f.align();
    f.shaped(512, 0);
    f.shaped(e, 0);
    f.shaped(1, 0);
    let end = f.align();
    f.be(65, end - o, 2);
    f.be(67, o, 3);
    let o = f.align();
    put(&mut f);
    let end = f.align();
    f.be(49, o, 3);
    f.be(52, end - o, 3);
    f.be(55, e, 2);
    let o = f.align();
    f.shaped(225, 0);
    // both endpoints are shown
    for i in 0..8 {
        f.bits(if i & 1 == 0 { 7 * 15 + 14 } else { 7 * 15 + 7 }, 8);
    }
    let end = f.align();
    f.be(57, o, 3);
    f.be(60, end - o, 3);
    f.be(63, 1, 2);
    let o = f.align();
    f.be(70, o, 4);
    f.bits(0, 9);
    f.bits(e as u32 - 1, log2(e));
    f.bits(0, 8);
    let len = f.align();
    f.be(6, len, 4);
    (f, len)
}

/// the lengths belong to a prefix code (or to none at all)
fn kraft(len: &[u8]) -> bool {
    let mut s = 0u32;
    for &l in len {
        if l != 0 {
            s += 0x10000 >> l;
        }
    }
    s <= 0x10000
}

fn same(f: &W, len: usize, c: u32, fails: bool) {
    let mut a = [0u32; 16];
    let mut b = [0u32; 16];
    let ok = t::decode_crunch(&f.b[..len], 4, 4, &mut a).is_ok();
    let mut r: Crn<512, 8> = Crn::new();
    let mut out = [0u8; 8];
    let ok2 = r.decode(&f.b[..len], false, &mut out).is_some();
    check(ok == ok2, c);
    if ok2 {
        let _ = t::decode_bc4(&out, 4, 4, &mut b);
        check_eq(&a, &b, c + 1);
    }
    cover(ok2, c);
    if fails {
        cover(!ok2, c + 1);
    }
}

/// both decoders return and leave the texels after the image alone; covers: bit mask of the expected outcomes (Ok and Err of each)
fn both(f: &W, len: usize, w: usize, h: usize, covers: usize) {
    let mut a = [0u32; 244];
    sym32(&mut a[w * h..w * h + 4]);
    let mut end = [0u32; 4];
    end.copy_from_slice(&a[w * h..w * h + 4]);
    let x = t::decode_crunch(&f.b[..len], w, h, &mut a[..w * h + 2]).is_ok();
    check_eq(&a[w * h..w * h + 4], &end, 1);
    let y = t::decode_unity_crunch(&f.b[..len], w, h, &mut a[..w * h + 2]).is_ok();
    check_eq(&a[w * h..w * h + 4], &end, 2);
    let r = [x, !x, y, !y];
    for i in 0..4 {
        if covers >> i & 1 == 1 {
            cover(r[i], i as u32 + 1);
        }
    }
}

/// h_huff_small:n,k,m,e,tail,over -- all code length vectors of n symbols (linear search) with lengths up to m (0: 16), the first k case-split;
/// 2 e symbols from `tail` - 1 bytes; over: the vectors which are no prefix code, only decoded
#[no_mangle]
pub extern "C" fn h_huff_small() {
    let n = param(0);
    let k = param(1);
    let m = if param(2) == 0 { 16 } else { param(2) };
    let e = if param(3) == 0 { 1 } else { param(3) };
    let tail = if param(4) == 0 { 4 } else { param(4) - 1 };
    let over = param(5) == 1;
    let mut l = [0u8; 16];
    sym(&mut l[..n]);
    let mut c = case((m + 1).pow(k as u32));
    for i in 0..n {
        if i < k {
            l[i] = (c % (m + 1)) as u8;
            c /= m + 1;
        }
        assume(l[i] as usize <= m);
    }
    let prefix = kraft(&l[..n]);
    assume(prefix != over);
    let (f, len) = one_block(e, &mut |f| {
        f.lens_header(n);
        for i in 0..n {
            f.bits(l[i] as u32, 5);
        }
        f.symbolic(tail);
    });
    if over {
        both(&f, len, 4, 4, if n <= 16 { 5 } else { 10 });
        return;
    }
    same(&f, len, 1, n < 16);
}

/// h_huff_table:n,p,e,tail -- alphabets of n > 16 symbols (lookup table). p = 0..2: three used symbols (the first, one in the middle and the last; three in a row;
/// three spread ones) with all lengths; 3: all 16 lengths, the symbols in an order chosen by the case; 4: as many codes as possible of every
/// length pair; e: 2 e symbols
#[no_mangle]
pub extern "C" fn h_huff_table() {
    let n = param(0);
    let e = if param(2) == 0 { 1 } else { param(2) };
    let tail = if param(3) == 0 { 4 } else { param(3) - 1 };
    let over = param(4) == 1;
    let mut l = [0u8; 512];
    match param(1) {
        p @ 0..=2 => {
            let mut c = case(17 * 17 * 17);
            let at = [[0, n / 2, n - 1], [n - 3, n - 2, n - 1], [1, n / 3, n - 2]][p];
            for i in 0..3 {
                l[at[i]] = (c % 17) as u8;
                c /= 17;
            }
        }
        3 => {
            // lengths 1, 2, 3, ..., 15, 16, 16 for 17 of the n symbols
            let c = case(n);
            let mut i = c;
            for k in 0..17 {
                while l[i % n] != 0 {
                    i += 1;
                }
                l[i % n] = if k < 16 { k as u8 + 1 } else { 16 };
                i += 1 + c * 7 + k * k;
            }
        }
        _ => {
            // a codes of length x, the others of length y
            let c = case(256);
            let (x, y) = (c / 16 + 1, c % 16 + 1);
            let mut s = 0x10000usize;
            for i in 0..n {
                let d = if i % 3 == 1 { x } else { y };
                if over || s >= 0x10000 >> d {
                    s = s.wrapping_sub(0x10000 >> d);
                    l[i] = d as u8;
                }
            }
        }
    }
    assume(kraft(&l[..n]) != over);
    let (f, len) = one_block(e, &mut |f| {
        f.model(n, &|i| l[i] as usize);
        f.symbolic(tail);
    });
    if over {
        both(&f, len, 4, 4, if n <= 16 { 5 } else { 10 });
        return;
    }
    same(&f, len, 1, param(1) != 3);
}

/// h_huff_runs:n -- one literal length, every run code with every count, then literals
#[no_mangle]
pub extern "C" fn h_huff_runs() {
    let n = param(0);
    let first = case(4);
    let c = case(8 + 128 + 4 + 64);
    let (code, extra, bits, run) = match c {
        0..=7 => (17, c, 3, 3 + c),
        8..=135 => (18, c - 8, 7, 11 + c - 8),
        136..=139 => (19, c - 136, 2, 3 + c - 136),
        _ => (20, c - 140, 6, 7 + c - 140),
    };
    let mut lens = [0u8; 256];
    let mut i = 0;
    if first < 3 {
        lens[0] = [0, 7, 16][first];
        i = 1;
    }
    if code >= 19 && i == 1 {
        for j in 1..(1 + run).min(n) {
            lens[j] = lens[0];
        }
    }
    i += run;
    while i < n {
        lens[i] = 8;
        i += 1;
    }
    assume(kraft(&lens[..n]));
    let (f, len) = one_block(1, &mut |f| {
        f.lens_header(n);
        let mut i = 0;
        if first < 3 {
            f.bits(lens[0] as u32, 5);
            i = 1;
        }
        f.bits(code, 5);
        f.bits(extra as u32, bits);
        i += run;
        while i < n {
            f.bits(8, 5);
            i += 1;
        }
        f.symbolic(4);
    });
    same(&f, len, 1, true);
}

/// h_huff_lens:n,k -- k code length codes, the lengths of the last three case-split; everything after is symbolic
#[no_mangle]
pub extern "C" fn h_huff_lens() {
    let n = param(0);
    let k = param(1);
    let c = case(512);
    let mut l = [0u8; 21];
    for i in 0..k {
        l[i] = if i + 3 < k { 6 } else { (c >> (3 * (k - 1 - i)) & 7) as u8 };
    }
    assume(kraft(&l[..k]));
    let (f, len) = one_block(1, &mut |f| {
        f.bits(n as u32, 14);
        f.bits(k as u32, 5);
        for i in 0..k {
            f.bits(l[i] as u32, 3);
        }
        f.symbolic(8);
    });
    same(&f, len, 1, true);
}

/// h_bad_lens:n,k -- as h_huff_lens with all code lengths case-split among over-subscribed ones too, only decoded
#[no_mangle]
pub extern "C" fn h_bad_lens() {
    let n = param(0);
    let k = param(1);
    let c = case(512);
    let (f, len) = one_block(1, &mut |f| {
        f.bits(n as u32, 14);
        f.bits(k as u32, 5);
        for i in 0..k.min(21) {
            f.bits((c >> (3 * (i % 3)) & 7) as u32, 3);
        }
        f.symbolic(8);
    });
    both(&f, len, 4, 4, 15);
}

/// h_bad_num -- every format with palettes of 0, 1 or 2 entries each (models of one symbol), all level bits
#[no_mangle]
pub extern "C" fn h_bad_num() {
    let format = case(16);
    let mut c = case(81);
    let mut n = [0; 4];
    for i in 0..4 {
        n[i] = c % 3;
        c /= 3;
    }
    let faces = param(0);
    let mut f = W::new();
    f.be(0, 0x4878, 2);
    f.be(2, 74, 2);
    f.be(12, 4, 2);
    f.be(14, 4, 2);
    f.be(16, 1, 1);
    f.be(17, faces, 1);
    f.be(18, format, 1);
    f.pos = 74 * 8;
    let o = f.align();
    f.shaped(512, 0);
    for _ in 0..4 {
        f.shaped(1 + param(1), 0);
    }
    let e = f.align();
    f.be(65, e - o, 2);
    f.be(67, o, 3);
    for i in 0..4 {
        let o = f.align();
        if i == 0 {
            f.shaped(32, 0);
            f.shaped(64, 0);
        } else {
            f.shaped([0, 49, 256, 225][i], 0);
        }
        f.bits(0, 8);
        let e = f.align();
        f.be(33 + 8 * i, o, 3);
        f.be(36 + 8 * i, e - o, 3);
        f.be(39 + 8 * i, n[i], 2);
    }
    let o = f.align();
    f.be(70, o, 4);
    if format >= ETC1 {
        // new, equal, upper endpoints
        f.bits([0, 0x55, 0x3a, 0xff][case(4)], 9);
    }
    f.symbolic(if format >= ETC1 { 3 } else { 8 });
    let len = f.align();
    f.be(6, len, 4);
    both(&f, len, 4, 4, 15);
}

/// a valid file of a 4x4 texture with one entry per palette
fn plain(format: usize) -> (W, usize) {
    file(&Cfg { unity: true, format, w: 4, h: 4, faces: 1, n: [1; 4], shape: [0; 5], fixed: [true; 5], sym: [0; 5], first: None, seed: None })
}

/// h_bad_section -- the offset or the size of one section (tables, palettes, level) takes any value
#[no_mangle]
pub extern "C" fn h_bad_section() {
    let (mut f, len) = plain([2, 12][case(2)]);
    let (o, n) = [(65, 2), (67, 3), (33, 3), (36, 3), (41, 3), (44, 3), (49, 3), (52, 3), (57, 3), (60, 3), (70, 4)][case(11)];
    // every value below the file's length, all others together
    let c = case(240);
    assume(c <= len);
    let mut v = [0u8; 4];
    sym(&mut v[..n]);
    if c < len {
        v[..n].copy_from_slice(&(c as u32).to_be_bytes()[4 - n..]);
    }
    assume(c < len || be(&v, 0, n) >= len);
    f.b[o..o + n].copy_from_slice(&v[..n]);
    both(&f, len, 4, 4, 15);
}

/// h_bad_levels -- two level offsets of any value, all values of the levels, faces and format bytes
#[no_mangle]
pub extern "C" fn h_bad_levels() {
    let (mut f, len) = plain([2, 12][case(2)]);
    sym(&mut f.b[16..19]);
    if param(0) == 0 {
        assume(f.b[16] < 4);
        assume(f.b[17] < 3);
    }
    both(&f, len, 4, 4, 15);
}

/// h_bad_size -- the file's size fields take any value, the decoder is asked for another size
#[no_mangle]
pub extern "C" fn h_bad_size() {
    let format = case(16);
    let (mut f, len) = plain(if format >= 10 { format } else { 2 });
    f.be(18, format, 1);
    let c = case(50);
    const S: [usize; 7] = [0, 1, 4, 5, 8, 9, 17];
    let (fw, fh) = if c < 49 { (S[c % 7], S[c / 7]) } else { (65535, 65535) };
    assume(c < 49 || !(format == 0 || format == 9 || format == 10 || format == 11 || format == 13));
    f.be(12, fw, 2);
    f.be(14, fh, 2);
    let (w, h) = SIZES[[0, 4, 6][case(3)]];
    both(&f, len, w, h, 15);
}

/// h_bad_cut -- the last section of a valid file is cut anywhere, all level bits
#[no_mangle]
pub extern "C" fn h_bad_cut() {
    let (mut f, len) = plain([2, 12][case(2)]);
    let l = case(len);
    f.be(6, l, 4);
    both(&f, l, 4, 4, 15);
}
