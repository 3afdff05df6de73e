//! Reference decoder for Crunch (.crn) and Unity's Crunch: header, Huffman models, palettes, level 0 of face 0 to blocks.
//! Bit streams are MSB first and continue with zeros; codes are canonical prefix codes of at most 16 bits.
//! M bounds the symbols of a model, P the entries of a palette.
pub struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
}
impl<'a> Bits<'a> {
    pub fn new(file: &'a [u8], ofs: usize, size: usize) -> Option<Bits<'a>> {
        if size == 0 || ofs > file.len() || size > file.len() - ofs {
            return None;
        }
        Some(Bits { d: &file[ofs..ofs + size], pos: 0 })
    }
    #[inline(always)]
    fn byte(&self, i: usize) -> u32 {
        if i < self.d.len() {
            self.d[i] as u32
        } else {
            0
        }
    }
    #[inline(always)]
    fn peek16(&self) -> u32 {
        let i = self.pos >> 3;
        let w = (self.byte(i) << 16) | (self.byte(i + 1) << 8) | self.byte(i + 2);
        ((w << (self.pos & 7)) >> 8) & 0xffff
    }
    #[inline(never)]
    pub fn get(&mut self, n: usize) -> u32 {
        let v = self.peek16() >> (16 - n);
        self.pos += n;
        v
    }
}

pub struct Model<const M: usize> {
    pub n: usize,
    pub len: [u8; M],
    first: [u32; 17],
    count: [u32; 17],
    start: [u32; 17],
    order: [u16; M],
}
impl<const M: usize> Model<M> {
    pub fn empty() -> Model<M> {
        Model { n: 0, len: [0; M], first: [0; 17], count: [0; 17], start: [0; 17], order: [0; M] }
    }
    /// canonical codes: shorter codes first, equal lengths in symbol order; None: no code at all
    fn build(&mut self) -> Option<()> {
        let mut used = 0;
        let mut code = 0;
        for l in 1..=16 {
            code <<= 1;
            self.first[l] = code;
            self.start[l] = used;
            for s in 0..self.n {
                if self.len[s] as usize == l {
                    self.order[used as usize] = s as u16;
                    used += 1;
                }
            }
            self.count[l] = used - self.start[l];
            code += self.count[l];
        }
        if used == 0 {
            return None;
        }
        Some(())
    }
    pub fn read(&mut self, b: &mut Bits) -> Option<()> {
        const ORDER: [u8; 21] = [17, 18, 19, 20, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15, 16];
        self.n = b.get(14) as usize;
        if self.n == 0 || self.n > M {
            return None;
        }
        let k = b.get(5) as usize;
        if k < 1 || k > 21 {
            return None;
        }
        let mut c: Model<21> = Model::empty();
        c.n = 21;
        for i in 0..k {
            c.len[ORDER[i] as usize] = b.get(3) as u8;
        }
        c.build()?;
        let mut i = 0;
        while i < self.n {
            let s = c.decode(b)?;
            if s <= 16 {
                self.len[i] = s as u8;
                i += 1;
                continue;
            }
            let (run, zero) = match s {
                17 => (3 + b.get(3), true),
                18 => (11 + b.get(7), true),
                19 => (3 + b.get(2), false),
                _ => (7 + b.get(6), false),
            };
            if run as usize > self.n - i {
                return None;
            }
            let v = if zero {
                0
            } else {
                if i == 0 || self.len[i - 1] == 0 {
                    return None;
                }
                self.len[i - 1]
            };
            for _ in 0..run {
                self.len[i] = v;
                i += 1;
            }
        }
        self.build()
    }
    #[inline(never)]
    pub fn decode(&self, b: &mut Bits) -> Option<usize> {
        let w = b.peek16();
        for l in 1..=16 {
            let c = (w >> (16 - l)).wrapping_sub(self.first[l]);
            if c < self.count[l] {
                b.pos += l;
                return Some(self.order[(self.start[l] + c) as usize] as usize);
            }
        }
        None
    }
}

pub fn be(d: &[u8], o: usize, n: usize) -> usize {
    let mut v = 0;
    for i in 0..n {
        v = (v << 8) | d[o + i] as usize;
    }
    v
}

pub const DXT1: usize = 0;
pub const DXT5A: usize = 9;
pub const ETC1: usize = 10;
pub const ETC2: usize = 11;
pub const ETC2A: usize = 12;
pub const ETC1S: usize = 13;
pub const ETC2AS: usize = 14;

pub struct Crn<const M: usize, const P: usize> {
    refm: Model<M>,
    ep: [Model<M>; 2],
    sel: [Model<M>; 2],
    cep: [[u8; 4]; P],
    csel: [[u8; 16]; P],
    aep: [[u8; 2]; P],
    asel: [[u8; 16]; P],
    n: [usize; 4],
    pub format: usize,
    pub bx: usize,
    pub by: usize,
}

/// offset and size of the section in the header: colour endpoints, colour selectors, alpha endpoints, alpha selectors
fn section<'a>(f: &'a [u8], o: usize) -> Option<Bits<'a>> {
    Bits::new(f, be(f, o, 3), be(f, o + 3, 3))
}

impl<const M: usize, const P: usize> Crn<M, P> {
    pub fn new() -> Self {
        Crn {
            refm: Model::empty(),
            ep: [Model::empty(), Model::empty()],
            sel: [Model::empty(), Model::empty()],
            cep: [[0; 4]; P],
            csel: [[0; 16]; P],
            aep: [[0; 2]; P],
            asel: [[0; 16]; P],
            n: [0; 4],
            format: 0,
            bx: 0,
            by: 0,
        }
    }
    pub fn block_bytes(&self) -> usize {
        match self.format {
            DXT1 | DXT5A | ETC1 | ETC2 | ETC1S => 8,
            _ => 16,
        }
    }
    fn etc(&self) -> bool {
        self.format >= ETC1
    }
    fn subblocks(&self) -> bool {
        self.format == ETC1 || self.format == ETC2 || self.format == ETC2A
    }
    /// level 0 of face 0 as blocks in raster order
    pub fn decode(&mut self, f: &[u8], unity: bool, out: &mut [u8]) -> Option<()> {
        self.format = be(f, 18, 1);
        self.bx = (be(f, 12, 2) + 3) / 4;
        self.by = (be(f, 14, 2) + 3) / 4;
        for i in 0..4 {
            self.n[i] = be(f, 33 + 8 * i + 6, 2);
        }
        let mut b = Bits::new(f, be(f, 67, 3), be(f, 65, 2))?;
        self.refm.read(&mut b)?;
        for i in 0..2 {
            if self.n[2 * i] != 0 {
                self.ep[i].read(&mut b)?;
                self.sel[i].read(&mut b)?;
                if self.ep[i].n > self.n[2 * i] || self.sel[i].n > self.n[2 * i + 1] {
                    return None;
                }
            }
        }
        if self.n[0] != 0 {
            self.color_endpoints(section(f, 33)?)?;
            if unity {
                self.color_selectors_xor(section(f, 41)?)?;
            } else {
                self.color_selectors(section(f, 41)?)?;
            }
        }
        if self.n[2] != 0 {
            self.alpha_endpoints(section(f, 49)?)?;
            if unity {
                self.alpha_selectors_xor(section(f, 57)?)?;
            } else {
                self.alpha_selectors(section(f, 57)?)?;
            }
        }
        let levels = be(f, 16, 1);
        let lo = be(f, 70, 4);
        let hi = if levels > 1 { be(f, 74, 4) } else { f.len() };
        if hi <= lo {
            return None;
        }
        let mut b = Bits::new(f, lo, hi - lo)?;
        if unity {
            self.level_unity(&mut b, out)
        } else {
            self.level(&mut b, out)
        }
    }
    fn color_endpoints(&mut self, mut b: Bits) -> Option<()> {
        let mut m: [Model<M>; 2] = [Model::empty(), Model::empty()];
        m[0].read(&mut b)?;
        if self.etc() {
            let mut c = [0u8; 4];
            for i in 0..self.n[0] {
                for j in 0..4 {
                    c[j] = (c[j] + m[0].decode(&mut b)? as u8) & 31;
                }
                self.cep[i] = c;
            }
        } else {
            // two RGB565 colours
            m[1].read(&mut b)?;
            let mut c = [0usize; 6];
            for i in 0..self.n[0] {
                for j in 0..6 {
                    let green = j == 1 || j == 4;
                    c[j] = (c[j] + m[green as usize].decode(&mut b)?) & if green { 63 } else { 31 };
                }
                let c0 = (c[0] << 11) | (c[1] << 5) | c[2];
                let c1 = (c[3] << 11) | (c[4] << 5) | c[5];
                self.cep[i] = [c0 as u8, (c0 >> 8) as u8, c1 as u8, (c1 >> 8) as u8];
            }
        }
        Some(())
    }
    /// selectors are kept in linear order (0: first endpoint ... 3 or 7: second endpoint)
    fn color_selectors(&mut self, mut b: Bits) -> Option<()> {
        let mut m: Model<M> = Model::empty();
        m.read(&mut b)?;
        let mut c = [0u8; 16];
        for i in 0..self.n[1] {
            for j in 0..8 {
                let s = m.decode(&mut b)?;
                if s >= 49 {
                    return None;
                }
                // deltas -3..=3
                c[2 * j] = (c[2 * j] + (s % 7) as u8 + 1) & 3;
                c[2 * j + 1] = (c[2 * j + 1] + (s / 7) as u8 + 1) & 3;
            }
            self.csel[i] = c;
        }
        Some(())
    }
    fn alpha_selectors(&mut self, mut b: Bits) -> Option<()> {
        let mut m: Model<M> = Model::empty();
        m.read(&mut b)?;
        let mut c = [0u8; 16];
        for i in 0..self.n[3] {
            for j in 0..8 {
                let s = m.decode(&mut b)?;
                if s >= 225 {
                    return None;
                }
                // deltas -7..=7
                c[2 * j] = (c[2 * j] + (s % 15) as u8 + 1) & 7;
                c[2 * j + 1] = (c[2 * j + 1] + (s / 15) as u8 + 1) & 7;
            }
            self.asel[i] = c;
        }
        Some(())
    }
    fn color_selectors_xor(&mut self, mut b: Bits) -> Option<()> {
        let mut m: Model<M> = Model::empty();
        m.read(&mut b)?;
        let mut c = [0u8; 16];
        for i in 0..self.n[1] {
            for j in 0..8 {
                let s = m.decode(&mut b)?;
                c[2 * j] ^= (s & 3) as u8;
                c[2 * j + 1] ^= (s >> 2) as u8 & 3;
            }
            self.csel[i] = c;
        }
        Some(())
    }
    fn alpha_selectors_xor(&mut self, mut b: Bits) -> Option<()> {
        let mut m: Model<M> = Model::empty();
        m.read(&mut b)?;
        let mut c = [0u8; 16];
        for i in 0..self.n[3] {
            for j in 0..8 {
                let s = m.decode(&mut b)?;
                c[2 * j] ^= (s & 7) as u8;
                c[2 * j + 1] ^= (s >> 3) as u8 & 7;
            }
            self.asel[i] = c;
        }
        Some(())
    }
    fn alpha_endpoints(&mut self, mut b: Bits) -> Option<()> {
        let mut m: Model<M> = Model::empty();
        m.read(&mut b)?;
        let mut c = [0usize; 2];
        for i in 0..self.n[2] {
            for j in 0..2 {
                c[j] = (c[j] + m.decode(&mut b)?) & 255;
            }
            self.aep[i] = [c[0] as u8, c[1] as u8];
        }
        Some(())
    }
    fn put_color(&self, o: &mut [u8], e: [u8; 4], s: usize) {
        const MAP: [u8; 4] = [0, 2, 3, 1];
        o[..4].copy_from_slice(&e);
        let mut v = 0u32;
        for i in 0..16 {
            v |= (MAP[self.csel[s][i] as usize] as u32) << (2 * i);
        }
        o[4..8].copy_from_slice(&v.to_le_bytes());
    }
    fn put_alpha(&self, o: &mut [u8], e: [u8; 2], s: usize) {
        const MAP: [u8; 8] = [0, 2, 3, 4, 5, 6, 7, 1];
        o[..2].copy_from_slice(&e);
        let mut v = 0u64;
        for i in 0..16 {
            v |= (MAP[self.asel[s][i] as usize] as u64) << (3 * i);
        }
        o[2..8].copy_from_slice(&v.to_le_bytes()[..6]);
    }
    /// ETC selectors: two bit planes, texel x * 4 + y, most significant byte first
    fn put_etc(&self, o: &mut [u8], e: [u8; 4], s: usize, transpose: bool) {
        const MAP: [u8; 4] = [3, 2, 0, 1];
        o[..4].copy_from_slice(&e);
        let (mut hi, mut lo) = (0u16, 0u16);
        for x in 0..4 {
            for y in 0..4 {
                let v = MAP[self.csel[s][if transpose { x * 4 + y } else { y * 4 + x }] as usize] as u16;
                hi |= (v >> 1) << (x * 4 + y);
                lo |= (v & 1) << (x * 4 + y);
            }
        }
        o[4..6].copy_from_slice(&hi.to_be_bytes());
        o[6..8].copy_from_slice(&lo.to_be_bytes());
    }
    /// EAC selectors: 48 bits, most significant first, texel x * 4 + y
    fn put_eac(&self, o: &mut [u8], e: [u8; 2], s: usize, transpose: bool) {
        const MAP: [u8; 8] = [3, 2, 1, 0, 4, 5, 6, 7];
        o[..2].copy_from_slice(&e);
        let mut v = 0u64;
        for x in 0..4 {
            for y in 0..4 {
                v = (v << 3) | MAP[self.asel[s][if transpose { x * 4 + y } else { y * 4 + x }] as usize] as u64;
            }
        }
        o[2..8].copy_from_slice(&v.to_be_bytes()[2..]);
    }
    /// the original layout: chunks of 2x2 blocks in serpentine order, each with up to four endpoint tiles
    fn level(&mut self, b: &mut Bits, out: &mut [u8]) -> Option<()> {
        const TILES: [[usize; 4]; 8] = [
            [0, 0, 0, 0],
            [0, 0, 1, 1],
            [0, 1, 0, 1],
            [0, 0, 1, 2],
            [1, 2, 0, 0],
            [0, 1, 0, 2],
            [1, 0, 2, 0],
            [0, 1, 2, 3],
        ];
        const NUM: [usize; 8] = [1, 2, 2, 3, 3, 3, 3, 4];
        let (cx, cy) = ((self.bx + 1) / 2, (self.by + 1) / 2);
        let bytes = self.block_bytes();
        // per channel group: the palette (0 colour, 1 alpha) and the running endpoint and selector indices
        let groups: &[usize] = match self.format {
            DXT1 => &[0],
            DXT5A => &[1],
            7 | 8 => &[1, 1],
            2..=6 => &[1, 0],
            _ => return None,
        };
        let mut ei = [0usize; 2];
        let mut si = [0usize; 2];
        let mut enc = 0;
        let mut left = 0;
        for y in 0..cy {
            for i in 0..cx {
                let x = if y & 1 == 1 { cx - 1 - i } else { i };
                if left == 0 {
                    enc = self.refm.decode(b)?;
                    left = 3;
                }
                let e = enc & 7;
                enc >>= 3;
                left -= 1;
                let mut tile = [[0usize; 4]; 2];
                for g in 0..groups.len() {
                    for t in 0..NUM[e] {
                        let n = self.n[2 * groups[g]];
                        ei[g] += self.ep[groups[g]].decode(b)?;
                        if ei[g] >= n {
                            ei[g] -= n;
                        }
                        tile[g][t] = ei[g];
                    }
                }
                for j in 0..4 {
                    for g in 0..groups.len() {
                        let n = self.n[2 * groups[g] + 1];
                        si[g] += self.sel[groups[g]].decode(b)?;
                        if si[g] >= n {
                            si[g] -= n;
                        }
                    }
                    let (px, py) = (2 * x + (j & 1), 2 * y + (j >> 1));
                    if px < self.bx && py < self.by {
                        let o = (py * self.bx + px) * bytes;
                        for g in 0..groups.len() {
                            let t = tile[g][TILES[e][j]];
                            let o = &mut out[o + 8 * g..o + 8 * g + 8];
                            if groups[g] == 0 {
                                self.put_color(o, self.cep[t], si[g]);
                            } else {
                                self.put_alpha(o, self.aep[t], si[g]);
                            }
                        }
                    }
                }
            }
        }
        Some(())
    }
    /// Unity's layout: raster order over an even number of blocks and rows, endpoints new or copied from a neighbour
    fn level_unity(&mut self, b: &mut Bits, out: &mut [u8]) -> Option<()> {
        let (w, h) = ((self.bx + 1) & !1, (self.by + 1) & !1);
        let bytes = self.block_bytes();
        let sub = self.subblocks();
        // endpoint groups read for a new endpoint: palette per slot
        let slots: &[usize] = match self.format {
            DXT1 | ETC1 | ETC2 | ETC1S => &[0],
            DXT5A => &[1],
            7 | 8 => &[1, 1],
            _ => &[0, 1],
        };
        let mut up = [[0usize; 2]; P]; // endpoint of the block above
        let mut pair = [[0usize; 2]; P]; // (ETC) endpoint of the second half of the block above
        let mut nref = [0usize; P]; // reference of the block below
        let mut cur = [0usize; 2];
        let mut diag = [0usize; 2];
        let mut group = 0;
        for y in 0..h {
            for x in 0..w {
                let mut r;
                if sub {
                    if y & 1 == 0 {
                        let g = self.refm.decode(b)?;
                        r = (g & 3) | ((g >> 4) & 3) << 2;
                        nref[x] = ((g >> 2) & 3) | ((g >> 6) & 3) << 2;
                    } else {
                        r = nref[x];
                    }
                } else {
                    if y & 1 == 0 {
                        if x & 1 == 0 {
                            group = self.refm.decode(b)?;
                        }
                        r = (group >> (4 * (x & 1))) & 3;
                        nref[x] = (group >> (4 * (x & 1) + 2)) & 3;
                    } else {
                        r = nref[x];
                    }
                }
                match r & 3 {
                    0 => {
                        for k in 0..slots.len() {
                            let n = self.n[2 * slots[k]];
                            cur[k] += self.ep[slots[k]].decode(b)?;
                            if cur[k] >= n {
                                cur[k] -= n;
                            }
                        }
                        up[x] = cur;
                    }
                    1 => up[x] = cur,
                    3 if sub => {
                        cur = diag;
                        up[x] = cur;
                    }
                    _ => cur = up[x],
                }
                let first = cur[0];
                let s0 = self.sel[slots[0]].decode(b)?;
                let s1 = if slots.len() > 1 { self.sel[slots[1]].decode(b)? } else { 0 };
                r >>= 2;
                if sub {
                    if r != 0 {
                        let n = self.n[0];
                        cur[0] += self.ep[0].decode(b)?;
                        if cur[0] >= n {
                            cur[0] -= n;
                        }
                    }
                    diag = pair[x];
                    pair[x] = cur;
                }
                if x >= self.bx || y >= self.by {
                    continue;
                }
                let o = (y * self.bx + x) * bytes;
                let o = &mut out[o..o + bytes];
                match self.format {
                    DXT1 => self.put_color(o, self.cep[first], s0),
                    DXT5A => self.put_alpha(o, self.aep[first], s0),
                    7 | 8 => {
                        self.put_alpha(&mut o[..8], self.aep[cur[0]], s0);
                        self.put_alpha(&mut o[8..], self.aep[cur[1]], s1);
                    }
                    2..=6 => {
                        self.put_alpha(&mut o[..8], self.aep[cur[1]], s1);
                        self.put_color(&mut o[8..], self.cep[first], s0);
                    }
                    ETC1S | ETC2AS => {
                        let e = self.cep[first];
                        let e = [e[0] << 3, e[1] << 3, e[2] << 3, (e[3] & 7) << 5 | (e[3] & 7) << 2 | 2];
                        let mut c = 0;
                        if self.format == ETC2AS {
                            self.put_eac(&mut o[..8], self.aep[cur[1]], s1, false);
                            c = 8;
                        }
                        self.put_etc(&mut o[c..], e, s0, false);
                    }
                    ETC1 | ETC2 | ETC2A => {
                        let (e0, e1) = (self.cep[first], self.cep[cur[0]]);
                        let flip = r < 2;
                        let mut diff = true;
                        for k in 0..3 {
                            let d = e1[k] as i32 - e0[k] as i32;
                            diff &= d >= -4 && d <= 3;
                        }
                        let mut e = [0u8; 4];
                        for k in 0..3 {
                            e[k] = if diff {
                                e0[k] << 3 | (e1[k].wrapping_sub(e0[k]) & 7)
                            } else {
                                (e0[k] >> 1) << 4 | e1[k] >> 1
                            };
                        }
                        e[3] = e0[3] << 5 | e1[3] << 2 | (diff as u8) << 1 | flip as u8;
                        let mut c = 0;
                        if self.format == ETC2A {
                            self.put_eac(&mut o[..8], self.aep[cur[1]], s1, !flip);
                            c = 8;
                        }
                        self.put_etc(&mut o[c..], e, s0, !flip);
                    }
                    _ => return None,
                }
            }
        }
        Some(())
    }
}
