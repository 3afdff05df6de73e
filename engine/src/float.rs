//! Bit-blasted IEEE-754 arithmetic (round to nearest even), default NaN = quiet.
use crate::aig::*;
use crate::bv::*;

#[derive(Clone, Copy)]
pub struct Fmt {
    pub e: usize,
    pub m: usize,
}
pub const F32: Fmt = Fmt { e: 8, m: 23 };
pub const F64: Fmt = Fmt { e: 11, m: 52 };
pub fn fmt_of(w: u32) -> Fmt {
    match w {
        32 => F32,
        64 => F64,
        16 => Fmt { e: 5, m: 10 },
        _ => panic!("float width {}", w),
    }
}
fn orv(g: &mut Aig, a: &[Lit]) -> Lit {
    a.iter().fold(F, |r, &l| g.or(r, l))
}
fn andv(g: &mut Aig, a: &[Lit]) -> Lit {
    a.iter().fold(T, |r, &l| g.and(r, l))
}
fn kbits(v: i64, w: usize) -> Vec<Lit> {
    (0..w).map(|i| ((v >> i.min(63)) & 1) as Lit).collect()
}
fn mux(g: &mut Aig, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
    mux_bits(g, c, a, b)
}
fn sub(g: &mut Aig, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
    let nb: Vec<Lit> = b.iter().map(|&l| neg(l)).collect();
    add_bits(g, a, &nb, T).0
}
fn add(g: &mut Aig, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
    add_bits(g, a, b, F).0
}
fn sxt(a: &[Lit], w: usize) -> Vec<Lit> {
    let mut r = a.to_vec();
    let t = *a.last().unwrap();
    r.resize(w, t);
    r
}
fn zxt(a: &[Lit], w: usize) -> Vec<Lit> {
    let mut r = a.to_vec();
    r.resize(w, F);
    r
}
/// logical right shift with sticky OR-ed into bit 0
fn shr_sticky(g: &mut Aig, a: &[Lit], k: &[Lit]) -> Vec<Lit> {
    let n = a.len();
    let mut cur = a.to_vec();
    let mut sticky = F;
    let mut over = F;
    for (i, &l) in k.iter().enumerate() {
        if l == F {
            continue;
        }
        if i >= 20 || (1usize << i) >= n {
            over = g.or(over, l);
            continue;
        }
        let s = 1 << i;
        let lost = orv(g, &cur[..s].to_vec());
        let lost = g.and(l, lost);
        sticky = g.or(sticky, lost);
        let mut sh = cur[s..].to_vec();
        sh.resize(n, F);
        cur = mux(g, l, &sh, &cur);
    }
    let any = orv(g, &cur);
    let z = vec![F; n];
    let lost = g.and(over, any);
    cur = mux(g, over, &z, &cur);
    sticky = g.or(sticky, lost);
    cur[0] = g.or(cur[0], sticky);
    cur
}
/// left-normalise; returns (sig, leading zero count)
fn normalize(g: &mut Aig, a: &[Lit], ew: usize) -> (Vec<Lit>, Vec<Lit>) {
    let n = a.len();
    let mut cur = a.to_vec();
    let mut lz = vec![F; ew];
    let mut st = 0;
    while (1 << (st + 1)) < n {
        st += 1;
    }
    for i in (0..=st).rev() {
        let s = 1usize << i;
        if s >= n {
            continue;
        }
        let top = orv(g, &cur[n - s..].to_vec());
        let z = neg(top);
        let mut sh = vec![F; s];
        sh.extend_from_slice(&cur[..n - s]);
        cur = mux(g, z, &sh, &cur);
        lz[i] = z;
    }
    (cur, lz)
}
struct Un {
    s: Lit,
    exp: Vec<Lit>, // unbiased, signed, ew bits
    sig: Vec<Lit>, // m+1 bits, normalised unless zero
    nan: Lit,
    inf: Lit,
    zero: Lit,
}
const XW: usize = 14; // exponent working width
fn unpack(g: &mut Aig, f: Fmt, b: &[Lit]) -> Un {
    let (e, m) = (f.e, f.m);
    let s = b[e + m];
    let ex = &b[m..m + e];
    let fr = &b[..m];
    let emax = andv(g, ex);
    let enz = orv(g, ex);
    let fnz = orv(g, fr);
    let nan = g.and(emax, fnz);
    let inf = g.and(emax, neg(fnz));
    let zero = g.and(neg(enz), neg(fnz));
    let mut sig = fr.to_vec();
    sig.push(enz);
    let (sig, lz) = normalize(g, &sig, XW);
    let bias = (1i64 << (e - 1)) - 1;
    let mut exr = zxt(ex, XW);
    // subnormal exponent counts as 1
    exr[0] = g.or(exr[0], neg(enz));
    let b_ = kbits(bias, XW);
    let exp = sub(g, &exr, &b_);
    let exp = sub(g, &exp, &lz);
    Un { s, exp, sig, nan, inf, zero }
}
/// value = sig / 2^(n-1) * 2^exp ; sig arbitrary (lsb sticky)
fn round_pack(g: &mut Aig, f: Fmt, s: Lit, exp: &[Lit], sig: &[Lit]) -> Vec<Lit> {
    let (e, m) = (f.e, f.m);
    let bias = (1i64 << (e - 1)) - 1;
    let mut sg = sig.to_vec();
    if sg.len() < m + 3 {
        let mut p = vec![F; m + 3 - sg.len()];
        p.extend(sg);
        sg = p;
    }
    let n = sg.len();
    let (sg, lz) = normalize(g, &sg, XW);
    let exp = sub(g, exp, &lz);
    let emin = kbits(1 - bias, XW);
    let d = sub(g, &emin, &exp); // >0 => denormal shift
    let dneg = d[XW - 1];
    let z = vec![F; XW];
    let sh = mux(g, dneg, &z, &d);
    let sg = shr_sticky(g, &sg, &sh);
    let exp = mux(g, dneg, &exp, &emin);
    // now top m+1 bits kept
    let keep = sg[n - m - 1..].to_vec();
    let guard = sg[n - m - 2];
    let st = orv(g, &sg[..n - m - 2].to_vec());
    let t = g.or(st, keep[0]);
    let up = g.and(guard, t);
    let mut k2 = keep.clone();
    k2.push(F);
    let zz = vec![F; m + 2];
    let (k2, _) = add_bits(g, &k2, &zz, up);
    let carry = k2[m + 1];
    // biased exponent: normal if msb (bit m) or carry set
    let bb = kbits(bias, XW);
    let mut eb = add(g, &exp, &bb);
    let hid = g.or(k2[m], carry);
    // on carry exponent +1, fraction zero (k2[..m] are zero then)
    let z1 = vec![F; XW];
    eb = add_bits(g, &eb, &z1, carry).0;
    let zero_e = vec![F; XW];
    eb = mux(g, hid, &eb, &zero_e);
    let maxe = kbits((1 << e) - 1, XW);
    let lt = ult_bits(g, &eb, &maxe);
    let ovf = g.and(neg(lt), hid);
    let mut r = k2[..m].to_vec();
    r.extend_from_slice(&eb[..e]);
    let mut inf = vec![F; m];
    inf.extend(vec![T; e]);
    r = mux(g, ovf, &inf, &r);
    r.push(s);
    r
}
fn qnan(f: Fmt) -> Vec<Lit> {
    let mut r = vec![F; f.m];
    r[f.m - 1] = T;
    r.extend(vec![T; f.e]);
    r.push(F);
    r
}
fn inf(f: Fmt, s: Lit) -> Vec<Lit> {
    let mut r = vec![F; f.m];
    r.extend(vec![T; f.e]);
    r.push(s);
    r
}
fn zero(f: Fmt, s: Lit) -> Vec<Lit> {
    let mut r = vec![F; f.m + f.e];
    r.push(s);
    r
}
pub fn fmul(g: &mut Aig, f: Fmt, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
    let x = unpack(g, f, a);
    let y = unpack(g, f, b);
    let s = g.xor(x.s, y.s);
    let p = mul_bits(g, &x.sig, &y.sig, 2 * (f.m + 1));
    let ex = add(g, &x.exp, &y.exp);
    let one = kbits(1, XW);
    let ex = add(g, &ex, &one); // product msb weight 2
    let mut r = round_pack(g, f, s, &ex, &p);
    let z = g.or(x.zero, y.zero);
    let i = g.or(x.inf, y.inf);
    let zr = zero(f, s);
    r = mux(g, z, &zr, &r);
    let ir = inf(f, s);
    r = mux(g, i, &ir, &r);
    let n0 = g.and(z, i);
    let n1 = g.or(x.nan, y.nan);
    let n = g.or(n0, n1);
    let q = qnan(f);
    mux(g, n, &q, &r)
}
pub fn fadd(g: &mut Aig, f: Fmt, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
    let m = f.m;
    let x = unpack(g, f, a);
    let y = unpack(g, f, b);
    // order by exponent (zero operands get tiny effect: sig 0)
    let d = sub(g, &x.exp, &y.exp);
    let mut sw = d[XW - 1];
    // if x is zero treat y as big
    sw = g.mux(x.zero, T, sw);
    sw = g.mux(y.zero, F, sw);
    let be = mux(g, sw, &y.exp, &x.exp);
    let le = mux(g, sw, &x.exp, &y.exp);
    let bs = mux(g, sw, &y.sig, &x.sig);
    let ls = mux(g, sw, &x.sig, &y.sig);
    let bsn = g.mux(sw, y.s, x.s);
    let lsn = g.mux(sw, x.s, y.s);
    let dd = sub(g, &be, &le);
    let bz = g.or(x.zero, y.zero);
    let zs = vec![F; XW];
    let dd = mux(g, bz, &zs, &dd);
    let w = m + 1 + 4 + m; // generous
    let pad = w - (m + 1);
    let mut bsx = vec![F; pad];
    bsx.extend(&bs);
    let mut lsx = vec![F; pad];
    lsx.extend(&ls);
    let lsx = shr_sticky(g, &lsx, &dd);
    let bsx = zxt(&bsx, w + 2);
    let lsx = zxt(&lsx, w + 2);
    let sum = add(g, &bsx, &lsx);
    let dif = sub(g, &bsx, &lsx);
    let op = g.xor(bsn, lsn);
    let dn = dif[w + 1];
    let ndif = neg_bits(g, &dif);
    let dabs = mux(g, dn, &ndif, &dif);
    let sig = mux(g, op, &dabs, &sum);
    let sig = sig[..w + 1].to_vec();
    let flip = g.and(op, dn);
    let s = g.xor(bsn, flip);
    let one = kbits(1, XW);
    let ex = add(g, &be, &one);
    let nz = orv(g, &sig);
    let mut r = round_pack(g, f, s, &ex, &sig);
    let both = g.and(x.s, y.s);
    let zr = zero(f, both);
    r = mux(g, nz, &r, &zr);
    let ix = inf(f, x.s);
    let iy = inf(f, y.s);
    r = mux(g, y.inf, &iy, &r);
    r = mux(g, x.inf, &ix, &r);
    let bi = g.and(x.inf, y.inf);
    let sx_ = g.xor(x.s, y.s);
    let n0 = g.and(bi, sx_);
    let n1 = g.or(x.nan, y.nan);
    let n = g.or(n0, n1);
    let q = qnan(f);
    mux(g, n, &q, &r)
}
pub fn fneg(b: &[Lit]) -> Vec<Lit> {
    let mut r = b.to_vec();
    let n = r.len();
    r[n - 1] = neg(r[n - 1]);
    r
}
pub fn fcmp(g: &mut Aig, f: Fmt, pred: &str, a: &[Lit], b: &[Lit]) -> Lit {
    let n = f.e + f.m + 1;
    let x = unpack(g, f, a);
    let y = unpack(g, f, b);
    let uno = g.or(x.nan, y.nan);
    let bz = g.and(x.zero, y.zero);
    let eqb = eq_bits(g, a, b);
    let eq = g.or(eqb, bz);
    // less: map to monotone unsigned keys
    let key = |g: &mut Aig, v: &[Lit]| -> Vec<Lit> {
        let s = v[n - 1];
        let mut k: Vec<Lit> = (0..n - 1).map(|i| g.xor(v[i], s)).collect();
        k.push(neg(s));
        k
    };
    let (ka, kb) = (key(g, a), key(g, b));
    let l0 = ult_bits(g, &ka, &kb);
    let lt = g.and(l0, neg(bz));
    let g0 = ult_bits(g, &kb, &ka);
    let gt = g.and(g0, neg(bz));
    let le = g.or(lt, eq);
    let ge = g.or(gt, eq);
    let base = |g: &mut Aig, p: &str| -> Lit {
        match p {
            "eq" => eq,
            "ne" => g.or(lt, gt),
            "lt" => lt,
            "gt" => gt,
            "le" => le,
            "ge" => ge,
            _ => panic!("fcmp {}", p),
        }
    };
    match pred {
        "ord" => neg(uno),
        "uno" => uno,
        "true" => T,
        "false" => F,
        _ => {
            let r = base(g, &pred[1..]);
            if pred.starts_with('o') {
                g.and(r, neg(uno))
            } else {
                g.or(r, uno)
            }
        }
    }
}
pub fn from_int(g: &mut Aig, f: Fmt, v: &[Lit], signed: bool) -> Vec<Lit> {
    let n = v.len();
    let s = if signed { v[n - 1] } else { F };
    let nv = neg_bits(g, v);
    let mag = mux(g, s, &nv, v);
    let ex = kbits(n as i64 - 1, XW);
    let nz = orv(g, &mag);
    let r = round_pack(g, f, s, &ex, &mag);
    let z = zero(f, F);
    mux(g, nz, &r, &z)
}
/// saturating truncation toward zero, NaN -> 0
pub fn to_int_sat(g: &mut Aig, f: Fmt, b: &[Lit], w: usize, signed: bool) -> Vec<Lit> {
    let m = f.m;
    let x = unpack(g, f, b);
    // magnitude = sig * 2^(exp - m); place sig at bottom of (w + m + 1) wide register, shift left by exp (0..w)
    let tot = w + m + 2;
    let eneg = x.exp[XW - 1];
    let lim = kbits(w as i64, XW);
    // big if exp >= w (signed compare with exp nonneg)
    let lt = ult_bits(g, &x.exp, &lim);
    let big0 = g.and(neg(lt), neg(eneg));
    let mut reg = zxt(&x.sig, tot);
    for i in 0..XW {
        let l = x.exp[i];
        if (1usize << i) > w {
            break;
        }
        let sft = 1usize << i;
        let mut sh = vec![F; sft.min(tot)];
        sh.extend_from_slice(&reg[..tot - sft.min(tot)]);
        reg = mux(g, l, &sh, &reg);
    }
    let mag = reg[m..m + w + 1].to_vec(); // integer part, w+1 bits valid for exp<w
    let z = vec![F; w + 1];
    let tiny = g.or(eneg, x.zero);
    let mag = mux(g, tiny, &z, &mag);
    let notz = neg(x.zero);
    let fin = g.and(big0, notz);
    let big = g.or(fin, x.inf);
    let r;
    if signed {
        let maxp = kbits((1i128 << (w - 1)) as i64 - 1, w);
        let mut maxp = maxp;
        for i in 0..w {
            maxp[i] = if i < w - 1 { T } else { F };
        }
        let mut minn = vec![F; w];
        minn[w - 1] = T;
        // overflow: mag > maxp (pos) or mag > 2^(w-1) (neg)
        let mp = zxt(&maxp, w + 1);
        let mn = zxt(&minn, w + 1);
        let op = ult_bits(g, &mp, &mag);
        let on = ult_bits(g, &mn, &mag);
        let o = g.mux(x.s, on, op);
        let o = g.or(o, big);
        let nm = neg_bits(g, &mag);
        let v = mux(g, x.s, &nm, &mag)[..w].to_vec();
        let satv = mux(g, x.s, &minn, &maxp);
        r = mux(g, o, &satv, &v);
    } else {
        let o = g.or(mag[w], big);
        let ones = vec![T; w];
        let v = mux(g, o, &ones, &mag[..w]);
        let zz = vec![F; w];
        r = mux(g, x.s, &zz, &v);
    }
    let zz = vec![F; w];
    mux(g, x.nan, &zz, &r)
}
pub fn fconv(g: &mut Aig, from: Fmt, to: Fmt, b: &[Lit]) -> Vec<Lit> {
    let x = unpack(g, from, b);
    let mut r = round_pack(g, to, x.s, &x.exp, &x.sig);
    let z = zero(to, x.s);
    r = mux(g, x.zero, &z, &r);
    let i = inf(to, x.s);
    r = mux(g, x.inf, &i, &r);
    let q = qnan(to);
    mux(g, x.nan, &q, &r)
}
pub fn fdiv(g: &mut Aig, f: Fmt, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
    let m = f.m;
    let x = unpack(g, f, a);
    let y = unpack(g, f, b);
    let s = g.xor(x.s, y.s);
    // (sigx << (m+3)) / sigy
    let w = 2 * m + 5;
    let mut nx = vec![F; m + 3];
    nx.extend(&x.sig);
    let nx = zxt(&nx, w);
    let dy = zxt(&y.sig, w);
    let (q, r) = udivrem_bits(g, &nx, &dy);
    let st = orv(g, &r);
    let mut sig = q[..m + 5].to_vec();
    sig.insert(0, st);
    // q = sigx/sigy * 2^(m+3); sig has q<<1|st: value = sig/2^(m+4) ; register n=m+6 => n-1 = m+5
    let ex = sub(g, &x.exp, &y.exp);
    let one = kbits(1, XW);
    let ex = add(g, &ex, &one);
    let mut res = round_pack(g, f, s, &ex, &sig);
    let zr = zero(f, s);
    let ir = inf(f, s);
    let zc = g.or(x.zero, y.inf);
    res = mux(g, zc, &zr, &res);
    let ic = g.or(x.inf, y.zero);
    res = mux(g, ic, &ir, &res);
    let n0 = g.and(x.zero, y.zero);
    let n1 = g.and(x.inf, y.inf);
    let n2 = g.or(x.nan, y.nan);
    let n = g.or(n0, n1);
    let n = g.or(n, n2);
    let q = qnan(f);
    mux(g, n, &q, &res)
}
#[allow(dead_code)]
fn _unused(a: &[Lit]) -> Vec<Lit> {
    sxt(a, 1)
}

#[cfg(test)]
mod tests {
    use super::*;
    fn k(v: u32) -> Vec<Lit> {
        (0..32).map(|i| ((v >> i) & 1) as Lit).collect()
    }
    fn u(b: &[Lit]) -> u64 {
        b.iter().enumerate().map(|(i, &l)| (l as u64) << i).sum()
    }
    #[test]
    fn conc() {
        let mut g = Aig::new(1);
        let mut s = 12345u64;
        let mut rnd = || {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            let r = (s.wrapping_mul(0x2545F4914F6CDD1D) >> 32) as u32;
            match r % 7 {
                0 => r & 0x807fffff,
                1 => r | 0x7f800000,
                2 => (r & 0x80ffffff) | 0x3f000000,
                3 => (r & 0x83ffffff) | 0x40000000,
                _ => r,
            }
        };
        for _ in 0..20000 {
            let (a, b) = (rnd(), rnd());
            let (fa, fb) = (f32::from_bits(a), f32::from_bits(b));
            let eq = |r: Vec<Lit>, f: f32, what: &str| {
                let r = u(&r) as u32;
                assert!(r == f.to_bits() || (f.is_nan() && f32::from_bits(r).is_nan()), "{} {:x} {:x} got {:x} want {:x}", what, a, b, r, f.to_bits());
            };
            eq(fmul(&mut g, F32, &k(a), &k(b)), fa * fb, "mul");
            eq(fadd(&mut g, F32, &k(a), &k(b)), fa + fb, "add");
            eq(fadd(&mut g, F32, &k(a), &fneg(&k(b))), fa - fb, "sub");
            eq(fdiv(&mut g, F32, &k(a), &k(b)), fa / fb, "div");
            eq(from_int(&mut g, F32, &k(a), true), a as i32 as f32, "si");
            eq(from_int(&mut g, F32, &k(a), false), a as f32, "ui");
            assert_eq!(u(&to_int_sat(&mut g, F32, &k(a), 32, true)) as u32, fa as i32 as u32, "toi {:x}", a);
            assert_eq!(u(&to_int_sat(&mut g, F32, &k(a), 8, false)) as u8, fa as u8, "tou8 {:x}", a);
            assert_eq!(u(&to_int_sat(&mut g, F32, &k(a), 16, true)) as u16, fa as i16 as u16, "toi16 {:x}", a);
            assert_eq!(fcmp(&mut g, F32, "olt", &k(a), &k(b)) == 1, fa < fb);
            assert_eq!(fcmp(&mut g, F32, "oge", &k(a), &k(b)) == 1, fa >= fb);
            assert_eq!(fcmp(&mut g, F32, "une", &k(a), &k(b)) == 1, fa != fb);
            let d = fconv(&mut g, F32, F64, &k(a));
            assert!(u(&d) == (fa as f64).to_bits() || fa.is_nan());
        }
    }
}
