//! Bit-vector values over the AIG, with concrete fast paths.
use crate::aig::*;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128, u32),
    B(Arc<[Lit]>),
    A(Arc<[V]>),
    U, // undefined / void
}
pub fn msk(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
impl V {
    pub fn c(v: u128, w: u32) -> V {
        if w > 128 {
            let mut b = vec![F; w as usize];
            for i in 0..128 {
                b[i] = ((v >> i) & 1) as Lit;
            }
            return V::B(b.into());
        }
        V::C(v & msk(w), w)
    }
    pub fn bit(v: bool) -> V {
        V::C(v as u128, 1)
    }
    pub fn lit(l: Lit) -> V {
        if l <= 1 {
            V::C(l as u128, 1)
        } else {
            V::B(Arc::from(&[l][..]))
        }
    }
    pub fn from_bits(b: Vec<Lit>) -> V {
        if b.len() <= 128 && b.iter().all(|&l| l <= 1) {
            let mut v = 0u128;
            for (i, &l) in b.iter().enumerate() {
                v |= (l as u128) << i;
            }
            V::C(v, b.len() as u32)
        } else {
            V::B(b.into())
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            V::C(_, w) => *w,
            V::B(b) => b.len() as u32,
            _ => panic!("width of aggregate/undef"),
        }
    }
    pub fn bits(&self) -> Vec<Lit> {
        match self {
            V::C(v, w) => (0..*w).map(|i| ((v >> i) & 1) as Lit).collect(),
            V::B(b) => b.to_vec(),
            _ => panic!("bits of aggregate/undef"),
        }
    }
    pub fn as_c(&self) -> Option<u128> {
        match self {
            V::C(v, _) => Some(*v),
            _ => None,
        }
    }
    pub fn as_lit(&self) -> Lit {
        match self {
            V::C(v, 1) => *v as Lit,
            V::B(b) if b.len() == 1 => b[0],
            _ => panic!("as_lit {:?}", self),
        }
    }
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::C(a, w), V::C(b, x)) => a == b && w == x,
            (V::B(a), V::B(b)) => Arc::ptr_eq(a, b) || a == b,
            (V::A(a), V::A(b)) => Arc::ptr_eq(a, b) || (a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.same(y))),
            (V::U, V::U) => true,
            _ => false,
        }
    }
}

fn eff(b: &[Lit]) -> usize {
    let mut n = b.len();
    while n > 0 && b[n - 1] == F {
        n -= 1;
    }
    n
}
/// minimal signed width (number of bits incl. sign) such that the rest is sign extension
fn seff(b: &[Lit]) -> usize {
    let mut n = b.len();
    while n > 1 && b[n - 1] == b[n - 2] {
        n -= 1;
    }
    n
}

pub fn add_bits(g: &mut Aig, a: &[Lit], b: &[Lit], cin: Lit) -> (Vec<Lit>, Lit) {
    let mut c = cin;
    let mut r = Vec::with_capacity(a.len());
    for i in 0..a.len() {
        let x = g.xor(a[i], b[i]);
        r.push(g.xor(x, c));
        c = g.maj(a[i], b[i], c);
    }
    (r, c)
}
pub fn neg_bits(g: &mut Aig, a: &[Lit]) -> Vec<Lit> {
    let n: Vec<Lit> = a.iter().map(|&l| neg(l)).collect();
    let z = vec![F; a.len()];
    add_bits(g, &n, &z, T).0
}
pub fn ult_bits(g: &mut Aig, a: &[Lit], b: &[Lit]) -> Lit {
    // a < b  <=> borrow of a-b
    let mut c = F;
    for i in 0..a.len() {
        // borrow' = (!a & b) | (borrow & (!a | b)) = maj(!a, b, borrow)
        c = g.maj(neg(a[i]), b[i], c);
    }
    c
}
pub fn eq_bits(g: &mut Aig, a: &[Lit], b: &[Lit]) -> Lit {
    let mut r = T;
    for i in 0..a.len() {
        let x = g.xor(a[i], b[i]);
        r = g.and(r, neg(x));
        if r == F {
            return F;
        }
    }
    r
}
pub fn mux_bits(g: &mut Aig, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
    (0..a.len()).map(|i| g.mux(c, a[i], b[i])).collect()
}
pub fn mul_bits(g: &mut Aig, a: &[Lit], b: &[Lit], w: usize) -> Vec<Lit> {
    // unsigned product truncated to w
    let (ea, eb) = (eff(a), eff(b));
    let mut acc = vec![F; w];
    if ea == 0 || eb == 0 {
        return acc;
    }
    // choose constant operand (or the narrower) as multiplier
    let ca = a[..ea].iter().filter(|&&l| l > 1).count();
    let cb = b[..eb].iter().filter(|&&l| l > 1).count();
    let swap = if ca == 0 {
        true
    } else if cb == 0 {
        false
    } else if ea != eb {
        ea < eb
    } else {
        a[..ea] < b[..eb]
    };
    let (a, b) = if swap { (&b[..eb], &a[..ea]) } else { (&a[..ea], &b[..eb]) };
    // a: multiplicand, b: multiplier
    let tot = w.min(a.len() + b.len());
    for (i, &l) in b.iter().enumerate() {
        if l == F || i >= tot {
            continue;
        }
        let mut row = vec![F; tot];
        for j in 0..a.len() {
            if i + j < tot {
                row[i + j] = g.and(a[j], l);
            }
        }
        let cur = acc[..tot].to_vec();
        // add only above i
        let (hi, _) = add_bits(g, &cur[i..], &row[i..], F);
        acc[i..tot].copy_from_slice(&hi);
    }
    acc
}
pub fn mul_any(g: &mut Aig, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
    let w = a.len();
    let (ea, eb) = (eff(a), eff(b));
    let (sa, sb) = (seff(a), seff(b));
    // use signed form if an operand is genuinely sign-extended
    if (ea > sa || eb > sb) && sa + sb <= w {
        let an = a[sa - 1];
        let bn = b[sb - 1];
        // |a|*|b| with sign fix keeps the circuit small
        let na = neg_bits(g, &a[..sa]);
        let nb = neg_bits(g, &b[..sb]);
        let ma = mux_bits(g, an, &na, &a[..sa]);
        let mb = mux_bits(g, bn, &nb, &b[..sb]);
        let pw = sa + sb;
        let p = mul_bits(g, &ma, &mb, pw);
        let np = neg_bits(g, &p);
        let s = g.xor(an, bn);
        let mut r = mux_bits(g, s, &np, &p);
        let top = r[pw - 1];
        r.resize(w, top);
        return r;
    }
    mul_bits(g, a, b, w)
}
pub fn udivrem_bits(g: &mut Aig, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
    let w = a.len();
    let ea = eff(a);
    let eb = eff(b);
    if b[..eb].iter().all(|&l| l <= 1) {
        // constant divisor
        let mut ones = 0;
        let mut pos = 0;
        for i in 0..eb {
            if b[i] == T {
                ones += 1;
                pos = i;
            }
        }
        if ones == 1 {
            let mut q = a[pos..].to_vec();
            q.resize(w, F);
            let mut r = a[..pos].to_vec();
            r.resize(w, F);
            return (q, r);
        }
    }
    let mut q = vec![F; w];
    let rw = eb + 1;
    let mut r: Vec<Lit> = vec![F; rw];
    let mut bb = b[..eb].to_vec();
    bb.resize(rw, F);
    let nb: Vec<Lit> = bb.iter().map(|&l| neg(l)).collect();
    for i in (0..ea).rev() {
        // r = r<<1 | a[i]
        r.insert(0, a[i]);
        r.truncate(rw);
        let (d, c) = add_bits(g, &r, &nb, T); // carry = r >= b
        q[i] = c;
        r = mux_bits(g, c, &d, &r);
    }
    r.resize(w, F);
    r.truncate(w);
    (q, r)
}

pub enum Op {
    Add,
    Sub,
    Mul,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    UDiv,
    SDiv,
    URem,
    SRem,
}

pub fn binop(g: &mut Aig, op: &Op, a: &V, b: &V) -> V {
    if let (V::C(x, w), V::C(y, w2)) = (a, b) {
        debug_assert!(w == w2);
        let w = *w;
        let (x, y) = (*x, *y);
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = sx(x, w);
                (if y >= w as u128 { s >> 127 } else { s >> y }) as u128
            }
            Op::UDiv => {
                if y == 0 {
                    0
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    0
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                if y == 0 {
                    0
                } else {
                    sx(x, w).wrapping_div(sx(y, w)) as u128
                }
            }
            Op::SRem => {
                if y == 0 {
                    0
                } else {
                    sx(x, w).wrapping_rem(sx(y, w)) as u128
                }
            }
        };
        return V::c(r, w);
    }
    let (x, y) = (a.bits(), b.bits());
    let w = x.len();
    let r = match op {
        Op::Add => {
            // disjoint supports => or
            if (0..w).all(|i| x[i] == F || y[i] == F) {
                (0..w).map(|i| x[i] | y[i]).collect()
            } else {
                add_bits(g, &x, &y, F).0
            }
        }
        Op::Sub => {
            let ny: Vec<Lit> = y.iter().map(|&l| neg(l)).collect();
            add_bits(g, &x, &ny, T).0
        }
        Op::Mul => mul_any(g, &x, &y),
        Op::And => (0..w).map(|i| g.and(x[i], y[i])).collect(),
        Op::Or => (0..w).map(|i| g.or(x[i], y[i])).collect(),
        Op::Xor => (0..w).map(|i| g.xor(x[i], y[i])).collect(),
        Op::Shl => shift(g, &x, b, 0),
        Op::LShr => shift(g, &x, b, 1),
        Op::AShr => shift(g, &x, b, 2),
        Op::UDiv => udivrem_bits(g, &x, &y).0,
        Op::URem => udivrem_bits(g, &x, &y).1,
        Op::SDiv | Op::SRem => {
            let (sa, sb) = (x[w - 1], y[w - 1]);
            let na = neg_bits(g, &x);
            let nb = neg_bits(g, &y);
            let ma = mux_bits(g, sa, &na, &x);
            let mb = mux_bits(g, sb, &nb, &y);
            let (q, r) = udivrem_bits(g, &ma, &mb);
            if let Op::SDiv = op {
                let s = g.xor(sa, sb);
                let nq = neg_bits(g, &q);
                mux_bits(g, s, &nq, &q)
            } else {
                let nr = neg_bits(g, &r);
                mux_bits(g, sa, &nr, &r)
            }
        }
    };
    V::from_bits(r)
}

fn shift(g: &mut Aig, x: &[Lit], b: &V, kind: u8) -> Vec<Lit> {
    let w = x.len();
    let fill = if kind == 2 { x[w - 1] } else { F };
    let sh = |x: &[Lit], k: usize| -> Vec<Lit> {
        (0..w)
            .map(|i| {
                if kind == 0 {
                    if i >= k {
                        x[i - k]
                    } else {
                        F
                    }
                } else if i + k < w {
                    x[i + k]
                } else {
                    fill
                }
            })
            .collect()
    };
    if let Some(k) = b.as_c() {
        return if k >= w as u128 { vec![fill; w] } else { sh(x, k as usize) };
    }
    let y = b.bits();
    let mut cur = x.to_vec();
    let mut over = F;
    for (i, &l) in y.iter().enumerate() {
        if l == F {
            continue;
        }
        if i >= 31 || (1usize << i) >= w {
            over = g.or(over, l);
        } else {
            let s = sh(&cur, 1 << i);
            cur = mux_bits(g, l, &s, &cur);
        }
    }
    let fv = vec![fill; w];
    mux_bits(g, over, &fv, &cur)
}

pub fn mux(g: &mut Aig, c: Lit, a: &V, b: &V) -> V {
    if c == T {
        return a.clone();
    }
    if c == F {
        return b.clone();
    }
    match (a, b) {
        (V::U, x) | (x, V::U) => x.clone(),
        (V::A(x), V::A(y)) => {
            if Arc::ptr_eq(x, y) {
                return a.clone();
            }
            V::A(x.iter().zip(y.iter()).map(|(p, q)| mux(g, c, p, q)).collect::<Vec<_>>().into())
        }
        _ => {
            if a.same(b) {
                return a.clone();
            }
            let r = mux_bits(g, c, &a.bits(), &b.bits());
            V::from_bits(r)
        }
    }
}

pub fn icmp(g: &mut Aig, pred: &str, a: &V, b: &V) -> Lit {
    if let (V::C(x, w), V::C(y, _)) = (a, b) {
        let (sx_, sy) = (sx(*x, *w), sx(*y, *w));
        let r = match pred {
            "eq" => x == y,
            "ne" => x != y,
            "ult" => x < y,
            "ule" => x <= y,
            "ugt" => x > y,
            "uge" => x >= y,
            "slt" => sx_ < sy,
            "sle" => sx_ <= sy,
            "sgt" => sx_ > sy,
            "sge" => sx_ >= sy,
            _ => panic!("icmp {}", pred),
        };
        return r as Lit;
    }
    let (mut x, mut y) = (a.bits(), b.bits());
    match pred {
        "eq" => return eq_bits(g, &x, &y),
        "ne" => return neg(eq_bits(g, &x, &y)),
        _ => {}
    }
    if pred.starts_with('s') {
        let w = x.len();
        x[w - 1] = neg(x[w - 1]);
        y[w - 1] = neg(y[w - 1]);
    }
    match &pred[1..] {
        "lt" => ult_bits(g, &x, &y),
        "gt" => ult_bits(g, &y, &x),
        "le" => neg(ult_bits(g, &y, &x)),
        "ge" => neg(ult_bits(g, &x, &y)),
        _ => panic!("icmp {}", pred),
    }
}

pub fn zext(v: &V, w: u32) -> V {
    match v {
        V::C(x, _) => V::c(*x, w),
        _ => {
            let mut b = v.bits();
            b.resize(w as usize, F);
            V::from_bits(b)
        }
    }
}
pub fn sext(v: &V, w: u32) -> V {
    match v {
        V::C(x, k) if w <= 128 => V::c(sx(*x, *k) as u128, w),
        _ => {
            let mut b = v.bits();
            let t = *b.last().unwrap();
            b.resize(w as usize, t);
            V::from_bits(b)
        }
    }
}
pub fn trunc(v: &V, w: u32) -> V {
    match v {
        V::C(x, _) => V::c(*x, w),
        _ => {
            let mut b = v.bits();
            b.truncate(w as usize);
            V::from_bits(b)
        }
    }
}
pub fn extract(v: &V, lo: u32, n: u32) -> V {
    match v {
        V::C(x, _) => V::c(if lo >= 128 { 0 } else { *x >> lo }, n),
        V::B(b) => V::from_bits(b[lo as usize..(lo + n) as usize].to_vec()),
        _ => panic!("extract"),
    }
}
pub fn concat_lo_hi(parts: &[V]) -> V {
    let mut b = vec![];
    for p in parts {
        b.extend(p.bits());
    }
    V::from_bits(b)
}

/// {result, overflow} for the llvm.*.with.overflow family
pub fn with_overflow(g: &mut Aig, signed: bool, op: &str, a: &V, b: &V) -> (V, Lit) {
    let w = a.width();
    if let (V::C(x, _), V::C(y, _)) = (a, b) {
        if w <= 64 {
            let (r, ov);
            if signed {
                let (p, q) = (sx(*x, w), sx(*y, w));
                let z = match op {
                    "add" => p + q,
                    "sub" => p - q,
                    _ => p * q,
                };
                r = z as u128;
                ov = sx(V::c(r, w).as_c().unwrap(), w) != z;
            } else {
                match op {
                    "add" => {
                        r = x + y;
                        ov = r > msk(w);
                    }
                    "sub" => {
                        r = x.wrapping_sub(*y);
                        ov = y > x;
                    }
                    _ => {
                        r = x * y;
                        ov = r > msk(w);
                    }
                }
            }
            return (V::c(r, w), ov as Lit);
        }
    }
    let w = w as usize;
    match (signed, op) {
        (false, "add") => {
            let (r, c) = add_bits(g, &a.bits(), &b.bits(), F);
            (V::from_bits(r), c)
        }
        (false, "sub") => {
            let (x, y) = (a.bits(), b.bits());
            let ny: Vec<Lit> = y.iter().map(|&l| neg(l)).collect();
            let (r, c) = add_bits(g, &x, &ny, T);
            (V::from_bits(r), neg(c))
        }
        (true, "add") | (true, "sub") => {
            let x = sext(a, w as u32 + 1).bits();
            let y = sext(b, w as u32 + 1).bits();
            let r = if op == "add" {
                add_bits(g, &x, &y, F).0
            } else {
                let ny: Vec<Lit> = y.iter().map(|&l| neg(l)).collect();
                add_bits(g, &x, &ny, T).0
            };
            let ov = g.xor(r[w], r[w - 1]);
            (V::from_bits(r[..w].to_vec()), ov)
        }
        (false, _) => {
            let (x, y) = (a.bits(), b.bits());
            let (ex, ey) = (eff(&x), eff(&y));
            if ex + ey <= w {
                return (V::from_bits(mul_bits(g, &x, &y, w)), F);
            }
            let p = mul_bits(g, &x, &y, 2 * w);
            let mut ov = F;
            for i in w..2 * w {
                ov = g.or(ov, p[i]);
            }
            (V::from_bits(p[..w].to_vec()), ov)
        }
        (true, _) => {
            let x = sext(a, 2 * w as u32).bits();
            let y = sext(b, 2 * w as u32).bits();
            let p = mul_any(g, &x, &y);
            let mut ov = F;
            for i in w..2 * w {
                let d = g.xor(p[i], p[w - 1]);
                ov = g.or(ov, d);
            }
            (V::from_bits(p[..w].to_vec()), ov)
        }
    }
}
