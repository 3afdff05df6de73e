//! And-inverter graph with structural hashing and bit-parallel simulation.
pub type Lit = u32;
pub const F: Lit = 0;
pub const T: Lit = 1;
pub const SW: usize = 4; // 256 base simulation patterns

#[inline]
pub fn neg(a: Lit) -> Lit {
    a ^ 1
}
#[inline]
pub fn node(a: Lit) -> u32 {
    a >> 1
}
#[inline]
pub fn isneg(a: Lit) -> bool {
    a & 1 == 1
}

pub struct Aig {
    pub n: Vec<(Lit, Lit)>, // inputs: (u32::MAX, input index)
    pub sim: Vec<[u64; SW]>,
    table: Vec<u32>,
    mask: usize,
    cnt: usize,
    pub inputs: Vec<u32>,
    rng: u64,
    pub limit: usize,
}

impl Aig {
    pub fn new(seed: u64) -> Aig {
        let cap = 1 << 14;
        Aig {
            n: vec![(0, 0)],
            sim: vec![[0; SW]],
            table: vec![0; cap],
            mask: cap - 1,
            cnt: 0,
            inputs: vec![],
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            limit: 60_000_000,
        }
    }
    fn rand(&mut self) -> u64 {
        let mut x = self.rng;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.rng = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn is_input(&self, nd: u32) -> bool {
        self.n[nd as usize].0 == u32::MAX
    }
    pub fn input(&mut self) -> Lit {
        let id = self.n.len() as u32;
        self.n.push((u32::MAX, self.inputs.len() as u32));
        let mut s = [0u64; SW];
        for w in s.iter_mut() {
            *w = self.rand();
        }
        // first patterns: all zero / all one
        s[0] = (s[0] & !3) | 2;
        self.sim.push(s);
        self.inputs.push(id);
        id << 1
    }
    #[inline]
    fn hash(a: Lit, b: Lit) -> usize {
        let x = ((a as u64) << 32 | b as u64).wrapping_mul(0x9E3779B97F4A7C15);
        (x ^ (x >> 29)) as usize
    }
    pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if a == F {
            return F;
        }
        if a == T {
            return b;
        }
        if a == b {
            return a;
        }
        if a == neg(b) {
            return F;
        }
        // two-level rules
        for (p, q) in [(a, b), (b, a)] {
            let np = node(p);
            let (x, y) = self.n[np as usize];
            if x == u32::MAX || np == 0 {
                continue;
            }
            if !isneg(p) {
                if q == x || q == y {
                    return p;
                }
                if q == neg(x) || q == neg(y) {
                    return F;
                }
                let nq = node(q);
                let (u, v) = self.n[nq as usize];
                if u != u32::MAX {
                    if !isneg(q) {
                        if x == neg(u) || x == neg(v) || y == neg(u) || y == neg(v) {
                            return F;
                        }
                    } else {
                        // p = x&y ; q = !(u&v)
                        if x == neg(u) || x == neg(v) || y == neg(u) || y == neg(v) {
                            return p;
                        }
                        if x == u || y == u {
                            return self.and(p, neg(v));
                        }
                        if x == v || y == v {
                            return self.and(p, neg(u));
                        }
                    }
                }
            } else {
                if q == neg(x) || q == neg(y) {
                    return q;
                }
                if q == x {
                    return self.and(x, neg(y));
                }
                if q == y {
                    return self.and(y, neg(x));
                }
                let nq = node(q);
                let (u, v) = self.n[nq as usize];
                if u != u32::MAX && isneg(q) && nq != 0 {
                    // !(x&y) & !(u&v): resolution  (x,y)=(u,!v) -> !x
                    if x == u && y == neg(v) {
                        return neg(x);
                    }
                    if x == v && y == neg(u) {
                        return neg(x);
                    }
                    if y == u && x == neg(v) {
                        return neg(y);
                    }
                    if y == v && x == neg(u) {
                        return neg(y);
                    }
                }
            }
        }
        let mut h = Self::hash(a, b) & self.mask;
        loop {
            let e = self.table[h];
            if e == 0 {
                break;
            }
            if self.n[e as usize] == (a, b) {
                return e << 1;
            }
            h = (h + 1) & self.mask;
        }
        let id = self.n.len() as u32;
        if self.n.len() > self.limit {
            panic!("AIG node limit");
        }
        self.n.push((a, b));
        let (sa, sb) = (self.sim[node(a) as usize], self.sim[node(b) as usize]);
        let ma = if isneg(a) { !0 } else { 0 };
        let mb = if isneg(b) { !0 } else { 0 };
        let mut s = [0u64; SW];
        for i in 0..SW {
            s[i] = (sa[i] ^ ma) & (sb[i] ^ mb);
        }
        self.sim.push(s);
        self.table[h] = id;
        self.cnt += 1;
        if self.cnt * 2 > self.mask {
            self.grow();
        }
        id << 1
    }
    fn grow(&mut self) {
        let cap = (self.mask + 1) * 2;
        self.mask = cap - 1;
        let mut t = vec![0u32; cap];
        for (i, &(a, b)) in self.n.iter().enumerate() {
            if i == 0 || a == u32::MAX {
                continue;
            }
            let mut h = Self::hash(a, b) & self.mask;
            while t[h] != 0 {
                h = (h + 1) & self.mask;
            }
            t[h] = i as u32;
        }
        self.table = t;
    }
    #[inline]
    pub fn or(&mut self, a: Lit, b: Lit) -> Lit {
        neg(self.and(neg(a), neg(b)))
    }
    pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        if a <= 1 {
            return b ^ a;
        }
        if b <= 1 {
            return a ^ b;
        }
        let s = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if a == b {
            return s;
        }
        let x = self.and(a, neg(b));
        let y = self.and(neg(a), b);
        let r = self.or(x, y);
        r ^ s
    }
    pub fn mux(&mut self, c: Lit, t: Lit, e: Lit) -> Lit {
        if c == T {
            return t;
        }
        if c == F {
            return e;
        }
        if t == e {
            return t;
        }
        let (c, t, e) = if isneg(c) { (neg(c), e, t) } else { (c, t, e) };
        if t == T || t == c {
            return self.or(c, e);
        }
        if t == F || t == neg(c) {
            return self.and(neg(c), e);
        }
        if e == T || e == neg(c) {
            return self.or(neg(c), t);
        }
        if e == F || e == c {
            return self.and(c, t);
        }
        if t == neg(e) {
            return self.xor(c, e);
        }
        // canonical output polarity: make the then-branch positive
        let s = t & 1;
        let (t, e) = (t ^ s, e ^ s);
        let x = self.and(c, t);
        let y = self.and(neg(c), e);
        self.or(x, y) ^ s
    }
    pub fn maj(&mut self, a: Lit, b: Lit, c: Lit) -> Lit {
        // sort for canonicity
        let mut v = [a, b, c];
        v.sort();
        let [a, b, c] = v;
        let ab = self.and(a, b);
        let aob = self.or(a, b);
        let t = self.and(c, aob);
        self.or(ab, t)
    }
    pub fn simlit(&self, a: Lit, w: usize) -> u64 {
        let s = self.sim[node(a) as usize][w];
        if isneg(a) {
            !s
        } else {
            s
        }
    }
    /// evaluate a set of literals under an assignment of inputs (by input index)
    pub fn eval(&self, roots: &[Lit], asg: &dyn Fn(u32) -> bool) -> Vec<bool> {
        let mut memo: std::collections::HashMap<u32, bool> = std::collections::HashMap::new();
        memo.insert(0, false);
        let mut out = vec![];
        for &r in roots {
            let mut st = vec![node(r)];
            while let Some(&x) = st.last() {
                if memo.contains_key(&x) {
                    st.pop();
                    continue;
                }
                let (a, b) = self.n[x as usize];
                if a == u32::MAX {
                    memo.insert(x, asg(b));
                    st.pop();
                    continue;
                }
                let (ka, kb) = (memo.get(&node(a)).copied(), memo.get(&node(b)).copied());
                match (ka, kb) {
                    (Some(p), Some(q)) => {
                        memo.insert(x, (p ^ isneg(a)) && (q ^ isneg(b)));
                        st.pop();
                    }
                    _ => {
                        if ka.is_none() {
                            st.push(node(a));
                        }
                        if kb.is_none() {
                            st.push(node(b));
                        }
                    }
                }
            }
            out.push(memo[&node(r)] ^ isneg(r));
        }
        out
    }
}
