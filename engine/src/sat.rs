//! Incremental SAT over AIG cones (MiniSat back end) plus DIMACS/SMT-LIB export
//! of single queries to external solvers.
use crate::aig::*;
use std::os::raw::{c_int, c_longlong, c_void};
use std::time::Instant;

extern "C" {
    fn ms_new() -> *mut c_void;
    fn ms_free(p: *mut c_void);
    fn ms_new_var(p: *mut c_void) -> c_int;
    fn ms_add_clause(p: *mut c_void, l: *const c_int, n: c_int) -> c_int;
    fn ms_solve(p: *mut c_void, l: *const c_int, n: c_int, conf: c_longlong) -> c_int;
    fn ms_model(p: *mut c_void, v: c_int) -> c_int;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum R {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub ext_queries: u64,
    pub ext_secs: f64,
    pub ext_unsat: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.secs += o.secs;
        self.max_secs = self.max_secs.max(o.max_secs);
        self.ext_queries += o.ext_queries;
        self.ext_secs += o.ext_secs;
        self.ext_unsat += o.ext_unsat;
    }
}

pub struct Sat {
    p: *mut c_void,
    var: Vec<i32>, // node -> solver var or -1
    nvars: usize,
    pub stats: Stats,
}
impl Drop for Sat {
    fn drop(&mut self) {
        unsafe { ms_free(self.p) }
    }
}

impl Sat {
    pub fn new() -> Sat {
        Sat { p: unsafe { ms_new() }, var: vec![], nvars: 0, stats: Stats::default() }
    }
    /// drop all clauses (keep statistics) when the instance has grown large
    pub fn reset(&mut self) {
        unsafe {
            ms_free(self.p);
            self.p = ms_new();
        }
        self.var.clear();
        self.nvars = 0;
    }
    pub fn size(&self) -> usize {
        self.nvars
    }
    fn clause(&mut self, c: &[i32]) {
        unsafe {
            ms_add_clause(self.p, c.as_ptr(), c.len() as c_int);
        }
    }
    fn fresh(&mut self, nd: u32) -> i32 {
        let v = unsafe { ms_new_var(self.p) };
        self.var[nd as usize] = v;
        self.nvars += 1;
        v
    }
    /// load the cone of a literal; returns solver literal
    pub fn load(&mut self, g: &Aig, l: Lit) -> i32 {
        if self.var.len() < g.n.len() {
            self.var.resize(g.n.len(), -1);
        }
        if self.var[node(l) as usize] < 0 {
            let mut st = vec![node(l)];
            while let Some(&x) = st.last() {
                if self.var[x as usize] >= 0 {
                    st.pop();
                    continue;
                }
                if x == 0 {
                    let v = self.fresh(0);
                    self.clause(&[2 * v + 1]);
                    st.pop();
                    continue;
                }
                let (a, b) = g.n[x as usize];
                if a == u32::MAX {
                    self.fresh(x);
                    st.pop();
                    continue;
                }
                // xor/mux detection: x = !( p ) & !( q ), p=(c&t), q=(!c&e)
                if isneg(a) && isneg(b) {
                    let (a0, a1) = g.n[node(a) as usize];
                    let (b0, b1) = g.n[node(b) as usize];
                    if a0 != u32::MAX && b0 != u32::MAX && node(a) != 0 && node(b) != 0 {
                        let mut m = None;
                        for (c, t) in [(a0, a1), (a1, a0)] {
                            if b0 == neg(c) {
                                m = Some((c, t, b1));
                            } else if b1 == neg(c) {
                                m = Some((c, t, b0));
                            }
                        }
                        if let Some((c, t, e)) = m {
                            let mut pend = false;
                            for z in [c, t, e] {
                                if self.var[node(z) as usize] < 0 {
                                    st.push(node(z));
                                    pend = true;
                                }
                            }
                            if pend {
                                continue;
                            }
                            let v = self.fresh(x);
                            // x = mux(c, !t, !e)
                            let lv = 2 * v;
                            let (c, t, e) = (self.sl(c), self.sl(t), self.sl(e));
                            self.clause(&[c ^ 1, t, lv]);
                            self.clause(&[c ^ 1, t ^ 1, lv ^ 1]);
                            self.clause(&[c, e, lv]);
                            self.clause(&[c, e ^ 1, lv ^ 1]);
                            if t != e ^ 1 {
                                self.clause(&[t, e, lv]);
                                self.clause(&[t ^ 1, e ^ 1, lv ^ 1]);
                            }
                            st.pop();
                            continue;
                        }
                    }
                }
                let mut pend = false;
                for z in [a, b] {
                    if self.var[node(z) as usize] < 0 {
                        st.push(node(z));
                        pend = true;
                    }
                }
                if pend {
                    continue;
                }
                let v = self.fresh(x);
                let lv = 2 * v;
                let (a, b) = (self.sl(a), self.sl(b));
                self.clause(&[lv ^ 1, a]);
                self.clause(&[lv ^ 1, b]);
                self.clause(&[lv, a ^ 1, b ^ 1]);
                st.pop();
            }
        }
        self.sl(l)
    }
    #[inline]
    fn sl(&self, l: Lit) -> i32 {
        2 * self.var[node(l) as usize] + (l & 1) as i32
    }
    pub fn solve(&mut self, g: &Aig, asm: &[Lit], conf: i64) -> R {
        let mut a = vec![];
        for &l in asm {
            if l == F {
                return R::Unsat;
            }
            if l == T {
                continue;
            }
            let s = self.load(g, l);
            a.push(s);
        }
        let t = Instant::now();
        let r = unsafe { ms_solve(self.p, a.as_ptr(), a.len() as c_int, conf) };
        let d = t.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.secs += d;
        if d > self.stats.max_secs {
            self.stats.max_secs = d;
        }
        match r {
            1 => {
                self.stats.sat += 1;
                R::Sat
            }
            0 => {
                self.stats.unsat += 1;
                R::Unsat
            }
            _ => {
                self.stats.unknown += 1;
                R::Unknown
            }
        }
    }
    /// value of an AIG input node in the last model (false if not loaded)
    pub fn model_node(&self, nd: u32) -> bool {
        if nd as usize >= self.var.len() {
            return false;
        }
        let v = self.var[nd as usize];
        v >= 0 && unsafe { ms_model(self.p, v) } == 1
    }
    /// add a proven fact a == b
    pub fn assert_eq(&mut self, g: &Aig, a: Lit, b: Lit) {
        let (x, y) = (self.load(g, a), self.load(g, b));
        self.clause(&[x ^ 1, y]);
        self.clause(&[x, y ^ 1]);
    }
    pub fn assert_lit(&mut self, g: &Aig, a: Lit) {
        let x = self.load(g, a);
        self.clause(&[x]);
    }
}

/// SMT-LIB 2 text of "conjunction of asm is satisfiable", one Bool per AIG node.
pub fn to_smt2(g: &Aig, asm: &[Lit]) -> String {
    let mut need = std::collections::BTreeSet::new();
    let mut st: Vec<u32> = asm.iter().map(|&l| node(l)).collect();
    while let Some(x) = st.pop() {
        if x == 0 || !need.insert(x) {
            continue;
        }
        let (a, b) = g.n[x as usize];
        if a != u32::MAX {
            st.push(node(a));
            st.push(node(b));
        }
    }
    let l = |l: Lit| -> String {
        if l == F {
            "false".into()
        } else if l == T {
            "true".into()
        } else if isneg(l) {
            format!("(not n{})", node(l))
        } else {
            format!("n{}", node(l))
        }
    };
    let mut s = String::from("(set-logic QF_BV)\n");
    for &x in &need {
        let (a, b) = g.n[x as usize];
        if a == u32::MAX {
            s.push_str(&format!("(declare-const n{} Bool)\n", x));
        } else {
            s.push_str(&format!("(define-fun n{} () Bool (and {} {}))\n", x, l(a), l(b)));
        }
    }
    for &a in asm {
        s.push_str(&format!("(assert {})\n", l(a)));
    }
    s.push_str("(check-sat)\n");
    s
}

/// DIMACS text plus (node -> dimacs var) map
pub fn to_dimacs(g: &Aig, asm: &[Lit]) -> (String, std::collections::BTreeMap<u32, u32>) {
    let mut need = std::collections::BTreeMap::new();
    let mut st: Vec<u32> = asm.iter().map(|&l| node(l)).collect();
    let mut order = vec![];
    while let Some(x) = st.pop() {
        if need.contains_key(&x) {
            continue;
        }
        let v = need.len() as u32 + 1;
        need.insert(x, v);
        order.push(x);
        let (a, b) = g.n[x as usize];
        if x != 0 && a != u32::MAX {
            st.push(node(a));
            st.push(node(b));
        }
    }
    let l = |l: Lit| -> i64 {
        let v = need[&node(l)] as i64;
        if isneg(l) {
            -v
        } else {
            v
        }
    };
    let mut body = String::new();
    let mut nc = 0;
    for &x in &order {
        let (a, b) = g.n[x as usize];
        let v = need[&x] as i64;
        if x == 0 {
            body.push_str(&format!("-{} 0\n", v));
            nc += 1;
        } else if a != u32::MAX {
            body.push_str(&format!("-{} {} 0\n-{} {} 0\n{} {} {} 0\n", v, l(a), v, l(b), v, -l(a), -l(b)));
            nc += 3;
        }
    }
    for &a in asm {
        body.push_str(&format!("{} 0\n", l(a)));
        nc += 1;
    }
    (format!("p cnf {} {}\n{}", need.len(), nc, body), need)
}
