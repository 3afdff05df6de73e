//! Symbolic executor: merges states at immediate postdominators.
use crate::aig::*;
use crate::bv::{self, *};
use crate::float;
use crate::ir::{self, *};
use crate::sat::{Sat, R};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::time::Instant;

/// per case; executions of the real code stay far below
const STEP_LIMIT: u64 = 60_000_000;
pub const FN_BASE: u64 = 0x7F00_0000_0000_0000;

#[derive(Clone, Copy, PartialEq)]
pub enum Bx {
    K(u8),
    S([Lit; 8]),
}
impl Bx {
    fn bits(&self) -> [Lit; 8] {
        match self {
            Bx::K(b) => {
                let mut r = [0; 8];
                for i in 0..8 {
                    r[i] = ((b >> i) & 1) as Lit;
                }
                r
            }
            Bx::S(l) => *l,
        }
    }
    fn from(l: [Lit; 8]) -> Bx {
        if l.iter().all(|&x| x <= 1) {
            let mut b = 0u8;
            for i in 0..8 {
                b |= (l[i] as u8) << i;
            }
            Bx::K(b)
        } else {
            Bx::S(l)
        }
    }
}
#[derive(Clone)]
pub struct Obj {
    pub b: Vec<Bx>,
    pub ro: bool,
}
#[derive(Clone)]
pub struct State {
    pub mem: Vec<Option<Arc<Obj>>>,
    pub pc: Lit,
}

#[derive(Clone, Debug)]
pub struct Ob {
    pub code: u32,
    pub what: String,
    pub bad: Lit,
}

pub struct Prog {
    pub m: Module,
    pub gobjs: Vec<Option<Arc<Obj>>>, // initial memory image (index = object id)
}

pub fn load_prog(m: Module) -> Prog {
    let mut p = Prog { m, gobjs: vec![None] };
    for g in &p.m.globals {
        let mut b = vec![Bx::K(0); g.size as usize];
        for i in &g.init {
            if let GInit::Bytes(o, v) = i {
                for (k, &x) in v.iter().enumerate() {
                    b[*o as usize + k] = Bx::K(x);
                }
            }
        }
        p.gobjs.push(Some(Arc::new(Obj { b, ro: g.constant })));
    }
    // references
    for gi in 0..p.m.globals.len() {
        let init = p.m.globals[gi].init.clone();
        for i in &init {
            if let GInit::Ref(o, opd) = i {
                if let Some(v) = const_opd(&p.m, opd) {
                    let mut ob = (**p.gobjs[gi + 1].as_ref().unwrap()).clone();
                    let (v, n) = match opd {
                        Opd::Sub(a, b) => (relative(const_opd(&p.m, a).unwrap(), const_opd(&p.m, b).unwrap(), gi), 4),
                        _ => (v, 8),
                    };
                    for k in 0..n {
                        if (*o as usize) + k < ob.b.len() {
                            ob.b[*o as usize + k] = Bx::K((v >> (8 * k)) as u8);
                        }
                    }
                    p.gobjs[gi + 1] = Some(Arc::new(ob));
                }
            }
        }
    }
    p
}
/// entry of a relative pointer table (read by llvm.load.relative): objects lie 4 GiB apart in this model, so that a
/// difference of addresses would not fit 32 bits
fn relative(a: u64, b: u64, gi: usize) -> u64 {
    assert!(b >> 32 == gi as u64 + 1 && b as u32 == 0, "relative table");
    let v = if a >= FN_BASE {
        assert!(a - FN_BASE < 1 << 28);
        (1 << 30) | (a - FN_BASE) as i64
    } else {
        let d = (a >> 32) as i64 - (b >> 32) as i64;
        assert!(a as u32 as u64 == a & 0xffff && d.abs() < 8192, "relative table");
        d << 16 | (a & 0xffff) as i64
    };
    v as u32 as u64
}
fn sym_addr(m: &Module, n: &str) -> Option<u64> {
    if let Some(&g) = m.gidx.get(n) {
        return Some(((g as u64) + 1) << 32);
    }
    if let Some(&f) = m.fidx.get(n) {
        return Some(FN_BASE + 16 * f as u64);
    }
    if let Some(&d) = m.didx.get(n) {
        return Some(FN_BASE + 16 * (m.funcs.len() + d) as u64);
    }
    None
}
fn const_opd(m: &Module, o: &Opd) -> Option<u64> {
    match o {
        Opd::K(V::C(x, _)) => Some(*x as u64),
        Opd::Sym(n) => sym_addr(m, n),
        Opd::Sub(a, b) => Some(const_opd(m, a)?.wrapping_sub(const_opd(m, b)?)),
        _ => None,
    }
}

pub struct NeedCase(pub usize);
pub struct PathEnd(pub String);

pub struct Ex<'a> {
    pub p: &'a Prog,
    pub g: Aig,
    pub seed: u64,
    pub sat: Sat,
    pub obs: Vec<Ob>,
    pub covers: BTreeMap<u32, Lit>,
    /// assertion bits whose two sides became the same circuit node
    pub struct_eq: u64,
    pub cases: Vec<usize>,
    pub case_ns: Vec<usize>,
    pub params: Vec<usize>,
    pub sym_order: Vec<(u64, usize)>, // (first input index, nbytes)
    pub steps: u64,
    pub forks: u64,
    pub loops: u64,
    pub funcs_used: BTreeMap<usize, u64>,
    pub dead_by_solver: u64,
    pub stack: Vec<usize>,
    pub deadline: Instant,
    pub fdeadline: f64,
    pub feas_budget: i64,
    pub heap: u64,
    pub maxdepth: usize,
    pub trace: bool,
    /// where execution was given up (time or steps)
    pub hang: Lit,
}

type Res = Option<(Vec<V>, State, Option<V>)>;

enum Tree {
    Leaf(u64),
    Node(Lit, Box<Tree>, Box<Tree>),
}

macro_rules! fail {
    ($s:expr, $($a:tt)*) => {{
        let st: Vec<String> = $s.stack.iter().map(|&f| crate::short(&$s.p.m.funcs[f].name)).collect();
        std::panic::panic_any(PathEnd(format!("{} [stack {}]", format!($($a)*), st.join(" > "))))
    }};
}

impl<'a> Ex<'a> {
    pub fn new(p: &'a Prog, seed: u64, cases: Vec<usize>, params: Vec<usize>, deadline: Instant) -> Ex<'a> {
        Ex {
            p,
            g: Aig::new(seed),
            seed,
            sat: Sat::new(),
            obs: vec![],
            covers: BTreeMap::new(),
            struct_eq: 0,
            cases,
            case_ns: vec![],
            params,
            sym_order: vec![],
            steps: 0,
            forks: 0,
            loops: 0,
            funcs_used: BTreeMap::new(),
            dead_by_solver: 0,
            stack: vec![],
            deadline,
            fdeadline: 0.0,
            feas_budget: 3000,
            heap: 0,
            maxdepth: 0,
            trace: false,
            hang: F,
        }
    }
    pub fn run_harness(&mut self, name: &str) {
        let f = match self.p.m.fidx.get(name) {
            Some(&f) => f,
            None => fail!(self, "harness {} not found", name),
        };
        let st = State { mem: self.p.gobjs.clone(), pc: T };
        self.call_fn(f, vec![], st, 0);
    }
    fn check_time(&mut self, pc: Lit) {
        if self.steps > STEP_LIMIT {
            self.hang = pc;
            fail!(self, "step limit");
        }
        if self.steps & 0xfff == 0 && Instant::now() > self.deadline {
            self.hang = pc;
            fail!(self, "time limit");
        }
    }
    /// is `l` satisfiable? (unknown counts as yes)
    pub fn feasible(&mut self, l: Lit) -> bool {
        if l == F {
            return false;
        }
        if l == T {
            return true;
        }
        for w in 0..SW {
            if self.g.simlit(l, w) != 0 {
                return true;
            }
        }
        if self.sat.size() > 400_000 {
            self.sat.reset();
        }
        let r = self.sat.solve(&self.g, &[l], self.feas_budget);
        if r == R::Unsat {
            self.dead_by_solver += 1;
        }
        r != R::Unsat
    }
    fn opd(&self, regs: &[V], o: &Opd) -> V {
        match o {
            Opd::R(r) => regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
            Opd::Sym(n) => match sym_addr(&self.p.m, n) {
                Some(a) => V::C(a as u128, 64),
                None => fail!(self, "unresolved symbol {}", n),
            },
            Opd::Sub(..) => match const_opd(&self.p.m, o) {
                Some(a) => V::C(a as u128, 64),
                None => fail!(self, "const expr {:?}", o),
            },
            _ => fail!(self, "operand {:?}", o),
        }
    }
    pub fn call_fn(&mut self, f: usize, args: Vec<V>, st: State, depth: usize) -> Option<(V, State)> {
        let p = self.p;
        let func = &p.m.funcs[f];
        if depth > 400 {
            fail!(self, "call depth");
        }
        *self.funcs_used.entry(f).or_insert(0) += 1;
        self.stack.push(f);
        let base = st.mem.len();
        let mut regs = vec![V::U; func.nregs];
        for (i, &r) in func.params.iter().enumerate() {
            if i < args.len() {
                regs[r as usize] = args[i].clone();
            }
        }
        let mut allocs = vec![];
        let r = self.run(f, regs, st, 0, None, depth, &mut allocs);
        self.stack.pop();
        let (_, mut st, rv) = r?;
        for a in allocs {
            if a < st.mem.len() {
                st.mem[a] = None;
            }
        }
        while st.mem.len() > base && st.mem.last().map_or(false, |o| o.is_none()) {
            st.mem.pop();
        }
        Some((rv.unwrap_or(V::U), st))
    }
    fn jump(&mut self, func: &Func, regs: &mut Vec<V>, from: usize, to: usize) {
        let b = &func.blocks[to];
        if b.phis.is_empty() {
            return;
        }
        let vals: Vec<(u32, V)> = b
            .phis
            .iter()
            .map(|(d, v, _)| {
                let o = v.iter().find(|(p, _)| *p == from).map(|(_, o)| o).unwrap_or_else(|| panic!("phi"));
                (*d, self.opd(regs, o))
            })
            .collect();
        for (d, v) in vals {
            regs[d as usize] = v;
        }
    }
    fn merge(&mut self, c: Lit, a: Res, b: Res, pc0: Lit) -> Res {
        match (a, b) {
            (None, None) => None,
            (Some(x), None) | (None, Some(x)) => Some(x),
            (Some((r1, s1, v1)), Some((mut r2, s2, v2))) => {
                for i in 0..r1.len() {
                    let same = match (&r1[i], &r2[i]) {
                        (V::U, V::U) => true,
                        (V::U, _) => true,
                        (x, y) => x.same(y),
                    };
                    if !same {
                        r2[i] = match (&r1[i], &r2[i]) {
                            (x, V::U) => x.clone(),
                            (x, y) => bv::mux(&mut self.g, c, x, y),
                        };
                    }
                }
                let t1 = self.g.and(pc0, c);
                let t2 = self.g.and(pc0, neg(c));
                let pc = if s1.pc == t1 && s2.pc == t2 { pc0 } else { self.g.or(s1.pc, s2.pc) };
                let st = self.merge_mem(c, s1, s2, pc);
                let v = match (v1, v2) {
                    (Some(x), Some(y)) => Some(bv::mux(&mut self.g, c, &x, &y)),
                    (x, None) => x,
                    (None, y) => y,
                };
                Some((r2, st, v))
            }
        }
    }
    fn merge_mem(&mut self, c: Lit, s1: State, s2: State, pc: Lit) -> State {
        let n = s1.mem.len().max(s2.mem.len());
        let mut mem = Vec::with_capacity(n);
        for i in 0..n {
            let a = s1.mem.get(i).cloned().flatten();
            let b = s2.mem.get(i).cloned().flatten();
            mem.push(match (a, b) {
                (Some(x), Some(y)) => {
                    if Arc::ptr_eq(&x, &y) {
                        Some(x)
                    } else {
                        let (big, sm, bigfirst) = if x.b.len() >= y.b.len() { (&x, &y, true) } else { (&y, &x, false) };
                        let mut o = (**big).clone();
                        let mut ch = false;
                        for k in 0..sm.b.len() {
                            if x.b[k] != y.b[k] {
                                let (p, q) = (x.b[k].bits(), y.b[k].bits());
                                let mut r = [0; 8];
                                for j in 0..8 {
                                    r[j] = self.g.mux(c, p[j], q[j]);
                                }
                                o.b[k] = Bx::from(r);
                                ch = true;
                            }
                        }
                        if !ch && bigfirst {
                            Some(x)
                        } else {
                            Some(Arc::new(o))
                        }
                    }
                }
                (Some(x), None) | (None, Some(x)) => Some(x),
                _ => None,
            });
        }
        State { mem, pc }
    }

    fn run(&mut self, f: usize, mut regs: Vec<V>, mut st: State, mut blk: usize, stop: Option<usize>, depth: usize, allocs: &mut Vec<usize>) -> Res {
        let p = self.p;
        let func = &p.m.funcs[f];
        let sdepth = self.stack.len();
        loop {
            if Some(blk) == stop {
                return Some((regs, st, None));
            }
            let b = &func.blocks[blk];
            for ins in &b.ins {
                self.steps += 1;
                self.check_time(st.pc);
                if let I::Call(d, rt, callee, args) = ins {
                    let av: Vec<V> = args.iter().map(|(_, o)| self.opd(&regs, o)).collect();
                    let (rv, s2) = match self.do_call(callee, &regs, av, args, rt, st, depth)? {
                        x => x,
                    };
                    self.stack.truncate(sdepth);
                    st = s2;
                    if let Some(d) = d {
                        regs[*d as usize] = rv;
                    }
                    continue;
                }
                self.ins(ins, &mut regs, &mut st, allocs)?;
            }
            // terminator
            match &b.term {
                Term::Ret(o) => {
                    let v = o.as_ref().map(|o| self.opd(&regs, o)).unwrap_or(V::U);
                    return Some((regs, st, Some(v)));
                }
                Term::Br(x) => {
                    self.jump(func, &mut regs, blk, *x);
                    if *x <= blk {
                        self.loops += 1;
                    }
                    blk = *x;
                }
                Term::CondBr(o, x, y) => {
                    let c = self.opd(&regs, o).as_lit();
                    if c <= 1 {
                        let t = if c == T { *x } else { *y };
                        self.jump(func, &mut regs, blk, t);
                        blk = t;
                        continue;
                    }
                    let pt = self.g.and(st.pc, c);
                    let pf = self.g.and(st.pc, neg(c));
                    let ft = self.feasible(pt);
                    let ff = self.feasible(pf);
                    if !ft && !ff {
                        return None;
                    }
                    if !(ft && ff) {
                        let t = if ft { *x } else { *y };
                        self.jump(func, &mut regs, blk, t);
                        blk = t;
                        continue;
                    }
                    self.forks += 1;
                    // panic-only side first: keeps memory small
                    let join = func.ipdom[blk];
                    let pc0 = st.pc;
                    if !func.can_ret[*x] || !func.can_ret[*y] {
                        let (bad, good, pbad, pgood) = if !func.can_ret[*x] { (*x, *y, pt, pf) } else { (*y, *x, pf, pt) };
                        let mut r1 = regs.clone();
                        let mut s1 = st.clone();
                        s1.pc = pbad;
                        self.jump(func, &mut r1, blk, bad);
                        let r = self.run(f, r1, s1, bad, None, depth, allocs);
                        self.stack.truncate(sdepth);
                        if r.is_some() {
                            fail!(self, "diverging block returned");
                        }
                        st.pc = pgood;
                        self.jump(func, &mut regs, blk, good);
                        blk = good;
                        continue;
                    }
                    let mut r1 = regs.clone();
                    let mut s1 = st.clone();
                    s1.pc = pt;
                    self.jump(func, &mut r1, blk, *x);
                    let a = self.run(f, r1, s1, *x, join, depth, allocs);
                    self.stack.truncate(sdepth);
                    let mut r2 = regs;
                    let mut s2 = st;
                    s2.pc = pf;
                    self.jump(func, &mut r2, blk, *y);
                    let bb = self.run(f, r2, s2, *y, join, depth, allocs);
                    self.stack.truncate(sdepth);
                    let (r, s, v) = self.merge(c, a, bb, pc0)?;
                    match join {
                        None => return Some((r, s, v)),
                        Some(j) => {
                            regs = r;
                            st = s;
                            blk = j;
                        }
                    }
                }
                Term::Switch(o, d, cs) => {
                    let v = self.opd(&regs, o);
                    if let Some(k) = v.as_c() {
                        let t = cs.iter().find(|(x, _)| V::c(*x, v.width()).as_c() == Some(k)).map(|(_, t)| *t).unwrap_or(*d);
                        self.jump(func, &mut regs, blk, t);
                        blk = t;
                        continue;
                    }
                    // group by target
                    let mut groups: Vec<(usize, Lit)> = vec![];
                    let mut any = F;
                    for (k, t) in cs {
                        let e = bv::icmp(&mut self.g, "eq", &v, &V::c(*k, v.width()));
                        any = self.g.or(any, e);
                        if let Some(gr) = groups.iter_mut().find(|x| x.0 == *t) {
                            gr.1 = self.g.or(gr.1, e);
                        } else {
                            groups.push((*t, e));
                        }
                    }
                    if let Some(gr) = groups.iter_mut().find(|x| x.0 == *d) {
                        gr.1 = self.g.or(gr.1, neg(any));
                    } else {
                        groups.push((*d, neg(any)));
                    }
                    let mut live = vec![];
                    for (t, c) in groups {
                        let l = self.g.and(st.pc, c);
                        if self.feasible(l) {
                            live.push((t, c, l));
                        }
                    }
                    if live.is_empty() {
                        return None;
                    }
                    if live.len() == 1 {
                        let t = live[0].0;
                        self.jump(func, &mut regs, blk, t);
                        blk = t;
                        continue;
                    }
                    self.forks += 1;
                    let join = func.ipdom[blk];
                    let pc0 = st.pc;
                    let mut acc: Res = None;
                    let mut full = true;
                    let nl = live.len();
                    for (k, (t, c, l)) in live.into_iter().enumerate() {
                        let mut r1 = regs.clone();
                        let mut s1 = st.clone();
                        s1.pc = l;
                        self.jump(func, &mut r1, blk, t);
                        let stop2 = if func.can_ret[t] { join } else { None };
                        let r = self.run(f, r1, s1, t, stop2, depth, allocs);
                        self.stack.truncate(sdepth);
                        if let Some(x) = &r {
                            if x.1.pc != l {
                                full = false;
                            }
                        } else {
                            full = false;
                        }
                        let _ = (k, nl);
                        acc = match (r, acc) {
                            (None, a) => a,
                            (r, None) => r,
                            (r, a) => self.merge(c, r, a, F),
                        };
                    }
                    let (r, mut s, v) = acc?;
                    if full {
                        s.pc = pc0;
                    }
                    match join {
                        None => return Some((r, s, v)),
                        Some(j) => {
                            regs = r;
                            st = s;
                            blk = j;
                        }
                    }
                }
                Term::Unreachable => {
                    self.record_bad(st.pc, 9001, "reached LLVM unreachable (undefined behaviour)".into());
                    return None;
                }
                Term::Unsupported(s) => fail!(self, "unsupported terminator {}", s),
            }
        }
    }
    fn record_bad(&mut self, bad: Lit, code: u32, what: String) {
        if bad == F {
            return;
        }
        let fr: Vec<String> = self.stack.iter().map(|&f| crate::short(&self.p.m.funcs[f].name)).collect();
        let k = fr.len().saturating_sub(4);
        self.obs.push(Ob { code, what: format!("{} in {}", what, fr[k..].join(" > ")), bad });
    }

    // ---- memory -------------------------------------------------------
    fn tree(&self, bits: &[Lit], sub: &mut HashMap<u32, bool>, order: &[u32], k: usize) -> Tree {
        if k == order.len() {
            let mut a = 0u64;
            for (i, &l) in bits.iter().enumerate() {
                let v = if l <= 1 { l == T } else { sub[&node(l)] ^ isneg(l) };
                if v {
                    a |= 1 << i;
                }
            }
            return Tree::Leaf(a);
        }
        sub.insert(order[k], true);
        let t = self.tree(bits, sub, order, k + 1);
        sub.insert(order[k], false);
        let e = self.tree(bits, sub, order, k + 1);
        sub.remove(&order[k]);
        Tree::Node(order[k] << 1, Box::new(t), Box::new(e))
    }
    fn resolve(&mut self, ptr: &V, pc: Lit) -> Tree {
        match ptr {
            V::C(a, _) => Tree::Leaf(*a as u64),
            V::B(b) => {
                let mut order: Vec<u32> = vec![];
                for &l in b.iter().rev() {
                    if l > 1 && !order.contains(&node(l)) {
                        order.push(node(l));
                    }
                }
                if order.len() <= 13 {
                    let mut sub = HashMap::new();
                    return self.tree(b, &mut sub, &order, 0);
                }
                // enumerate feasible pointer values with the solver
                let mut vals: Vec<(u64, Lit)> = vec![];
                let mut rest = pc;
                let bits: Vec<Lit> = b.to_vec();
                for &l in &bits {
                    if l > 1 {
                        self.sat.load(&self.g, l);
                    }
                }
                loop {
                    if vals.len() > 9000 {
                        fail!(self, "too many pointer values");
                    }
                    match self.sat.solve(&self.g, &[rest], -1) {
                        R::Unsat => break,
                        R::Unknown => fail!(self, "pointer enumeration unknown"),
                        R::Sat => {}
                    }
                    let mut a = 0u64;
                    for (i, &l) in bits.iter().enumerate() {
                        let v = if l <= 1 { l == T } else { self.sat.model_node(node(l)) ^ isneg(l) };
                        if v {
                            a |= 1 << i;
                        }
                    }
                    let e = bv::icmp(&mut self.g, "eq", ptr, &V::c(a as u128, 64));
                    vals.push((a, e));
                    rest = self.g.and(rest, neg(e));
                }
                if vals.is_empty() {
                    return Tree::Leaf(0);
                }
                let mut t = Tree::Leaf(vals[0].0);
                for (a, e) in vals[1..].iter() {
                    t = Tree::Node(*e, Box::new(Tree::Leaf(*a)), Box::new(t));
                }
                t
            }
            _ => fail!(self, "pointer undefined"),
        }
    }
    fn valid<'s>(&self, st: &'s State, a: u64, n: usize) -> Option<(&'s Arc<Obj>, usize)> {
        let id = (a >> 32) as usize;
        let off = (a & 0xffff_ffff) as usize;
        if id == 0 || id >= st.mem.len() {
            return None;
        }
        let o = st.mem[id].as_ref()?;
        if off + n > o.b.len() {
            return None;
        }
        Some((o, off))
    }
    fn load_at(&self, st: &State, a: u64, n: usize) -> Option<V> {
        let (o, off) = self.valid(st, a, n)?;
        let bs = &o.b[off..off + n];
        if n <= 16 && bs.iter().all(|b| matches!(b, Bx::K(_))) {
            let mut v = 0u128;
            for (i, b) in bs.iter().enumerate() {
                if let Bx::K(x) = b {
                    v |= (*x as u128) << (8 * i);
                }
            }
            return Some(V::C(v, 8 * n as u32));
        }
        let mut bits = Vec::with_capacity(8 * n);
        for b in bs {
            bits.extend(b.bits());
        }
        Some(V::from_bits(bits))
    }
    fn load_tree(&mut self, st: &State, t: &Tree, n: usize) -> (Option<V>, Lit) {
        match t {
            Tree::Leaf(a) => {
                let v = self.load_at(st, *a, n);
                let o = if v.is_none() { T } else { F };
                (v, o)
            }
            Tree::Node(l, x, y) => {
                let (v1, o1) = self.load_tree(st, x, n);
                let (v2, o2) = self.load_tree(st, y, n);
                let o = self.g.mux(*l, o1, o2);
                let v = match (v1, v2) {
                    (Some(p), Some(q)) => Some(bv::mux(&mut self.g, *l, &p, &q)),
                    (p, None) => p,
                    (None, q) => q,
                };
                (v, o)
            }
        }
    }
    fn load_bytes(&mut self, st: &State, ptr: &V, n: usize) -> Option<V> {
        if n == 0 {
            return Some(V::C(0, 0));
        }
        let t = self.resolve(ptr, st.pc);
        let (v, oob) = self.load_tree(st, &t, n);
        self.oob(st, oob, "load");
        v
    }
    fn oob(&mut self, st: &State, oob: Lit, what: &str) {
        if oob != F {
            let b = self.g.and(st.pc, oob);
            if self.feasible(b) {
                self.record_bad(b, 9002, format!("out-of-bounds {}", what));
            }
        }
    }
    fn load_ty(&mut self, st: &State, ptr: &V, t: &Ty) -> Option<V> {
        match t {
            Ty::Struct(f, _) => {
                let (l, _) = t.layout();
                let mut v = vec![];
                for (i, ft) in f.iter().enumerate() {
                    let a = bv::binop(&mut self.g, &Op::Add, ptr, &V::c(l[i] as u128, 64));
                    v.push(self.load_ty(st, &a, ft)?);
                }
                Some(V::A(v.into()))
            }
            Ty::Arr(n, e) => {
                let mut v = vec![];
                for i in 0..*n {
                    let a = bv::binop(&mut self.g, &Op::Add, ptr, &V::c((i * e.size()) as u128, 64));
                    v.push(self.load_ty(st, &a, e)?);
                }
                Some(V::A(v.into()))
            }
            _ => {
                let n = t.store_size() as usize;
                let v = self.load_bytes(st, ptr, n)?;
                let w = t.bits();
                Some(if v.width() == w { v } else { bv::trunc(&v, w) })
            }
        }
    }
    fn store_at(&mut self, st: &mut State, a: u64, v: &V, guard: Lit) -> bool {
        let n = (v.width() / 8) as usize;
        if self.valid(st, a, n).is_none() {
            return false;
        }
        let id = (a >> 32) as usize;
        let off = (a & 0xffff_ffff) as usize;
        let o = Arc::make_mut(st.mem[id].as_mut().unwrap());
        if let (V::C(x, _), T) = (v, guard) {
            for i in 0..n {
                o.b[off + i] = Bx::K((x >> (8 * i)) as u8);
            }
            return true;
        }
        let bits = v.bits();
        for i in 0..n {
            let mut nb = [0; 8];
            nb.copy_from_slice(&bits[8 * i..8 * i + 8]);
            if guard != T {
                let ob = o.b[off + i].bits();
                for j in 0..8 {
                    nb[j] = self.g.mux(guard, nb[j], ob[j]);
                }
            }
            o.b[off + i] = Bx::from(nb);
        }
        true
    }
    fn store_tree(&mut self, st: &mut State, t: &Tree, v: &V, guard: Lit) -> Lit {
        match t {
            Tree::Leaf(a) => {
                if guard == F {
                    return F;
                }
                if self.store_at(st, *a, v, guard) {
                    F
                } else {
                    guard
                }
            }
            Tree::Node(l, x, y) => {
                let g1 = self.g.and(guard, *l);
                let g2 = self.g.and(guard, neg(*l));
                let o1 = self.store_tree(st, x, v, g1);
                let o2 = self.store_tree(st, y, v, g2);
                self.g.or(o1, o2)
            }
        }
    }
    fn store_bytes(&mut self, st: &mut State, ptr: &V, v: &V, guard: Lit) {
        if v.width() == 0 {
            return;
        }
        let t = self.resolve(ptr, st.pc);
        let oob = self.store_tree(st, &t, v, guard);
        let s2 = State { mem: vec![], pc: st.pc };
        self.oob(&s2, oob, "store");
    }
    fn store_ty(&mut self, st: &mut State, ptr: &V, t: &Ty, v: &V) {
        match (t, v) {
            (Ty::Struct(f, _), V::A(a)) => {
                let (l, _) = t.layout();
                for (i, ft) in f.iter().enumerate() {
                    let p = bv::binop(&mut self.g, &Op::Add, ptr, &V::c(l[i] as u128, 64));
                    self.store_ty(st, &p, ft, &a[i].clone());
                }
            }
            (Ty::Arr(n, e), V::A(a)) => {
                for i in 0..*n {
                    let p = bv::binop(&mut self.g, &Op::Add, ptr, &V::c((i * e.size()) as u128, 64));
                    self.store_ty(st, &p, e, &a[i as usize].clone());
                }
            }
            (_, V::U) => {}
            _ => {
                let n = t.store_size() as u32 * 8;
                let v = if v.width() == n { v.clone() } else { bv::zext(v, n) };
                self.store_bytes(st, ptr, &v, T);
            }
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64) -> V {
        if size > (1 << 24) {
            fail!(self, "allocation of {} bytes", size);
        }
        let id = st.mem.len();
        st.mem.push(Some(Arc::new(Obj { b: vec![Bx::K(0); size as usize], ro: false })));
        V::C((id as u128) << 32, 64)
    }

    // ---- straight-line instructions -------------------------------------
    fn vec_map2(&mut self, w: u32, a: &V, b: &V, f: &mut dyn FnMut(&mut Aig, &V, &V) -> V) -> V {
        let n = a.width() / w;
        let mut out = vec![];
        for i in 0..n {
            let x = bv::extract(a, i * w, w);
            let y = bv::extract(b, i * w, w);
            out.push(f(&mut self.g, &x, &y));
        }
        bv::concat_lo_hi(&out)
    }
    fn ins(&mut self, ins: &I, regs: &mut Vec<V>, st: &mut State, allocs: &mut Vec<usize>) -> Option<()> {
        match ins {
            I::Bin(op, d, a, b, vw) => {
                let (x, y) = (self.opd(regs, a), self.opd(regs, b));
                let o = match *op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    _ => Op::SRem,
                };
                let (x, y) = self.defd(x, y);
                regs[*d as usize] = match vw {
                    Some(w) => self.vec_map2(*w, &x, &y, &mut |g, p, q| bv::binop(g, &o, p, q)),
                    None => bv::binop(&mut self.g, &o, &x, &y),
                };
            }
            I::ICmp(pr, d, a, b, vw) => {
                let (x, y) = (self.opd(regs, a), self.opd(regs, b));
                let (x, y) = self.defd(x, y);
                regs[*d as usize] = match vw {
                    Some(w) => self.vec_map2(*w, &x, &y, &mut |g, p, q| V::lit(bv::icmp(g, pr, p, q))),
                    None => V::lit(bv::icmp(&mut self.g, pr, &x, &y)),
                };
            }
            I::FBin(op, d, a, b, w) => {
                let (x, y) = (self.opd(regs, a).bits(), self.opd(regs, b).bits());
                let f = float::fmt_of(*w);
                let r = match op.as_str() {
                    "fadd" => float::fadd(&mut self.g, f, &x, &y),
                    "fsub" => {
                        let ny = float::fneg(&y);
                        float::fadd(&mut self.g, f, &x, &ny)
                    }
                    "fmul" => float::fmul(&mut self.g, f, &x, &y),
                    "fdiv" => float::fdiv(&mut self.g, f, &x, &y),
                    _ => fail!(self, "unsupported {}", op),
                };
                regs[*d as usize] = V::from_bits(r);
            }
            I::FCmp(pr, d, a, b, w) => {
                let (x, y) = (self.opd(regs, a).bits(), self.opd(regs, b).bits());
                let f = float::fmt_of(*w);
                regs[*d as usize] = V::lit(float::fcmp(&mut self.g, f, pr, &x, &y));
            }
            I::FNeg(d, a, _) => {
                let x = self.opd(regs, a).bits();
                regs[*d as usize] = V::from_bits(float::fneg(&x));
            }
            I::Cast(op, d, a, from, to) => {
                let x = self.opd(regs, a);
                if let V::U = x {
                    regs[*d as usize] = V::U;
                    return Some(());
                }
                let r = match op.as_str() {
                    "zext" | "sext" | "trunc" => {
                        if let (Ty::Vec(n, e), Ty::Vec(_, e2)) = (from, to) {
                            let mut out = vec![];
                            for i in 0..*n as u32 {
                                let y = bv::extract(&x, i * e.bits(), e.bits());
                                out.push(match op.as_str() {
                                    "zext" => bv::zext(&y, e2.bits()),
                                    "sext" => bv::sext(&y, e2.bits()),
                                    _ => bv::trunc(&y, e2.bits()),
                                });
                            }
                            bv::concat_lo_hi(&out)
                        } else {
                            match op.as_str() {
                                "zext" => bv::zext(&x, to.bits()),
                                "sext" => bv::sext(&x, to.bits()),
                                _ => bv::trunc(&x, to.bits()),
                            }
                        }
                    }
                    "bitcast" => x,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                        let w = to.bits();
                        if w <= x.width() {
                            bv::trunc(&x, w)
                        } else {
                            bv::zext(&x, w)
                        }
                    }
                    "uitofp" | "sitofp" => {
                        let f = float::fmt_of(to.bits());
                        let r = float::from_int(&mut self.g, f, &x.bits(), op == "sitofp");
                        V::from_bits(r)
                    }
                    "fptoui" | "fptosi" => {
                        let f = float::fmt_of(from.bits());
                        let r = float::to_int_sat(&mut self.g, f, &x.bits(), to.bits() as usize, op == "fptosi");
                        V::from_bits(r)
                    }
                    "fpext" | "fptrunc" => {
                        let r = float::fconv(&mut self.g, float::fmt_of(from.bits()), float::fmt_of(to.bits()), &x.bits());
                        V::from_bits(r)
                    }
                    _ => fail!(self, "cast {}", op),
                };
                regs[*d as usize] = r;
            }
            I::Select(d, c, a, b, t, veccond) => {
                let cv = self.opd(regs, c);
                let (x, y) = (self.opd(regs, a), self.opd(regs, b));
                regs[*d as usize] = if *veccond {
                    let n = cv.width();
                    let w = t.bits() / n;
                    let mut out = vec![];
                    for i in 0..n {
                        let cl = bv::extract(&cv, i, 1).as_lit();
                        let (p, q) = (bv::extract(&x, i * w, w), bv::extract(&y, i * w, w));
                        out.push(bv::mux(&mut self.g, cl, &p, &q));
                    }
                    bv::concat_lo_hi(&out)
                } else if let V::U = cv {
                    y
                } else {
                    bv::mux(&mut self.g, cv.as_lit(), &x, &y)
                };
            }
            I::Load(d, t, a) => {
                let p = self.opd(regs, a);
                match self.load_ty(st, &p, t) {
                    Some(v) => regs[*d as usize] = v,
                    None => return None, // certainly out of bounds (recorded)
                }
            }
            I::Store(t, v, a) => {
                let p = self.opd(regs, a);
                let v = self.opd(regs, v);
                self.store_ty(st, &p, t, &v);
            }
            I::Alloca(d, n) => {
                let v = self.alloc(st, *n);
                if let V::C(a, _) = v {
                    allocs.push((a >> 32) as usize);
                }
                regs[*d as usize] = v;
            }
            I::Gep(d, b, off, dy) => {
                let mut a = self.opd(regs, b);
                if *off != 0 {
                    a = bv::binop(&mut self.g, &Op::Add, &a, &V::C(*off as u128, 64));
                }
                for (o, sc) in dy {
                    let i = self.opd(regs, o);
                    let s = if *sc == 1 { i } else { bv::binop(&mut self.g, &Op::Mul, &i, &V::C(*sc as u128, 64)) };
                    a = bv::binop(&mut self.g, &Op::Add, &a, &s);
                }
                regs[*d as usize] = a;
            }
            I::ExtractV(d, a, ix) => {
                let mut v = self.opd(regs, a);
                for &i in ix {
                    v = match v {
                        V::A(x) => x[i as usize].clone(),
                        _ => V::U,
                    };
                }
                regs[*d as usize] = v;
            }
            I::InsertV(d, a, v, ix, t) => {
                let base = self.opd(regs, a);
                let nv = self.opd(regs, v);
                regs[*d as usize] = insertv(&base, &nv, ix, t);
            }
            I::Freeze(d, a, t) => {
                let v = self.opd(regs, a);
                regs[*d as usize] = match v {
                    V::U if !t.is_agg() => V::c(0, t.bits()),
                    v => v,
                };
            }
            I::ExtractE(d, a, ix, t) => {
                let v = self.opd(regs, a);
                let i = self.opd(regs, ix);
                let (n, w) = match t {
                    Ty::Vec(n, e) => (*n as u32, e.bits()),
                    _ => fail!(self, "extractelement"),
                };
                regs[*d as usize] = match i.as_c() {
                    Some(k) => bv::extract(&v, k as u32 * w, w),
                    None => {
                        let mut r = bv::extract(&v, 0, w);
                        for k in 1..n {
                            let e = bv::icmp(&mut self.g, "eq", &i, &V::c(k as u128, i.width()));
                            let x = bv::extract(&v, k * w, w);
                            r = bv::mux(&mut self.g, e, &x, &r);
                        }
                        r
                    }
                };
            }
            I::InsertE(d, a, e, ix, t) => {
                let v = self.opd(regs, a);
                let e = self.opd(regs, e);
                let i = self.opd(regs, ix);
                let (n, w) = match t {
                    Ty::Vec(n, e) => (*n as u32, e.bits()),
                    _ => fail!(self, "insertelement"),
                };
                let mut out = vec![];
                for k in 0..n {
                    let old = bv::extract(&v, k * w, w);
                    let c = bv::icmp(&mut self.g, "eq", &i, &V::c(k as u128, i.width()));
                    out.push(bv::mux(&mut self.g, c, &e, &old));
                }
                regs[*d as usize] = bv::concat_lo_hi(&out);
            }
            I::Shuffle(d, a, b, mk, t) => {
                let x = self.opd(regs, a);
                let y = self.opd(regs, b);
                let (n, w) = match t {
                    Ty::Vec(n, e) => (*n as i64, e.bits()),
                    _ => fail!(self, "shuffle"),
                };
                let mut out = vec![];
                for &k in mk {
                    out.push(if k < n { bv::extract(&x, k as u32 * w, w) } else { bv::extract(&y, (k - n) as u32 * w, w) });
                }
                regs[*d as usize] = bv::concat_lo_hi(&out);
            }
            I::Call(..) => unreachable!(),
            I::Unsupported(s) => fail!(self, "unsupported instruction {}", s),
        }
        Some(())
    }
    fn defd(&self, x: V, y: V) -> (V, V) {
        match (&x, &y) {
            (V::U, V::U) => fail!(self, "undefined operands"),
            (V::U, _) => (V::c(0, y.width()), y),
            (_, V::U) => {
                let w = x.width();
                (x, V::c(0, w))
            }
            _ => (x, y),
        }
    }

    // ---- calls ------------------------------------------------------------
    fn do_call(&mut self, callee: &Opd, regs: &[V], av: Vec<V>, args: &[(Ty, Opd)], rt: &Ty, mut st: State, depth: usize) -> Option<(V, State)> {
        let name: String = match callee {
            Opd::Sym(n) => n.clone(),
            o => {
                let v = self.opd(regs, o);
                // (possibly symbolic) function pointer
                let t = self.resolve(&v, st.pc);
                return self.call_tree(&t, av, args, rt, st, depth);
            }
        };
        if let Some(&f) = self.p.m.fidx.get(&name) {
            return self.call_fn(f, av, st, depth + 1);
        }
        let v = self.builtin(&name, av, args, rt, &mut st)?;
        Some((v, st))
    }
    fn call_tree(&mut self, t: &Tree, av: Vec<V>, args: &[(Ty, Opd)], rt: &Ty, mut st: State, depth: usize) -> Option<(V, State)> {
        match t {
            Tree::Leaf(a) => {
                let idx = (a.wrapping_sub(FN_BASE) / 16) as usize;
                if *a < FN_BASE || idx >= self.p.m.funcs.len() + self.p.m.decls.len() {
                    self.record_bad(st.pc, 9003, format!("call of bad function pointer {:#x}", a));
                    return None;
                }
                if idx < self.p.m.funcs.len() {
                    return self.call_fn(idx, av, st, depth + 1);
                }
                let n = self.p.m.decls[idx - self.p.m.funcs.len()].clone();
                let v = self.builtin(&n, av, args, rt, &mut st)?;
                Some((v, st))
            }
            Tree::Node(l, x, y) => {
                let p1 = self.g.and(st.pc, *l);
                let p2 = self.g.and(st.pc, neg(*l));
                let (f1, f2) = (self.feasible(p1), self.feasible(p2));
                let pc0 = st.pc;
                let sd = self.stack.len();
                if f1 && f2 {
                    let mut s1 = st.clone();
                    s1.pc = p1;
                    let mut s2 = st;
                    s2.pc = p2;
                    let a = self.call_tree(x, av.clone(), args, rt, s1, depth);
                    self.stack.truncate(sd);
                    let b = self.call_tree(y, av, args, rt, s2, depth);
                    self.stack.truncate(sd);
                    let conv = |r: Option<(V, State)>| r.map(|(v, s)| (vec![], s, Some(v)));
                    let (_, s, v) = self.merge(*l, conv(a), conv(b), pc0)?;
                    Some((v.unwrap(), s))
                } else if f1 {
                    self.call_tree(x, av, args, rt, st, depth)
                } else {
                    self.call_tree(y, av, args, rt, st, depth)
                }
            }
        }
    }
    fn max_val(&mut self, v: &V, pc: Lit, cap: u64) -> u64 {
        // upper bound on v under pc: start from bit width, tighten with the solver
        if let Some(c) = v.as_c() {
            return c as u64;
        }
        let mut lo = 0u64;
        let mut hi = cap;
        // is v > cap feasible?
        let c = bv::icmp(&mut self.g, "ugt", v, &V::c(cap as u128, v.width()));
        let b = self.g.and(pc, c);
        if self.feasible(b) {
            fail!(self, "symbolic length may exceed {}", cap);
        }
        while lo < hi {
            let mid = (lo + hi) / 2;
            let c = bv::icmp(&mut self.g, "ugt", v, &V::c(mid as u128, v.width()));
            let b = self.g.and(pc, c);
            if self.feasible(b) {
                lo = mid + 1;
            } else {
                hi = mid;
            }
        }
        lo
    }
    fn copy(&mut self, st: &mut State, d: &V, s: &V, n: &V) -> Option<()> {
        match n.as_c() {
            Some(k) => {
                if k == 0 {
                    return Some(());
                }
                let v = self.load_bytes(st, s, k as usize)?;
                self.store_bytes(st, d, &v, T);
            }
            None => {
                let m = self.max_val(n, st.pc, 1 << 14);
                let snap = st.clone();
                for i in 0..m {
                    let g = bv::icmp(&mut self.g, "ugt", n, &V::c(i as u128, n.width()));
                    let sa = bv::binop(&mut self.g, &Op::Add, s, &V::c(i as u128, 64));
                    let da = bv::binop(&mut self.g, &Op::Add, d, &V::c(i as u128, 64));
                    let mut sg = snap.clone();
                    sg.pc = self.g.and(st.pc, g);
                    let v = self.load_bytes(&sg, &sa, 1);
                    if let Some(v) = v {
                        let pc = st.pc;
                        st.pc = sg.pc;
                        self.store_bytes(st, &da, &v, g);
                        st.pc = pc;
                    }
                }
            }
        }
        Some(())
    }
    fn builtin(&mut self, name: &str, a: Vec<V>, args: &[(Ty, Opd)], rt: &Ty, st: &mut State) -> Option<V> {
        if let Some(r) = name.strip_prefix("llvm.") {
            return self.intrinsic(r, a, args, rt, st);
        }
        match name {
            "vp_sym" => {
                let n = a[1].as_c().unwrap_or_else(|| fail!(self, "vp_sym length")) as usize;
                let first = self.g.inputs.len() as u64;
                let mut bits = Vec::with_capacity(8 * n);
                for _ in 0..8 * n {
                    bits.push(self.g.input());
                }
                self.sym_order.push((first, n));
                if n > 0 {
                    self.store_bytes(st, &a[0], &V::from_bits(bits), T);
                }
                Some(V::U)
            }
            "vp_case" => {
                let n = a[0].as_c().unwrap_or_else(|| fail!(self, "vp_case bound")) as usize;
                if st.pc != T && !self.sym_order.is_empty() {
                    // allowed only when unconditional up to assumptions
                }
                let k = self.case_ns.len();
                self.case_ns.push(n);
                if k < self.cases.len() {
                    Some(V::C(self.cases[k] as u128, 64))
                } else {
                    std::panic::panic_any(NeedCase(n))
                }
            }
            "vp_param" => {
                let i = a[0].as_c().unwrap() as usize;
                Some(V::C(self.params.get(i).copied().unwrap_or(0) as u128, 64))
            }
            "vp_assume" => {
                let c = self.truth(&a[0]);
                st.pc = self.g.and(st.pc, c);
                if !self.feasible(st.pc) {
                    return None;
                }
                Some(V::U)
            }
            "vp_check" => {
                let c = self.truth(&a[0]);
                let code = a[1].as_c().unwrap() as u32;
                let bad = self.g.and(st.pc, neg(c));
                self.record_bad(bad, code, "check".into());
                Some(V::U)
            }
            "vp_cover" => {
                let c = self.truth(&a[0]);
                let code = a[1].as_c().unwrap() as u32;
                let l = self.g.and(st.pc, c);
                let o = self.covers.get(&code).copied().unwrap_or(F);
                let n = self.g.or(o, l);
                self.covers.insert(code, n);
                Some(V::U)
            }
            "vp_check_eq" => {
                let n = a[2].as_c().unwrap_or_else(|| fail!(self, "vp_check_eq length")) as usize;
                let code = a[3].as_c().unwrap() as u32;
                if n == 0 {
                    return Some(V::U);
                }
                let x = self.load_bytes(st, &a[0], n)?.bits();
                let y = self.load_bytes(st, &a[1], n)?.bits();
                for i in 0..8 * n {
                    if x[i] != y[i] {
                        let d = self.g.xor(x[i], y[i]);
                        let bad = self.g.and(st.pc, d);
                        self.record_bad(bad, code, format!("byte {} bit {}", i / 8, i % 8));
                    } else {
                        self.struct_eq += 1;
                    }
                }
                Some(V::U)
            }
            "vp_is_concrete" => Some(V::bit(a[0].as_c().is_some())),
            "vp_panic" | "abort" => {
                self.record_bad(st.pc, 9000, "panic".into());
                None
            }
            "vp_stop" => None,
            "vp_print" => {
                if self.trace {
                    eprintln!("vp_print {:?}", a[0].as_c());
                }
                Some(V::U)
            }
            "vp_alloc" | "malloc" | "calloc" => {
                let n = match a[0].as_c() {
                    Some(k) => k as u64,
                    None => self.max_val(&a[0], st.pc, 1 << 18),
                };
                self.heap += n;
                Some(self.alloc(st, n))
            }
            "vp_dealloc" | "free" => Some(V::U),
            "memcpy" | "memmove" => {
                self.copy(st, &a[0], &a[1], &a[2])?;
                Some(a[0].clone())
            }
            "bcmp" | "memcmp" => {
                let n = a[2].as_c().unwrap_or_else(|| fail!(self, "memcmp length")) as usize;
                let x = self.load_bytes(st, &a[0], n)?;
                let y = self.load_bytes(st, &a[1], n)?;
                if n == 0 {
                    return Some(V::c(0, 32));
                }
                if name == "bcmp" {
                    let e = bv::icmp(&mut self.g, "eq", &x, &y);
                    return Some(bv::zext(&V::lit(neg(e)), 32));
                }
                let mut r = V::c(0, 32);
                for i in (0..n as u32).rev() {
                    let p = bv::extract(&x, 8 * i, 8);
                    let q = bv::extract(&y, 8 * i, 8);
                    let e = bv::icmp(&mut self.g, "eq", &p, &q);
                    let lt = bv::icmp(&mut self.g, "ult", &p, &q);
                    let d = bv::mux(&mut self.g, lt, &V::c(!0, 32), &V::c(1, 32));
                    r = bv::mux(&mut self.g, e, &r, &d);
                }
                Some(r)
            }
            _ => fail!(self, "external function {}", name),
        }
    }
    fn truth(&mut self, v: &V) -> Lit {
        let b = v.bits();
        let mut r = F;
        for l in b {
            r = self.g.or(r, l);
        }
        r
    }
    fn intrinsic(&mut self, n: &str, a: Vec<V>, args: &[(Ty, Opd)], rt: &Ty, st: &mut State) -> Option<V> {
        let st0 = |s: &str| n.starts_with(s);
        if st0("lifetime.") || st0("experimental.noalias") || st0("dbg.") || st0("assume") || st0("invariant.") || st0("donothing") || st0("prefetch") || st0("sideeffect") {
            return Some(V::U);
        }
        if st0("memcpy") || st0("memmove") {
            self.copy(st, &a[0], &a[1], &a[2])?;
            return Some(V::U);
        }
        if st0("memset") {
            match a[2].as_c() {
                Some(k) => {
                    let bits = a[1].bits();
                    let mut v = Vec::with_capacity(8 * k as usize);
                    for _ in 0..k {
                        v.extend_from_slice(&bits);
                    }
                    let v = V::from_bits(v);
                    self.store_bytes(st, &a[0], &v, T);
                }
                None => {
                    let m = self.max_val(&a[2], st.pc, 1 << 16);
                    for i in 0..m {
                        let g = bv::icmp(&mut self.g, "ugt", &a[2], &V::c(i as u128, a[2].width()));
                        let da = bv::binop(&mut self.g, &Op::Add, &a[0], &V::c(i as u128, 64));
                        let pc = st.pc;
                        st.pc = self.g.and(pc, g);
                        self.store_bytes(st, &da, &a[1].clone(), g);
                        st.pc = pc;
                    }
                }
            }
            return Some(V::U);
        }
        if st0("trap") || st0("ubsantrap") {
            self.record_bad(st.pc, 9000, "trap".into());
            return None;
        }
        if st0("expect") || st0("ssa.copy") || st0("launder.") || st0("strip.") || st0("ptrmask.none") || st0("threadlocal.") {
            return Some(a[0].clone());
        }
        if st0("is.constant") {
            return Some(V::bit(false));
        }
        if let Some((k, _)) = n.split_once(".with.overflow") {
            let (r, o) = bv::with_overflow(&mut self.g, k.starts_with('s'), &k[1..], &a[0], &a[1]);
            return Some(V::A(vec![r, V::lit(o)].into()));
        }
        if let Ty::Vec(_, e) = rt {
            // element-wise application of a scalar intrinsic
            let w = e.bits();
            let nn = a[0].width() / w;
            let mut out = vec![];
            for i in 0..nn {
                let sub: Vec<V> = a
                    .iter()
                    .zip(args.iter())
                    .map(|(v, (t, _))| if matches!(t, Ty::Vec(..)) { bv::extract(v, i * w, w) } else { v.clone() })
                    .collect();
                out.push(self.intrinsic(n, sub, args, e, st)?);
            }
            return Some(bv::concat_lo_hi(&out));
        }
        let g = &mut self.g;
        let w = if let V::U = a[0] { 0 } else { a[0].width() };
        let r = if st0("umin.") || st0("umax.") || st0("smin.") || st0("smax.") {
            let pr = if st0("u") { "ult" } else { "slt" };
            let l = bv::icmp(g, pr, &a[0], &a[1]);
            if &n[1..4] == "min" {
                bv::mux(g, l, &a[0], &a[1])
            } else {
                bv::mux(g, l, &a[1], &a[0])
            }
        } else if st0("abs.") {
            let s = bv::icmp(g, "slt", &a[0], &V::c(0, w));
            let m = bv::binop(g, &Op::Sub, &V::c(0, w), &a[0]);
            bv::mux(g, s, &m, &a[0])
        } else if st0("usub.sat") {
            let (r, o) = bv::with_overflow(g, false, "sub", &a[0], &a[1]);
            bv::mux(g, o, &V::c(0, w), &r)
        } else if st0("uadd.sat") {
            let (r, o) = bv::with_overflow(g, false, "add", &a[0], &a[1]);
            bv::mux(g, o, &V::c(!0, w), &r)
        } else if st0("ssub.sat") || st0("sadd.sat") {
            let (r, o) = bv::with_overflow(g, true, &n[1..4], &a[0], &a[1]);
            let s = bv::icmp(g, "slt", &a[0], &V::c(0, w));
            let sv = bv::mux(g, s, &V::c(1u128 << (w - 1), w), &V::c((1u128 << (w - 1)) - 1, w));
            bv::mux(g, o, &sv, &r)
        } else if st0("bswap.") {
            let b = a[0].bits();
            let mut r = vec![];
            for c in b.chunks(8).rev() {
                r.extend_from_slice(c);
            }
            V::from_bits(r)
        } else if st0("bitreverse.") {
            let mut b = a[0].bits();
            b.reverse();
            V::from_bits(b)
        } else if st0("ctpop.") {
            let b = a[0].bits();
            let mut r = V::c(0, w);
            for l in b {
                let x = bv::zext(&V::lit(l), w);
                r = bv::binop(g, &Op::Add, &r, &x);
            }
            r
        } else if st0("ctlz.") || st0("cttz.") {
            let mut b = a[0].bits();
            if st0("cttz.") {
                b.reverse();
            }
            let mut r = V::c(w as u128, w);
            for i in 0..w as usize {
                // b[i] is the i-th lowest; higher bits override
                r = bv::mux(g, b[i], &V::c((w as usize - 1 - i) as u128, w), &r);
            }
            r
        } else if st0("fshl.") || st0("fshr.") {
            let mut cat = a[1].bits();
            cat.extend(a[0].bits());
            let cat = V::from_bits(cat);
            let amt = bv::binop(g, &Op::URem, &a[2], &V::c(w as u128, w));
            let amt2 = bv::zext(&amt, 2 * w);
            if st0("fshl.") {
                let r = bv::binop(g, &Op::Shl, &cat, &amt2);
                bv::extract(&r, w, w)
            } else {
                let r = bv::binop(g, &Op::LShr, &cat, &amt2);
                bv::extract(&r, 0, w)
            }
        } else if st0("ucmp.") || st0("scmp.") {
            let rw = rt.bits();
            let (lt, gt) = if st0("u") { ("ult", "ugt") } else { ("slt", "sgt") };
            let l = bv::icmp(g, lt, &a[0], &a[1]);
            let h = bv::icmp(g, gt, &a[0], &a[1]);
            let x = bv::mux(g, h, &V::c(1, rw), &V::c(0, rw));
            bv::mux(g, l, &V::c(!0, rw), &x)
        } else if st0("fptoui.sat") || st0("fptosi.sat") {
            let f = float::fmt_of(w);
            let r = float::to_int_sat(g, f, &a[0].bits(), rt.bits() as usize, st0("fptosi"));
            V::from_bits(r)
        } else if st0("fabs.") {
            let mut b = a[0].bits();
            let k = b.len() - 1;
            b[k] = F;
            V::from_bits(b)
        } else if st0("minnum.") || st0("maxnum.") || st0("minimumnum.") || st0("maximumnum.") {
            let f = float::fmt_of(w);
            let (x, y) = (a[0].bits(), a[1].bits());
            let c = float::fcmp(g, f, if st0("min") { "olt" } else { "ogt" }, &x, &y);
            let nx = float::fcmp(g, f, "uno", &x, &x);
            let ny = float::fcmp(g, f, "uno", &y, &y);
            let r = bv::mux(g, c, &a[0], &a[1]);
            let r = bv::mux(g, ny, &a[0], &r);
            bv::mux(g, nx, &a[1], &r)
        } else if st0("fmuladd.") || st0("fma.") {
            fail!(self, "unsupported intrinsic {}", n)
        } else if st0("load.relative") {
            let p = bv::binop(g, &Op::Add, &a[0], &a[1]);
            let v = self.load_bytes(st, &p, 4)?;
            // see relative()
            let g = &mut self.g;
            let c = |x: u64, w: u32| V::c(x as u128, w);
            let id = bv::sext(&bv::extract(&v, 16, 16), 32);
            let base = bv::extract(&a[0], 32, 32);
            let id = bv::binop(g, &Op::Add, &base, &id);
            let (idb, offb) = (id.bits(), bv::extract(&v, 0, 16).bits());
            let mut ob = offb;
            ob.resize(32, F);
            ob.extend(idb);
            let obj = V::from_bits(ob);
            let fo = bv::zext(&bv::extract(&v, 0, 28), 64);
            let fnp = bv::binop(g, &Op::Add, &c(FN_BASE, 64), &fo);
            let (b31, b30) = (bv::extract(&v, 31, 1).as_lit(), bv::extract(&v, 30, 1).as_lit());
            let isf = g.and(neg(b31), b30);
            bv::mux(g, isf, &fnp, &obj)
        } else if st0("ptrmask") {
            bv::binop(g, &Op::And, &a[0], &a[1])
        } else if st0("vector.reduce.") {
            let ew = rt.bits();
            let k = w / ew;
            let kind = n["vector.reduce.".len()..].split('.').next().unwrap().to_string();
            let mut r = bv::extract(&a[0], 0, ew);
            for i in 1..k {
                let x = bv::extract(&a[0], i * ew, ew);
                let op = match kind.as_str() {
                    "add" => Op::Add,
                    "or" => Op::Or,
                    "and" => Op::And,
                    "xor" => Op::Xor,
                    "mul" => Op::Mul,
                    _ => fail!(self, "unsupported intrinsic {}", n),
                };
                r = bv::binop(&mut self.g, &op, &r, &x);
            }
            r
        } else {
            fail!(self, "unsupported intrinsic {}", n)
        };
        Some(r)
    }
}

fn insertv(base: &V, nv: &V, ix: &[u32], t: &Ty) -> V {
    if ix.is_empty() {
        return nv.clone();
    }
    let n = match t {
        Ty::Struct(f, _) => f.len(),
        Ty::Arr(n, _) => *n as usize,
        _ => panic!("insertvalue"),
    };
    let mut v: Vec<V> = match base {
        V::A(x) => x.to_vec(),
        _ => vec![V::U; n],
    };
    let k = ix[0] as usize;
    let et = match t {
        Ty::Struct(f, _) => &f[k],
        Ty::Arr(_, e) => e,
        _ => unreachable!(),
    };
    v[k] = insertv(&v[k].clone(), nv, &ix[1..], et);
    V::A(v.into())
}
#[allow(dead_code)]
fn _u(_: &ir::Global) {}
