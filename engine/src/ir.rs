//! LLVM textual IR parser (the subset rustc emits).
use crate::bv::V;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(..) => {
                let (_, s) = self.layout();
                s
            }
            _ => 0,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, p) = self {
            let mut o = 0u64;
            let mut v = vec![];
            for t in f {
                if !*p {
                    let a = t.align();
                    o = (o + a - 1) / a * a;
                }
                v.push(o);
                o += t.size();
            }
            if !*p {
                let a = self.align();
                o = (o + a - 1) / a * a;
            }
            (v, o)
        } else {
            panic!()
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..))
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
    G(usize, u64), // global + offset, resolved after parsing
    Fn(usize),
    Sym(String), // unresolved
    Sub(Box<Opd>, Box<Opd>),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(&'static str, u32, Opd, Opd, Option<u32>), // op, dst, a, b, vector elem width
    ICmp(String, u32, Opd, Opd, Option<u32>),
    FBin(String, u32, Opd, Opd, u32),
    FCmp(String, u32, Opd, Opd, u32),
    FNeg(u32, Opd, u32),
    Cast(String, u32, Opd, Ty, Ty),
    Select(u32, Opd, Opd, Opd, Ty, bool),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u32, u64),
    Gep(u32, Opd, u64, Vec<(Opd, u64)>), // base, const off, (idx, scale)
    ExtractV(u32, Opd, Vec<u32>),
    InsertV(u32, Opd, Opd, Vec<u32>, Ty),
    Call(Option<u32>, Ty, Opd, Vec<(Ty, Opd)>),
    Freeze(u32, Opd, Ty),
    ExtractE(u32, Opd, Opd, Ty),
    InsertE(u32, Opd, Opd, Opd, Ty),
    Shuffle(u32, Opd, Opd, Vec<i64>, Ty),
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Term {
    Ret(Option<Opd>),
    Br(usize),
    CondBr(Opd, usize, usize),
    Switch(Opd, usize, Vec<(u128, usize)>),
    Unreachable,
    Unsupported(String),
}
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(usize, Opd)>, Ty)>,
    pub ins: Vec<I>,
    pub term: Term,
}
pub struct Func {
    pub name: String,
    pub nregs: usize,
    pub params: Vec<u32>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub ipdom: Vec<Option<usize>>, // None = function exit
    pub can_ret: Vec<bool>,
    pub hash: u64,
}
pub struct Global {
    pub name: String,
    pub size: u64,
    pub init: Vec<GInit>,
    pub constant: bool,
}
#[derive(Clone, Debug)]
pub enum GInit {
    Bytes(u64, Vec<u8>),
    Ref(u64, Opd),
}
pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub decls: Vec<String>, // external function names; address space after funcs
    pub didx: HashMap<String, usize>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tk {
    W(String),    // word
    L(String),    // %local
    G(String),    // @global
    S(Vec<u8>),   // c"..."
    Str(String),  // "..."
    N(String),    // number
    P(char),      // punctuation
    Md(String),   // !xxx or #n
}

fn lex(s: &str) -> Vec<Tk> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let quoted = |mut i: usize| -> (Vec<u8>, usize) {
        // i points after opening quote
        let mut v = vec![];
        while b[i] != b'"' {
            if b[i] == b'\\' && i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
                v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            } else if b[i] == b'\\' && b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(b[i]);
                i += 1;
            }
        }
        (v, i + 1)
    };
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' {
            i += 1;
        } else if c == b';' {
            break;
        } else if c == b'%' || c == b'@' {
            let (name, j) = if i + 1 < b.len() && b[i + 1] == b'"' {
                let (v, j) = quoted(i + 2);
                (String::from_utf8_lossy(&v).into_owned(), j)
            } else {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                (s[i + 1..j].to_string(), j)
            };
            out.push(if c == b'%' { Tk::L(name) } else { Tk::G(name) });
            i = j;
        } else if c == b'!' || c == b'#' {
            let mut j = i + 1;
            while j < b.len() && idc(b[j]) {
                j += 1;
            }
            out.push(Tk::Md(s[i..j].to_string()));
            i = j;
        } else if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
            let (v, j) = quoted(i + 2);
            out.push(Tk::S(v));
            i = j;
        } else if c == b'"' {
            let (v, j) = quoted(i + 1);
            out.push(Tk::Str(String::from_utf8_lossy(&v).into_owned()));
            i = j;
        } else if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) || s[i..].starts_with("+inf") || s[i..].starts_with("-inf") || s[i..].starts_with("+qnan") || s[i..].starts_with("-qnan") {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+' || (b[j] == b'-' && (b[j - 1] == b'e'))) {
                j += 1;
            }
            out.push(Tk::N(s[i..j].to_string()));
            i = j;
        } else if c.is_ascii_alphabetic() || c == b'_' || c == b'.' {
            let mut j = i + 1;
            while j < b.len() && idc(b[j]) {
                j += 1;
            }
            out.push(Tk::W(s[i..j].to_string()));
            i = j;
        } else {
            out.push(Tk::P(c as char));
            i += 1;
        }
    }
    out
}

struct P<'a> {
    t: Vec<Tk>,
    i: usize,
    m: &'a Module,
    regs: Option<&'a mut HashMap<String, u32>>,
}
impl<'a> P<'a> {
    fn pk(&self) -> Option<&Tk> {
        self.t.get(self.i)
    }
    fn nx(&mut self) -> Tk {
        let t = self.t.get(self.i).cloned().unwrap_or(Tk::P('\0'));
        self.i += 1;
        t
    }
    fn isp(&self, c: char) -> bool {
        self.pk() == Some(&Tk::P(c))
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.pk(), Some(Tk::W(x)) if x == w)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eatp(c) {
            panic!("expected {} at {} in {:?}", c, self.i, self.t);
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        match self.nx() {
            Tk::W(w) => w,
            x => panic!("word expected, {:?} in {:?}", x, self.t),
        }
    }
    fn skip_paren(&mut self) {
        if self.eatp('(') {
            let mut d = 1;
            while d > 0 {
                match self.nx() {
                    Tk::P('(') => d += 1,
                    Tk::P(')') => d -= 1,
                    Tk::P('\0') => panic!("eof"),
                    _ => {}
                }
            }
        }
    }
    fn try_ty(&mut self) -> Option<Ty> {
        match self.pk()? {
            Tk::W(w) => {
                let t = match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "half" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "x86_fp80" => Ty::Float(80),
                    "fp128" => Ty::Float(128),
                    "metadata" | "label" | "token" => Ty::Other,
                    _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                    _ => return None,
                };
                self.i += 1;
                Some(t)
            }
            Tk::P('[') => {
                self.i += 1;
                let n = self.num();
                assert!(self.eatw("x"));
                let t = self.ty();
                self.exp(']');
                Some(Ty::Arr(n as u64, Box::new(t)))
            }
            Tk::P('{') => {
                self.i += 1;
                let mut v = vec![];
                while !self.isp('}') {
                    v.push(self.ty());
                    self.eatp(',');
                }
                self.exp('}');
                Some(Ty::Struct(v, false))
            }
            Tk::P('<') => {
                self.i += 1;
                if self.eatp('{') {
                    let mut v = vec![];
                    while !self.isp('}') {
                        v.push(self.ty());
                        self.eatp(',');
                    }
                    self.exp('}');
                    self.exp('>');
                    Some(Ty::Struct(v, true))
                } else {
                    let n = self.num();
                    assert!(self.eatw("x"));
                    let t = self.ty();
                    self.exp('>');
                    Some(Ty::Vec(n as u64, Box::new(t)))
                }
            }
            Tk::L(n) => {
                let t = self.m.types.get(n).cloned()?;
                self.i += 1;
                Some(t)
            }
            _ => None,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.try_ty() {
            Some(t) => t,
            None => panic!("type expected at {} in {:?}", self.i, self.t),
        }
    }
    fn num(&mut self) -> i128 {
        match self.nx() {
            Tk::N(s) => s.parse::<i128>().unwrap_or_else(|_| panic!("num {}", s)),
            x => panic!("num expected {:?} in {:?}", x, self.t),
        }
    }
    fn attrs(&mut self) {
        // skip parameter/return attributes until a value token
        loop {
            match self.pk() {
                Some(Tk::W(w)) => match w.as_str() {
                    "align" => {
                        self.i += 1;
                        if self.isp('(') {
                            self.skip_paren();
                        } else {
                            self.i += 1;
                        }
                    }
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add"
                    | "none" | "splat" | "xor" | "addrspacecast" | "ptrtoaddr" => return,
                    _ => {
                        self.i += 1;
                        if self.isp('(') {
                            self.skip_paren();
                        }
                    }
                },
                Some(Tk::Str(_)) => {
                    self.i += 1;
                    if self.eatp('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().unwrap();
        let k = r.len() as u32;
        *r.entry(n.to_string()).or_insert(k)
    }
    fn zero(t: &Ty) -> V {
        match t {
            Ty::Arr(n, e) => V::A((0..*n).map(|_| Self::zero(e)).collect::<Vec<_>>().into()),
            Ty::Struct(f, _) => V::A(f.iter().map(Self::zero).collect::<Vec<_>>().into()),
            Ty::Void | Ty::Other => V::U,
            _ => V::c(0, t.bits()),
        }
    }
    fn fparse(s: &str, w: u32) -> V {
        if let Some(h) = s.strip_prefix("0x") {
            if h.starts_with(|c: char| c == 'H') {
                return V::c(u128::from_str_radix(&h[1..], 16).unwrap(), 16);
            }
            let d = u64::from_str_radix(h, 16).unwrap();
            if w == 32 {
                return V::c((f64::from_bits(d) as f32).to_bits() as u128, 32);
            }
            return V::c(d as u128, 64);
        }
        if let Some(neg) = s.strip_suffix("qnan") {
            let q = if w == 32 { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 };
            return V::c(q | if neg == "-" { 1 << (w - 1) } else { 0 }, w);
        }
        let d: f64 = s.parse().unwrap_or_else(|_| panic!("float {}", s));
        if w == 32 {
            V::c((d as f32).to_bits() as u128, 32)
        } else {
            V::c(d.to_bits() as u128, 64)
        }
    }
    fn val(&mut self, t: &Ty) -> Opd {
        match self.nx() {
            Tk::L(n) => Opd::R(self.reg(&n)),
            Tk::G(n) => Opd::Sym(n),
            Tk::N(s) => match t {
                Ty::Float(w) => Opd::K(Self::fparse(&s, *w)),
                Ty::Int(w) => {
                    if let Ok(v) = s.parse::<i128>() {
                        if *w > 128 && v < 0 {
                            let mut b = V::c(v as u128, 256).bits();
                            b.truncate(*w as usize);
                            for k in 128..*w as usize {
                                b[k] = 1;
                            }
                            return Opd::K(V::from_bits(b));
                        }
                        Opd::K(V::c(v as u128, *w))
                    } else {
                        // big decimal
                        let neg = s.starts_with('-');
                        let ds = s.trim_start_matches('-');
                        let mut bits = vec![0u32; *w as usize];
                        let mut digs: Vec<u8> = ds.bytes().map(|c| c - b'0').collect();
                        let mut k = 0;
                        while !digs.is_empty() && k < *w as usize {
                            let mut rem = 0;
                            for d in digs.iter_mut() {
                                let x = rem * 10 + *d;
                                *d = x / 2;
                                rem = x % 2;
                            }
                            bits[k] = rem as u32;
                            k += 1;
                            while digs.first() == Some(&0) {
                                digs.remove(0);
                            }
                        }
                        if neg {
                            let mut c = 1;
                            for b in bits.iter_mut() {
                                let x = (1 - *b) + c;
                                *b = x & 1;
                                c = x >> 1;
                            }
                        }
                        Opd::K(V::from_bits(bits))
                    }
                }
                _ => panic!("number for {:?}", t),
            },
            Tk::S(b) => Opd::K(V::A(b.iter().map(|&x| V::c(x as u128, 8)).collect::<Vec<_>>().into())),
            Tk::W(w) => match w.as_str() {
                "true" => Opd::K(V::bit(true)),
                "false" => Opd::K(V::bit(false)),
                "null" | "zeroinitializer" | "undef" | "poison" | "none" => Opd::K(Self::zero(t)),
                "splat" => {
                    self.exp('(');
                    let et = self.ty();
                    let v = self.val(&et);
                    self.exp(')');
                    match (t, v) {
                        (Ty::Vec(n, _), Opd::K(k)) => {
                            let mut b = vec![];
                            for _ in 0..*n {
                                b.extend(k.bits());
                            }
                            Opd::K(V::from_bits(b))
                        }
                        _ => panic!("splat"),
                    }
                }
                "getelementptr" => {
                    while !self.isp('(') {
                        self.i += 1;
                    }
                    self.exp('(');
                    let bt = self.ty();
                    self.exp(',');
                    self.ty();
                    self.attrs();
                    let b = self.val(&Ty::Ptr);
                    let (mut off, dy) = self.gep_idx(&bt);
                    assert!(dy.is_empty());
                    self.exp(')');
                    match b {
                        Opd::K(V::C(x, _)) => Opd::K(V::c(x.wrapping_add(off as u128), 64)),
                        Opd::Sym(n) => Opd::Sub(Box::new(Opd::Sym(n)), Box::new(Opd::K(V::c(0u128.wrapping_sub(off as u128), 64)))),
                        Opd::Sub(a, k) => {
                            if let Opd::K(V::C(x, _)) = *k {
                                off = off.wrapping_sub(x as u64);
                                Opd::Sub(a, Box::new(Opd::K(V::c(0u64.wrapping_sub(off) as u128, 64))))
                            } else {
                                panic!()
                            }
                        }
                        x => panic!("gep const {:?}", x),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                    self.exp('(');
                    let st = self.ty();
                    self.attrs();
                    let v = self.val(&st);
                    self.eatw("to");
                    self.ty();
                    self.exp(')');
                    v
                }
                "sub" | "add" | "xor" => {
                    while !self.isp('(') {
                        self.i += 1;
                    }
                    self.exp('(');
                    let t1 = self.ty();
                    let a = self.val(&t1);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.val(&t2);
                    self.exp(')');
                    if w == "sub" {
                        Opd::Sub(Box::new(a), Box::new(b))
                    } else {
                        match (&a, &b) {
                            (_, Opd::K(V::C(x, wd))) if w == "add" => Opd::Sub(Box::new(a), Box::new(Opd::K(V::c(0u128.wrapping_sub(*x), *wd)))),
                            _ => panic!("constexpr {}", w),
                        }
                    }
                }
                _ => panic!("value word {} in {:?}", w, self.t),
            },
            Tk::P('[') => self.agg(']'),
            Tk::P('{') => self.agg('}'),
            Tk::P('<') => {
                if self.eatp('{') {
                    let r = self.agg('}');
                    self.exp('>');
                    r
                } else {
                    let r = self.agg('>');
                    match r {
                        Opd::K(V::A(e)) => Opd::K(crate::bv::concat_lo_hi(&e)),
                        _ => panic!("vector const with refs"),
                    }
                }
            }
            x => panic!("value {:?} in {:?}", x, self.t),
        }
    }
    fn agg(&mut self, end: char) -> Opd {
        let mut v = vec![];
        while !self.isp(end) {
            let t = self.ty();
            match self.val(&t) {
                Opd::K(k) => v.push(k),
                _ => v.push(V::U), // pointer inside aggregate constant used as an operand: unsupported unless unused
            }
            self.eatp(',');
        }
        self.exp(end);
        Opd::K(V::A(v.into()))
    }
    fn tv(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.attrs();
        if t == Ty::Other {
            // metadata operand: skip
            self.skip_to_arg_end();
            return (t, Opd::K(V::U));
        }
        let v = self.val(&t);
        (t, v)
    }
    fn skip_to_arg_end(&mut self) {
        let mut d = 0;
        loop {
            match self.pk() {
                Some(Tk::P('(')) | Some(Tk::P('{')) => d += 1,
                Some(Tk::P(')')) | Some(Tk::P('}')) => {
                    if d == 0 {
                        return;
                    }
                    d -= 1
                }
                Some(Tk::P(',')) if d == 0 => return,
                None => return,
                _ => {}
            }
            self.i += 1;
        }
    }
    fn gep_idx(&mut self, bt: &Ty) -> (u64, Vec<(Opd, u64)>) {
        let mut off = 0u64;
        let mut dynv = vec![];
        let mut first = true;
        let mut cur = bt.clone();
        while self.isp(',') {
            if let Some(Tk::Md(_)) = self.t.get(self.i + 1) {
                break;
            }
            self.i += 1;
            // inrange etc. not expected on indices
            let (t, v) = self.tv();
            let w = t.bits();
            let (scale, next): (u64, Ty) = if first {
                (cur.size(), cur.clone())
            } else {
                match &cur {
                    Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size(), (**e).clone()),
                    Ty::Struct(f, _) => {
                        let k = match &v {
                            Opd::K(V::C(x, _)) => *x as usize,
                            _ => panic!(),
                        };
                        let (l, _) = cur.layout();
                        off = off.wrapping_add(l[k]);
                        cur = f[k].clone();
                        continue;
                    }
                    _ => panic!("gep into {:?}", cur),
                }
            };
            first = false;
            match v {
                Opd::K(V::C(x, _)) => off = off.wrapping_add((crate::bv::sx(x, w) as i64 as u64).wrapping_mul(scale)),
                o => {
                    assert!(w == 64, "gep idx width {}", w);
                    dynv.push((o, scale))
                }
            }
            cur = next;
        }
        (off, dynv)
    }
}

fn emit_init(m: &Module, t: &Ty, p: &mut P, off: u64, out: &mut Vec<GInit>) {
    let _ = m;
    match p.pk() {
        Some(Tk::W(w)) if w == "zeroinitializer" || w == "undef" || w == "poison" => {
            p.i += 1;
            return;
        }
        _ => {}
    }
    match t {
        Ty::Arr(_, e) => {
            if let Some(Tk::S(b)) = p.pk().cloned() {
                p.i += 1;
                out.push(GInit::Bytes(off, b));
                return;
            }
            p.exp('[');
            let mut o = off;
            while !p.isp(']') {
                let et = p.ty();
                emit_init(m, &et, p, o, out);
                o += e.size();
                p.eatp(',');
            }
            p.exp(']');
        }
        Ty::Struct(_, packed) => {
            if *packed {
                p.exp('<');
            }
            p.exp('{');
            let (l, _) = t.layout();
            let mut k = 0;
            while !p.isp('}') {
                let et = p.ty();
                emit_init(m, &et, p, off + l[k], out);
                k += 1;
                p.eatp(',');
            }
            p.exp('}');
            if *packed {
                p.exp('>');
            }
        }
        _ => match p.val(t) {
            Opd::K(V::C(x, w)) => {
                let n = (w as usize + 7) / 8;
                out.push(GInit::Bytes(off, (0..n).map(|i| if i < 16 { (x >> (8 * i)) as u8 } else { 0 }).collect()));
            }
            Opd::K(_) => {}
            o => out.push(GInit::Ref(off, o)),
        },
    }
}

pub fn parse(text: &str) -> Module {
    let mut m = Module { types: HashMap::new(), globals: vec![], gidx: HashMap::new(), funcs: vec![], fidx: HashMap::new(), decls: vec![], didx: HashMap::new() };
    let lines: Vec<&str> = text.lines().collect();
    // types first
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let t = lex(l);
            let name = match &t[0] {
                Tk::L(n) => n.clone(),
                _ => continue,
            };
            let mut p = P { t, i: 3, m: &m, regs: None };
            let ty = p.try_ty().unwrap_or(Ty::Other);
            m.types.insert(name, ty);
        }
    }
    let mut i = 0;
    let mut fn_src: Vec<(usize, usize)> = vec![];
    let mut aliases: Vec<(String, Opd)> = vec![];
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let t = lex(l);
            let name = match &t[0] {
                Tk::G(n) => n.clone(),
                _ => panic!(),
            };
            if t.iter().take(12).any(|x| matches!(x, Tk::W(w) if w == "alias")) {
                let k = t.iter().position(|x| matches!(x, Tk::W(w) if w=="alias")).unwrap();
                let tgt = t[k..].iter().find_map(|x| if let Tk::G(n) = x { Some(n.clone()) } else { None });
                if let Some(tg) = tgt {
                    aliases.push((name, Opd::Sym(tg)));
                }
                i += 1;
                continue;
            }
            let k = t.iter().position(|x| matches!(x, Tk::W(w) if w == "global" || w == "constant"));
            if let Some(k) = k {
                let constant = matches!(&t[k], Tk::W(w) if w == "constant");
                let ext = t[..k].iter().any(|x| matches!(x, Tk::W(w) if w == "external" || w == "extern_weak"));
                let mut p = P { t, i: k + 1, m: &m, regs: None };
                let ty = p.ty();
                let mut init = vec![];
                if !ext {
                    emit_init(&m, &ty, &mut p, 0, &mut init);
                }
                let g = Global { name: name.clone(), size: ty.size(), init, constant };
                m.gidx.insert(name, m.globals.len());
                m.globals.push(g);
            }
        } else if l.starts_with("declare ") {
            if let Some(Tk::G(n)) = lex(l).into_iter().find(|t| matches!(t, Tk::G(_))) {
                if !m.didx.contains_key(&n) {
                    m.didx.insert(n.clone(), m.decls.len());
                    m.decls.push(n);
                }
            }
        } else if l.starts_with("define ") {
            let s = i;
            while lines[i] != "}" {
                i += 1;
            }
            fn_src.push((s, i));
            let n = lex(lines[s]).into_iter().find_map(|t| if let Tk::G(n) = t { Some(n) } else { None }).unwrap();
            m.fidx.insert(n, fn_src.len() - 1);
        }
        i += 1;
    }
    let mut funcs = vec![];
    for &(s, e) in &fn_src {
        funcs.push(parse_fn(&m, &lines[s..e]));
    }
    m.funcs = funcs;
    // resolve aliases
    for (n, o) in aliases {
        if let Opd::Sym(t) = o {
            if let Some(&f) = m.fidx.get(&t) {
                m.fidx.insert(n, f);
            } else if let Some(&g) = m.gidx.get(&t) {
                m.gidx.insert(n, g);
            }
        }
    }
    m
}

fn fnv(h: u64, s: &str) -> u64 {
    s.bytes().fold(h, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn parse_fn(m: &Module, lines: &[&str]) -> Func {
    let mut regs: HashMap<String, u32> = HashMap::new();
    let head = lex(lines[0]);
    let gi = head.iter().position(|t| matches!(t, Tk::G(_))).unwrap();
    let name = match &head[gi] {
        Tk::G(n) => n.clone(),
        _ => unreachable!(),
    };
    // return type: last type before @name -> scan tokens from 1
    let mut ret = Ty::Void;
    {
        let mut p = P { t: head[..gi].to_vec(), i: 1, m, regs: None };
        while p.i < gi {
            let save = p.i;
            if let Some(t) = p.try_ty() {
                ret = t;
                break;
            }
            p.i = save + 1;
            if p.isp('(') {
                p.skip_paren();
            }
        }
    }
    let mut params = vec![];
    let mut unnamed = 0;
    {
        let mut p = P { t: head.clone(), i: gi + 1, m, regs: Some(&mut regs) };
        p.exp('(');
        while !p.isp(')') {
            if p.eatp('.') || p.isw("...") {
                p.i += 1;
                continue;
            }
            if p.try_ty().is_none() {
                p.i += 1;
                continue;
            }
            p.attrs();
            if let Some(Tk::L(n)) = p.pk().cloned() {
                p.i += 1;
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                let r = p.reg(&n);
                params.push(r);
            } else {
                let r = p.reg(&format!("{}", unnamed));
                params.push(r);
                unnamed += 1;
            }
            p.eatp(',');
        }
    }
    // split into logical lines & blocks
    let mut hash = fnv(0xcbf29ce484222325, &name);
    let mut blocks_src: Vec<(String, Vec<String>)> = vec![];
    let mut cur: Option<(String, Vec<String>)> = None;
    let mut k = 1;
    while k < lines.len() {
        let l = lines[k];
        let lt = l.trim();
        if lt.is_empty() || lt.starts_with(';') {
            k += 1;
            continue;
        }
        if !l.starts_with(' ') {
            // label
            if let Some(c) = cur.take() {
                blocks_src.push(c);
            }
            let lab = if l.starts_with('"') {
                let e = l[1..].find('"').unwrap();
                l[1..1 + e].to_string()
            } else {
                l[..l.find(':').unwrap()].to_string()
            };
            cur = Some((lab, vec![]));
            k += 1;
            continue;
        }
        let mut s = lt.to_string();
        if lt.starts_with("switch ") && !lt.contains(']') {
            while !s.contains(']') {
                k += 1;
                s.push(' ');
                s.push_str(lines[k].trim());
            }
        }
        if (lt.starts_with("invoke ") || lt.contains("= invoke ")) && !lt.contains(" to label ") {
            k += 1;
            s.push(' ');
            s.push_str(lines[k].trim());
        }
        if lt.contains("landingpad ") {
            while k + 1 < lines.len() {
                let n = lines[k + 1].trim();
                if n == "cleanup" || n.starts_with("catch ") || n.starts_with("filter ") {
                    k += 1;
                } else {
                    break;
                }
            }
        }
        // strip metadata for hashing
        let hs = s.split(", !").next().unwrap();
        hash = fnv(hash, hs);
        if cur.is_none() {
            cur = Some((format!("{}", unnamed), vec![]));
        }
        cur.as_mut().unwrap().1.push(s);
        k += 1;
    }
    if let Some(c) = cur.take() {
        blocks_src.push(c);
    }
    let bidx: HashMap<String, usize> = blocks_src.iter().enumerate().map(|(i, b)| (b.0.clone(), i)).collect();
    let mut blocks = vec![];
    for (bn, ls) in &blocks_src {
        let mut b = Block { name: bn.clone(), phis: vec![], ins: vec![], term: Term::Unsupported("no terminator".into()) };
        for l in ls {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_ins(m, l, &mut regs, &bidx, &mut b)));
            if r.is_err() {
                b.ins.push(I::Unsupported(l.clone()));
            }
        }
        blocks.push(b);
    }
    let mut f = Func { name, nregs: regs.len(), params, ret, blocks, ipdom: vec![], can_ret: vec![], hash };
    compute_ipdom(&mut f);
    f
}

fn parse_ins(m: &Module, l: &str, regs: &mut HashMap<String, u32>, bidx: &HashMap<String, usize>, b: &mut Block) {
    let t = lex(l);
    let mut p = P { t, i: 0, m, regs: Some(regs) };
    let mut dst = 0;
    let mut has = false;
    if let (Some(Tk::L(n)), Some(Tk::P('='))) = (p.t.get(0).cloned(), p.t.get(1).cloned()) {
        dst = p.reg(&n);
        has = true;
        p.i = 2;
    }
    let lab = |p: &mut P| -> usize {
        assert!(p.eatw("label"));
        match p.nx() {
            Tk::L(n) => *bidx.get(&n).unwrap_or_else(|| panic!("label {} line {} have {:?}", n, l, bidx)),
            x => panic!("label {:?}", x),
        }
    };
    let mut op = p.word();
    while op == "tail" || op == "musttail" || op == "notail" {
        op = p.word();
    }
    let vecw = |t: &Ty| match t {
        Ty::Vec(_, e) => Some(e.bits()),
        _ => None,
    };
    let bins: [&'static str; 13] = ["add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"];
    if let Some(o) = bins.iter().find(|x| **x == op) {
        while p.isw("nuw") || p.isw("nsw") || p.isw("exact") || p.isw("disjoint") {
            p.i += 1;
        }
        let t = p.ty();
        let a = p.val(&t);
        p.exp(',');
        let c = p.val(&t);
        b.ins.push(I::Bin(o, dst, a, c, vecw(&t)));
        return;
    }
    match op.as_str() {
        "icmp" => {
            p.eatw("samesign");
            let pr = p.word();
            let t = p.ty();
            let a = p.val(&t);
            p.exp(',');
            let c = p.val(&t);
            b.ins.push(I::ICmp(pr, dst, a, c, vecw(&t)));
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            while p.try_ty_peek_is_none() {
                p.i += 1;
            }
            let t = p.ty();
            let a = p.val(&t);
            p.exp(',');
            let c = p.val(&t);
            match t {
                Ty::Float(w) => b.ins.push(I::FBin(op, dst, a, c, w)),
                _ => b.ins.push(I::Unsupported(l.to_string())),
            }
        }
        "fcmp" => {
            let mut pr = p.word();
            while ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"].contains(&pr.as_str()) {
                pr = p.word();
            }
            let t = p.ty();
            let a = p.val(&t);
            p.exp(',');
            let c = p.val(&t);
            match t {
                Ty::Float(w) => b.ins.push(I::FCmp(pr, dst, a, c, w)),
                _ => b.ins.push(I::Unsupported(l.to_string())),
            }
        }
        "fneg" => {
            while p.try_ty_peek_is_none() {
                p.i += 1;
            }
            let t = p.ty();
            let a = p.val(&t);
            b.ins.push(I::FNeg(dst, a, t.bits()));
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
            while p.isw("nneg") || p.isw("nuw") || p.isw("nsw") {
                p.i += 1;
            }
            let t = p.ty();
            let a = p.val(&t);
            assert!(p.eatw("to"));
            let d = p.ty();
            b.ins.push(I::Cast(op, dst, a, t, d));
        }
        "select" => {
            while p.try_ty_peek_is_none() {
                p.i += 1;
            }
            let ct = p.ty();
            let c = p.val(&ct);
            p.exp(',');
            let t = p.ty();
            let a = p.val(&t);
            p.exp(',');
            p.ty();
            let e = p.val(&t);
            b.ins.push(I::Select(dst, c, a, e, t, matches!(ct, Ty::Vec(..))));
        }
        "load" => {
            p.eatw("atomic");
            p.eatw("volatile");
            let t = p.ty();
            p.exp(',');
            p.ty();
            let a = p.val(&Ty::Ptr);
            b.ins.push(I::Load(dst, t, a));
        }
        "store" => {
            p.eatw("atomic");
            p.eatw("volatile");
            let t = p.ty();
            let v = p.val(&t);
            p.exp(',');
            p.ty();
            let a = p.val(&Ty::Ptr);
            b.ins.push(I::Store(t, v, a));
        }
        "alloca" => {
            p.eatw("inalloca");
            let t = p.ty();
            b.ins.push(I::Alloca(dst, t.size().max(1)));
        }
        "getelementptr" => {
            loop {
                match p.pk() {
                    Some(Tk::W(w)) if ["inbounds", "nuw", "nusw"].contains(&w.as_str()) => p.i += 1,
                    Some(Tk::W(w)) if w == "inrange" => {
                        p.i += 1;
                        p.skip_paren()
                    }
                    _ => break,
                }
            }
            let bt = p.ty();
            p.exp(',');
            p.ty();
            let base = p.val(&Ty::Ptr);
            let (off, dy) = p.gep_idx(&bt);
            b.ins.push(I::Gep(dst, base, off, dy));
        }
        "extractvalue" => {
            let t = p.ty();
            let a = p.val(&t);
            let mut ix = vec![];
            while p.eatp(',') {
                if matches!(p.pk(), Some(Tk::Md(_))) {
                    break;
                }
                ix.push(p.num() as u32);
            }
            b.ins.push(I::ExtractV(dst, a, ix));
        }
        "insertvalue" => {
            let t = p.ty();
            let a = p.val(&t);
            p.exp(',');
            let t2 = p.ty();
            let v = p.val(&t2);
            let mut ix = vec![];
            while p.eatp(',') {
                if matches!(p.pk(), Some(Tk::Md(_))) {
                    break;
                }
                ix.push(p.num() as u32);
            }
            b.ins.push(I::InsertV(dst, a, v, ix, t));
        }
        "freeze" => {
            let t = p.ty();
            let a = p.val(&t);
            b.ins.push(I::Freeze(dst, a, t));
        }
        "extractelement" => {
            let t = p.ty();
            let a = p.val(&t);
            p.exp(',');
            let it = p.ty();
            let ix = p.val(&it);
            b.ins.push(I::ExtractE(dst, a, ix, t));
        }
        "insertelement" => {
            let t = p.ty();
            let a = p.val(&t);
            p.exp(',');
            let et = p.ty();
            let e = p.val(&et);
            p.exp(',');
            let it = p.ty();
            let ix = p.val(&it);
            b.ins.push(I::InsertE(dst, a, e, ix, t));
        }
        "shufflevector" => {
            let t = p.ty();
            let a = p.val(&t);
            p.exp(',');
            p.ty();
            let c = p.val(&t);
            p.exp(',');
            let mt = p.ty();
            let mk = p.val(&mt);
            let mv = match mk {
                Opd::K(v) => {
                    let bb = v.bits();
                    bb.chunks(32).map(|c| c.iter().enumerate().map(|(i, &l)| (l as i64) << i).sum::<i64>()).collect()
                }
                _ => vec![],
            };
            b.ins.push(I::Shuffle(dst, a, c, mv, t));
        }
        "phi" => {
            while p.try_ty_peek_is_none() {
                p.i += 1;
            }
            let t = p.ty();
            let mut v = vec![];
            loop {
                p.exp('[');
                let o = p.val(&t);
                p.exp(',');
                let bl = match p.nx() {
                    Tk::L(n) => *bidx.get(&n).unwrap_or_else(|| panic!("label {} line {} have {:?}", n, l, bidx)),
                    _ => panic!(),
                };
                p.exp(']');
                v.push((bl, o));
                if !p.isp(',') || matches!(p.t.get(p.i + 1), Some(Tk::Md(_))) {
                    break;
                }
                p.i += 1;
            }
            b.phis.push((dst, v, t));
        }
        "call" | "invoke" => {
            // skip fast-math / cc / ret attrs until a type
            loop {
                match p.pk() {
                    Some(Tk::W(_)) => {
                        let s = p.i;
                        if p.try_ty().is_some() {
                            p.i = s;
                            break;
                        }
                        if p.isw("align") {
                            p.i += 2;
                            continue;
                        }
                        p.i += 1;
                        if p.isp('(') {
                            p.skip_paren();
                        }
                    }
                    _ => break,
                }
            }
            if p.isw("asm") {
                b.ins.push(I::Unsupported(l.to_string()));
                return;
            }
            let rt = p.ty();
            if p.isp('(') {
                p.skip_paren(); // function type
            }
            if p.isw("asm") {
                b.ins.push(I::Unsupported(l.to_string()));
                return;
            }
            let callee = match p.nx() {
                Tk::G(n) => Opd::Sym(n),
                Tk::L(n) => Opd::R(p.reg(&n)),
                x => {
                    b.ins.push(I::Unsupported(format!("callee {:?}", x)));
                    return;
                }
            };
            p.exp('(');
            let mut args = vec![];
            while !p.isp(')') {
                args.push(p.tv());
                if !p.eatp(',') {
                    break;
                }
            }
            p.exp(')');
            let d = if has { Some(dst) } else { None };
            b.ins.push(I::Call(d, rt, callee, args));
            if op == "invoke" {
                while !p.isw("to") {
                    p.i += 1;
                }
                p.i += 1;
                let x = lab(&mut p);
                b.term = Term::Br(x);
            }
        }
        "ret" => {
            let t = p.ty();
            b.term = if t == Ty::Void { Term::Ret(None) } else { Term::Ret(Some(p.val(&t))) };
        }
        "br" => {
            if p.isw("label") {
                b.term = Term::Br(lab(&mut p));
            } else {
                p.ty();
                let c = p.val(&Ty::Int(1));
                p.exp(',');
                let x = lab(&mut p);
                p.exp(',');
                let y = lab(&mut p);
                b.term = if x == y { Term::Br(x) } else { Term::CondBr(c, x, y) };
            }
        }
        "switch" => {
            let t = p.ty();
            let c = p.val(&t);
            p.exp(',');
            let d = lab(&mut p);
            p.exp('[');
            let mut v = vec![];
            while !p.isp(']') {
                let t2 = p.ty();
                let k = match p.val(&t2) {
                    Opd::K(V::C(x, _)) => x,
                    _ => panic!(),
                };
                p.exp(',');
                let x = lab(&mut p);
                v.push((k, x));
            }
            b.term = Term::Switch(c, d, v);
        }
        "unreachable" => b.term = Term::Unreachable,
        "landingpad" | "resume" | "fence" | "cmpxchg" | "atomicrmw" | "va_arg" => {
            if op == "resume" {
                b.term = Term::Unreachable;
            } else if op != "fence" {
                b.ins.push(I::Unsupported(l.to_string()));
            }
        }
        _ => b.ins.push(I::Unsupported(l.to_string())),
    }
}
impl<'a> P<'a> {
    fn try_ty_peek_is_none(&mut self) -> bool {
        let s = self.i;
        let r = self.try_ty().is_none();
        self.i = s;
        r && s < self.t.len()
    }
}

pub fn succs(t: &Term) -> Vec<usize> {
    match t {
        Term::Br(x) => vec![*x],
        Term::CondBr(_, x, y) => vec![*x, *y],
        Term::Switch(_, d, v) => {
            let mut r = vec![*d];
            for (_, x) in v {
                if !r.contains(x) {
                    r.push(*x);
                }
            }
            r
        }
        _ => vec![],
    }
}

fn compute_ipdom(f: &mut Func) {
    let n = f.blocks.len();
    let sc: Vec<Vec<usize>> = f.blocks.iter().map(|b| succs(&b.term)).collect();
    let mut pred = vec![vec![]; n];
    for (i, s) in sc.iter().enumerate() {
        for &x in s {
            pred[x].push(i);
        }
    }
    // blocks that can reach a return
    let mut can = vec![false; n];
    let mut st: Vec<usize> = (0..n).filter(|&i| matches!(f.blocks[i].term, Term::Ret(_))).collect();
    for &x in &st {
        can[x] = true;
    }
    while let Some(x) = st.pop() {
        for &p in &pred[x] {
            if !can[p] {
                can[p] = true;
                st.push(p);
            }
        }
    }
    // iterative postdominator tree on reverse graph with virtual exit n
    let ex = n;
    let mut order = vec![]; // reverse post order on reverse graph from exit
    let mut seen = vec![false; n + 1];
    fn rsucc(x: usize, n: usize, pred: &[Vec<usize>], rets: &[usize]) -> Vec<usize> {
        if x == n {
            rets.to_vec()
        } else {
            pred[x].clone()
        }
    }
    let rets: Vec<usize> = (0..n).filter(|&i| matches!(f.blocks[i].term, Term::Ret(_))).collect();
    let mut stack = vec![(ex, 0usize)];
    seen[ex] = true;
    while let Some((x, k)) = stack.pop() {
        let s = rsucc(x, n, &pred, &rets);
        if k < s.len() {
            stack.push((x, k + 1));
            let y = s[k];
            if !seen[y] {
                seen[y] = true;
                stack.push((y, 0));
            }
        } else {
            order.push(x);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (i, &x) in order.iter().enumerate() {
        num[x] = i;
    }
    let mut idom: Vec<Option<usize>> = vec![None; n + 1];
    idom[ex] = Some(ex);
    let mut ch = true;
    while ch {
        ch = false;
        for &x in order.iter().skip(1) {
            let mut ss: Vec<usize> = sc[x].iter().copied().filter(|&y| can[y]).collect();
            if matches!(f.blocks[x].term, Term::Ret(_)) {
                ss = vec![ex];
            }
            let mut ni: Option<usize> = None;
            for &y in &ss {
                if idom[y].is_none() {
                    continue;
                }
                ni = Some(match ni {
                    None => y,
                    Some(z) => {
                        let (mut a, mut b) = (y, z);
                        while a != b {
                            while num[a] > num[b] {
                                a = idom[a].unwrap();
                            }
                            while num[b] > num[a] {
                                b = idom[b].unwrap();
                            }
                        }
                        a
                    }
                });
            }
            if ni.is_some() && idom[x] != ni {
                idom[x] = ni;
                ch = true;
            }
        }
    }
    f.ipdom = (0..n).map(|i| idom[i].and_then(|d| if d == ex { None } else { Some(d) })).collect();
    f.can_ret = can;
}
