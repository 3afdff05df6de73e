//! Native replay of a counterexample: the same harness functions, linked with the
//! real crate, fed with the concrete inputs the solver produced.
use std::cell::RefCell;

#[derive(Default)]
struct St {
    params: Vec<usize>,
    cases: Vec<usize>,
    ci: usize,
    bytes: Vec<Vec<u8>>,
    bi: usize,
}
thread_local! { static S: RefCell<St> = RefCell::new(St::default()); }

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
#[no_mangle]
pub unsafe extern "C" fn vp_sym(p: *mut u8, n: usize) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.bi;
        s.bi += 1;
        let b = s.bytes.get(i).cloned().unwrap_or_default();
        for k in 0..n {
            *p.add(k) = b.get(k).copied().unwrap_or(0);
        }
    })
}
#[no_mangle]
pub extern "C" fn vp_case(n: usize) -> usize {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.ci;
        s.ci += 1;
        let c = s.cases.get(i).copied().unwrap_or(0);
        assert!(c < n);
        c
    })
}
#[no_mangle]
pub extern "C" fn vp_param(i: usize) -> usize {
    S.with(|s| s.borrow().params.get(i).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        eprintln!("assumption not met");
        std::process::exit(77);
    }
}
#[no_mangle]
pub extern "C" fn vp_check(c: bool, code: u32) {
    if !c {
        eprintln!("CHECK FAILED code {}", code);
        std::process::exit(3);
    }
}
#[no_mangle]
pub extern "C" fn vp_cover(c: bool, code: u32) {
    if c {
        eprintln!("COVER {}", code);
    }
}
#[no_mangle]
pub extern "C" fn vp_print(v: u64) {
    eprintln!("vp_print {} {:#x}", v, v);
}
#[no_mangle]
pub extern "C" fn vp_stop() -> ! {
    std::process::exit(0);
}
#[no_mangle]
pub unsafe extern "C" fn vp_check_eq(a: *const u8, b: *const u8, n: usize, code: u32) {
    for i in 0..n {
        if *a.add(i) != *b.add(i) {
            eprintln!("CHECK FAILED code {} at byte {}: got {:#04x} want {:#04x}", code, i, *a.add(i), *b.add(i));
            std::process::exit(3);
        }
    }
}

fn main() {
    let f = std::env::args().nth(1).expect("replay file");
    let mut name = String::new();
    let txt = std::fs::read_to_string(f).expect("read");
    S.with(|s| {
        let mut s = s.borrow_mut();
        for l in txt.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let nums = || v.split_whitespace().map(|x| x.parse::<usize>().unwrap()).collect::<Vec<_>>();
            match k {
                "harness" => name = v.to_string(),
                "params" => s.params = nums(),
                "cases" => s.cases = nums(),
                "bytes" => s.bytes.push(unhex(v)),
                _ => {}
            }
        }
    });
    let h = harness::TABLE.iter().find(|x| x.0 == name).unwrap_or_else(|| {
        eprintln!("no harness {}", name);
        std::process::exit(76)
    });
    (h.1)();
}
