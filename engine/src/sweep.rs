//! SAT sweeping (functional reduction) of the cones of a set of literals.
use crate::aig::*;
use crate::sat::{Sat, R};
use std::collections::HashMap;
use std::time::Instant;

fn mix(h: u64, w: u64) -> u64 {
    let x = (h ^ w).wrapping_mul(0x9E3779B97F4A7C15);
    x ^ (x >> 32)
}

#[derive(Debug)]
pub struct SweepStats {
    pub merged: u64,
    pub cex: u64,
    pub unknown: u64,
    pub cone: u64,
}

/// returns mapped literals (functionally equal to `roots`)
pub fn sweep(g: &mut Aig, sat: &mut Sat, roots: &[Lit], conf: i64, deadline: Instant, st: &mut SweepStats) -> Vec<Lit> {
    // cone
    let mut inc = vec![false; g.n.len()];
    let mut stack: Vec<u32> = roots.iter().map(|&l| node(l)).collect();
    let mut cone = vec![];
    while let Some(x) = stack.pop() {
        if inc[x as usize] {
            continue;
        }
        inc[x as usize] = true;
        cone.push(x);
        let (a, b) = g.n[x as usize];
        if x != 0 && a != u32::MAX {
            stack.push(node(a));
            stack.push(node(b));
        }
    }
    if !inc[0] {
        cone.push(0);
    }
    cone.sort();
    st.cone += cone.len() as u64;
    let pos: HashMap<u32, usize> = cone.iter().enumerate().map(|(i, &x)| (x, i)).collect();
    let n = cone.len();
    let mut map: Vec<Lit> = vec![F; n];
    let mut phase = vec![0u64; n];
    let mut sig = vec![0u64; n];
    for i in 0..n {
        let s = &g.sim[cone[i] as usize];
        phase[i] = if s[0] & 1 == 1 { !0 } else { 0 };
        let mut h = 0x1234567;
        for w in s {
            h = mix(h, w ^ phase[i]);
        }
        sig[i] = h;
    }
    let mut table: HashMap<u64, Vec<usize>> = HashMap::new();
    let mut w = vec![0u64; n];
    let mut rng = 0x853c49e6748fea9bu64;
    let mut since_cex = 0;
    let _ = since_cex;
    let mut i = 0;
    let mut processed: Vec<usize> = vec![];
    while i < n {
        let x = cone[i];
        let (a, b) = g.n[x as usize];
        let l = if x == 0 {
            F
        } else if a == u32::MAX {
            x << 1
        } else {
            let la = map[pos[&node(a)]] ^ (a & 1);
            let lb = map[pos[&node(b)]] ^ (b & 1);
            g.and(la, lb)
        };
        map[i] = l;
        if x != 0 && a == u32::MAX {
            // inputs are never merged but serve as representatives
            table.entry(sig[i]).or_default().push(i);
            processed.push(i);
            i += 1;
            continue;
        }
        if i & 63 == 0 && Instant::now() > deadline {
            for k in i + 1..n {
                let x = cone[k];
                let (a, b) = g.n[x as usize];
                map[k] = if a == u32::MAX {
                    x << 1
                } else {
                    let la = map[pos[&node(a)]] ^ (a & 1);
                    let lb = map[pos[&node(b)]] ^ (b & 1);
                    g.and(la, lb)
                };
            }
            break;
        }
        let mut refined = false;
        let mut isrep = true;
        let cands: Vec<usize> = table.get(&sig[i]).cloned().unwrap_or_default();
        let mut tried = 0;
        for &r in &cands {
            let inv = (phase[i] ^ phase[r]) & 1;
            let rl = map[r] ^ inv as Lit;
            if rl == l {
                isrep = false;
                map[i] = rl;
                break;
            }
            if rl == neg(l) {
                continue;
            }
            if tried >= 3 {
                break;
            }
            tried += 1;
            if sat.size() > 600_000 {
                sat.reset();
            }
            let r1 = sat.solve(g, &[l, neg(rl)], conf);
            let res = if r1 == R::Unsat { sat.solve(g, &[neg(l), rl], conf) } else { r1 };
            match (r1, res) {
                (R::Unsat, R::Unsat) => {
                    sat.assert_eq(g, l, rl);
                    map[i] = rl;
                    isrep = false;
                    st.merged += 1;
                    break;
                }
                (_, R::Sat) => {
                    st.cex += 1;
                    // refine: model pattern in bit 0, random perturbations in the rest
                    for k in 0..n {
                        let x = cone[k];
                        let (a, b) = g.n[x as usize];
                        w[k] = if x == 0 {
                            0
                        } else if a == u32::MAX {
                            let v = if sat.model_node(x) { !0u64 } else { 0 };
                            rng ^= rng << 13;
                            rng ^= rng >> 7;
                            rng ^= rng << 17;
                            let r1 = rng.wrapping_mul(0x2545F4914F6CDD1D);
                            rng ^= rng << 13;
                            rng ^= rng >> 7;
                            rng ^= rng << 17;
                            let r2 = rng.wrapping_mul(0x2545F4914F6CDD1D);
                            rng ^= rng << 13;
                            rng ^= rng >> 7;
                            rng ^= rng << 17;
                            let r3 = rng.wrapping_mul(0x2545F4914F6CDD1D);
                            v ^ (r1 & r2 & r3 & !1)
                        } else {
                            let wa = w[pos[&node(a)]] ^ if isneg(a) { !0 } else { 0 };
                            let wb = w[pos[&node(b)]] ^ if isneg(b) { !0 } else { 0 };
                            wa & wb
                        };
                        sig[k] = mix(sig[k], w[k] ^ phase[k]);
                    }
                    table.clear();
                    for &k in &processed {
                        table.entry(sig[k]).or_default().push(k);
                    }
                    refined = true;
                    break;
                }
                _ => {
                    st.unknown += 1;
                }
            }
        }
        if refined {
            continue; // retry same node with the refined classes
        }
        if isrep {
            table.entry(sig[i]).or_default().push(i);
            processed.push(i);
        }
        i += 1;
    }
    roots.iter().map(|&l| map[pos[&node(l)]] ^ (l & 1)).collect()
}
