mod aig;
mod bv;
mod exec;
mod float;
mod ir;
mod sat;
mod sweep;

use aig::*;
use exec::*;
use sat::R;
use std::collections::{BTreeMap, VecDeque};
use std::io::Write;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub fn short(n: &str) -> String {
    // readable part of a v0/legacy mangled name
    let mut out: Vec<String> = vec![];
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let k: usize = n[i..j].parse().unwrap_or(0);
            let mut s = j;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if k > 1 && s + k <= b.len() && n.is_char_boundary(s) && n.is_char_boundary(s + k) && n[s..s + k].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                out.push(n[s..s + k].to_string());
                i = s + k;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        n.to_string()
    } else {
        let k = out.len().saturating_sub(2);
        out[k..].join("::")
    }
}

#[derive(Clone)]
struct Job {
    harness: String,
    params: Vec<usize>,
    cases: Vec<usize>,
}
struct Cex {
    job: Job,
    code: u32,
    what: String,
    inputs: Vec<Vec<u8>>,
    file: String,
    reproduced: bool,
    native: String,
}
#[derive(Default)]
struct Totals {
    cases: u64,
    steps: u64,
    forks: u64,
    nodes: u64,
    obligations: u64,
    trivially: u64,
    proven: u64,
    covers: BTreeMap<(String, u32), bool>,
    errors: Vec<String>,
    notes: Vec<String>,
    skipped: u64,
    cexs: Vec<Cex>,
    unknown: u64,
    funcs: BTreeMap<String, u64>,
    sat: sat::Stats,
    swept: (u64, u64, u64, u64),
    dead: u64,
    exec_s: f64,
    solve_s: f64,
    inputs_max: u64,
    longest: (f64, String),
    smt: (u64, u64, f64),
    struct_eq: u64,
    witnesses: Vec<String>,
    witness_ok: u64,
    narrowed: u64,
    cubes: u64,
}

struct Opts {
    ir: String,
    jobs: Vec<Job>,
    replay_bin: String,
    out: String,
    replay_dir: String,
    prop: String,
    threads: usize,
    limit: f64,
    verbose: bool,
    seed: u64,
    smt_cross: usize,
    stop_first: bool,
    narrow: f64,
    job_limit: f64,
    t0: Instant,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Opts {
        ir: String::new(),
        jobs: vec![],
        replay_bin: String::new(),
        out: String::new(),
        replay_dir: "/tmp".into(),
        prop: "X".into(),
        threads: 8,
        limit: 600.0,
        verbose: false,
        seed: 1,
        smt_cross: 0,
        stop_first: false,
        narrow: 0.0,
        job_limit: 1e9,
        t0: Instant::now(),
    };
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ir" => o.ir = v,
            "--replay-bin" => o.replay_bin = v,
            "--out" => o.out = v,
            "--replay-dir" => o.replay_dir = v,
            "--prop" => o.prop = v,
            "--threads" => o.threads = v.parse().unwrap(),
            "--limit" => o.limit = v.parse().unwrap(),
            "--seed" => o.seed = v.parse().unwrap(),
            "--smt-cross" => o.smt_cross = v.parse().unwrap(),
            "--job" => {
                // name[:p0,p1,..][/c0,c1]
                let (h, cs) = match v.split_once('/') {
                    Some((h, c)) => (h.to_string(), c.split(',').map(|x| x.parse().unwrap()).collect()),
                    None => (v.clone(), vec![]),
                };
                let (h, p) = match h.split_once(':') {
                    Some((h, p)) => (h.to_string(), p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
                    None => (h, vec![]),
                };
                o.jobs.push(Job { harness: h, params: p, cases: cs });
            }
            "--job-limit" => o.job_limit = v.parse().unwrap(),
            "--narrow" => o.narrow = v.parse().unwrap(),
            "--stop-first" => {
                o.stop_first = true;
                i += 1;
                continue;
            }
            "-v" => {
                o.verbose = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if i.payload().is::<NeedCase>() || i.payload().is::<PathEnd>() {
            return;
        }
        if std::thread::current().name() == Some("worker") {
            prev(i);
        }
    }));
    let t0 = Instant::now();
    let text = match std::fs::read_to_string(&o.ir) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read IR {}: {}", o.ir, e);
            std::process::exit(2);
        }
    };
    let m = ir::parse(&text);
    drop(text);
    let prog = Arc::new(load_prog(m));
    if o.verbose {
        eprintln!("parsed in {:.2}s", t0.elapsed().as_secs_f64());
    }
    let deadline = t0 + Duration::from_secs_f64(o.limit);
    let tot = Arc::new(Mutex::new(Totals::default()));
    let queue: Arc<(Mutex<(VecDeque<Job>, usize, bool)>, Condvar)> = Arc::new((Mutex::new((o.jobs.iter().cloned().collect(), 0, false)), Condvar::new()));
    let o = Arc::new(o);
    let mut hs = vec![];
    for _ in 0..o.threads {
        let (prog, tot, queue, o) = (prog.clone(), tot.clone(), queue.clone(), o.clone());
        hs.push(
            std::thread::Builder::new()
                .name("worker".into())
                .stack_size(1 << 30)
                .spawn(move || loop {
                    let job = {
                        let (mx, cv) = &*queue;
                        let mut q = mx.lock().unwrap();
                        loop {
                            if q.2 {
                                return;
                            }
                            if let Some(j) = q.0.pop_back() {
                                q.1 += 1;
                                break j;
                            }
                            if q.1 == 0 {
                                cv.notify_all();
                                return;
                            }
                            q = cv.wait(q).unwrap();
                        }
                    };
                    let r = run_job(&prog, &job, &o, deadline, &tot);
                    let (mx, cv) = &*queue;
                    let mut q = mx.lock().unwrap();
                    q.1 -= 1;
                    match r {
                        JobRes::Split(n) => {
                            for k in (0..n).rev() {
                                let mut j = job.clone();
                                j.cases.push(k);
                                q.0.push_back(j);
                            }
                        }
                        JobRes::Done => {}
                        JobRes::Stop => q.2 = true,
                    }
                    cv.notify_all();
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let t = tot.lock().unwrap();
    let code = report(&o, &t, t0.elapsed().as_secs_f64(), &prog);
    drop(t);
    std::process::exit(code);
}

enum JobRes {
    Split(usize),
    Done,
    Stop,
}

fn run_job(prog: &Prog, job: &Job, o: &Opts, deadline: Instant, tot: &Mutex<Totals>) -> JobRes {
    let ts = Instant::now();
    let mut ex = Ex::new(prog, o.seed.wrapping_add(job.cases.iter().fold(7, |h: u64, &c| h.wrapping_mul(31).wrapping_add(c as u64 + 1))), job.cases.clone(), job.params.clone(), deadline);
    ex.trace = o.verbose;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run_harness(&job.harness)));
    let desc = format!("{}:{:?}/{:?}", job.harness, job.params, job.cases);
    if let Err(e) = r {
        if let Some(NeedCase(n)) = e.downcast_ref::<NeedCase>() {
            return JobRes::Split(*n);
        }
        let msg = if let Some(PathEnd(s)) = e.downcast_ref::<PathEnd>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        };
        // given up: does the real code end on an input that gets there?
        if ex.hang != F && (ex.hang == T || ex.sat.solve(&ex.g, &[ex.hang], 2_000_000) == R::Sat) {
            let a = if ex.hang == T { asg_from_sim(&ex, 0, 0) } else { asg_from_sat(&ex) };
            let inputs = inputs_of(&ex, &a);
            let mut c = Cex { job: job.clone(), code: 9004, what: format!("no end: {}", msg), inputs, file: String::new(), reproduced: false, native: String::new() };
            write_replay(o, &mut c);
            let (ok, m) = replay(o, &c);
            if ok {
                c.reproduced = true;
                c.native = m;
                let mut t = tot.lock().unwrap();
                t.cexs.push(c);
                if o.stop_first {
                    let code = report(o, &t, o.t0.elapsed().as_secs_f64(), prog);
                    std::process::exit(code);
                }
                return JobRes::Stop;
            }
            let _ = std::fs::remove_file(&c.file);
        }
        let mut t = tot.lock().unwrap();
        if ex.hang != F {
            t.notes.push(format!("{}: not explored: {}", desc, msg));
            t.skipped += 1;
            return JobRes::Done;
        }
        t.errors.push(format!("{}: {}", desc, msg));
        if o.verbose {
            eprintln!("ERROR {}: {}", desc, msg);
        }
        return if t.errors.len() > 20 { JobRes::Stop } else { JobRes::Done };
    }
    let exec_s = ts.elapsed().as_secs_f64();
    let ts2 = Instant::now();
    let nob = ex.obs.len();
    let (res, triv, sw) = discharge(&mut ex, deadline.min(ts2 + Duration::from_secs_f64(o.job_limit)), o.narrow);
    // covers
    let cov: Vec<(u32, Lit)> = ex.covers.iter().map(|(k, v)| (*k, *v)).collect();
    let mut covr = vec![];
    let mut wit = vec![];
    for (k, l) in cov {
        let known = tot.lock().unwrap().covers.get(&(job.harness.clone(), k)).copied().unwrap_or(false);
        let mut asg = None;
        if l == T {
            asg = Some(asg_from_sim(&ex, 0, 0));
        }
        for w in 0..SW {
            let s = ex.g.simlit(l, w);
            if asg.is_none() && s != 0 {
                asg = Some(asg_from_sim(&ex, w, s.trailing_zeros()));
            }
        }
        if asg.is_none() && !known && l != F && ex.sat.solve(&ex.g, &[l], 200000) == R::Sat {
            asg = Some(asg_from_sat(&ex));
        }
        covr.push((k, asg.is_some()));
        if let Some(a) = asg {
            wit.push((k, a));
        }
    }
    let mut smt = (0, 0, 0.0);
    if o.smt_cross > 0 {
        smt = smt_cross(&ex, o.smt_cross, deadline);
    }
    let solve_s = ts2.elapsed().as_secs_f64();
    let mut unk = vec![];
    let mut cexs = vec![];
    let mut proven = 0;
    let (mut narrowed, mut cubes) = (0u64, 0u64);
    for (i, r) in res.iter().enumerate() {
        match r {
            Out::Proven => proven += 1,
            Out::Unknown => unk.push(i),
            Out::Narrowed(n) => {
                narrowed += 1;
                cubes += n;
            }
            Out::Cex(asg) => cexs.push((i, asg.clone())),
        }
    }
    if o.verbose {
        eprintln!(
            "case {} steps {} forks {} nodes {} obs {} (triv {}) proven {} unk {} cex {} exec {:.2}s solve {:.2}s q {} sweep {:?}",
            desc,
            ex.steps,
            ex.forks,
            ex.g.n.len(),
            nob,
            triv,
            proven,
            unk.len(),
            cexs.len(),
            exec_s,
            solve_s,
            ex.sat.stats.queries,
            sw
        );
    }
    let mut stop = false;
    // replay counterexamples
    let mut done: std::collections::BTreeSet<Vec<Vec<u8>>> = Default::default();
    let mut cexout = vec![];
    for (i, asg) in cexs.iter().take(40) {
        let ob = &ex.obs[*i];
        let inputs = inputs_of(&ex, asg);
        if !done.insert(inputs.clone()) {
            continue;
        }
        let mut c = Cex { job: job.clone(), code: ob.code, what: ob.what.clone(), inputs, file: String::new(), reproduced: false, native: String::new() };
        write_replay(o, &mut c);
        let (ok, msg) = replay(o, &c);
        c.reproduced = ok;
        c.native = msg;
        if o.verbose {
            eprintln!("CEX {} code {} {} file {} reproduced {} {}", desc, c.code, c.what, c.file, ok, c.native);
        }
        let rep = c.reproduced;
        cexout.push(c);
        if rep || cexout.len() >= 8 {
            stop = true;
            break;
        }
    }
    // validate the encoding: the solver's reachability witnesses must behave the same natively
    let mut wout = vec![];
    let mut werr = vec![];
    if cexout.is_empty() {
        for (k, a) in wit {
            let inputs = inputs_of(&ex, &a);
            let mut c = Cex { job: job.clone(), code: k, what: "witness".into(), inputs, file: String::new(), reproduced: false, native: String::new() };
            write_replay(o, &mut c);
            let (ok, msg) = native_cover(o, &c);
            let _ = std::fs::remove_file(&c.file);
            let d = format!("{} cover {} inputs {}", desc, k, c.inputs.iter().map(|b| hex(&b[..b.len().min(64)])).collect::<Vec<_>>().join(" "));
            if ok {
                wout.push(d);
            } else {
                werr.push(format!("witness not confirmed natively: {} ({})", d, msg));
            }
        }
    }
    let mut t = tot.lock().unwrap();
    t.witness_ok += wout.len() as u64;
    for w in wout {
        if t.witnesses.len() < 12 {
            t.witnesses.push(w);
        }
    }
    t.errors.extend(werr);
    t.struct_eq += ex.struct_eq;
    t.narrowed += narrowed;
    t.cubes += cubes;
    t.cases += 1;
    t.steps += ex.steps;
    t.forks += ex.forks;
    t.nodes += ex.g.n.len() as u64;
    t.obligations += nob as u64;
    t.trivially += triv as u64;
    t.proven += proven as u64;
    t.unknown += unk.len() as u64;
    if !unk.is_empty() {
        let w = &ex.obs[unk[0]];
        t.notes.push(format!("{}: {} obligations undecided, first: {} {}", desc, unk.len(), w.code, w.what));
    }
    for (k, s) in covr {
        let e = t.covers.entry((job.harness.clone(), k)).or_insert(false);
        *e |= s;
    }
    for (f, n) in &ex.funcs_used {
        *t.funcs.entry(prog.m.funcs[*f].name.clone()).or_insert(0) += n;
    }
    t.sat.add(&ex.sat.stats);
    t.swept.0 += sw.merged;
    t.swept.1 += sw.cex;
    t.swept.2 += sw.unknown;
    t.swept.3 += sw.cone;
    t.dead += ex.dead_by_solver;
    t.exec_s += exec_s;
    t.solve_s += solve_s;
    t.smt.0 += smt.0;
    t.smt.1 += smt.1;
    t.smt.2 += smt.2;
    t.inputs_max = t.inputs_max.max(ex.g.inputs.len() as u64);
    if exec_s + solve_s > t.longest.0 {
        t.longest = (exec_s + solve_s, desc.clone());
    }
    let hit = cexout.iter().any(|c| c.reproduced);
    t.cexs.extend(cexout);
    if hit && o.stop_first {
        let code = report(o, &t, o.t0.elapsed().as_secs_f64(), prog);
        std::process::exit(code);
    }
    if stop {
        JobRes::Stop
    } else {
        JobRes::Done
    }
}

fn inputs_of(ex: &Ex, asg: &[bool]) -> Vec<Vec<u8>> {
    ex.sym_order
        .iter()
        .map(|(first, n)| {
            (0..*n)
                .map(|k| {
                    let mut b = 0u8;
                    for j in 0..8 {
                        if asg[(*first as usize) + 8 * k + j] {
                            b |= 1 << j;
                        }
                    }
                    b
                })
                .collect()
        })
        .collect()
}

enum Out {
    Proven,
    Narrowed(u64),
    Unknown,
    Cex(Vec<bool>),
}

fn asg_from_sat(ex: &Ex) -> Vec<bool> {
    ex.g.inputs.iter().map(|&n| ex.sat.model_node(n)).collect()
}
fn asg_from_sim(ex: &Ex, w: usize, bit: u32) -> Vec<bool> {
    ex.g.inputs.iter().map(|&n| (ex.g.sim[n as usize][w] >> bit) & 1 == 1).collect()
}

fn discharge(ex: &mut Ex, deadline: Instant, narrow: f64) -> (Vec<Out>, usize, sweep::SweepStats) {
    let mut st = sweep::SweepStats { merged: 0, cex: 0, unknown: 0, cone: 0 };
    let mut res: Vec<Out> = vec![];
    let mut triv = 0;
    let bads: Vec<Lit> = ex.obs.iter().map(|o| o.bad).collect();
    let mut todo = vec![];
    let mut memo: std::collections::HashMap<Lit, usize> = Default::default();
    let mut alias = vec![];
    for (i, &b) in bads.iter().enumerate() {
        res.push(Out::Unknown);
        if b == F {
            res[i] = Out::Proven;
            triv += 1;
            continue;
        }
        if let Some(&j) = memo.get(&b) {
            alias.push((i, j));
            continue;
        }
        memo.insert(b, i);
        let mut hit = None;
        for w in 0..SW {
            let s = ex.g.simlit(b, w);
            if s != 0 {
                hit = Some((w, s.trailing_zeros()));
                break;
            }
        }
        if b == T {
            hit = Some((0, 0));
        }
        if let Some((w, bit)) = hit {
            res[i] = Out::Cex(asg_from_sim(ex, w, bit));
        } else {
            todo.push(i);
        }
    }
    // stage A: direct, small budget; adaptive: if many fail go to sweeping
    ex.sat.reset();
    let mut hard: Vec<usize> = vec![];
    let mut fails = 0;
    let stage = Instant::now();
    for (n, &i) in todo.iter().enumerate() {
        // going on directly would take longer than merging what the two sides share
        if fails <= 6 && n % 16 == 15 && stage.elapsed().as_secs_f64() > 1.5 && stage.elapsed().as_secs_f64() * todo.len() as f64 / n as f64 > 8.0 {
            fails = 7;
        }
        if fails > 6 {
            hard.push(i);
            continue;
        }
        match ex.sat.solve(&ex.g, &[bads[i]], 3000) {
            R::Unsat => res[i] = Out::Proven,
            R::Sat => res[i] = Out::Cex(asg_from_sat(ex)),
            R::Unknown => {
                hard.push(i);
                fails += 1;
            }
        }
    }
    let mut cur: Vec<Lit> = hard.iter().map(|&i| bads[i]).collect();
    let mut budget = 300i64;
    let mut round = 0;
    while !hard.is_empty() && Instant::now() < deadline && round < 6 {
        ex.sat.reset();
        cur = sweep::sweep(&mut ex.g, &mut ex.sat, &cur, budget, deadline, &mut st);
        let mut nh = vec![];
        let mut nc = vec![];
        let lim = [20_000i64, 50_000, 200_000, 1_000_000, 5_000_000, 20_000_000][round];
        for (k, &i) in hard.iter().enumerate() {
            if Instant::now() > deadline {
                nh.push(i);
                nc.push(cur[k]);
                continue;
            }
            if ex.sat.size() > 600_000 {
                ex.sat.reset();
            }
            match ex.sat.solve(&ex.g, &[cur[k]], lim) {
                R::Unsat => res[i] = Out::Proven,
                R::Sat => res[i] = Out::Cex(asg_from_sat(ex)),
                R::Unknown => {
                    nh.push(i);
                    nc.push(cur[k]);
                }
            }
        }
        hard = nh;
        cur = nc;
        budget *= 5;
        round += 1;
    }
    // what is still undecided is decided within randomly chosen sub-cubes of the input space
    if narrow > 0.0 && !hard.is_empty() {
        let end = Instant::now() + Duration::from_secs_f64(narrow);
        let ninp = ex.g.inputs.len();
        let mut rng = 0x9e3779b97f4a7c15u64 ^ (ninp as u64) << 32 ^ ex.seed;
        let mut rnd = move || {
            rng ^= rng << 13;
            rng ^= rng >> 7;
            rng ^= rng << 17;
            rng.wrapping_mul(0x2545F4914F6CDD1D) >> 17
        };
        let inputs = ex.g.inputs.clone();
        let mut cnt = vec![0u64; hard.len()];
        let mut round = 0;
        'o: while round < 16 {
            let keep = [48u64, 32, 24, 40][round % 4];
            let cube: Vec<Lit> = inputs.iter().filter_map(|&n| if rnd() % (ninp as u64).max(1) < keep { None } else { Some((n << 1) ^ (rnd() & 1) as Lit) }).collect();
            if ex.sat.size() > 600_000 {
                ex.sat.reset();
            }
            for k in 0..hard.len() {
                if Instant::now() > end {
                    break 'o;
                }
                if matches!(res[hard[k]], Out::Cex(_)) {
                    continue;
                }
                let mut a = cube.clone();
                a.push(cur[k]);
                match ex.sat.solve(&ex.g, &a, 20_000) {
                    R::Unsat => cnt[k] += 1,
                    R::Sat => res[hard[k]] = Out::Cex(asg_from_sat(ex)),
                    R::Unknown => {}
                }
            }
            round += 1;
        }
        for k in 0..hard.len() {
            if cnt[k] >= 2 && matches!(res[hard[k]], Out::Unknown) {
                res[hard[k]] = Out::Narrowed(cnt[k]);
            }
        }
    }
    for (i, j) in alias {
        res[i] = match &res[j] {
            Out::Proven => Out::Proven,
            Out::Unknown => Out::Unknown,
            Out::Narrowed(n) => Out::Narrowed(*n),
            Out::Cex(a) => Out::Cex(a.clone()),
        };
    }
    // sanity: a counterexample must really set the bad literal
    for (i, r) in res.iter_mut().enumerate() {
        if let Out::Cex(a) = r {
            let a2 = a.clone();
            let v = ex.g.eval(&[bads[i]], &|k| a2.get(k as usize).copied().unwrap_or(false));
            if !v[0] {
                *r = Out::Unknown;
            }
        }
    }
    (res, triv, st)
}

/// independently re-discharge up to `n` original (unswept) obligations with z3
fn smt_cross(ex: &Ex, n: usize, deadline: Instant) -> (u64, u64, f64) {
    let mut r = (0, 0, 0.0);
    let obs: Vec<Lit> = ex.obs.iter().map(|o| o.bad).filter(|&l| l > 1).collect();
    if obs.is_empty() {
        return r;
    }
    let step = (obs.len() / n).max(1);
    for k in 0..n {
        let i = k * step;
        if i >= obs.len() || Instant::now() > deadline {
            break;
        }
        let s = sat::to_smt2(&ex.g, &[obs[i]]);
        let t = Instant::now();
        let ch = std::process::Command::new("z3")
            .args(["-in", "-smt2", "-T:20"])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn();
        if let Ok(mut c) = ch {
            let _ = c.stdin.take().unwrap().write_all(s.as_bytes());
            if let Ok(out) = c.wait_with_output() {
                let o = String::from_utf8_lossy(&out.stdout);
                r.0 += 1;
                r.2 += t.elapsed().as_secs_f64();
                if o.trim() == "unsat" {
                    r.1 += 1;
                } else if o.trim() == "sat" {
                    // disagreement is reported by the caller through counts
                    r.0 += 1_000_000;
                }
            }
        }
    }
    r
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn write_replay(o: &Opts, c: &mut Cex) {
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let s = format!(
        "harness {}\nparams {}\ncases {}\n{}",
        c.job.harness,
        c.job.params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
        c.job.cases.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
        c.inputs.iter().map(|b| format!("bytes {}\n", hex(b))).collect::<String>()
    );
    let h = s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    c.file = format!("{}/{}-{:08x}.replay", o.replay_dir, o.prop, h as u32);
    let _ = std::fs::write(&c.file, s);
}

fn replay(o: &Opts, c: &Cex) -> (bool, String) {
    if o.replay_bin.is_empty() {
        return (false, "no replay binary".into());
    }
    let out = std::process::Command::new("timeout").arg("60").arg(&o.replay_bin).arg(&c.file).output();
    match out {
        Ok(x) => {
            let code = x.status.code().unwrap_or(-1);
            let e = String::from_utf8_lossy(&x.stderr).to_string();
            let last = e.lines().filter(|l| !l.trim().is_empty() && !l.contains("RUST_BACKTRACE")).take(3).collect::<Vec<_>>().join(" | ");
            // 3: check failed, 101: panic, others (signals, OOM) count as reproduced crash; 0/77 = fine / skipped
            (code != 0 && code != 77 && code != 76, format!("exit {} {}", code, last))
        }
        Err(e) => (false, format!("{}", e)),
    }
}

/// the witness must natively satisfy the cover condition and every check
fn native_cover(o: &Opts, c: &Cex) -> (bool, String) {
    if o.replay_bin.is_empty() {
        return (true, String::new());
    }
    match std::process::Command::new("timeout").arg("60").arg(&o.replay_bin).arg(&c.file).output() {
        Ok(x) => {
            let e = String::from_utf8_lossy(&x.stderr).to_string();
            let hit = e.lines().any(|l| l == format!("COVER {}", c.code));
            (x.status.code() == Some(0) && hit, format!("exit {:?} {}", x.status.code(), e.lines().take(3).collect::<Vec<_>>().join(" | ")))
        }
        Err(e) => (false, format!("{}", e)),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn report(o: &Opts, t: &Totals, wall: f64, prog: &Prog) -> i32 {
    let mut code = 0;
    let mut s = String::from("{\n");
    let rep: Vec<&Cex> = t.cexs.iter().filter(|c| c.reproduced).collect();
    let nonrep: Vec<&Cex> = t.cexs.iter().filter(|c| !c.reproduced).collect();
    if !rep.is_empty() {
        code = 1;
    } else if !nonrep.is_empty() || !t.errors.is_empty() || t.cases == 0 {
        code = 2;
    }
    let uncovered: Vec<String> = t.covers.iter().filter(|(_, v)| !**v).map(|((h, c), _)| format!("{}#{}", h, c)).collect();
    if code == 0 && t.skipped == 0 && !uncovered.is_empty() {
        code = 2;
    }
    if t.smt.0 >= 1_000_000 {
        code = 2;
    }
    s.push_str(&format!(
        "\"exit\": {}, \"cases\": {}, \"steps\": {}, \"forks\": {}, \"aig_nodes\": {}, \"obligations\": {}, \"proven\": {}, \"proven_structurally\": {}, \"undecided\": {},\n",
        code, t.cases, t.steps, t.forks, t.nodes, t.obligations, t.proven, t.trivially, t.unknown
    ));
    s.push_str(&format!(
        "\"queries\": {}, \"queries_unsat\": {}, \"queries_sat\": {}, \"queries_unknown\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"exec_s\": {:.3}, \"discharge_s\": {:.3}, \"wall_s\": {:.3}, \"max_symbolic_bits\": {},\n",
        t.sat.queries, t.sat.unsat, t.sat.sat, t.sat.unknown, t.sat.secs, t.sat.max_secs, t.exec_s, t.solve_s, wall, t.inputs_max
    ));
    s.push_str(&format!(
        "\"sweep_merged\": {}, \"sweep_refinements\": {}, \"sweep_unknown\": {}, \"sweep_cone\": {}, \"infeasible_branches_pruned_by_solver\": {}, \"smt_cross_queries\": {}, \"smt_cross_unsat\": {}, \"smt_cross_s\": {:.3},\n",
        t.swept.0, t.swept.1, t.swept.2, t.swept.3, t.dead, t.smt.0, t.smt.1, t.smt.2
    ));
    s.push_str(&format!(
        "\"assertion_bits_equal_by_construction\": {}, \"witnesses_replayed\": {}, \"obligations_narrowed\": {}, \"cubes\": {}, \"witnesses\": [{}],\n",
        t.struct_eq,
        t.witness_ok,
        t.narrowed,
        t.cubes,
        t.witnesses.iter().map(|w| format!("\"{}\"", esc(w))).collect::<Vec<_>>().join(",\n ")
    ));
    s.push_str(&format!("\"longest_case\": \"{}\", \"longest_case_s\": {:.2},\n", esc(&t.longest.1), t.longest.0));
    s.push_str(&format!(
        "\"covers\": {{{}}},\n",
        t.covers.iter().map(|((h, c), v)| format!("\"{}#{}\": {}", h, c, v)).collect::<Vec<_>>().join(", ")
    ));
    let mut fl: Vec<String> = vec![];
    for (n, k) in &t.funcs {
        let h = prog.m.fidx.get(n).map(|&f| prog.m.funcs[f].hash).unwrap_or(0);
        let nb = prog.m.fidx.get(n).map(|&f| prog.m.funcs[f].blocks.iter().map(|b| b.ins.len() + b.phis.len() + 1).sum::<usize>()).unwrap_or(0);
        fl.push(format!("{{\"name\": \"{}\", \"calls\": {}, \"ir_instructions\": {}, \"ir_hash\": \"{:016x}\"}}", esc(&short(n)), k, nb, h));
    }
    s.push_str(&format!("\"functions\": [{}],\n", fl.join(",\n ")));
    s.push_str(&format!("\"cases_not_explored\": {}, \"notes\": [{}],\n", t.skipped, t.notes.iter().take(20).map(|e| format!("\"{}\"", esc(e))).collect::<Vec<_>>().join(",\n ")));
    s.push_str(&format!("\"errors\": [{}],\n", t.errors.iter().take(20).map(|e| format!("\"{}\"", esc(e))).collect::<Vec<_>>().join(",\n ")));
    s.push_str(&format!(
        "\"counterexamples\": [{}]\n}}\n",
        t.cexs
            .iter()
            .map(|c| format!(
                "{{\"harness\": \"{}\", \"params\": {:?}, \"cases\": {:?}, \"code\": {}, \"what\": \"{}\", \"file\": \"{}\", \"reproduced\": {}, \"native\": \"{}\"}}",
                c.job.harness,
                c.job.params,
                c.job.cases,
                c.code,
                esc(&c.what),
                c.file,
                c.reproduced,
                esc(&c.native)
            ))
            .collect::<Vec<_>>()
            .join(",\n ")
    ));
    if !o.out.is_empty() {
        let _ = std::fs::write(&o.out, &s);
    }
    if o.verbose || o.out.is_empty() {
        eprintln!(
            "exit {} cases {} obligations {} proven {} (struct {}) unknown {} queries {} solver {:.2}s exec {:.2}s wall {:.2}s longest {} {:.2}s cexs {} errors {}",
            code,
            t.cases,
            t.obligations,
            t.proven,
            t.trivially,
            t.unknown,
            t.sat.queries,
            t.sat.secs,
            t.exec_s,
            wall,
            t.longest.1,
            t.longest.0,
            t.cexs.len(),
            t.errors.len()
        );
        for e in t.notes.iter().take(5) {
            eprintln!("  note: {}", e);
        }
        for e in t.errors.iter().take(5) {
            eprintln!("  error: {}", e);
        }
        if !uncovered.is_empty() {
            eprintln!("  uncovered: {:?}", uncovered);
        }
    }
    code
}
