//! symx: symbolic execution of whole-program LLVM IR with z3 as the decider.
//!
//! usage: symx IR JOBS OUTPREFIX [key=value ...]
//! JOBS has one line per job: name entry p0 p1 ...
mod exec;
mod expr;
mod float;
mod ir;
mod solver;

use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: symx IR JOBS OUT [key=value]");
        std::process::exit(3);
    }
    let t0 = Instant::now();
    std::panic::set_hook(Box::new(|_| {}));
    let mut workers = 8u64;
    let mut budget = 600.0f64;
    let mut frontier = 1500usize;
    let mut ex_step = 4_000_000u64;
    let mut max_viol = 3u64;
    let mut sample_every = 40u64;
    let mut max_samples = 4u64;
    let mut seed = 1u64;
    let mut dump: Option<(String, usize, u64)> = None;
    for a in &args[4..] {
        let (k, v) = a.split_once('=').expect("key=value");
        match k {
            "workers" => workers = v.parse().unwrap(),
            "budget" => budget = v.parse().unwrap(),
            "frontier" => frontier = v.parse().unwrap(),
            "steps" => ex_step = v.parse().unwrap(),
            "maxviol" => max_viol = v.parse().unwrap(),
            "sample_every" => sample_every = v.parse().unwrap(),
            "max_samples" => max_samples = v.parse().unwrap(),
            "seed" => seed = v.parse().unwrap(),
            "dump" => {
                let p: Vec<&str> = v.split(',').collect();
                dump = Some((p[0].to_string(), p[1].parse().unwrap(), p[2].parse().unwrap()));
            }
            _ => panic!("option {}", k),
        }
    }
    let m = match std::panic::catch_unwind(|| ir::Module::load(&args[1])) {
        Ok(m) => m,
        Err(_) => {
            eprintln!("symx: cannot load {}", args[1]);
            std::process::exit(3);
        }
    };
    let mut jobs = vec![];
    for l in std::fs::read_to_string(&args[2]).expect("jobs").lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() < 2 {
            continue;
        }
        jobs.push(Job {
            name: p[0].to_string(),
            entry: p[1].to_string(),
            params: p[2..].iter().map(|x| x.parse().unwrap()).collect(),
        });
    }
    let mut ex = Exec::new(m, jobs);
    ex.step_limit = ex_step;
    ex.max_viol = max_viol;
    ex.sample_every = sample_every.max(1);
    ex.max_samples = max_samples;
    ex.seed = seed;
    ex.s.dump = dump;
    for j in 0..ex.jobs.len() as u32 {
        let s = ex.init_state(j);
        ex.work.push_back(s);
    }
    // breadth-first until there is enough to share out
    let target = if workers > 1 { frontier } else { 0 };
    ex.stop_on_fork = true;
    let bfs = Instant::now();
    let mut stop_all = false;
    while ex.work.len() < target && !stop_all {
        let mut st = match ex.work.pop_front() {
            Some(s) => s,
            None => break,
        };
        match ex.run(&mut st) {
            Stop::Yield => ex.work.push_back(st),
            s => {
                if !ex.finish(&mut st, s) {
                    stop_all = true;
                }
            }
        }
        if bfs.elapsed().as_secs_f64() > 2.0 && ex.work.len() >= 2 {
            break;
        }
    }
    ex.stop_on_fork = false;
    let states: Vec<State> = if stop_all { vec![] } else { ex.work.drain(..).collect() };
    ex.work.clear();
    let mut reports = vec![report(&ex, 0, &t0)];
    let base = args[3].clone();
    if !states.is_empty() {
        // orphaned workers come back here
        unsafe { prctl(36, 1, 0, 0, 0) };
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
        // next queued state; stop; idle processors; next worker number
        let word = |i: usize| -> &AtomicU64 { unsafe { &*(shared.add(64 * i) as *const AtomicU64) } };
        let (ctr, stopf, idle, ids) = (word(0), word(1), word(2), word(3));
        let nw = workers.max(1).min(states.len() as u64);
        idle.store(workers.max(1) - nw, Ordering::SeqCst);
        ids.store(nw + 1, Ordering::SeqCst);
        for k in 0..nw {
            let pid = unsafe { fork() };
            if pid < 0 {
                eprintln!("symx: fork failed");
                std::process::exit(3);
            }
            if pid != 0 {
                continue;
            }
            let mut id = k + 1;
            fresh(&mut ex);
            let mut stopped = false;
            let mut shared_at = Instant::now();
            'outer: loop {
                if ex.work.is_empty() {
                    let i = ctr.fetch_add(1, Ordering::SeqCst) as usize;
                    if i >= states.len() {
                        break;
                    }
                    ex.work.push_back(states[i].clone());
                }
                while let Some(mut st) = ex.work.pop_back() {
                    if stopped || stopf.load(Ordering::Relaxed) != 0 || t0.elapsed().as_secs_f64() > budget {
                        ex.stats[st.job as usize].incomplete += 1;
                        stopped = true;
                        continue;
                    }
                    let s = ex.run(&mut st);
                    if !ex.finish(&mut st, s) {
                        stopf.store(1, Ordering::Relaxed);
                        stopped = true;
                        continue 'outer;
                    }
                    // a processor is idle and nothing is queued: give it half
                    // of what is left here, the part nearest the root
                    if ex.work.len() >= 2
                        && ctr.load(Ordering::Relaxed) as usize >= states.len()
                        && idle.load(Ordering::Relaxed) > 0
                        && shared_at.elapsed().as_millis() >= 50
                    {
                        shared_at = Instant::now();
                        if idle.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |v| v.checked_sub(1)).is_err() {
                            continue;
                        }
                        let nid = ids.fetch_add(1, Ordering::SeqCst);
                        let half = ex.work.len() / 2;
                        let pid = unsafe { fork() };
                        if pid == 0 {
                            id = nid;
                            ex.work.truncate(half);
                            fresh(&mut ex);
                        } else if pid > 0 {
                            ex.work.drain(..half);
                        } else {
                            idle.fetch_add(1, Ordering::SeqCst);
                            // the number stays unused
                            std::fs::write(format!("{}.{}", base, nid), "").unwrap();
                        }
                    }
                }
            }
            let r = report(&ex, id, &t0);
            std::fs::write(format!("{}.{}", base, id), r).unwrap();
            idle.fetch_add(1, Ordering::SeqCst);
            unsafe { _exit(0) };
        }
        let mut bad = false;
        loop {
            let mut s = 0;
            let p = unsafe { waitpid(-1, &mut s, 0) };
            if p < 0 {
                break;
            }
            if s != 0 {
                bad = true;
                // whatever it still had to do is not done
                stopf.store(1, Ordering::SeqCst);
            }
        }
        if bad {
            eprintln!("symx: a worker died");
            std::process::exit(3);
        }
        for k in 1..ids.load(Ordering::SeqCst) {
            let f = format!("{}.{}", base, k);
            reports.push(std::fs::read_to_string(&f).expect("worker report"));
            let _ = std::fs::remove_file(&f);
        }
    }
    let mut f = std::fs::File::create(&base).unwrap();
    for r in reports {
        f.write_all(r.as_bytes()).unwrap();
    }
    writeln!(f, "wall\t{:.3}", t0.elapsed().as_secs_f64()).unwrap();
}

/// Fresh counters for a worker; the caches are inherited.
fn fresh(ex: &mut Exec) {
    for s in ex.stats.iter_mut() {
        let n = s.samples;
        *s = JobStat::default();
        s.samples = n;
    }
    ex.s.stats = Default::default();
    ex.out.clear();
    ex.instrs = 0;
}

fn report(ex: &Exec, worker: u64, t0: &Instant) -> String {
    let mut o = String::new();
    for (j, s) in ex.stats.iter().enumerate() {
        let n = &ex.jobs[j].name;
        o += &format!(
            "job\t{}\tpaths={}\tpruned={}\tforks={}\tsteps={}\tbranches={}\tviols={}\terrors={}\tincomplete={}\tmaxvars={}\tmaxsteps={}\n",
            n, s.paths, s.pruned, s.forks, s.steps, s.branches, s.viols, s.errors, s.incomplete, s.maxvars, s.maxsteps
        );
        for c in &s.covers {
            o += &format!("cover\t{}\t{}\n", n, c);
        }
        for (k, c) in &s.known {
            o += &format!("knowncount\t{}\t{}\t{}\n", n, k, c);
        }
    }
    for l in &ex.out {
        o += l;
        o.push('\n');
    }
    for (i, v) in ex.visited.iter().enumerate() {
        if *v {
            o += &format!("fn\t{}\n", ex.m.fns[i].pretty);
        }
    }
    let s = &ex.s.stats;
    o += &format!(
        "solver\t{}\tz3_sat={}\tz3_unsat={}\tcache_hits={}\tmodel_hits={}\tz3_ms={}\tinstrs={}\texprs={}\tt_ms={}\n",
        worker,
        s.z3_sat,
        s.z3_unsat,
        s.cache_hits,
        s.model_hits,
        s.z3_ns / 1_000_000,
        ex.instrs,
        ex.e.nodes.len(),
        t0.elapsed().as_millis()
    );
    o
}
