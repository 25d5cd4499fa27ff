mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::collections::HashMap;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn dump(r: &Results, wall: f64) -> String {
    let mut o = String::from("{");
    o.push_str(&format!(
        "\"paths\":{},\"assumed\":{},\"checks\":{},\"proved\":{},\"steps\":{},\"forks\":{},\"max_path_condition\":{},\"float_undecided\":{},\"vars\":{},\"wall\":{:.3},",
        r.paths, r.assumed, r.checks, r.proved, r.steps, r.forks, r.maxforks, r.float_undecided, r.vars, wall
    ));
    o.push_str(&format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"linear\":{},\"solver_time\":{:.3},\"max_query\":{:.3},",
        r.stats.queries, r.stats.sat, r.stats.unsat, r.stats.unknown, r.stats.cached, r.stats.linear, r.stats.time, r.stats.maxq
    ));
    let map = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    o.push_str(&format!("\"incomplete\":{{{}}},\"reach\":{{{}}},", map(&r.incomplete), map(&r.reach)));
    let mut f: Vec<&String> = r.funcs.iter().collect();
    f.sort();
    o.push_str(&format!("\"functions\":[{}],", f.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    let inp = |i: &Vec<(String, u64)>| i.iter().map(|(n, k)| format!("[{},{}]", js(n), k)).collect::<Vec<_>>().join(",");
    o.push_str(&format!("\"done\":{},\"samples\":[{}],", r.done, r.samples.iter().map(|i| format!("[{}]", inp(i))).collect::<Vec<_>>().join(",")));
    let v: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"site\":{},\"stack\":[{}],\"inputs\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                js(&v.site),
                v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                v.inputs.iter().map(|(n, k)| format!("[{},{}]", js(n), k)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    o.push_str(&format!("\"violations\":[{}]}}", v.join(",\n")));
    o
}

fn main() {
    let mut a = std::env::args().skip(1);
    let (mut irp, mut entry, mut out, mut jobs, mut secs, mut qms) = (String::new(), String::new(), String::new(), 1usize, 600f64, 20000u32);
    let mut params: HashMap<String, u64> = HashMap::new();
    let mut verbose = false;
    let mut max_steps = 200_000_000u64;
    let mut max_depth = 20000usize;
    let mut max_viol = 2usize;
    let mut max_paths = u64::MAX;
    while let Some(x) = a.next() {
        match x.as_str() {
            "--entry" => entry = a.next().unwrap(),
            "--out" => out = a.next().unwrap(),
            "--jobs" => jobs = a.next().unwrap().parse().unwrap(),
            "--secs" => secs = a.next().unwrap().parse().unwrap(),
            "--query-ms" => qms = a.next().unwrap().parse().unwrap(),
            "--max-steps" => max_steps = a.next().unwrap().parse().unwrap(),
            "--max-depth" => max_depth = a.next().unwrap().parse().unwrap(),
            "--max-viol" => max_viol = a.next().unwrap().parse().unwrap(),
            "--max-paths" => max_paths = a.next().unwrap().parse().unwrap(),
            "--param" => {
                let p = a.next().unwrap();
                let (k, v) = p.split_once('=').unwrap();
                params.insert(k.to_string(), v.parse().unwrap());
            }
            "-v" => verbose = true,
            "--version" => {
                println!("{}", solver::Solver::version());
                return;
            }
            _ => irp = x,
        }
    }
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&irp)));
    if entry.is_empty() {
        // parse everything (self check of the front end)
        let mut n = 0;
        for i in 0..m.funcs.len() {
            if let Some(f) = m.func(i as u32) {
                n += f.code.len();
            }
        }
        println!("functions {} instructions {} in {:?}", m.funcs.len(), n, t0.elapsed());
        return;
    }
    let cfg = Config {
        jobs,
        deadline: t0 + Duration::from_secs_f64(secs),
        max_steps,
        max_depth,
        stack_bytes: 8 << 20,
        params,
        verbose,
        max_viol,
        max_paths,
    };
    let mut ex = Exec::new(m, cfg, qms);
    ex.start(&entry);
    if jobs > 1 {
        ex.bfs = true;
        while ex.work.len() < jobs * 24 && !ex.over() {
            match ex.next() {
                Some(s) => ex.run(s),
                None => break,
            }
        }
        ex.bfs = false;
    }
    if jobs > 1 && ex.work.len() > 1 {
        // share the frontier between forked workers
        let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize };
        let ctr = unsafe { &*ctr };
        let frontier: Vec<State> = ex.work.drain(..).collect();
        let mut pids = vec![];
        for j in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                let before = ex.s.stats.clone();
                ex.res = Results::default();
                loop {
                    let i = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= frontier.len() {
                        break;
                    }
                    if ex.over() {
                        ex.incomplete("time limit");
                        continue;
                    }
                    let mut s = frontier[i].clone();
                    reset(&mut s);
                    ex.work.push_back(s);
                    drain(&mut ex);
                }
                ex.finish();
                ex.res.stats.queries -= before.queries;
                ex.res.stats.sat -= before.sat;
                ex.res.stats.unsat -= before.unsat;
                ex.res.stats.unknown -= before.unknown;
                ex.res.stats.cached -= before.cached;
                ex.res.stats.linear -= before.linear;
                ex.res.stats.time -= before.time;
                std::fs::write(format!("{}.{}", out, j), dump(&ex.res, t0.elapsed().as_secs_f64())).unwrap();
                unsafe { _exit(0) };
            }
            pids.push(pid);
        }
        let mut bad = 0;
        for (j, p) in pids.iter().enumerate() {
            let mut st = 0;
            unsafe { waitpid(*p, &mut st, 0) };
            if st != 0 {
                bad += 1;
                let _ = std::fs::remove_file(format!("{}.{}", out, j));
            }
        }
        if bad > 0 {
            *ex.res.incomplete.entry("worker died".into()).or_insert(0) += bad;
        }
    } else {
        drain(&mut ex);
    }
    ex.finish();
    let d = dump(&ex.res, t0.elapsed().as_secs_f64());
    if out.is_empty() {
        if verbose {
            let mut p: Vec<_> = ex.prof.iter().collect();
            p.sort_by(|a, b| b.1.cmp(a.1));
            for (n, k) in p.iter().take(25) {
                eprintln!("{:8} {}", k, n);
            }
        }
        ex.res.funcs.clear();
        println!("{}", dump(&ex.res, t0.elapsed().as_secs_f64()));
    } else {
        std::fs::write(out, d).unwrap();
    }
}

fn drain(ex: &mut Exec) {
    while let Some(s) = ex.next() {
        if ex.over() || ex.res.paths >= ex.cfg.max_paths {
            let n = ex.work.len() as u64 + 1;
            *ex.res.incomplete.entry("time limit".into()).or_insert(0) += n;
            ex.work.clear();
            return;
        }
        ex.run(s);
    }
}
fn reset(s: &mut State) {
    s.reset();
}
