//! Command line driver: symx --ll FILE --jobs FILE --out FILE [--workers N] [--deadline SECS] [--seed N]
//! jobs file: one job per line  name|entry|max_steps|mandatory(0/1)|p0,p1,...
use crate::exec::*;
use crate::ir::*;
use crate::z3;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn arr<T: ToString>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn rec(r: &PathRec, jobs: &[Job]) -> String {
    let (k, m) = match &r.end {
        End::Ok => ("ok", String::new()),
        End::Assume => ("assume", String::new()),
        End::Assert(s) => ("assert", s.clone()),
        End::Panic(s) => ("panic", s.clone()),
        End::Mem(s) => ("mem", s.clone()),
        End::Limit => ("limit", String::new()),
        End::Pruned => ("pruned", String::new()),
        End::Error(s) => ("error", s.clone()),
    };
    let j = &jobs[r.job];
    let obs: Vec<String> = r.obs.iter().map(|(t, v)| format!("[{},{}]", t, arr(v))).collect();
    format!(
        "{{\"job\":{},\"entry\":{},\"params\":{},\"bytes\":\"{}\",\"choices\":{},\"obs\":[{}],\"end\":\"{}\",\"msg\":{},\"where\":{}}}",
        js(&j.name),
        js(&j.entry),
        arr(&j.params),
        hex(&r.bytes),
        arr(&r.choices),
        obs.join(","),
        k,
        js(&m),
        js(&r.where_)
    )
}

fn worker(m: &'static Module, sh: &'static Shared, api: z3::Api, seed: u64) {
    let mut w = Worker::new(m, sh, api, seed);
    loop {
        let item = {
            let mut q = sh.q.lock().unwrap();
            loop {
                if q.done || sh.stop.load(Ordering::SeqCst) {
                    break None;
                }
                if let Some(it) = q.items.pop_front() {
                    break Some(it);
                }
                if q.active.iter().all(|x| *x == 0) {
                    q.done = true;
                    sh.cv.notify_all();
                    break None;
                }
                q.idle += 1;
                sh.want.store(q.idle, Ordering::SeqCst);
                let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap();
                q = g;
                q.idle -= 1;
                let want = q.idle.saturating_sub(q.items.len());
                sh.want.store(want, Ordering::SeqCst);
                if Instant::now() > sh.deadline {
                    sh.stop.store(true, Ordering::SeqCst);
                }
            }
        };
        let item = match item {
            Some(i) => i,
            None => break,
        };
        let j = item.job;
        let stopped0 = sh.stop.load(Ordering::SeqCst);
        w.run_item(item);
        let stopped = stopped0 || sh.stop.load(Ordering::SeqCst);
        let mut q = sh.q.lock().unwrap();
        if !stopped {
            q.active[j] -= 1;
            if q.active[j] == 0 {
                let mut r = sh.res.lock().unwrap();
                r.jobs[j].complete = true;
            }
        }
        sh.cv.notify_all();
    }
    // merge
    let mut r = sh.res.lock().unwrap();
    for (a, b) in r.jobs.iter_mut().zip(&w.st) {
        a.paths += b.paths;
        a.ok += b.ok;
        a.assumed += b.assumed;
        a.pruned += b.pruned;
        a.forks += b.forks;
        a.sym_branches += b.sym_branches;
        a.asserts += b.asserts;
        a.asserts_sym += b.asserts_sym;
        a.instrs += b.instrs;
        a.nviol += b.nviol;
        a.wall += b.wall;
        a.max_depth = a.max_depth.max(b.max_depth);
        a.max_bytes = a.max_bytes.max(b.max_bytes);
        for (k, v) in &b.errors {
            *a.errors.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &b.reached {
            *a.reached.entry(k.clone()).or_insert(0) += v;
        }
        for k in &b.expected {
            a.expected.insert(k.clone());
        }
    }
    let s = &mut r.solver;
    s.z3_queries += w.z3.queries;
    s.z3_sat += w.z3.sat;
    s.z3_unsat += w.z3.unsat;
    s.z3_unknown += w.z3.unknown;
    s.z3_ns += w.z3.time_ns;
    s.z3_max_ns = s.z3_max_ns.max(w.z3.max_ns);
    s.cache_hits += w.ss.cache_hits;
    s.model_hits += w.ss.model_hits;
    s.dom_decisions += w.ss.dom_decisions;
    s.dom_confirmed += w.ss.dom_confirmed;
    for (i, n) in w.fn_calls.iter().enumerate() {
        if *n > 0 {
            *r.fn_calls.entry(i as u32).or_insert(0) += n;
        }
    }
    for (f, b) in &w.cover {
        let c = r.cover.entry(*f).or_insert_with(|| vec![0; b.len()]);
        for (x, y) in c.iter_mut().zip(b) {
            *x |= *y;
        }
    }
    r.samples.extend(w.samples.drain(..));
}

pub fn main() {
    let mut ll = String::new();
    let mut jobs_f = String::new();
    let mut out = String::new();
    let mut nw = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let mut deadline = 600u64;
    let mut seed = 1u64;
    let mut crate_name = String::from("mqtt_protocol_core");
    let mut samples = 6;
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => ll = v,
            "--jobs" => jobs_f = v,
            "--out" => out = v,
            "--workers" => nw = v.parse().unwrap(),
            "--deadline" => deadline = v.parse().unwrap(),
            "--seed" => seed = v.parse().unwrap(),
            "--crate" => crate_name = v,
            "--samples" => samples = v.parse().unwrap(),
            "--lower-all" => {
                // parser self test
                let m = Module::parse(&ll);
                let mut bad = 0;
                for i in 0..m.fns.len() {
                    if let Some(f) = m.func(i as u32) {
                        for x in &f.code {
                            if let Inst::Unsupported(s) = x {
                                bad += 1;
                                println!("UNSUPPORTED {}: {}", m.fns[i].short, s);
                            }
                        }
                    }
                }
                println!("functions {} unsupported instructions {}", m.fns.len(), bad);
                return;
            }
            x => panic!("bad argument {}", x),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m: &'static Module = Box::leak(Box::new(Module::parse(&ll)));
    let mut jobs = vec![];
    for l in std::fs::read_to_string(&jobs_f).unwrap().lines() {
        let p: Vec<&str> = l.split('|').collect();
        if p.len() < 5 {
            continue;
        }
        jobs.push(Job {
            id: jobs.len(),
            name: p[0].into(),
            entry: p[1].into(),
            max_steps: p[2].parse().unwrap(),
            mandatory: p[3] == "1",
            params: p[4].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
        });
    }
    let nj = jobs.len();
    let mut items = VecDeque::new();
    for j in &jobs {
        items.push_back(WorkItem { job: j.id, model: vec![], choices: vec![], follow: 0 });
    }
    let api = z3::load_api();
    let sh: &'static Shared = Box::leak(Box::new(Shared {
        jobs,
        q: Mutex::new(Queue { items, active: vec![1; nj], idle: 0, done: false }),
        cv: Condvar::new(),
        want: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        deadline: t0 + Duration::from_secs(deadline),
        nworkers: nw,
        res: Mutex::new(Results { jobs: vec![JobStats::default(); nj], ..Default::default() }),
        seen: (0..nj).map(|_| Mutex::new(Default::default())).collect(),
        mem_limit_nodes: 6_000_000,
        max_viol: std::env::var("SYMX_STOP_AFTER").ok().and_then(|x| x.parse().ok()).unwrap_or(2000),
        viol_count: AtomicUsize::new(0),
    }));
    let parse_s = t0.elapsed().as_secs_f64();
    let mut hs = vec![];
    for k in 0..nw {
        let s = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(k as u64 * 7919 + 1);
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 29)
                .spawn(move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(m, sh, api, s)));
                    if r.is_err() {
                        eprintln!("FATAL: engine panic");
                        std::process::exit(3);
                    }
                })
                .unwrap(),
        );
    }
    let _ = samples;
    for h in hs {
        h.join().unwrap();
    }
    let r = sh.res.lock().unwrap();
    let mut o = String::from("{\n\"jobs\":[\n");
    for (i, (j, s)) in sh.jobs.iter().zip(&r.jobs).enumerate() {
        let errs: Vec<String> = s.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let rc: Vec<String> = s.reached.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let ex: Vec<String> = s.expected.iter().map(|k| js(k)).collect();
        let _ = write!(
            o,
            "{}{{\"name\":{},\"entry\":{},\"params\":{},\"mandatory\":{},\"complete\":{},\"paths\":{},\"ok\":{},\"assume_ended\":{},\"pruned\":{},\"forks\":{},\"sym_branches\":{},\"asserts\":{},\"asserts_symbolic\":{},\"instrs\":{},\"violations\":{},\"max_depth\":{},\"max_sym_bytes\":{},\"cpu_s\":{:.2},\"errors\":{{{}}},\"reached\":{{{}}},\"expected\":[{}]}}",
            if i > 0 { ",\n" } else { "" },
            js(&j.name), js(&j.entry), arr(&j.params), j.mandatory, s.complete, s.paths, s.ok, s.assumed, s.pruned,
            s.forks, s.sym_branches, s.asserts, s.asserts_sym, s.instrs, s.nviol, s.max_depth, s.max_bytes, s.wall,
            errs.join(","), rc.join(","), ex.join(",")
        );
    }
    let s = &r.solver;
    let _ = write!(
        o,
        "\n],\n\"solver\":{{\"name\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"time_s\":{:.3},\"max_query_s\":{:.3},\"cache_hits\":{},\"model_hits\":{},\"domain_decisions\":{},\"domain_verdicts_confirmed\":{}}},\n",
        js(&z3::Z3::version(&api)), s.z3_queries, s.z3_sat, s.z3_unsat, s.z3_unknown,
        s.z3_ns as f64 / 1e9, s.z3_max_ns as f64 / 1e9, s.cache_hits, s.model_hits, s.dom_decisions, s.dom_confirmed
    );
    let mut fns: Vec<(u32, u64)> = r.fn_calls.iter().map(|(a, b)| (*a, *b)).collect();
    fns.sort();
    let mut names: HashMap<String, u64> = HashMap::new();
    let mut total = 0;
    for (f, n) in &fns {
        let d = &m.fns[*f as usize];
        if d.lines.is_some() {
            total += 1;
            if d.short.contains(&crate_name) {
                *names.entry(d.short.clone()).or_insert(0) += n;
            }
        }
    }
    let mut nv: Vec<_> = names.into_iter().collect();
    nv.sort();
    let mut instr_cov = 0u64;
    let mut blocks = 0u64;
    for (f, c) in &r.cover {
        let d = &m.fns[*f as usize];
        if d.short.contains(&crate_name) {
            blocks += c.iter().map(|x| x.count_ones() as u64).sum::<u64>();
        }
        instr_cov += 1;
    }
    let _ = write!(o, "\"functions_executed\":{},\"functions_with_branches\":{},\"crate_blocks_covered\":{},\n\"crate_functions\":[{}],\n", total, instr_cov, blocks,
        nv.iter().map(|(n, c)| format!("[{},{}]", js(n), c)).collect::<Vec<_>>().join(","));
    let vs: Vec<String> = r.viol.iter().map(|v| rec(v, &sh.jobs)).collect();
    let ss: Vec<String> = r.samples.iter().map(|v| rec(v, &sh.jobs)).collect();
    let _ = write!(o, "\"violations\":[\n{}\n],\n\"samples\":[\n{}\n],\n", vs.join(",\n"), ss.join(",\n"));
    let _ = write!(o, "\"wall_s\":{:.2},\"parse_s\":{:.2},\"workers\":{}\n}}\n", t0.elapsed().as_secs_f64(), parse_s, nw);
    std::fs::write(&out, o).unwrap();
}
