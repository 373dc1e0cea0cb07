//! symir: bounded symbolic execution of LLVM IR with z3 deciding every branch and assertion.
//!
//! usage: symir IR.ll OUTDIR [options] -- JOB [JOB...]
//!   JOB = entry[:param,param,...]
//! Options: --time SECONDS  --procs N  --steps N  --rlimit N  --samples N  --max-viol N
//!          --dump DIR --dump-every N  --prof  --no-stop
//! Every process that takes part writes OUTDIR/part-N.json; the first one also writes
//! OUTDIR/summary.json once all of them have ended.
mod exec;
mod expr;
mod ir;
mod z3;

use exec::{Engine, State, Stop, Viol};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn signal(s: i32, h: usize) -> usize;
}

#[repr(C)]
struct Shared {
    active: AtomicU64,
    started: AtomicU64,
    finished: AtomicU64,
    stop: AtomicU64,
    viols: AtomicU64,
    paths: AtomicU64,
}

struct Opts {
    ir: String,
    out: String,
    time: u64,
    procs: u64,
    steps: u64,
    rlimit: u32,
    samples: usize,
    max_viol: u64,
    dump: Option<String>,
    dump_every: u64,
    prof: bool,
    nostop: bool,
    jobs: Vec<(String, Vec<u64>)>,
}

#[derive(Default)]
struct JobRes {
    paths: u64,
    killed: u64,
    viols: u64,
    steps: u64,
    covers: BTreeMap<u32, u64>,
    cover_inputs: BTreeMap<u32, Vec<(u128, u32)>>,
    samples: Vec<(Vec<(u128, u32)>, Vec<u64>, Vec<u32>)>,
    cons_max: usize,
    sym_max: usize,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs_json(v: &[(u128, u32)]) -> String {
    let x: Vec<String> = v.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
    format!("[{}]", x.join(","))
}

fn main() {
    // deep recursion happens when expressions are translated
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn parse_opts() -> Opts {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Opts {
        ir: String::new(),
        out: String::new(),
        time: 600,
        procs: 8,
        steps: 30_000_000,
        rlimit: 100_000,
        samples: 4,
        max_viol: 20,
        dump: None,
        dump_every: 50,
        prof: false,
        nostop: false,
        jobs: vec![],
    };
    let mut pos = vec![];
    let mut i = 1;
    let mut injobs = false;
    while i < a.len() {
        let s = a[i].as_str();
        if injobs {
            let (n, p) = match s.split_once(':') {
                Some((n, p)) => (n.to_string(), p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("param")).collect()),
                None => (s.to_string(), vec![]),
            };
            o.jobs.push((n, p));
            i += 1;
            continue;
        }
        let mut val = || {
            i += 1;
            a[i].clone()
        };
        match s {
            "--" => injobs = true,
            "--time" => o.time = val().parse().unwrap(),
            "--procs" => o.procs = val().parse().unwrap(),
            "--steps" => o.steps = val().parse().unwrap(),
            "--rlimit" => o.rlimit = val().parse().unwrap(),
            "--samples" => o.samples = val().parse().unwrap(),
            "--max-viol" => o.max_viol = val().parse().unwrap(),
            "--dump" => o.dump = Some(val()),
            "--dump-every" => o.dump_every = val().parse().unwrap(),
            "--prof" => o.prof = true,
            "--no-stop" => o.nostop = true,
            _ => pos.push(s.to_string()),
        }
        i += 1;
    }
    o.ir = pos[0].clone();
    o.out = pos[1].clone();
    o
}

fn real_main() -> i32 {
    let o = parse_opts();
    unsafe {
        signal(13, 1);
    }
    let t0 = Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(&o.ir).expect("read IR").into_boxed_str());
    let m = ir::Module::index(text);
    let _ = std::fs::create_dir_all(&o.out);
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    let mut fds = [0i32; 2];
    unsafe {
        pipe(fds.as_mut_ptr());
    }
    sh.active.store(1, SeqCst);
    sh.started.store(1, SeqCst);
    let mut en = Engine::new(&m, o.rlimit);
    en.max_steps = o.steps;
    en.prof = o.prof;
    en.z.dump_dir = o.dump.clone();
    en.z.dump_every = o.dump_every;
    let mut errs: Vec<(u32, String)> = vec![];
    for (j, (n, p)) in o.jobs.iter().enumerate().rev() {
        match en.initial(n) {
            Ok(mut s) => {
                s.job = j as u32;
                s.params = Rc::new(p.clone());
                en.work.push(s);
            }
            Err(e) => errs.push((j as u32, format!("entry {}: {}", n, e))),
        }
    }
    let mut me = 0u64;
    let mut root = true;
    let mut res: Vec<JobRes> = (0..o.jobs.len()).map(|_| JobRes::default()).collect();
    let mut viols: Vec<(u32, Viol)> = vec![];
    let mut knowncount: BTreeMap<(u32, u32), u64> = BTreeMap::new();
    let deadline = t0 + Duration::from_secs(o.time);
    en.deadline = deadline;
    let mut forks_tried = Instant::now();
    let mut left = 0usize;
    while let Some(mut st) = en.work.pop() {
        if sh.stop.load(SeqCst) != 0 && !o.nostop {
            left += en.work.len() + 1;
            break;
        }
        if Instant::now() > deadline {
            left += en.work.len() + 1;
            let job = st.job;
            errs.push((job, format!("time limit of {} s reached with at least {} states unexplored", o.time, left)));
            sh.stop.store(2, SeqCst);
            break;
        }
        let s0 = st.steps;
        // what is long by design may take ten times as long
        en.max_steps = o.steps * if o.jobs[st.job as usize].0.ends_with("_large") { 10 } else { 1 };
        let r = en.run(&mut st);
        let j = st.job as usize;
        let jr = &mut res[j];
        jr.steps += st.steps - s0;
        jr.cons_max = jr.cons_max.max(st.cons.len());
        jr.sym_max = jr.sym_max.max(st.inputs.iter().filter(|x| matches!(x.0, exec::Val::S(_))).count());
        match r {
            Stop::Done => {
                jr.paths += 1;
                en.stats.paths += 1;
                let n = jr.paths;
                let newcover = st.covers.iter().any(|c| !jr.covers.contains_key(c));
                for c in &st.covers {
                    *jr.covers.entry(*c).or_insert(0) += 1;
                }
                if jr.samples.len() < o.samples && (n.is_power_of_two() || newcover) {
                    let v = en.make_viol(&st, String::new(), 0, String::new());
                    for c in &st.covers {
                        jr.cover_inputs.entry(*c).or_insert_with(|| v.inputs.clone());
                    }
                    jr.samples.push((v.inputs, en.eval_obs(&st), st.covers.clone()));
                }
            }
            Stop::Kill => {
                jr.killed += 1;
                en.stats.killed += 1;
            }
            Stop::Viol(k, c, l) => {
                jr.viols += 1;
                let v = en.make_viol(&st, k, c, l);
                if v.known.is_empty() {
                    let n = sh.viols.fetch_add(1, SeqCst) + 1;
                    viols.push((st.job, v));
                    if n >= o.max_viol {
                        sh.stop.store(1, SeqCst);
                    }
                } else {
                    let k = (st.job, v.known[0]);
                    let n = knowncount.entry(k).or_insert(0);
                    *n += 1;
                    if *n <= 2 {
                        viols.push((st.job, v));
                    }
                }
            }
            Stop::Err(e) => {
                let v = en.make_viol(&st, String::new(), 0, String::new());
                errs.push((st.job, format!("{} [in {}]", e, v.stack.join(" < "))));
                if errs.len() > 5 {
                    sh.stop.store(3, SeqCst);
                }
            }
        }
        // hand half of the open states to a new process when there is room
        if en.work.len() >= 2 && sh.active.load(SeqCst) < o.procs && forks_tried.elapsed() > Duration::from_millis(3) {
            forks_tried = Instant::now();
            let cur = sh.active.load(SeqCst);
            if cur < o.procs && sh.active.compare_exchange(cur, cur + 1, SeqCst, SeqCst).is_ok() {
                let id = sh.started.fetch_add(1, SeqCst);
                let pid = unsafe { fork() };
                if pid == 0 {
                    // child: alternate states so both sides get shallow and deep ones
                    let w = std::mem::take(&mut en.work);
                    en.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect();
                    root = false;
                    me = id;
                    res = (0..o.jobs.len()).map(|_| JobRes::default()).collect();
                    viols.clear();
                    knowncount.clear();
                    errs.clear();
                    en.floats = 0;
                    left = 0;
                    en.stats = Default::default();
                    en.z.reset_stats();
                    en.forksites.clear();
                    unsafe {
                        close(fds[0]);
                    }
                } else if pid > 0 {
                    let w = std::mem::take(&mut en.work);
                    en.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|x| x.1).collect();
                } else {
                    sh.active.fetch_sub(1, SeqCst);
                    sh.started.fetch_sub(1, SeqCst);
                }
            }
        }
    }
    // report
    let mut s = String::new();
    let _ = write!(s, "{{\"jobs\":[");
    let mut first = true;
    for (j, r) in res.iter().enumerate() {
        if r.paths + r.killed + r.viols + r.steps == 0 {
            continue;
        }
        if !first {
            s.push(',');
        }
        first = false;
        let cov: Vec<String> = r.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        let smp: Vec<String> = r
            .samples
            .iter()
            .map(|(i, o, c)| {
                format!(
                    "{{\"inputs\":{},\"obs\":[{}],\"covers\":{:?}}}",
                    inputs_json(i),
                    o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                    c
                )
            })
            .collect();
        let _ = write!(
            s,
            "{{\"job\":{},\"paths\":{},\"killed\":{},\"viols\":{},\"steps\":{},\"cons_max\":{},\"sym_max\":{},\"covers\":{{{}}},\"samples\":[{}]}}",
            j,
            r.paths,
            r.killed,
            r.viols,
            r.steps,
            r.cons_max,
            r.sym_max,
            cov.join(","),
            smp.join(",")
        );
    }
    let _ = write!(s, "],\"violations\":[");
    for (i, (j, v)) in viols.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(
            s,
            "{{\"job\":{},\"kind\":{},\"code\":{},\"loc\":{},\"inputs\":{},\"known\":{:?},\"stack\":[{}]}}",
            j,
            esc(&v.kind),
            v.code,
            esc(&v.loc),
            inputs_json(&v.inputs),
            v.known,
            v.stack.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
        );
    }
    if en.floats > 0 {
        errs.push((0, "floating point arithmetic on symbolic values: followed for single values only".into()));
    }
    let _ = write!(s, "],\"errors\":[");
    for (i, (j, e)) in errs.iter().take(20).enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{{\"job\":{},\"msg\":{}}}", j, esc(e));
    }
    let used: BTreeSet<String> = en.used.iter().map(|x| exec::demangle_v0(x)).collect();
    let z = &en.z;
    let _ = write!(
        s,
        "],\"functions\":[{}],\"stats\":{{\"paths\":{},\"killed\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"sym_asserts\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"second\":{},\"solver_time\":{:.3},\"solver_max\":{:.3},\"cache_hits\":{},\"model_hits\":{},\"left\":{}}}}}",
        used.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
        en.stats.paths,
        en.stats.killed,
        en.stats.forks,
        en.stats.steps,
        en.stats.asserts,
        en.stats.sym_asserts,
        z.queries,
        z.sat,
        z.unsat,
        z.unknown,
        z.second,
        z.time,
        z.max_time,
        en.stats.cache_hits,
        en.stats.model_hits,
        left
    );
    let okw = std::fs::write(format!("{}/part-{}.json", o.out, me), &s).is_ok();
    if o.prof {
        let mut v: Vec<_> = en.forksites.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        let mut t = String::new();
        for (k, n) in v.iter().take(40) {
            let _ = writeln!(t, "{:8} {}", n, k);
        }
        let _ = std::fs::write(format!("{}/prof-{}.txt", o.out, me), t);
    }
    if okw {
        sh.finished.fetch_add(1, SeqCst);
    }
    sh.active.fetch_sub(1, SeqCst);
    if !root {
        unsafe { _exit(0) }
    }
    unsafe {
        close(fds[1]);
        let mut b = 0u8;
        while read(fds[0], &mut b, 1) > 0 {}
    }
    let started = sh.started.load(SeqCst);
    let finished = sh.finished.load(SeqCst);
    let sum = format!(
        "{{\"started\":{},\"finished\":{},\"stop\":{},\"wall\":{:.2},\"solver\":{}}}",
        started,
        finished,
        sh.stop.load(SeqCst),
        t0.elapsed().as_secs_f64(),
        esc(&z3::version())
    );
    let _ = std::fs::write(format!("{}/summary.json", o.out), &sum);
    println!("{}", sum);
    0
}
