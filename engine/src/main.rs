//! symx: bounded symbolic execution of LLVM IR with Z3.
//!
//! usage: symx IR JOBFILE OUTDIR [--procs N] [--deadline SECONDS] [--samples N] [--max-steps N]
//! Each line of JOBFILE: ENTRY PARAM. Every process writes one JSON result file into OUTDIR.

mod exec;
mod expr;
mod ir;
mod mem;
mod sep;
mod z3;

use exec::*;
use std::fmt::Write as _;
use std::os::raw::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> c_int;
    fn _exit(c: c_int) -> !;
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    fn signal(n: c_int, h: usize) -> usize;
    fn kill(p: c_int, s: c_int) -> c_int;
    fn getpid() -> c_int;
}

const SLOTS: usize = 64;
const MAXJOBS: usize = 4096;
const NAPS: usize = 96;

#[repr(C)]
struct Shared {
    slots: [AtomicI32; SLOTS],
    jobs: [AtomicI32; SLOTS],
    viol: [AtomicU32; MAXJOBS],
    open: [AtomicU32; MAXJOBS],
    finished_ms: [AtomicU32; MAXJOBS],
    /// when the first violation was found, in milliseconds
    stop: AtomicU32,
    /// processes that gave their slot back for the first pass over the jobs: pid and job
    naps: [AtomicI32; NAPS],
    napjobs: [AtomicI32; NAPS],
    /// every job was started
    all: AtomicU32,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

struct Ctl {
    sh: &'static Shared,
    procs: usize,
    slot: usize,
    job: usize,
    deadline: Instant,
    start: Instant,
    viol_limit: u32,
    slice: Duration,
    began: Instant,
    t0: Instant,
}

impl Ctl {
    /// The deadline passed, or a violation was found a while ago.
    fn late(&self) -> bool {
        let f = self.sh.stop.load(SeqCst);
        Instant::now() > self.deadline || f != 0 && self.t0.elapsed().as_millis() as u32 > f + 90_000
    }
    /// A process that used up its slice waits until every job had its turn.
    fn nap(&mut self) {
        if self.sh.all.load(SeqCst) != 0 || self.began.elapsed() < self.slice {
            return;
        }
        let pid = unsafe { getpid() };
        let n = match (0..NAPS).find(|&i| self.sh.naps[i].compare_exchange(0, pid, SeqCst, SeqCst).is_ok()) {
            Some(n) => n,
            None => {
                self.began = Instant::now();
                return;
            }
        };
        self.sh.napjobs[n].store(self.job as i32, SeqCst);
        self.sh.slots[self.slot].store(0, SeqCst);
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let late = self.late();
            if self.sh.all.load(SeqCst) == 0 && !late {
                continue;
            }
            if let Some(s) = self.acquire() {
                self.slot = s;
                break;
            }
        }
        self.sh.jobs[self.slot].store(self.job as i32, SeqCst);
        self.sh.slots[self.slot].store(pid, SeqCst);
        self.sh.naps[n].store(0, SeqCst);
    }

    fn acquire(&self) -> Option<usize> {
        for i in 0..self.procs {
            if self.sh.slots[i].compare_exchange(0, -1, SeqCst, SeqCst).is_ok() {
                return Some(i);
            }
        }
        None
    }
}

fn write_result(en: &Engine, out: &str, jobname: &str, ctl: &Ctl, timed_out: bool) {
    let s = &en.st;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"job\":{},\"param\":{},\"paths\":{},\"infeasible\":{},\"decisions\":{},\"forks\":{},\"steps\":{},\"asserts_folded\":{},\"asserts_solved\":{},\"domain_decisions\":{},\"cache_hits\":{},\"z3_queries\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"z3_s\":{:.3},\"max_depth\":{},\"max_path_steps\":{},\"max_sym\":{},\"timed_out\":{},",
        esc(jobname), en.param, s.paths, s.infeasible, s.decisions, s.forks, s.steps, s.asserts_folded, s.asserts_solved,
        s.solver_domain, s.cache_hits, en.z3.queries, en.z3.sat, en.z3.unsat, en.z3.unknown, en.z3.nanos as f64 / 1e9,
        s.max_depth, s.max_path_steps, s.max_sym, timed_out
    );
    let _ = write!(o, "\"wall_s\":{:.3},", ctl.start.elapsed().as_secs_f64());
    o.push_str("\"covers\":{");
    o.push_str(&s.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"violations\":[");
    o.push_str(
        &s.violations
            .iter()
            .map(|(k, m, b, _)| format!("{{\"kind\":{},\"msg\":{},\"input\":\"{}\"}}", esc(k), esc(m), hex(b)))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"errors\":[");
    o.push_str(&s.errors.iter().map(|e| esc(e)).collect::<Vec<_>>().join(","));
    o.push_str("],\"unsupported\":[");
    o.push_str(
        &s.unsupported.iter().map(|(m, b)| format!("{{\"msg\":{},\"input\":\"{}\"}}", esc(m), hex(b))).collect::<Vec<_>>().join(","),
    );
    o.push_str("],\"samples\":[");
    o.push_str(
        &s.samples
            .iter()
            .map(|(b, e)| {
                format!(
                    "{{\"input\":\"{}\",\"emits\":[{}]}}",
                    hex(b),
                    e.iter().map(|x| format!("\"{:x}\"", *x as u64)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"funcs\":[");
    o.push_str(
        &s.funcs
            .iter()
            .map(|f| esc(&en.m.funcs[*f as usize].name))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("]}\n");
    let pid = unsafe { getpid() };
    std::fs::write(format!("{}/r{}.{}.{}.json", out, ctl.job, ctl.slot, pid), o).unwrap();
}

fn explore(en: &mut Engine, ctl: &mut Ctl, out: &str, jobname: &str) {
    let mut timed_out = false;
    loop {
        if ctl.sh.viol[ctl.job].load(SeqCst) >= ctl.viol_limit {
            en.work.clear();
        }
        if ctl.late() {
            timed_out = true;
            en.work.clear();
        }
        if en.work.is_empty() {
            break;
        }
        ctl.nap();
        let s = en.work.pop().unwrap();
        let before = en.st.violations.len();
        let mut expired = false;
        {
            let c: &mut Ctl = ctl;
            let mut poll = |en: &mut Engine| {
                if c.late() {
                    expired = true;
                    en.paused = true;
                }
                split(en, c);
            };
            en.run(s, &mut poll);
            en.paused = false;
        }
        if expired {
            timed_out = true;
            en.work.clear();
            break;
        }
        let d = en.st.violations.len().saturating_sub(before);
        if d > 0 {
            ctl.sh.viol[ctl.job].fetch_add(d as u32, SeqCst);
            let _ = ctl.sh.stop.compare_exchange(0, ctl.t0.elapsed().as_millis() as u32 + 1, SeqCst, SeqCst);
        }
        split(en, ctl);
        en.paused = false;
    }
    write_result(en, out, jobname, ctl, timed_out);
    ctl.sh.slots[ctl.slot].store(0, SeqCst);
}

/// Give half of the pending states to a new process when a slot is free.
fn split(en: &mut Engine, ctl: &mut Ctl) {
    if en.work.len() < 2 {
        return;
    }
    let slot = match ctl.acquire() {
        Some(s) => s,
        None => return,
    };
    ctl.sh.jobs[slot].store(ctl.job as i32, SeqCst);
    let pid = unsafe { fork() };
    if pid < 0 {
        ctl.sh.slots[slot].store(0, SeqCst);
        return;
    }
    // Alternate states between the two processes.
    let all = std::mem::take(&mut en.work);
    let keep = if pid == 0 { 1 } else { 0 };
    en.work = all.into_iter().enumerate().filter(|(i, _)| i % 2 == keep).map(|x| x.1).collect();
    if pid == 0 {
        ctl.slot = slot;
        ctl.sh.slots[slot].store(unsafe { getpid() }, SeqCst);
        en.st = Stats::default();
        en.z3.queries = 0;
        en.z3.sat = 0;
        en.z3.unsat = 0;
        en.z3.unknown = 0;
        en.z3.nanos = 0;
        ctl.began = Instant::now();
        // The current path (if mid-run) belongs to the parent: the child must abandon it.
        en.paused = true;
    }
}


fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let irf = &args[1];
    let jobf = &args[2];
    let out = args[3].clone();
    let mut procs = 8usize;
    let mut deadline = 600u64;
    let mut samples = 20usize;
    let mut max_steps = 300_000_000u64;
    let mut timeout_ms = 20_000u32;
    let mut viol_limit = 3u32;
    let mut slice = 10u64;
    let mut dump: Option<String> = None;
    let mut i = 4;
    while i < args.len() {
        match args[i].as_str() {
            "--procs" => procs = args[i + 1].parse().unwrap(),
            "--deadline" => deadline = args[i + 1].parse().unwrap(),
            "--samples" => samples = args[i + 1].parse().unwrap(),
            "--max-steps" => max_steps = args[i + 1].parse().unwrap(),
            "--z3-timeout" => timeout_ms = args[i + 1].parse().unwrap(),
            "--violations" => viol_limit = args[i + 1].parse().unwrap(),
            "--slice" => slice = args[i + 1].parse().unwrap(),
            "--dump" => dump = Some(args[i + 1].clone()),
            x => panic!("unknown arg {}", x),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read(irf).unwrap();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(text)));
    eprintln!("loaded {} funcs {} globals in {:?}", m.funcs.len(), m.globals.len(), t0.elapsed());
    let jobs: Vec<(String, u64)> = std::fs::read_to_string(jobf)
        .unwrap()
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let mut it = l.split_whitespace();
            (it.next().unwrap().to_string(), it.next().map(|x| x.parse().unwrap()).unwrap_or(0))
        })
        .collect();
    assert!(jobs.len() <= MAXJOBS);
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        signal(17, 1); // SIGCHLD ignored: children are reaped automatically
        &*(p as *const Shared)
    };
    let procs = procs.min(SLOTS);
    let mut ctl = Ctl {
        sh,
        procs,
        slot: 0,
        job: 0,
        deadline: t0 + Duration::from_secs(deadline),
        start: Instant::now(),
        viol_limit,
        slice: Duration::from_secs(slice),
        began: Instant::now(),
        t0,
    };
    let check_dead = |out: &str| {
        for i in 0..procs {
            let p = sh.slots[i].load(SeqCst);
            if p > 0 && unsafe { kill(p, 0) } != 0 && sh.slots[i].load(SeqCst) == p {
                let j = sh.jobs[i].load(SeqCst);
                eprintln!("process {} (job {}) died", p, j);
                std::fs::write(
                    format!("{}/r{}.dead.{}.json", out, j, p),
                    format!("{{\"job\":{},\"param\":{},\"errors\":[\"engine process died\"]}}\n", esc(&jobs[j as usize].0), jobs[j as usize].1),
                )
                .unwrap();
                sh.slots[i].store(0, SeqCst);
            }
        }
        for i in 0..NAPS {
            let p = sh.naps[i].load(SeqCst);
            if p > 0 && unsafe { kill(p, 0) } != 0 && sh.naps[i].load(SeqCst) == p {
                let j = sh.napjobs[i].load(SeqCst);
                eprintln!("process {} (job {}) died while it waited", p, j);
                std::fs::write(
                    format!("{}/r{}.dead.{}.json", out, j, p),
                    format!("{{\"job\":{},\"param\":{},\"errors\":[\"engine process died\"]}}\n", esc(&jobs[j as usize].0), jobs[j as usize].1),
                )
                .unwrap();
                sh.naps[i].store(0, SeqCst);
            }
        }
    };
    for (ji, (name, param)) in jobs.iter().enumerate() {
        let slot = loop {
            if let Some(s) = ctl.acquire() {
                break s;
            }
            std::thread::sleep(Duration::from_millis(2));
            check_dead(&out);
        };
        sh.jobs[slot].store(ji as i32, SeqCst);
        let pid = unsafe { fork() };
        if pid == 0 {
            sh.slots[slot].store(unsafe { getpid() }, SeqCst);
            ctl.slot = slot;
            ctl.job = ji;
            ctl.start = Instant::now();
            ctl.began = ctl.start;
            let mut z = z3::Z3::new(timeout_ms);
            if let Some(d) = &dump {
                z.dump = Some(std::fs::File::create(format!("{}.{}", d, ji)).unwrap());
            }
            let lim = Limits {
                max_steps,
                max_frames: 20_000,
                max_samples: samples,
                max_violations: 8,
                concretize_limit: 4096,
            };
            let mut en = Engine::new(m, z, lim);
            en.param = *param;
            en.seed = ji as u64 + 1;
            en.hash = if ji % 2 == 0 { 0 } else { u64::MAX };
            en.reuse = ji.count_ones() % 2 == 1;
            match en.start(name) {
                Some(s) => en.work.push(s),
                None => en.st.errors.push(format!("no entry {}", name)),
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| explore(&mut en, &mut ctl, &out, name)));
            if r.is_err() {
                en.st.errors.push("engine panic".into());
                write_result(&en, &out, name, &ctl, false);
                sh.slots[ctl.slot].store(0, SeqCst);
            }
            unsafe { _exit(0) };
        }
    }
    sh.all.store(1, SeqCst);
    loop {
        check_dead(&out);
        // a process leaves its slot after it entered the list of naps, and the list after it took a slot
        if (0..NAPS).all(|i| sh.naps[i].load(SeqCst) == 0) && (0..procs).all(|i| sh.slots[i].load(SeqCst) == 0) {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    eprintln!("total {:?}", t0.elapsed());
}

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(70);
    }
}
