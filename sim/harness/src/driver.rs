//! Process model, seeded search, minimisation, replay files and evidence.
use crate::fw;
use crate::props;
use simcore::rng::mix;
use simcore::{Policy, Stream, F_ALLOC, F_BLAS, F_PANIC, F_SINK, F_SPAWN};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub const NPROC: usize = 8;
/// wall-clock limit of one run inside a worker, seconds (a run takes milliseconds)
const RUN_ALARM: u32 = 90;

extern "C" {
    fn alarm(s: u32) -> u32;
    fn signal(n: i32, h: usize) -> usize;
    fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    fn sigaction(n: i32, a: *const SigAction, o: *mut SigAction) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn personality(p: u64) -> i32;
}
#[repr(C)]
struct StackT {
    sp: *mut u8,
    flags: i32,
    size: usize,
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

pub struct RunResult {
    pub kind: String,
    pub msg: String,
    pub gen: Vec<u32>,
    pub sched: Vec<u32>,
    pub desc: String,
    pub stats: simcore::Stats,
    pub faults: [simcore::FaultPlan; simcore::N_FAULT],
    pub digest: u64,
}

// ------------------------------------------------------------------ one run
static mut OUT_FD: i32 = 1;
static mut CUR: u64 = 0;

/// dump the streams of the current run (crash, hang, deadlock): "X kind\tmsg" then the vectors
fn dump_current(kind: &str, msg: &str) {
    unsafe { alarm(0) };
    let mut s = String::new();
    let gen: Vec<u32> = fw::gen_rec().to_vec();
    let sched: Vec<u32> = if simcore::sim_exists() { simcore::sim().sched.rec.clone() } else { vec![] };
    let _ = writeln!(s, "X\t{}\t{}\t{}", unsafe { CUR }, kind, one_line(msg));
    let _ = writeln!(s, "D\t{}", one_line(fw::desc()));
    let _ = writeln!(s, "G\t{}", vec_str(&gen));
    let _ = writeln!(s, "H\t{}", vec_str(&sched));
    let _ = writeln!(s, "Z");
    let b = s.as_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { write(OUT_FD, b[o..].as_ptr(), b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}
fn on_abort(why: &str) {
    let kind = if why.starts_with("deadlock") {
        "deadlock"
    } else if why.starts_with("no progress") {
        "no-progress"
    } else {
        "stuck"
    };
    dump_current(kind, why);
}
extern "C" fn on_signal(n: i32) {
    unsafe {
        simcore::alloc::disable();
        simcore::force_inactive();
        let k = match n {
            14 => ("hang", "run did not finish in its wall-clock limit"),
            11 => ("crash-SIGSEGV", "process crashed: invalid memory access"),
            7 => ("crash-SIGBUS", "process crashed: invalid memory access"),
            6 => ("crash-SIGABRT", "process aborted (heap corruption detected, or panic that cannot unwind)"),
            4 => ("crash-SIGILL", "process crashed: illegal instruction"),
            8 => ("crash-SIGFPE", "process crashed: arithmetic fault"),
            _ => ("crash", "process crashed"),
        };
        dump_current(k.0, k.1);
        _exit(3)
    }
}
fn install_handlers() {
    #[cfg(feature = "blas")]
    crate::blas::load();
    unsafe {
        let sz = 1 << 18;
        let st = Box::leak(vec![0u8; sz].into_boxed_slice());
        let ss = StackT { sp: st.as_mut_ptr(), flags: 0, size: sz };
        sigaltstack(&ss, std::ptr::null_mut());
        for n in [11, 7, 6, 4, 8, 14] {
            // SA_ONSTACK | SA_NODEFER | SA_RESETHAND
            let a = SigAction {
                handler: on_signal as *const () as usize,
                mask: [0; 16],
                flags: 0x08000000 | 0x40000000 | 0x80000000u32 as i32,
                restorer: 0,
            };
            sigaction(n, &a, std::ptr::null_mut());
        }
    }
}
fn one_line(s: &str) -> String {
    s.replace(['\n', '\t', '\r'], " ")
}
fn vec_str(v: &[u32]) -> String {
    let mut s = String::with_capacity(v.len() * 4);
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{x}");
    }
    s
}
fn parse_vec(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).filter_map(|x| x.trim().parse().ok()).collect()
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = 0u64;
    for b in prop.bytes() {
        h = h.wrapping_mul(131).wrapping_add(b as u64);
    }
    mix(&[seed, h, idx])
}

/// draw the per-run simulator configuration (part of the generator stream)
fn draw_cfg() -> (simcore::Cfg, u64) {
    let policy = match fw::weighted(&[3, 6, 4]) {
        0 => Policy::RunToBlock,
        1 => Policy::Random { mean: fw::logrange(2, 4000) as u32 },
        _ => Policy::Priority { mean: fw::logrange(2, 4000) as u32 },
    };
    let strong = fw::pick(&[4u32, 0, 1, 2, 6, 8]);
    let global_threads = fw::pick(&[3usize, 1, 2, 4, 6]);
    let poison = fw::pick(&[
        0xA5A5_A5A5_A5A5_A5A5u64,
        0,
        u64::MAX,
        0x7FF8_0000_0000_0001,
        0x7FEF_FFFF_FFFF_FFFF,
        0x0101_0101_0101_0101,
        0x4045_0000_0000_0000,
    ]);
    let cfg = simcore::Cfg {
        policy,
        strong,
        max_steps: 300_000_000,
        alloc_yield: false,
        global_threads,
        steal_shuffle: true,
    };
    (cfg, poison)
}

pub fn run_one(prop: &str, gen: Stream, sched: Stream, thorough: bool) -> RunResult {
    fw::gen_start(gen);
    fw::tk_reset();
    props::set_thorough(thorough);
    let (cfg, poison) = draw_cfg();
    fw::describe(format!(
        "policy={:?} strong={} global_threads={} poison={:#x}",
        cfg.policy, cfg.strong, cfg.global_threads, poison
    ));
    unsafe {
        alarm(RUN_ALARM);
    }
    let p = prop.to_string();
    simcore::alloc::enable(poison, 0);
    let races = prop == "C20" || std::env::var_os("RSIM_RACE").is_some();
    if races {
        fw::only_kind("data-race");
        simcore::race::set_report(|m| fw::report("data-race", m));
        simcore::race::enable();
    }
    let mut out = simcore::run(cfg, sched, Box::new(move || props::dispatch(&p)));
    simcore::alloc::disable();
    if races {
        [out.stats.accesses, out.stats.tasks] = simcore::race::checked();
        simcore::race::disable();
    }
    unsafe {
        alarm(0);
    }
    let gen = fw::gen_stop();
    let msg = out.violation.clone().unwrap_or_default();
    let kind = if msg.is_empty() {
        String::new()
    } else if fw::violation_kind().is_empty() {
        "escaped".to_string()
    } else {
        fw::violation_kind().to_string()
    };
    let digest = mix(&[
        out.log_hash,
        out.stats.sched_hash,
        out.stats.steps,
        out.stats.switches,
        mix(&gen.iter().map(|&x| x as u64).collect::<Vec<_>>()),
        mix(&out.sched.iter().map(|&x| x as u64).collect::<Vec<_>>()),
    ]);
    RunResult {
        kind,
        msg,
        gen,
        sched: out.sched,
        desc: fw::desc().to_string(),
        stats: out.stats,
        faults: out.faults,
        digest,
    }
}

// ------------------------------------------------------------------ worker process
fn worker(prop: &str, seed: u64, start: u64, stride: u64, count: u64, limit_s: f64, thorough: bool) -> i32 {
    install_handlers();
    simcore::install_panic_hook();
    simcore::set_on_abort(on_abort);
    simcore::alloc::install_oom_hook();
    unsafe { fw::PARITY = (start & 1) as u32 };
    let t0 = Instant::now();
    let known = load_known(prop);
    let mut runs = 0u64;
    let mut steps = 0u64;
    let mut switches = 0u64;
    let mut fibers = 0u64;
    let mut jobs = 0u64;
    let mut steals = 0u64;
    let mut preempt = 0u64;
    let mut atomics = 0u64;
    let (mut accesses, mut tasks) = (0u64, 0u64);
    let mut fired = [0u64; simcore::N_FAULT];
    let mut fault_runs = [0u64; simcore::N_FAULT];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let out = std::io::stdout();
    let mut idx = start;
    for _ in 0..count {
        if t0.elapsed().as_secs_f64() > limit_s {
            break;
        }
        unsafe { CUR = idx };
        let _ = writeln!(out.lock(), "B\t{idx}");
        let s = run_seed(seed, prop, idx);
        let r = run_one(prop, Stream::record(mix(&[s, 1])), Stream::record(mix(&[s, 2])), thorough);
        runs += 1;
        steps += r.stats.steps;
        switches += r.stats.switches;
        fibers += r.stats.fibers;
        jobs += r.stats.jobs;
        steals += r.stats.steals;
        preempt += r.stats.preemptions;
        atomics += r.stats.atomics;
        accesses += r.stats.accesses;
        tasks += r.stats.tasks;
        for k in 0..simcore::N_FAULT {
            fired[k] += r.faults[k].fired;
            fault_runs[k] += (r.faults[k].fired > 0) as u64;
        }
        // non-trivial: real interleaving happened or a fault fired
        if r.stats.switches >= 4 || r.faults.iter().any(|f| f.fired > 0) {
            hashes.insert(mix(&[r.stats.sched_hash, mix(&r.gen.iter().map(|&x| x as u64).collect::<Vec<_>>())]));
        }
        if runs <= 2 {
            let _ = writeln!(out.lock(), "E\t{idx}\t{}", one_line(&r.desc));
        }
        if idx % 37 == 0 && runs < 2000 {
            let _ = writeln!(out.lock(), "Q\t{idx}\t{}", r.digest);
        }
        if !r.kind.is_empty() {
            if known.iter().any(|k| k.matches(&r.kind, &r.msg)) {
                *known_hits.entry(r.kind.clone()).or_insert(0) += 1;
            } else {
                let mut o = out.lock();
                let _ = writeln!(o, "X\t{idx}\t{}\t{}", r.kind, one_line(&r.msg));
                let _ = writeln!(o, "D\t{}", one_line(&r.desc));
                let _ = writeln!(o, "G\t{}", vec_str(&r.gen));
                let _ = writeln!(o, "H\t{}", vec_str(&r.sched));
                let _ = writeln!(o, "Z");
                break;
            }
        }
        idx += stride;
    }
    let mut o = out.lock();
    let _ = writeln!(
        o,
        "S\t{runs}\t{steps}\t{switches}\t{fibers}\t{jobs}\t{steals}\t{preempt}\t{}\t{}\t{atomics}\t{accesses}\t{tasks}",
        fired.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        fault_runs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    );
    for (k, v) in fw::probes() {
        let _ = writeln!(o, "P\t{k}\t{v}");
    }
    for (k, v) in &known_hits {
        let _ = writeln!(o, "K\t{k}\t{v}");
    }
    let mut hs: Vec<u64> = hashes.into_iter().collect();
    hs.sort_unstable();
    let _ = write!(o, "U\t");
    for h in hs {
        let _ = write!(o, "{h:x},");
    }
    let _ = writeln!(o);
    let _ = o.flush();
    0
}

// ------------------------------------------------------------------ known findings
#[derive(Clone, Debug)]
pub struct Known {
    pub kind: String,
    pub contains: String,
    pub text: String,
}
impl Known {
    fn matches(&self, kind: &str, msg: &str) -> bool {
        self.kind == kind && (self.contains.is_empty() || msg.contains(&self.contains))
    }
}
/// lines: "finding: property=<id> kind=<kind> contains=<text or -> | description"
fn load_known(prop: &str) -> Vec<Known> {
    let mut v = vec![];
    let path = verif_dir().join("known_findings.txt");
    let Ok(s) = std::fs::read_to_string(path) else { return v };
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("finding: ") else { continue };
        let (head, text) = rest.split_once(" | ").unwrap_or((rest, ""));
        let (mut p, mut kind, mut contains) = (String::new(), String::new(), String::new());
        if let Some(i) = head.find("contains=") {
            contains = head[i + 9..].trim().to_string();
        }
        for w in head.split_whitespace() {
            if let Some(x) = w.strip_prefix("property=") {
                p = x.to_string();
            } else if let Some(x) = w.strip_prefix("kind=") {
                kind = x.to_string();
            }
        }
        if contains == "-" {
            contains.clear();
        }
        if p == prop {
            v.push(Known { kind, contains, text: text.to_string() });
        }
    }
    v
}

fn verif_dir() -> std::path::PathBuf {
    if let Ok(d) = std::env::var("VERIF_DIR") {
        return d.into();
    }
    std::path::PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().parent().unwrap().to_path_buf()
}

// ------------------------------------------------------------------ parent
#[derive(Default, Clone)]
struct Viol {
    idx: u64,
    kind: String,
    msg: String,
    desc: String,
    gen: Vec<u32>,
    sched: Vec<u32>,
}
#[derive(Default)]
struct Totals {
    runs: u64,
    steps: u64,
    switches: u64,
    fibers: u64,
    jobs: u64,
    steals: u64,
    preempt: u64,
    atomics: u64,
    accesses: u64,
    tasks: u64,
    fired: Vec<u64>,
    fault_runs: Vec<u64>,
    probes: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<(u64, String)>,
    digests: BTreeMap<u64, u64>,
}

fn spawn_worker(prop: &str, seed: u64, start: u64, stride: u64, count: u64, limit: f64, thorough: bool) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args([
        "worker",
        prop,
        &seed.to_string(),
        &start.to_string(),
        &stride.to_string(),
        &count.to_string(),
        &limit.to_string(),
        if thorough { "thorough" } else { "quick" },
    ]);
    prep(&mut c);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn worker")
}
fn prep(c: &mut Command) {
    use std::os::unix::process::CommandExt;
    c.env("OMP_NUM_THREADS", "1").env("OPENBLAS_NUM_THREADS", "1").env_remove("RAYON_NUM_THREADS");
    unsafe {
        c.pre_exec(|| {
            // same addresses in every process: best effort, nothing depends on it
            personality(0x0040000);
            Ok(())
        });
    }
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

fn reader(i: usize, out: impl Read + Send + 'static, tx: mpsc::Sender<Msg>) {
    std::thread::spawn(move || {
        let mut r = BufReader::with_capacity(1 << 20, out);
        let mut s = String::new();
        loop {
            s.clear();
            match r.read_line(&mut s) {
                Ok(0) | Err(_) => break,
                Ok(_) => {
                    let _ = tx.send(Msg::Line(i, s.trim_end().to_string()));
                },
            }
        }
        let _ = tx.send(Msg::Eof(i));
    });
}

fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let Some(plan) = props::plan(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let total = if thorough { plan.thorough_runs } else { plan.quick_runs };
    let limit = if thorough { 2400.0 } else { 240.0 };
    let limit = std::env::var("RSIM_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(limit);
    let total = std::env::var("RSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    println!("rsim check property={prop} tier={tier} seed={seed} runs={total}");
    let nproc = NPROC as u64;
    let (tx, rx) = mpsc::channel();
    let mut kids: Vec<Child> = vec![];
    for i in 0..nproc {
        let count = total / nproc + ((i < total % nproc) as u64);
        let mut c = spawn_worker(prop, seed, i, nproc, count, limit, thorough);
        reader(i as usize, c.stdout.take().unwrap(), tx.clone());
        kids.push(c);
    }
    let mut open = kids.len();
    let mut t = Totals { fired: vec![0; simcore::N_FAULT], fault_runs: vec![0; simcore::N_FAULT], ..Default::default() };
    let mut cur: Vec<u64> = (0..nproc).collect();
    let mut got_stats = vec![false; kids.len()];
    let mut vs: Vec<Viol> = vec![];
    let mut part: Vec<Option<Viol>> = vec![None; kids.len()];
    let mut harness_err: Option<String> = None;
    while open > 0 {
        let m = match rx.recv_timeout(Duration::from_secs_f64(limit + 180.0)) {
            Ok(m) => m,
            Err(_) => {
                harness_err = Some("worker made no progress".into());
                break;
            },
        };
        match m {
            Msg::Eof(i) => {
                open -= 1;
                let st = kids[i].wait().ok();
                if !got_stats[i] && part[i].is_none() && !vs.iter().any(|v| v.idx % nproc == i as u64) && vs.is_empty() {
                    // died without telling: attribute to its current run
                    let code = st.map(|s| format!("{s:?}")).unwrap_or_default();
                    vs.push(Viol {
                        idx: cur[i],
                        kind: "crash".into(),
                        msg: format!("worker process died during this run ({code})"),
                        ..Default::default()
                    });
                    for k in kids.iter_mut() {
                        let _ = k.kill();
                    }
                }
            },
            Msg::Line(i, l) => {
                let mut f = l.split('\t');
                match f.next().unwrap_or("") {
                    "B" => cur[i] = f.next().and_then(|x| x.parse().ok()).unwrap_or(cur[i]),
                    "X" => {
                        let idx = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        let kind = f.next().unwrap_or("").to_string();
                        let msg = f.next().unwrap_or("").to_string();
                        part[i] = Some(Viol { idx, kind, msg, ..Default::default() });
                    },
                    "D" => {
                        if let Some(p) = part[i].as_mut() {
                            p.desc = f.next().unwrap_or("").to_string()
                        }
                    },
                    "G" => {
                        if let Some(p) = part[i].as_mut() {
                            p.gen = parse_vec(f.next().unwrap_or(""))
                        }
                    },
                    "H" => {
                        if let Some(p) = part[i].as_mut() {
                            p.sched = parse_vec(f.next().unwrap_or(""))
                        }
                    },
                    "Z" => {
                        if let Some(p) = part[i].take() {
                            vs.push(p);
                            for (k, c) in kids.iter_mut().enumerate() {
                                if k != i {
                                    let _ = c.kill();
                                }
                            }
                        }
                    },
                    "E" => {
                        let idx = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        t.samples.push((idx, f.next().unwrap_or("").to_string()));
                    },
                    "Q" => {
                        let idx = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        t.digests.insert(idx, f.next().and_then(|x| x.parse().ok()).unwrap_or(0));
                    },
                    "S" => {
                        got_stats[i] = true;
                        let v: Vec<&str> = f.collect();
                        let n = |k: usize| v.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                        t.runs += n(0);
                        t.steps += n(1);
                        t.switches += n(2);
                        t.fibers += n(3);
                        t.jobs += n(4);
                        t.steals += n(5);
                        t.preempt += n(6);
                        t.atomics += n(9);
                        t.accesses += n(10);
                        t.tasks += n(11);
                        for (k, x) in v.get(7).unwrap_or(&"").split(',').enumerate() {
                            t.fired[k] += x.parse::<u64>().unwrap_or(0);
                        }
                        for (k, x) in v.get(8).unwrap_or(&"").split(',').enumerate() {
                            t.fault_runs[k] += x.parse::<u64>().unwrap_or(0);
                        }
                    },
                    "P" => {
                        let k = f.next().unwrap_or("").to_string();
                        *t.probes.entry(k).or_insert(0) += f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    },
                    "K" => {
                        let k = f.next().unwrap_or("").to_string();
                        *t.known.entry(k).or_insert(0) += f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    },
                    "U" => {
                        for h in f.next().unwrap_or("").split(',') {
                            if let Ok(x) = u64::from_str_radix(h, 16) {
                                t.hashes.insert(x);
                            }
                        }
                    },
                    _ => {},
                }
            },
        }
    }
    for k in kids.iter_mut() {
        let _ = k.kill();
        let _ = k.wait();
    }
    let search_s = t0.elapsed().as_secs_f64();
    if let Some(e) = harness_err {
        eprintln!("harness error: {e}");
        return 2;
    }
    // determinism: repeat a sample of runs in other processes, compare the digests
    let mut det_n = 0u64;
    let mut det_bad: Vec<u64> = vec![];
    if vs.is_empty() {
        let idxs: Vec<u64> = t.digests.keys().copied().take(if thorough { 400 } else { 96 }).collect();
        for chunk in idxs.chunks(32) {
            let hs: Vec<(u64, std::thread::JoinHandle<Option<u64>>)> = chunk
                .iter()
                .map(|&i| {
                    let p = prop.to_string();
                    (i, std::thread::spawn(move || digest_of(&p, seed, i, thorough)))
                })
                .collect();
            for (i, h) in hs {
                det_n += 1;
                if h.join().ok().flatten() != t.digests.get(&i).copied() {
                    det_bad.push(i);
                }
            }
        }
    }
    let known = load_known(prop);
    for k in &known {
        println!("KNOWN-FINDING: property={prop} {}", k.text);
    }
    let mut code = 0;
    let mut viol_info = None;
    if !vs.is_empty() {
        vs.sort_by_key(|v| v.idx);
        let mut v = vs.remove(0);
        if v.gen.is_empty() {
            // crash without streams: replay the run from its seed, streams recorded on the fly are unavailable
            v.desc = "streams not recorded; replay uses the run's seed".into();
        }
        println!("violation in run {} : {}", v.idx, v.msg);
        let m = minimise(prop, &v, seed, thorough, if thorough { 240.0 } else { 90.0 });
        let path = write_replay(prop, seed, &m, tier);
        let (ok, _) = exec_replay(&path, 120);
        println!("replay verified in a fresh process: {ok}");
        println!("message: {}", m.msg);
        println!("run: {}", m.desc);
        println!("VIOLATION property={prop} replay={path}");
        viol_info = Some((m, path, ok));
        code = 1;
    } else if !det_bad.is_empty() {
        eprintln!("harness error: nondeterministic runs {det_bad:?}");
        code = 2;
    }
    write_evidence(prop, tier, seed, &t, search_s, t0.elapsed().as_secs_f64(), det_n, det_bad.len(), viol_info.is_some());
    println!(
        "runs={} steps={} distinct={} search_s={:.1} wall_s={:.1} determinism={}/{}",
        t.runs,
        t.steps,
        t.hashes.len(),
        search_s,
        t0.elapsed().as_secs_f64(),
        det_n - det_bad.len() as u64,
        det_n
    );
    code
}

fn digest_of(prop: &str, seed: u64, idx: u64, thorough: bool) -> Option<u64> {
    let exe = std::env::current_exe().ok()?;
    let mut c = Command::new(exe);
    c.args(["one", prop, &seed.to_string(), &idx.to_string(), if thorough { "thorough" } else { "quick" }]);
    prep(&mut c);
    let o = c.stdin(Stdio::null()).stderr(Stdio::null()).output().ok()?;
    let s = String::from_utf8_lossy(&o.stdout);
    for l in s.lines() {
        if let Some(d) = l.strip_prefix("DIGEST ") {
            return d.trim().parse().ok();
        }
    }
    None
}

// ------------------------------------------------------------------ minimisation
struct Attempt {
    kind: String,
    msg: String,
    desc: String,
    gen: Vec<u32>,
    sched: Vec<u32>,
}
fn tmpdir() -> std::path::PathBuf {
    let d = verif_dir().join("sim/target/rsim-tmp");
    let _ = std::fs::create_dir_all(&d);
    d
}
fn attempt(prop: &str, gen: &[u32], sched: &[u32], thorough: bool, tag: usize) -> Option<Attempt> {
    let path = tmpdir().join(format!("try-{}-{tag}", std::process::id()));
    std::fs::write(&path, format!("{}\n{}\n", vec_str(gen), vec_str(sched))).ok()?;
    let exe = std::env::current_exe().ok()?;
    let mut c = Command::new(exe);
    c.args(["try", prop, path.to_str()?, if thorough { "thorough" } else { "quick" }]);
    prep(&mut c);
    let o = c.stdin(Stdio::null()).stderr(Stdio::null()).output().ok()?;
    let _ = std::fs::remove_file(&path);
    let s = String::from_utf8_lossy(&o.stdout);
    let mut a = Attempt { kind: String::new(), msg: String::new(), desc: String::new(), gen: vec![], sched: vec![] };
    for l in s.lines() {
        let mut f = l.split('\t');
        match f.next() {
            Some("X") => {
                f.next();
                a.kind = f.next().unwrap_or("").to_string();
                a.msg = f.next().unwrap_or("").to_string();
            },
            Some("D") => a.desc = f.next().unwrap_or("").to_string(),
            Some("G") => a.gen = parse_vec(f.next().unwrap_or("")),
            Some("H") => a.sched = parse_vec(f.next().unwrap_or("")),
            _ => {},
        }
    }
    if a.kind.is_empty() {
        use std::os::unix::process::ExitStatusExt;
        if o.status.signal().is_some() {
            a.kind = "crash".into();
            a.msg = format!("process died: {:?}", o.status);
            a.gen = gen.to_vec();
            a.sched = sched.to_vec();
            return Some(a);
        }
        return None;
    }
    Some(a)
}
fn cmd_try(prop: &str, path: &str, thorough: bool) -> i32 {
    install_handlers();
    simcore::install_panic_hook();
    simcore::set_on_abort(on_abort);
    simcore::alloc::install_oom_hook();
    let s = std::fs::read_to_string(path).unwrap_or_default();
    let mut it = s.lines();
    let gen = parse_vec(it.next().unwrap_or(""));
    let sched = parse_vec(it.next().unwrap_or(""));
    let r = run_one(prop, Stream::replay(gen), Stream::replay(sched), thorough);
    if !r.kind.is_empty() {
        println!("X\t0\t{}\t{}", r.kind, one_line(&r.msg));
    }
    println!("D\t{}", one_line(&r.desc));
    println!("G\t{}", vec_str(&r.gen));
    println!("H\t{}", vec_str(&r.sched));
    println!("Z");
    (!r.kind.is_empty()) as i32
}

/// shrink: schedule first (drop to the default schedule, then truncate), then the generator stream
fn minimise(prop: &str, v: &Viol, seed: u64, thorough: bool, budget: f64) -> Viol {
    let t0 = Instant::now();
    let mut best = v.clone();
    if best.gen.is_empty() {
        // recover the streams by re-running from the seed (the crash handler could not)
        let _ = seed;
        return best;
    }
    let known = load_known(prop);
    let mut tries = 0usize;
    let mut test = |gen: &[u32], sched: &[u32], best: &mut Viol| -> bool {
        tries += 1;
        match attempt(prop, gen, sched, thorough, tries) {
            Some(a) if a.kind == best.kind && !known.iter().any(|k| k.matches(&a.kind, &a.msg)) => {
                best.msg = a.msg;
                best.desc = a.desc;
                // keep what was requested, cut to what was consumed
                let mut g = gen.to_vec();
                if !a.gen.is_empty() {
                    g = a.gen;
                }
                let mut h = if a.sched.is_empty() { sched.to_vec() } else { a.sched };
                while h.last() == Some(&0) {
                    h.pop();
                }
                while g.last() == Some(&0) {
                    g.pop();
                }
                best.gen = g;
                best.sched = h;
                true
            },
            _ => false,
        }
    };
    let over = |t0: &Instant| t0.elapsed().as_secs_f64() > budget;
    let (g, s) = (best.gen.clone(), best.sched.clone());
    // reproduces at all?
    if !test(&g, &s, &mut best) {
        return best;
    }
    let g = best.gen.clone();
    if !test(&g, &[], &mut best) {
        // truncate the schedule
        let mut keep = best.sched.len();
        let mut step = keep / 2;
        while step > 0 && !over(&t0) {
            if keep > step {
                let s = best.sched[..(keep - step).min(best.sched.len())].to_vec();
                let g = best.gen.clone();
                if test(&g, &s, &mut best) {
                    keep = best.sched.len();
                    step = step.min(keep / 2);
                    continue;
                }
            }
            step /= 2;
        }
    }
    // generator stream: zero / halve / delete blocks
    let mut progress = true;
    while progress && !over(&t0) {
        progress = false;
        let mut block = (best.gen.len() / 2).max(1);
        while block >= 1 && !over(&t0) {
            let mut i = 0;
            while i < best.gen.len() && !over(&t0) {
                let e = (i + block).min(best.gen.len());
                if best.gen[i..e].iter().any(|&x| x != 0) {
                    let mut g = best.gen.clone();
                    for x in &mut g[i..e] {
                        *x = 0;
                    }
                    let s = best.sched.clone();
                    if test(&g, &s, &mut best) {
                        progress = true;
                    }
                }
                i += block;
            }
            if block == 1 {
                break;
            }
            block /= 2;
        }
        let mut i = 0;
        while i < best.gen.len() && !over(&t0) {
            let mut lo = 0u32;
            let mut hi = best.gen[i];
            let mut n = 0;
            while lo < hi && n < 8 && !over(&t0) {
                n += 1;
                let mid = lo + (hi - lo) / 2;
                let mut g = best.gen.clone();
                if i >= g.len() {
                    break;
                }
                g[i] = mid;
                let s = best.sched.clone();
                if test(&g, &s, &mut best) {
                    progress = true;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        // the schedule again
        let mut block = (best.sched.len() / 2).max(1);
        while block >= 1 && !best.sched.is_empty() && !over(&t0) {
            let mut i = 0;
            while i < best.sched.len() && !over(&t0) {
                let e = (i + block).min(best.sched.len());
                if best.sched[i..e].iter().any(|&x| x != 0) {
                    let mut s = best.sched.clone();
                    for x in &mut s[i..e] {
                        *x = 0;
                    }
                    let g = best.gen.clone();
                    if test(&g, &s, &mut best) {
                        progress = true;
                    }
                }
                i += block;
            }
            if block == 1 || best.sched.len() / block.max(1) > 64 {
                break;
            }
            block /= 2;
        }
    }
    println!("minimised with {tries} executions: generator choices {}, schedule choices {}", best.gen.len(), best.sched.len());
    best
}

fn write_replay(prop: &str, seed: u64, v: &Viol, tier: &str) -> String {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{}.replay", v.idx));
    let s = format!(
        "rsim-replay 1\nproperty {prop}\nverif_seed {seed}\nrun {}\ntier {tier}\nkind {}\nmessage {}\ndescription {}\ngen {}\nsched {}\n",
        v.idx,
        v.kind,
        v.msg,
        v.desc,
        vec_str(&v.gen),
        vec_str(&v.sched)
    );
    let _ = std::fs::write(&path, s);
    path.to_string_lossy().to_string()
}
fn exec_replay(path: &str, _timeout: u64) -> (bool, String) {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args(["replay", path]);
    prep(&mut c);
    match c.stdin(Stdio::null()).stderr(Stdio::null()).output() {
        Ok(o) => (o.status.code() == Some(1), String::from_utf8_lossy(&o.stdout).to_string()),
        Err(_) => (false, String::new()),
    }
}
fn cmd_replay(path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        },
    };
    let get = |k: &str| {
        s.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' ')).map(|x| x.to_string())).unwrap_or_default()
    };
    let (prop, kind) = (get("property"), get("kind"));
    let thorough = get("tier") == "thorough";
    let (mut gen, mut sched) = (parse_vec(&get("gen")), parse_vec(&get("sched")));
    if gen.is_empty() && kind.starts_with("crash") {
        // seed replay
        let seed: u64 = get("verif_seed").parse().unwrap_or(1);
        let idx: u64 = get("run").parse().unwrap_or(0);
        let rs = run_seed(seed, &prop, idx);
        let exe = std::env::current_exe().unwrap();
        let mut c = Command::new(exe);
        c.args(["one", &prop, &seed.to_string(), &idx.to_string(), if thorough { "thorough" } else { "quick" }]);
        prep(&mut c);
        let o = c.output().unwrap();
        let _ = (rs, &mut gen, &mut sched);
        if o.status.code() != Some(0) {
            println!("run {idx} with seed {seed}: {:?}", o.status);
            println!("VIOLATION property={prop} replay={path}");
            return 1;
        }
        return 0;
    }
    match attempt(&prop, &gen, &sched, thorough, 0) {
        Some(a) if a.kind == kind => {
            println!("{}", a.msg);
            println!("{}", a.desc);
            println!("VIOLATION property={prop} replay={path}");
            1
        },
        Some(a) => {
            println!("a different violation: [{}] {}", a.kind, a.msg);
            println!("VIOLATION property={prop} replay={path}");
            1
        },
        None => {
            println!("not reproduced");
            0
        },
    }
}

// ------------------------------------------------------------------ evidence
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &str,
    tier: &str,
    seed: u64,
    t: &Totals,
    search_s: f64,
    wall: f64,
    det_n: u64,
    det_bad: usize,
    violated: bool,
) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let plan = props::plan(prop).unwrap();
    let mut s = String::new();
    let _ = writeln!(s, "{{");
    let _ = writeln!(s, "  \"property\": {},", jstr(prop));
    let _ = writeln!(s, "  \"tier\": {},", jstr(tier));
    let _ = writeln!(s, "  \"seed\": {seed},");
    let _ = writeln!(s, "  \"level\": \"exploration\",");
    let _ = writeln!(s, "  \"wall_s\": {wall:.3},");
    let _ = writeln!(s, "  \"violations\": {},", violated as u8);
    let _ = writeln!(s, "  \"coverage\": {{");
    let _ = writeln!(s, "    \"evaluations\": {},", t.runs);
    let _ = writeln!(s, "    \"distinct_nontrivial\": {},", t.hashes.len());
    let _ = writeln!(
        s,
        "    \"rule\": {},",
        jstr(&format!(
            "{} Each run is one seeded execution (generator stream + schedule stream derived from VERIF_SEED, property and run index). \
             A run counts when at least four switches between simulated threads happened or a fault fired; two runs are the same when \
             both their generated workload and their sequence of (switch target, step) pairs are the same.",
            plan.rule
        ))
    );
    let _ = writeln!(s, "    \"runs_per_hour\": {:.0},", t.runs as f64 / search_s.max(1e-3) * 3600.0);
    let _ = writeln!(s, "    \"seeds_per_hour\": {:.0},", t.runs as f64 / search_s.max(1e-3) * 3600.0);
    let _ = writeln!(
        s,
        "    \"simulated_time\": {},",
        jstr("the code under test has no clock; simulated time is counted in scheduler steps (yield points passed)")
    );
    let _ = writeln!(s, "    \"simulated_steps\": {},", t.steps);
    let _ = writeln!(s, "    \"thread_switches\": {},", t.switches);
    let _ = writeln!(s, "    \"preemptions\": {},", t.preempt);
    let _ = writeln!(s, "    \"atomic_operations_simulated\": {},", t.atomics);
    if t.tasks > 0 {
        let _ = writeln!(s, "    \"memory_accesses_checked_for_races\": {},", t.accesses);
        let _ = writeln!(s, "    \"logical_tasks_followed\": {},", t.tasks);
    }
    let _ = writeln!(s, "    \"simulated_threads\": {},", t.fibers);
    let _ = writeln!(s, "    \"pool_jobs_executed\": {},", t.jobs);
    let _ = writeln!(s, "    \"work_steals\": {},", t.steals);
    let mut fi = vec![];
    for k in [F_PANIC, F_ALLOC, F_SPAWN, F_SINK, F_BLAS] {
        if t.fired[k] > 0 {
            fi.push(format!(
                "{}: {{\"fired\": {}, \"runs\": {}}}",
                jstr(simcore::FAULT_NAMES[k]),
                t.fired[k],
                t.fault_runs[k]
            ));
        }
    }
    let _ = writeln!(s, "    \"faults_injected\": {{{}}},", fi.join(", "));
    let pr: Vec<String> = t.probes.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
    let _ = writeln!(s, "    \"probes\": {{{}}},", pr.join(", "));
    let kn: Vec<String> = t.known.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
    let _ = writeln!(s, "    \"known_finding_hits\": {{{}}},", kn.join(", "));
    let _ = writeln!(s, "    \"determinism_rechecked\": {det_n},");
    let _ = writeln!(s, "    \"determinism_mismatches\": {det_bad},");
    let _ = writeln!(s, "    \"real_components\": {},", jstr(plan.real));
    let _ = writeln!(s, "    \"stub_components\": {},", jstr(plan.stub));
    let mut sm = t.samples.clone();
    sm.sort();
    let smp: Vec<String> =
        sm.iter().take(6).map(|(i, d)| format!("{{\"run\": {i}, \"case\": {}}}", jstr(d))).collect();
    let _ = writeln!(s, "    \"samples\": [{}]", smp.join(", "));
    let _ = writeln!(s, "  }},");
    let _ = writeln!(
        s,
        "  \"assumptions\": [{}]",
        [
            "the simulated work-stealing pool has rayon-core's semantics (LIFO own deque, FIFO stealing, injector, waiting workers execute other jobs)",
            "threads are interleaved at scheduling points (element operations, task push/pop/steal, library calls, lock operations), not between arbitrary instructions; weak memory is not modelled",
        ]
        .iter()
        .map(|x| jstr(x))
        .collect::<Vec<_>>()
        .join(", ")
    );
    let _ = writeln!(s, "}}");
    let _ = std::fs::write(dir.join(format!("{prop}.json")), s);
}

// ------------------------------------------------------------------ entry
pub fn main(a: &[String]) -> i32 {
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    match arg(0) {
        "check" => {
            let tier = if arg(2).is_empty() {
                std::env::var("VERIF_TIER").unwrap_or("quick".into())
            } else {
                arg(2).to_string()
            };
            check(arg(1), &tier)
        },
        "worker" => worker(
            arg(1),
            num(2),
            num(3),
            num(4),
            num(5),
            arg(6).parse().unwrap_or(60.0),
            arg(7) == "thorough",
        ),
        "one" => {
            install_handlers();
            simcore::install_panic_hook();
            simcore::set_on_abort(on_abort);
            simcore::alloc::install_oom_hook();
            let s = run_seed(num(2), arg(1), num(3));
            unsafe {
                CUR = num(3);
                fw::PARITY = (num(3) & 1) as u32;
            }
            let r = run_one(arg(1), Stream::record(mix(&[s, 1])), Stream::record(mix(&[s, 2])), arg(4) == "thorough");
            println!("DIGEST {}", r.digest);
            println!("{}", r.desc);
            println!("steps={} switches={} gen={} sched={}", r.stats.steps, r.stats.switches, r.gen.len(), r.sched.len());
            if !r.kind.is_empty() {
                println!("{}", r.msg);
                return 1;
            }
            0
        },
        "try" => cmd_try(arg(1), arg(2), arg(3) == "thorough"),
        "replay" => cmd_replay(arg(1)),
        "list" => {
            for p in props::ALL {
                println!("{p}");
            }
            0
        },
        _ => {
            eprintln!("usage: rsim check <property> [quick|thorough] | replay <file> | one <property> <seed> <run>");
            2
        },
    }
}
