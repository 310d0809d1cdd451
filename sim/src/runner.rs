//! Runs simulations in forked children, collects what they report, minimises and replays failures.
use crate::choice::*;
use crate::sched::*;
use crate::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::time::{Duration, Instant};

const TEXT: usize = 2 << 20;

#[repr(C)]
struct Shared {
    finished: u32,
    internal: u32,
    hash: u64,
    exercised: u64,
    steps: u64,
    sim_us: u64,
    sessions: u32,
    text_len: u32,
    text: [u8; TEXT],
    n: u32,
    log: [u32; MAX_LOG + 8],
}

struct Shm(*mut Shared);
impl Shm {
    fn new() -> Shm {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            Shm(p as *mut Shared)
        }
    }
}

static mut CUR: *mut Shared = std::ptr::null_mut();
static mut ALARMS: u32 = 0;

#[derive(Clone, Debug)]
pub enum Source {
    Seed(u64),
    List(Vec<u32>),
}

#[derive(Default, Clone)]
pub struct Outcome {
    pub viol: BTreeMap<String, String>,
    pub faults: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub trace: Vec<String>,
    pub choices: Vec<u32>,
    pub hash: u64,
    pub exercised: u64,
    pub steps: u64,
    pub sim_us: u64,
    pub sessions: u64,
    pub flavour: String,
    pub internal: Option<String>,
}

fn short(s: &str) -> String {
    if s.chars().count() <= 600 {
        return s.into();
    }
    let c: Vec<char> = s.chars().collect();
    format!("{} [...] {}", c[..400].iter().collect::<String>(), c[c.len() - 180..].iter().collect::<String>())
}

unsafe fn report(wd: &mut World) {
    let sh = &mut *CUR;
    let mut t = String::new();
    for (k, v) in &wd.viol {
        t.push_str(&format!("V\t{}\t{}\n", k, short(v).replace('\n', "\\n").replace('\t', " ")));
    }
    for (k, v) in &wd.faults {
        t.push_str(&format!("F\t{}\t{}\n", k, v));
    }
    for (k, v) in &wd.notes {
        t.push_str(&format!("N\t{}\t{}\n", k, v));
    }
    t.push_str(&format!("L\t{}\t\n", if wd.flavour == 0 { "release" } else { "debug" }));
    for l in &wd.trace {
        t.push_str(&format!("T\t{}\t\n", l.replace('\n', "\\n").replace('\t', " ")));
    }
    let b = t.as_bytes();
    let mut n = b.len().min(TEXT);
    while n > 0 && n < b.len() && b[n - 1] != b'\n' {
        n -= 1;
    }
    sh.text[..n].copy_from_slice(&b[..n]);
    sh.text_len = n as u32;
    sh.hash = wd.hash;
    sh.exercised = wd.exercised;
    sh.steps = wd.steps;
    sh.sim_us = wd.k.now;
    sh.sessions = wd.sess.len() as u32;
    sh.finished = 1;
}

extern "C" fn on_crash(sig: i32) {
    unsafe {
        if active() {
            let wd = w();
            let p = wd.tasks[wd.cur].proc;
            if wd.k.procs[p].sess.is_some() || probe::is_probe(p) {
                wd.note("real_crash");
                wd.log(|| format!("the plugin crashed with signal {}", sig));
                wd.die(p, sig);
            }
        }
        (*CUR).internal = 1000 + sig as u32;
        libc::_exit(3);
    }
}

extern "C" fn on_hang(sig: i32) {
    unsafe {
        if sig == libc::SIGALRM {
            ALARMS += 1;
            if ALARMS < 3 {
                libc::alarm(20);
                return;
            }
        }
        let wd = w();
        if active() {
            wd.note("hang");
            wd.log(|| "spins without making a system call".into());
            // a CPU hog of ours, or of the session it is in
            for s in 0..wd.sess.len() {
                let t = wd.k.procs[wd.sess[s].proc].task;
                wd.tasks[t].recent = if t == wd.cur { u64::MAX } else { 0 };
            }
            scenario::stuck(wd, "spins forever, last waiting", true);
            probe::stuck(wd);
            report(wd);
            libc::_exit(0);
        }
        if std::env::var("SIM_DEBUG").is_ok() {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
            eprintln!("cur {} steps {} now {} limit {} limited {}", wd.cur, wd.steps, wd.k.now, wd.step_limit, wd.limited);
            for l in wd.trace.iter().rev().take(20) {
                eprintln!("{}", l);
            }
        }
        (*CUR).internal = 2000;
        libc::_exit(3);
    }
}

pub fn new_world(ch: Choices, want: &'static str, verbose: bool) {
    let wd = World {
        k: kernel::Kernel::new(),
        ch,
        tasks: vec![],
        cur: usize::MAX,
        picked: None,
        main_sp: 0,
        steps: 0,
        hash: 0xcbf29ce484222325,
        verbose,
        trace: vec![],
        sess: vec![],
        profile: Profile::None,
        eligible: 0,
        stick: 0,
        prio_mode: false,
        prio_next: 0,
        prio_low: 1000,
        tty_names: 0,
        viol: BTreeMap::new(),
        exercised: 0,
        faults: BTreeMap::new(),
        notes: BTreeMap::new(),
        want,
        step_limit: 40_000,
        stage: 0,
        limited: false,
        short_sends: 0,
        oom_at: 0,
        mallocs: 0,
        in_plugin: false,
        universe: vec![],
        rnd: 0,
        flavour: 0,
        exp: Default::default(),
    };
    unsafe { WORLD = Box::leak(Box::new(wd)) };
}

unsafe fn child(sh: *mut Shared, want: &'static str, src: Source, verbose: bool) -> ! {
    CUR = sh;
    let alt = libc::mmap(std::ptr::null_mut(), 1 << 17, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
    let st = libc::stack_t { ss_sp: alt, ss_flags: 0, ss_size: 1 << 17 };
    libc::sigaltstack(&st, std::ptr::null_mut());
    let mut a: libc::sigaction = std::mem::zeroed();
    a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
    a.sa_sigaction = on_crash as *const () as usize;
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
        libc::sigaction(s, &a, std::ptr::null_mut());
    }
    a.sa_flags = libc::SA_ONSTACK | libc::SA_RESTART;
    a.sa_sigaction = on_hang as *const () as usize;
    libc::sigaction(libc::SIGPROF, &a, std::ptr::null_mut());
    libc::sigaction(libc::SIGALRM, &a, std::ptr::null_mut());
    let it = libc::itimerval { it_interval: std::mem::zeroed(), it_value: libc::timeval { tv_sec: 5, tv_usec: 0 } };
    libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
    libc::alarm(20);
    let log = (*sh).log.as_mut_ptr();
    let ch = match src {
        Source::Seed(s) => Choices::seeded(s, log),
        Source::List(l) => Choices::replay(l, log),
    };
    new_world(ch, want, verbose);
    if approve::wants(want) {
        approve::run();
        report(w());
        libc::_exit(0);
    }
    let sessions = matches!(want, "C18" | "C21") && w().ch.chance(1, 4);
    if e2e::wants(want) {
        e2e::build();
    } else if probe::wants(want) && !sessions {
        probe::build(want);
    } else {
        scenario::build();
    }
    run();
    oracle::finish(w());
    probe::finish(w());
    if e2e::wants(want) {
        e2e::finish(w());
    }
    report(w());
    libc::_exit(0);
}

fn run_child(sh: &Shm, want: &'static str, src: Source, verbose: bool) -> Outcome {
    unsafe {
        let s = &mut *sh.0;
        s.finished = 0;
        s.internal = 0;
        s.n = 0;
        s.text_len = 0;
        let pid = libc::fork();
        if pid == 0 {
            child(sh.0, want, src, verbose);
        }
        assert!(pid > 0, "fork failed");
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let mut o = Outcome::default();
        o.choices = s.log[..s.n as usize].to_vec();
        o.hash = s.hash;
        o.exercised = s.exercised;
        o.steps = s.steps;
        o.sim_us = s.sim_us;
        o.sessions = s.sessions as u64;
        if s.finished == 1 {
            for l in String::from_utf8_lossy(&s.text[..s.text_len as usize]).lines() {
                let mut f = l.splitn(3, '\t');
                let (a, b, c) = (f.next().unwrap_or(""), f.next().unwrap_or(""), f.next().unwrap_or(""));
                match a {
                    "V" => {
                        o.viol.insert(b.into(), c.into());
                    }
                    "F" => {
                        o.faults.insert(b.into(), c.parse().unwrap_or(0));
                    }
                    "N" => {
                        o.notes.insert(b.into(), c.parse().unwrap_or(0));
                    }
                    "L" => o.flavour = b.into(),
                    _ => o.trace.push(b.into()),
                }
            }
        } else {
            o.exercised = 0;
            o.internal = Some(format!("child ended with status {:#x}, internal code {}", st, s.internal));
        }
        o
    }
}

#[derive(Default)]
pub struct Opts {
    pub map: BTreeMap<String, String>,
}
impl Opts {
    fn of(a: &[String]) -> Opts {
        let mut o = Opts::default();
        for x in a {
            if let Some((k, v)) = x.split_once('=') {
                o.map.insert(k.into(), v.into());
            }
        }
        o
    }
    fn get(&self, k: &str, d: &str) -> String {
        self.map.get(k).cloned().unwrap_or(d.into())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.map.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn prop_of(s: &str) -> &'static str {
    PROPS.iter().copied().find(|p| *p == s).unwrap_or("")
}

fn load(want: &str, o: &Opts) -> Vec<String> {
    if approve::wants(want) || e2e::wants(want) {
        let script = o.get("script", "/repo/sample/bin/sudo_approve");
        e2e::setup(&script);
        if let Err(e) = approve::setup(&script, &o.get("approve", "/verif/build/approve")) {
            println!("{}", e);
            std::process::exit(2);
        }
    }
    if approve::wants(want) {
        return vec![];
    }
    let list = |s: String| -> Vec<String> { s.split(',').map(|s| s.to_string()).collect() };
    let mut unknown = loader::load_all(&list(o.get("libs", "/verif/build/plugin-release.so,/verif/build/plugin-debug.so")), "sudo_pair", 5);
    if probe::wants(want) {
        unknown.extend(loader::load_all(&list(o.get("probes", "/verif/build/probe-release.so,/verif/build/probe-debug.so")), "probe_set_event", 1));
        if want == "C27" && !loader::has(2, "probe_set_dump") {
            println!("the probe that shows all of the environment does not build");
            std::process::exit(2);
        }
    }
    unknown
}

pub fn mix(base: u64, i: u64) -> u64 {
    let mut s = base.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03);
    splitmix(&mut s)
}

pub fn one(a: &[String]) -> i32 {
    let o = Opts::of(a);
    let want = prop_of(&a[0]);
    let i: u64 = a[1].parse().unwrap();
    let unknown = load(want, &o);
    let sh = Shm::new();
    let r = run_child(&sh, want, Source::Seed(mix(o.num("base", 1), i)), true);
    for t in &r.trace {
        println!("{}", t);
    }
    println!("flavour {} choices {} steps {} sim {}us hash {:x} faults {:?} notes {:?} internal {:?} unknown imports {:?}", r.flavour, r.choices.len(), r.steps, r.sim_us, r.hash, r.faults, r.notes, r.internal, unknown);
    println!("exercised {:?}", PROPS.iter().enumerate().filter(|(i, _)| r.exercised >> i & 1 == 1).map(|(_, p)| p).collect::<Vec<_>>());
    for (k, v) in &r.viol {
        println!("{} {}", k, v);
    }
    let r2 = run_child(&sh, want, Source::List(r.choices.clone()), true);
    if r2.hash != r.hash || r2.trace != r.trace {
        println!("NOT REPRODUCIBLE {:x} {:x}", r.hash, r2.hash);
        for (x, y) in r.trace.iter().zip(&r2.trace) {
            if x != y {
                println!("- {}\n+ {}", x, y);
                break;
            }
        }
    }
    0
}

/// prints one line per run, to compare executions of the same seeds by different processes
pub fn hashes(a: &[String]) -> i32 {
    let o = Opts::of(a);
    let want = prop_of(&a[0]);
    load(want, &o);
    let sh = Shm::new();
    let (base, from, n, step) = (o.num("seed", 1), o.num("from", 0), o.num("runs", 100), o.num("step", 1));
    for i in (from..from + n).step_by(step as usize) {
        let r = run_child(&sh, want, Source::Seed(mix(base, i)), true);
        let mut h = 0xcbf29ce484222325u64;
        for b in r.trace.iter().flat_map(|l| l.bytes()).chain(r.choices.iter().flat_map(|c| c.to_le_bytes())) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        if o.map.contains_key("dump") {
            r.trace.iter().for_each(|l| println!("{}", l));
        }
        println!("{} {:016x} {:016x} {} {} {}", i, r.hash, h, r.choices.len(), r.viol.len(), r.internal.unwrap_or_default());
    }
    0
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn minimise(sh: &Shm, want: &'static str, list: Vec<u32>, secs: u64) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let mut best = list;
    let mut runs = 0u64;
    let mut try_it = |cand: &Vec<u32>| -> Option<Vec<u32>> {
        runs += 1;
        let o = run_child(sh, want, Source::List(cand.clone()), false);
        if o.viol.contains_key(want) {
            let mut c = cand.clone();
            c.truncate(o.choices.len());
            Some(c)
        } else {
            None
        }
    };
    let out = |t0: &Instant| t0.elapsed() > Duration::from_secs(secs);
    // truncate
    let mut len = best.len();
    let mut step = len / 2;
    while step > 0 && !out(&t0) {
        if len > step {
            let c = best[..len - step].to_vec();
            if let Some(b) = try_it(&c) {
                best = b;
                len = best.len();
                step = step.min(len / 2).max(1);
                continue;
            }
        }
        step /= 2;
    }
    // zero, then delete, blocks
    for del in [false, true, false] {
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !out(&t0) {
                let e = (i + size).min(best.len());
                if !del && best[i..e].iter().all(|x| *x == 0) {
                    i = e;
                    continue;
                }
                let mut c = best.clone();
                if del {
                    c.drain(i..e);
                } else {
                    c[i..e].fill(0);
                }
                match try_it(&c) {
                    Some(b) => {
                        best = b;
                        if !del {
                            i = e;
                        }
                    }
                    None => i = e,
                }
            }
            if size == 1 || out(&t0) {
                break;
            }
            size /= 2;
        }
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    (best, runs)
}

struct Known {
    prop: String,
    pattern: String,
    text: String,
}
fn known(o: &Opts) -> Vec<Known> {
    // finding: property=<id> match="<substring of the violation>" <description>
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(o.get("known", "/verif/known_findings.txt")) {
        for l in t.lines() {
            let Some(r) = l.strip_prefix("finding: property=") else { continue };
            let Some((p, r)) = r.split_once(" match=\"") else { continue };
            let Some((m, d)) = r.split_once("\" ") else { continue };
            v.push(Known { prop: p.into(), pattern: m.into(), text: d.into() });
        }
    }
    v
}

#[repr(C)]
struct Ctl {
    stop: u32,
    found: [u32; 64],
    found_i: [u64; 64],
}

struct Agg {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    sim_us: u128,
    sessions: u64,
    internal: u64,
    recheck: u64,
    mismatch: u64,
    debug_runs: u64,
    known: u64,
    faults: BTreeMap<String, u64>,
    notes: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<u64>,
    internal_msg: BTreeSet<String>,
}

pub fn check(a: &[String]) -> i32 {
    let o = Opts::of(a);
    let want = prop_of(&a[0]);
    if want.is_empty() {
        eprintln!("unknown property {}", a[0]);
        return 2;
    }
    let secs = o.num("seconds", 40);
    let base = o.num("seed", 1);
    let workers = o.num("workers", 8).min(64) as usize;
    let maxruns = o.num("runs", u64::MAX);
    let t0 = Instant::now();
    let unknown = load(want, &o);
    let kn = known(&o);
    let tmp = o.get("tmp", "/verif/build/tmp");
    std::fs::create_dir_all(&tmp).ok();
    let ctl = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Ctl>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        p as *mut Ctl
    };
    let me = std::process::id();
    let mut pids = vec![];
    for k in 0..workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let sh = Shm::new();
            let mut g = Agg { runs: 0, nontrivial: 0, steps: 0, sim_us: 0, sessions: 0, internal: 0, recheck: 0, mismatch: 0, debug_runs: 0, known: 0, faults: Default::default(), notes: Default::default(), hashes: Default::default(), samples: vec![], internal_msg: Default::default() };
            let bit = PROPS.iter().position(|p| *p == want).unwrap();
            let mut i = k as u64;
            while t0.elapsed() < Duration::from_secs(secs) && i < maxruns && unsafe { std::ptr::read_volatile(&(*ctl).stop) } == 0 {
                let r = run_child(&sh, want, Source::Seed(mix(base, i)), false);
                g.runs += 1;
                if let Some(m) = &r.internal {
                    g.internal += 1;
                    if g.internal_msg.len() < 3 {
                        g.internal_msg.insert(format!("run {}: {}", i, m));
                    }
                }
                g.steps += r.steps;
                g.sim_us += r.sim_us as u128;
                g.sessions += r.sessions;
                if r.flavour == "debug" {
                    g.debug_runs += 1;
                }
                for (f, n) in &r.faults {
                    *g.faults.entry(f.clone()).or_insert(0) += n;
                }
                for (f, n) in &r.notes {
                    *g.notes.entry(f.clone()).or_insert(0) += n;
                }
                if r.exercised >> bit & 1 == 1 {
                    g.nontrivial += 1;
                    if g.hashes.len() < 6_000_000 {
                        g.hashes.insert(r.hash);
                    }
                    if g.samples.len() < 1 {
                        g.samples.push(i);
                    }
                }
                if let Some(m) = r.viol.get(want) {
                    if kn.iter().any(|x| x.prop == want && m.contains(&x.pattern)) {
                        g.known += 1;
                    } else {
                        unsafe {
                            (*ctl).found_i[k] = i;
                            (*ctl).found[k] = 1;
                            std::ptr::write_volatile(&mut (*ctl).stop, 1);
                        }
                    }
                }
                if i / workers as u64 % 997 == 5 {
                    let r2 = run_child(&sh, want, Source::List(r.choices.clone()), false);
                    g.recheck += 1;
                    if r2.hash != r.hash || r2.viol != r.viol {
                        g.mismatch += 1;
                        g.internal_msg.insert(format!("run {} does not reproduce", i));
                    }
                }
                i += workers as u64;
            }
            let mut t = String::new();
            t.push_str(&format!("A\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", g.runs, g.nontrivial, g.steps, g.sim_us, g.sessions, g.internal, g.recheck, g.mismatch, g.debug_runs, g.known));
            for (k, v) in &g.faults {
                t.push_str(&format!("F\t{}\t{}\n", k, v));
            }
            for (k, v) in &g.notes {
                t.push_str(&format!("N\t{}\t{}\n", k, v));
            }
            for s in &g.samples {
                t.push_str(&format!("S\t{}\n", s));
            }
            for s in &g.internal_msg {
                t.push_str(&format!("I\t{}\n", s));
            }
            std::fs::write(format!("{}/{}-{}.txt", tmp, me, k), t).unwrap();
            let hb: Vec<u8> = g.hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
            std::fs::write(format!("{}/{}-{}.hash", tmp, me, k), hb).unwrap();
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut bad_worker = 0;
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        if st != 0 {
            bad_worker += 1;
        }
    }
    let explore = t0.elapsed().as_secs_f64();
    let mut g = Agg { runs: 0, nontrivial: 0, steps: 0, sim_us: 0, sessions: 0, internal: 0, recheck: 0, mismatch: 0, debug_runs: 0, known: 0, faults: Default::default(), notes: Default::default(), hashes: Default::default(), samples: vec![], internal_msg: Default::default() };
    for k in 0..workers {
        let f = format!("{}/{}-{}.txt", tmp, me, k);
        for l in std::fs::read_to_string(&f).unwrap_or_default().lines() {
            let v: Vec<&str> = l.split('\t').collect();
            let n = |i: usize| v[i].parse::<u64>().unwrap_or(0);
            match v[0] {
                "A" => {
                    g.runs += n(1);
                    g.nontrivial += n(2);
                    g.steps += n(3);
                    g.sim_us += v[4].parse::<u128>().unwrap_or(0);
                    g.sessions += n(5);
                    g.internal += n(6);
                    g.recheck += n(7);
                    g.mismatch += n(8);
                    g.debug_runs += n(9);
                    g.known += n(10);
                }
                "F" => *g.faults.entry(v[1].into()).or_insert(0) += n(2),
                "N" => *g.notes.entry(v[1].into()).or_insert(0) += n(2),
                "S" => g.samples.push(n(1)),
                _ => {
                    g.internal_msg.insert(v[1].into());
                }
            }
        }
        std::fs::remove_file(&f).ok();
        let f = format!("{}/{}-{}.hash", tmp, me, k);
        for c in std::fs::read(&f).unwrap_or_default().chunks_exact(8) {
            g.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
        std::fs::remove_file(&f).ok();
    }
    let mut code = 0;
    let sh = Shm::new();
    let mut violations = 0;
    let found: Vec<u64> = (0..workers).filter(|k| unsafe { (*ctl).found[*k] } == 1).map(|k| unsafe { (*ctl).found_i[k] }).collect();
    if let Some(i) = found.iter().min().copied() {
        violations = 1;
        let seed = mix(base, i);
        let r = run_child(&sh, want, Source::Seed(seed), true);
        let (list, tries) = minimise(&sh, want, r.choices.clone(), o.num("minimise", 25));
        let m = run_child(&sh, want, Source::List(list.clone()), true);
        let (list, m) = if m.viol.contains_key(want) { (list, m) } else { (r.choices.clone(), r.clone()) };
        let again = run_child(&sh, want, Source::List(list.clone()), true);
        let same = again.hash == m.hash && again.trace == m.trace;
        let dir = o.get("out", "/verif/out");
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{}/{}-{:016x}.json", dir, want, seed);
        let msg = m.viol.get(want).cloned().unwrap_or_default();
        let j = format!(
            "{{\n\"property\": {}, \"violation\": {},\n\"seed\": {}, \"base_seed\": {}, \"run\": {}, \"flavour\": {}, \"reproduces_exactly\": {}, \"trace_hash\": \"{:016x}\",\n\"minimised_from\": {}, \"minimiser_runs\": {},\n\"choices\": [{}],\n\"trace\": [\n{}\n]\n}}\n",
            esc(want), esc(&msg), seed, base, i, esc(&m.flavour), same, m.hash, r.choices.len(), tries,
            list.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            m.trace.iter().map(|x| format!("  {}", esc(x))).collect::<Vec<_>>().join(",\n")
        );
        std::fs::write(&path, j).unwrap();
        println!("{}: {}", want, msg);
        println!("run {} (seed {}), {} build, {} choices minimised to {}, replay {}", i, seed, m.flavour, r.choices.len(), list.len(), if same { "reproduces exactly" } else { "DOES NOT REPRODUCE EXACTLY" });
        println!("VIOLATION property={} replay={}", want, path);
        code = 1;
    }
    if g.known > 0 {
        for k in kn.iter().filter(|k| k.prop == want) {
            println!("KNOWN-FINDING: property={} {}", want, k.text);
        }
    }
    // evidence
    let mut samples = vec![];
    for i in g.samples.iter().take(3) {
        let r = run_child(&sh, want, Source::Seed(mix(base, *i)), true);
        let head: Vec<String> = r.trace.iter().take(60).map(|s| s.chars().take(220).collect()).collect();
        samples.push(format!("{{\"run\": {}, \"seed\": {}, \"build\": {}, \"steps\": {}, \"simulated_us\": {}, \"trace_head\": [{}]}}", i, mix(base, *i), esc(&r.flavour), r.steps, r.sim_us, head.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", ")));
    }
    let fmt = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    let wall = t0.elapsed().as_secs_f64();
    let tier = if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { "thorough" } else { "quick" };
    let ev = format!(
        "{{\n\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"wall_s\": {:.2}, \"violations\": {},\n\"coverage\": {{\n\"evaluations\": {}, \"distinct_nontrivial\": {},\n\"rule\": {},\n\"runs_that_exercised_the_property\": {}, \"runs_per_hour\": {}, \"seeds\": \"mix(VERIF_SEED={}, run number)\", \"first_run\": 0, \"sessions_simulated\": {}, \"scheduling_steps\": {}, \"simulated_seconds\": {:.0},\n\"debug_build_runs\": {}, \"replay_rechecks\": {}, \"replay_mismatches\": {}, \"internal_errors\": {}, \"internal_messages\": [{}],\n\"faults_injected\": {},\n\"events\": {},\n\"known_findings_hit\": {},\n\"real_code\": {},\n\"stubbed\": {},\n\"imports_left_to_the_real_c_library_and_unclassified\": [{}],\n\"samples\": [{}]\n}},\n\"assumptions\": [\"x86-64 Linux semantics of the simulated calls\", \"sudo's front end calls the plugin from one thread and stops after a callback that does not return success unless the run says otherwise\"]\n}}\n",
        esc(want), esc(tier), base, wall, violations,
        g.runs, g.hashes.len(),
        esc(if approve::wants(want) { approve::RULE } else if e2e::wants(want) { e2e::RULE } else if probe::wants(want) { probe::RULE } else { "one run = one seed = one generated world (requests, accounts, directory, templates, terminal, approvers, interference), one seeded schedule and one seeded fault plan; it is non-trivial when the property's own condition arose in it, and two runs are distinct when their sequences of (task, system call, outcome class) differ (64-bit hash)" }),
        g.nontrivial, (g.runs as f64 / explore * 3600.0) as u64, base, g.sessions, g.steps, g.sim_us as f64 / 1e6,
        g.debug_runs, g.recheck, g.mismatch, g.internal, g.internal_msg.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        fmt(&g.faults), fmt(&g.notes), g.known,
        esc(if approve::wants(want) { approve::REAL } else if e2e::wants(want) { e2e::REAL } else if probe::wants(want) { "the sudo_plugin framework (release and debug builds) with a scripted plugin, loaded as a shared library and driven through its C entry points" } else { "libsudo_pair.so (release and debug builds of the working tree: sudo_pair, sudo_plugin, sudo_plugin-sys and their dependencies, with Rust's standard library), unmodified, driven through its C entry points" }),
        esc(if approve::wants(want) { approve::STUBBED } else if e2e::wants(want) { e2e::STUBBED } else { "the C library calls the plugin imports (file system, sockets, signals, clocks, descriptors, allocation failure), the kernel behind them, sudo's front end, the approvers, other users, the system logger, the terminal" }),
        unknown.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        samples.join(",\n")
    );
    let evf = o.get("evidence", &format!("/verif/evidence/{}.json", want));
    if let Some(d) = std::path::Path::new(&evf).parent() {
        std::fs::create_dir_all(d).ok();
    }
    std::fs::write(&evf, ev).expect("evidence file");
    println!("{}: {} runs, {} exercised the property ({} distinct), {:.0} runs/s, {} fault kinds, {} internal errors, {} replay rechecks with {} mismatches", want, g.runs, g.nontrivial, g.hashes.len(), g.runs as f64 / explore, g.faults.len(), g.internal, g.recheck, g.mismatch);
    for m in &g.internal_msg {
        println!("note: {}", m);
    }
    if code == 0 && (bad_worker > 0 || g.runs == 0 || g.internal * 50 > g.runs) {
        println!("the check itself failed: {} workers failed, {} of {} runs gave no result", bad_worker, g.internal, g.runs);
        return 2;
    }
    if code == 0 && g.nontrivial == 0 {
        println!("the check itself failed: no run exercised the property");
        return 2;
    }
    code
}

fn json_field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    let i = t.find(&format!("\"{}\":", k))?;
    Some(t[i + k.len() + 3..].trim_start())
}

pub fn replay(a: &[String]) -> i32 {
    let o = Opts::of(a);
    let t = std::fs::read_to_string(&a[0]).expect("replay file");
    let p: String = json_field(&t, "property").unwrap()[1..].chars().take_while(|c| *c != '"').collect();
    let want = prop_of(&p);
    let l = json_field(&t, "choices").unwrap();
    let l = &l[1..l.find(']').unwrap()];
    let list: Vec<u32> = l.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    let hash: String = json_field(&t, "trace_hash").unwrap()[1..].chars().take_while(|c| *c != '"').collect();
    load(want, &o);
    let sh = Shm::new();
    let r = run_child(&sh, want, Source::List(list), true);
    for x in &r.trace {
        println!("{}", x);
    }
    println!("trace hash {:016x}, recorded {}", r.hash, hash);
    match r.viol.get(want) {
        Some(m) => {
            println!("{}: {}", want, m);
            println!("VIOLATION property={} replay={}", want, a[0]);
            1
        }
        None => {
            println!("no violation of {} with this tree", want);
            0
        }
    }
}
