//! One simulated invocation of sudo: its parameters, the reference reading of them, and the front end that drives the
//! real plugin through its C entry points.
use crate::kernel::*;
use crate::oracle;
use crate::sched::*;
use crate::shims::{enter, Op};
use std::collections::{BTreeMap, BTreeSet};
use std::os::raw::{c_char, c_int, c_uint, c_void};

pub type B = Vec<u8>;

#[repr(C)]
pub struct IoPluginC {
    pub type_: c_uint,
    pub version: c_uint,
    pub open: Option<unsafe extern "C" fn(c_uint, *const c_void, *const c_void, *const *mut c_char, *const *mut c_char, *const *mut c_char, c_int, *const *mut c_char, *const *mut c_char, *const *mut c_char, *mut *const c_char) -> c_int>,
    pub close: Option<unsafe extern "C" fn(c_int, c_int)>,
    pub show_version: Option<unsafe extern "C" fn(c_int) -> c_int>,
    pub log: [Option<unsafe extern "C" fn(*const c_char, c_uint, *mut *const c_char) -> c_int>; 5],
    pub reg: usize,
    pub dereg: usize,
    pub winsize: Option<unsafe extern "C" fn(c_uint, c_uint, *mut *const c_char) -> c_int>,
    pub suspend: usize,
    pub event_alloc: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub api: u32,
    pub settings: Vec<B>,
    pub user_info: Vec<B>,
    pub command_info: Vec<B>,
    pub options: Vec<B>,
    pub env: Vec<B>,
    pub argv: Vec<B>,
    pub null_lists: bool,
    pub null_command: bool,
    pub printf_null: bool,
    pub printf_fail: u32,
    pub printf_errno: i32,
    pub cred: Cred,
    pub pid: i32,
    pub umask: u32,
    pub sig_mode: u32,
    /// sudo was started without SIGPIPE being ignored
    pub pipe_dfl: bool,
    pub fd_base: i32,
    pub nofile: i32,
    pub user_tpl_path: B,
    pub pair_tpl_path: B,
    pub tpl_inos: (Option<Ino>, Option<Ino>),
    pub cbs: Vec<Cb>,
    pub verbose_version: bool,
    pub keep_going: bool,
    pub fork: bool,
    pub post: u32,
    pub close_codes: (i32, i32),
}

#[derive(Clone, Debug)]
pub enum Cb {
    Log(usize, B),
    Winsize(u32, u32),
    Sleep(u64),
    Version,
}
pub const TTYIN: usize = 0;
pub const TTYOUT: usize = 1;
pub const STDIN: usize = 2;
pub const STDOUT: usize = 3;
pub const STDERR: usize = 4;
pub const STREAMS: [&str; 5] = ["ttyin", "ttyout", "stdin", "stdout", "stderr"];

/// What the documentation says about these parameters, computed without the plugin's code.
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub api_bad: bool,
    pub bad_keys: Vec<&'static str>,
    pub version_query: bool,
    pub gated: bool,
    pub why: &'static str,
    pub user_change: bool,
    pub group_given: bool,
    pub runas_euid: u32,
    pub runas_egid: u32,
    pub uid: u32,
    pub gid: u32,
    pub pid: i32,
    pub dir: B,
    pub path: B,
    pub exp: BTreeMap<u8, B>,
    pub tty: Option<B>,
    pub hints: [bool; 5],
}

pub type Map = BTreeMap<B, B>;
pub fn map_of(l: &[B]) -> Map {
    let mut m = Map::new();
    for e in l {
        match e.iter().position(|c| *c == b'=') {
            Some(i) => m.insert(e[..i].to_vec(), e[i + 1..].to_vec()),
            None => m.insert(e.clone(), e.clone()),
        };
    }
    m
}
fn st<'a>(m: &'a Map, k: &str) -> Option<&'a str> {
    m.get(k.as_bytes()).and_then(|v| std::str::from_utf8(v).ok())
}
fn num<T: std::str::FromStr>(m: &Map, k: &str) -> Option<T> {
    st(m, k).and_then(|v| v.parse().ok())
}
fn gids(s: Option<&str>) -> Option<BTreeSet<u32>> {
    s.and_then(|s| s.split(',').map(|x| x.parse::<u32>().ok()).collect())
}
fn flag(m: &Map, k: &str) -> bool {
    st(m, k) == Some("true")
}
fn path_of(b: &[u8]) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStrExt;
    std::ffi::OsStr::from_bytes(b).into()
}

impl Model {
    pub fn of(s: &Spec) -> Model {
        let se = map_of(&s.settings);
        let ui = map_of(&s.user_info);
        let ci = map_of(&s.command_info);
        let op = map_of(&s.options);
        let mut m = Model::default();
        m.api_bad = (s.api >> 16, s.api & 0xffff) < (1, 9);
        for k in ["plugin_dir", "plugin_path", "progname"] {
            if st(&se, k).is_none() {
                m.bad_keys.push(k);
            }
        }
        for k in ["host", "user"] {
            if st(&ui, k).is_none() {
                m.bad_keys.push(k);
            }
        }
        if !ui.contains_key(&b"cwd"[..]) {
            m.bad_keys.push("cwd");
        }
        for k in ["egid", "euid", "gid", "uid"] {
            if num::<u32>(&ui, k).is_none() {
                m.bad_keys.push(k);
            }
        }
        for k in ["pgid", "pid", "ppid"] {
            if num::<i32>(&ui, k).is_none() {
                m.bad_keys.push(k);
            }
        }
        let groups = gids(st(&ui, "groups"));
        if groups.is_none() {
            m.bad_keys.push("groups");
        }
        let command = ci.get(&b"command"[..]).cloned().unwrap_or_default();
        m.version_query = command.is_empty();
        m.uid = num(&ui, "uid").unwrap_or(0);
        m.gid = num(&ui, "gid").unwrap_or(0);
        m.pid = num(&ui, "pid").unwrap_or(0);
        let euid: u32 = num(&ui, "euid").unwrap_or(0);
        let groups = groups.unwrap_or_default();
        let ruid = num(&ci, "runas_uid").unwrap_or(s.cred.euid);
        let rgid = num(&ci, "runas_gid").unwrap_or(s.cred.egid);
        m.runas_euid = num(&ci, "runas_euid").unwrap_or(ruid);
        m.runas_egid = num(&ci, "runas_egid").unwrap_or(rgid);
        m.user_change = m.uid != m.runas_euid;
        m.group_given = se.contains_key(&b"runas_group"[..]);
        let bin = st(&op, "binary_path").unwrap_or("/usr/bin/sudo_approve").to_string();
        for (i, k) in STREAMS.iter().enumerate() {
            m.hints[i] = flag(&ci, &format!("iolog_{}", k));
        }
        let enforced = gids(st(&op, "gids_enforced")).unwrap_or_else(|| [0].into_iter().collect());
        let exempted = gids(st(&op, "gids_exempted")).unwrap_or_default();
        let mut gained = gids(st(&ci, "runas_groups")).unwrap_or_else(|| groups.clone());
        gained.insert(m.runas_egid);
        m.why = if m.uid == euid {
            "root"
        } else if !m.user_change && m.gid == m.runas_egid {
            "self"
        } else if path_of(&command) == path_of(bin.as_bytes()) {
            "approver"
        } else if !m.hints[TTYOUT] && !m.hints[STDOUT] && !m.hints[STDERR] {
            "nolog"
        } else if groups.intersection(&exempted).next().is_some() {
            "exempted-group"
        } else if gained.intersection(&enforced).next().is_none() {
            "unenforced"
        } else {
            m.gated = true;
            "gated"
        };
        m.dir = st(&op, "socket_dir").unwrap_or("/var/run/sudo_pair").as_bytes().to_vec();
        m.path = m.dir.clone();
        if m.path.last() != Some(&b'/') && !m.path.is_empty() {
            m.path.push(b'/');
        }
        m.path.extend(format!("{}.{}.sock", m.uid, m.pid).bytes());
        m.tty = st(&ui, "tty").map(|t| t.as_bytes().to_vec());
        // expansions
        let name = path_of(bin.as_bytes()).file_name().map(|n| { use std::os::unix::ffi::OsStrExt; n.as_bytes().to_vec() }).unwrap_or(bin.clone().into_bytes());
        let mut cmd = se.get(&b"progname"[..]).cloned().unwrap_or_default();
        let mut f = |x: B| {
            cmd.push(b' ');
            cmd.extend(x);
        };
        if flag(&se, "sudoedit") && st(&se, "progname") != Some("sudoedit") {
            f(b"--edit".to_vec());
        }
        let val = |k: &str, n: &str| se.get(k.as_bytes()).map(|v| [n.as_bytes(), b" ", v].concat());
        for (k, n) in [("runas_user", "--user"), ("runas_group", "--group"), ("prompt", "--prompt")] {
            if let Some(v) = val(k, n) {
                f(v);
            }
        }
        for (k, n) in [
            ("login_shell", "--login"),
            ("run_shell", "--shell"),
            ("set_home", "--set-home"),
            ("preserve_environment", "--preserve-env"),
            ("preserve_groups", "--preserve-groups"),
            ("ignore_ticket", "--reset-timestamp"),
            ("noninteractive", "--non-interactive"),
        ] {
            if flag(&se, k) {
                f(n.as_bytes().to_vec());
            }
        }
        for (k, n) in [("login_class", "--login-class"), ("selinux_role", "--role"), ("selinux_type", "--type"), ("bsdauth_type", "--auth-type")] {
            if let Some(v) = val(k, n) {
                f(v);
            }
        }
        if let Some(v) = num::<u64>(&se, "closefrom") {
            f(format!("--close-from {}", v).into_bytes());
        }
        for (k, n) in [("remote_host", "--host"), ("timeout", "--command-timeout"), ("cmnd_cwd", "--chdir"), ("cmnd_chroot", "--chroot")] {
            if let Some(v) = val(k, n) {
                f(v);
            }
        }
        if st(&se, "update_ticket") == Some("false") {
            f(b"--no-update".to_vec());
        }
        for a in &s.argv {
            f(a.clone());
        }
        let e = &mut m.exp;
        e.insert(b'b', name);
        e.insert(b'B', bin.into_bytes());
        e.insert(b'C', cmd);
        e.insert(b'd', ci.get(&b"cwd"[..]).or(ui.get(&b"cwd"[..])).cloned().unwrap_or_default());
        e.insert(b'h', ui.get(&b"host"[..]).cloned().unwrap_or_default());
        e.insert(b'H', num::<u64>(&ui, "lines").unwrap_or(24).to_string().into_bytes());
        e.insert(b'g', m.gid.to_string().into_bytes());
        e.insert(b'p', m.pid.to_string().into_bytes());
        e.insert(b'u', m.uid.to_string().into_bytes());
        e.insert(b'U', ui.get(&b"user"[..]).cloned().unwrap_or_default());
        e.insert(b'W', num::<u64>(&ui, "cols").unwrap_or(80).to_string().into_bytes());
        m
    }
    pub fn params_ok(&self) -> bool {
        !self.api_bad && self.bad_keys.is_empty()
    }
    pub fn conflict(&self) -> bool {
        self.user_change && self.group_given
    }
    /// neither another user nor -g, yet another primary group: cannot happen through sudo itself, never approvable
    pub fn odd(&self) -> bool {
        !self.user_change && !self.group_given
    }
    pub fn expand(&self, t: &[u8]) -> B {
        let mut out = vec![];
        let mut i = 0;
        while i < t.len() {
            if t[i] == b'%' {
                i += 1;
                if i < t.len() {
                    match self.exp.get(&t[i]) {
                        Some(v) => out.extend_from_slice(v),
                        None => out.push(t[i]),
                    }
                    i += 1;
                }
            } else {
                out.push(t[i]);
                i += 1;
            }
        }
        out
    }
    /// may these credentials act as the account this session becomes?
    pub fn authorised(&self, c: &Cred) -> bool {
        if c.cap {
            return true;
        }
        if self.user_change {
            c.euid == self.runas_euid
        } else if self.group_given {
            c.egid == self.runas_egid || c.groups.contains(&self.runas_egid)
        } else {
            false
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Phase {
    Pre,
    Open,
    Running,
    Closing,
    Closed,
    Done,
}

#[derive(Clone)]
pub struct Before {
    pub umask: u32,
    pub cwd: B,
    pub cred: Cred,
    pub sigs: Vec<(usize, i32, u64)>,
    pub fds: BTreeSet<i32>,
    pub squat: Option<(Ino, u32, bool)>,
    pub stale: bool,
    pub dir_ok: bool,
    pub dir: Option<Vec<(B, Ino, u32)>>,
    pub user_tpl: Option<B>,
    pub pair_tpl: Option<B>,
}

pub struct Sess {
    pub id: usize,
    pub spec: Spec,
    pub m: Model,
    pub proc: usize,
    pub path: B,
    pub phase: Phase,
    pub before: Option<Before>,
    pub start_at: u64,
    pub yields: u64,
    pub kill_at: u64,
    pub sig_at: u64,
    pub sig_no: i32,
    pub signals: u32,
    pub blocks: u32,
    pub died: Option<i32>,
    pub hard_faults: u32,
    pub aux_faults: u32,
    pub tpl_fault_user: bool,
    pub tpl_fault_pair: bool,
    pub tty_fault: bool,
    pub removal_fault: bool,
    pub accept_done: bool,
    pub send_err: bool,
    pub recv_fault: bool,
    pub saw_eof: bool,
    pub oom: bool,
    pub open_ret: Option<i32>,
    pub closed: bool,
    pub bound: u32,
    pub bound_ino: Option<Ino>,
    pub reach_key: (u32, u32, bool),
    pub accepted: Vec<usize>,
    pub waited: bool,
    pub last_wait: u8,
    /// the session and file whose lock this one waits for
    pub lock_wait: Option<(usize, crate::kernel::Ino)>,
    pub poked: bool,
    pub answer_wait: bool,
    pub int_in_wait: bool,
    pub recv_started: bool,
    pub prompt_len: usize,
    pub err_out: B,
    pub info_out: B,
    pub printf_calls: u64,
    pub printf_failed: bool,
    pub clean_approver: bool,
    pub any_unwilling: bool,
    pub intruder_admin: bool,
    pub next: Option<Box<Spec>>,
    pub refs_lost: bool,
    pub cb_log: Vec<(u8, i32)>,
}

impl Sess {
    pub fn new(id: usize, spec: Spec, proc: usize, start_at: u64) -> Sess {
        let m = Model::of(&spec);
        Sess {
            id,
            path: m.path.clone(),
            spec,
            m,
            proc,
            phase: Phase::Pre,
            before: None,
            start_at,
            yields: 0,
            kill_at: 0,
            sig_at: 0,
            sig_no: libc::SIGINT,
            signals: 0,
            blocks: 0,
            died: None,
            hard_faults: 0,
            aux_faults: 0,
            tpl_fault_user: false,
            tpl_fault_pair: false,
            tty_fault: false,
            removal_fault: false,
            accept_done: false,
            send_err: false,
            recv_fault: false,
            saw_eof: false,
            oom: false,
            open_ret: None,
            closed: false,
            bound: 0,
            bound_ino: None,
            reach_key: (0, 0, false),
            accepted: vec![],
            waited: false,
            last_wait: 0,
            lock_wait: None,
            poked: false,
            answer_wait: false,
            int_in_wait: false,
            recv_started: false,
            prompt_len: 0,
            err_out: vec![],
            info_out: vec![],
            printf_calls: 0,
            printf_failed: false,
            clean_approver: false,
            any_unwilling: false,
            intruder_admin: false,
            next: None,
            refs_lost: false,
            cb_log: vec![],
        }
    }
    pub fn phase_is_open(&self) -> bool {
        self.phase == Phase::Open
    }
    pub fn live(&self) -> bool {
        matches!(self.phase, Phase::Open | Phase::Running | Phase::Closing) && self.died.is_none()
    }
    /// nothing was injected into this session that could legitimately make it fail
    pub fn undisturbed(&self, aux_ok: bool) -> bool {
        self.hard_faults == 0 && (aux_ok || self.aux_faults == 0) && self.signals == 0 && self.kill_at == 0 && !self.oom && self.died.is_none()
    }
}

extern "C" fn front_end_handler(_s: c_int) {}

// the front end's variadic print function: collect the arguments and hand them to sim_vprintf
std::arch::global_asm!(
    ".text",
    ".global sim_printf",
    "sim_printf:",
    "push rbp",
    "mov rbp, rsp",
    "sub rsp, 224",
    "mov [rsp+0], rdi",
    "mov [rsp+8], rsi",
    "mov [rsp+16], rdx",
    "mov [rsp+24], rcx",
    "mov [rsp+32], r8",
    "mov [rsp+40], r9",
    "movaps [rsp+48], xmm0",
    "movaps [rsp+64], xmm1",
    "movaps [rsp+80], xmm2",
    "movaps [rsp+96], xmm3",
    "movaps [rsp+112], xmm4",
    "movaps [rsp+128], xmm5",
    "movaps [rsp+144], xmm6",
    "movaps [rsp+160], xmm7",
    "mov dword ptr [rsp+176], 16",
    "mov dword ptr [rsp+180], 48",
    "lea rax, [rbp+16]",
    "mov [rsp+184], rax",
    "mov [rsp+192], rsp",
    "lea rdx, [rsp+176]",
    "call sim_vprintf",
    "leave",
    "ret",
);
extern "C" {
    pub fn sim_printf();
    fn vsnprintf(out: *mut c_char, n: usize, fmt: *const c_char, ap: *mut c_void) -> c_int;
}
pub const ERROR_MSG: c_int = 3;
pub const INFO_MSG: c_int = 4;

/// Is the text of this format constant, or at most made of plain string directives?
fn fmt_is_safe(f: &[u8]) -> bool {
    let mut i = 0;
    while i < f.len() {
        if f[i] == b'%' {
            let r = &f[i + 1..];
            if r.starts_with(b"%") {
                i += 1;
            } else if r.starts_with(b"s") || r.starts_with(b"c") {
                i += 1;
            } else if r.starts_with(b".*s") {
                i += 3;
            } else {
                return false;
            }
        }
        i += 1;
    }
    true
}

#[no_mangle]
unsafe extern "C" fn sim_vprintf(level: c_int, fmt: *const c_char, ap: *mut c_void) -> c_int {
    let f = std::ffi::CStr::from_ptr(fmt).to_bytes().to_vec();
    let wd = w();
    let p = wd.tasks[wd.cur].proc;
    let s = wd.k.procs[p].sess;
    enter(Op::printf);
    let wd = w();
    let mut text;
    if crate::loader::is_constant(fmt as usize) || fmt_is_safe(&f) {
        let mut ap2 = [0u8; 24];
        std::ptr::copy_nonoverlapping(ap as *const u8, ap2.as_mut_ptr(), 24);
        let n = vsnprintf(std::ptr::null_mut(), 0, fmt, ap2.as_mut_ptr() as *mut c_void);
        let n = n.max(0) as usize;
        text = vec![0u8; n + 1];
        vsnprintf(text.as_mut_ptr() as *mut c_char, n + 1, fmt, ap);
        text.pop();
    } else {
        let msg = format!("run-time text passed to the front end as a format string: {:?}", String::from_utf8_lossy(&f));
        wd.violate("C15", msg.clone());
        wd.violate("C21", msg);
        text = f;
    }
    let mut fail = false;
    match s {
        Some(s) => {
            let se = &mut wd.sess[s];
            se.printf_calls += 1;
            let pf = se.spec.printf_fail;
            fail = pf > 0 && wd.ch.chance(pf, 16);
            let se = &mut wd.sess[s];
            if fail {
                se.printf_failed = true;
                *wd.faults.entry("printf:-1".into()).or_insert(0) += 1;
            } else if level == ERROR_MSG {
                se.err_out.extend_from_slice(&text);
            } else {
                se.info_out.extend_from_slice(&text);
            }
        }
        None => {}
    }
    let printed = crate::probe::on_print(wd, level, &text, &mut fail);
    wd.ev(Op::printf as u32, if fail { -1 } else { 0 });
    wd.log(|| format!("sudo_printf(level {}, {:?}){}", level, String::from_utf8_lossy(&text), if fail { " = -1".into() } else if s.is_none() { format!(" = {}", printed) } else { String::new() }));
    if fail {
        // printing functions need not say why they failed: an old errno may
        // still be there
        let e = s.map_or(crate::probe::errno(), |s| w().sess[s].spec.printf_errno);
        *libc::__errno_location() = e;
        return printed;
    }
    if s.is_none() { printed } else { text.len() as c_int }
}

/// NULL-terminated array of C strings living for the whole run
pub fn c_list(l: &[B]) -> *const *mut c_char {
    let mut v: Vec<*mut c_char> = vec![];
    for e in l {
        let mut b = e.clone();
        b.push(0);
        v.push(Box::leak(b.into_boxed_slice()).as_mut_ptr() as *mut c_char);
    }
    v.push(std::ptr::null_mut());
    Box::leak(v.into_boxed_slice()).as_ptr()
}

pub fn setup_signals(p: &mut Proc, mode: u32, pipe_dfl: bool) {
    let mut none: libc::sigaction = unsafe { std::mem::zeroed() };
    none.sa_sigaction = libc::SIG_DFL;
    p.sig = vec![SigAct(none); 65];
    let mut a = none;
    a.sa_sigaction = front_end_handler as usize;
    a.sa_flags = libc::SA_RESTART;
    unsafe { libc::sigfillset(&mut a.sa_mask) };
    for s in [libc::SIGTERM, libc::SIGHUP, libc::SIGQUIT, libc::SIGCHLD, libc::SIGUSR1, libc::SIGALRM, libc::SIGTSTP] {
        p.sig[s as usize] = SigAct(a);
    }
    match mode {
        0 => {}
        1 => a.sa_flags = 0,
        2 => {
            a.sa_sigaction = libc::SIG_IGN;
            a.sa_flags = 0;
        }
        _ => {
            a.sa_flags = libc::SA_RESTART | libc::SA_SIGINFO;
            unsafe { libc::sigemptyset(&mut a.sa_mask) };
        }
    }
    p.sig[libc::SIGINT as usize] = SigAct(a);
    let mut ign = none;
    ign.sa_sigaction = libc::SIG_IGN;
    if !pipe_dfl {
        p.sig[libc::SIGPIPE as usize] = SigAct(ign);
    }
}

pub fn sig_view(p: &Proc) -> Vec<(usize, i32, u64)> {
    p.sig.iter().map(|a| (a.0.sa_sigaction, a.0.sa_flags & !0x0400_0000, unsafe { *(&a.0.sa_mask as *const _ as *const u64) })).collect()
}

/// the body of one simulated sudo process
pub fn sudo_main(s: usize, copy: usize) {
    let at = w().sess[s].start_at;
    if at > w().k.now {
        let d = at - w().k.now;
        sleep(d);
    }
    let api = crate::loader::plugin(w().flavour, copy) as *const IoPluginC;
    let spec = w().sess[s].spec.clone();
    oracle::before_open(w(), s);
    let nul: *const *mut c_char = std::ptr::null();
    let lists: Vec<_> = [&spec.settings, &spec.user_info, &spec.command_info, &spec.argv, &spec.env, &spec.options].iter().map(|l| c_list(l)).collect();
    let mut errstr: *const c_char = std::ptr::null();
    w().sess[s].phase = Phase::Open;
    let pf = if spec.printf_null { std::ptr::null() } else { sim_printf as *const c_void };
    let r = unsafe {
        w().in_plugin = true;
        ((*api).open.unwrap())(
            spec.api,
            std::ptr::null(),
            pf,
            if spec.null_lists { nul } else { lists[0] },
            if spec.null_lists { nul } else { lists[1] },
            if spec.null_command { nul } else { lists[2] },
            spec.argv.len() as c_int,
            if spec.null_command && spec.argv.is_empty() { nul } else { lists[3] },
            lists[4],
            if spec.options.is_empty() { nul } else { lists[5] },
            &mut errstr,
        )
    };
    w().log(|| format!("== open returned {}", r));
    w().ev(2000, r as i64);
    w().sess[s].open_ret = Some(r);
    oracle::on_return(w(), s);
    oracle::after_open(w(), s, r);
    if r == 1 {
        w().sess[s].phase = Phase::Running;
        if spec.fork {
            w().log(|| "== forks the process that runs the command".into());
            let p = w().sess[s].proc;
            w().k.fork_child(p);
        }
        if w().sess[s].m.version_query {
            let v = unsafe { ((*api).show_version.unwrap())(spec.verbose_version as c_int) };
            w().log(|| format!("== show_version returned {}", v));
        }
        for cb in &spec.cbs {
            let stop = callback(s, api, cb);
            if stop && !spec.keep_going {
                break;
            }
        }
        w().sess[s].phase = Phase::Closing;
        w().log(|| "== close".into());
        unsafe { ((*api).close.unwrap())(spec.close_codes.0, spec.close_codes.1) };
        w().sess[s].phase = Phase::Closed;
        oracle::after_close(w(), s);
        let p = w().sess[s].proc;
        w().k.child_exits(p);
    } else {
        w().sess[s].phase = Phase::Closed;
    }
    for i in 0..spec.post {
        let cb = match i {
            0 => Cb::Log(TTYOUT, b"late output".to_vec()),
            1 => Cb::Winsize(10, 20),
            _ => Cb::Log(STDIN, b"late input".to_vec()),
        };
        let r = raw_callback(api, &cb);
        oracle::after_late_callback(w(), s, r);
    }
    w().sess[s].phase = Phase::Done;
    let p = w().sess[s].proc;
    w().log(|| "== sudo exits".into());
    w().k.exit_proc(p);
}

fn raw_callback(api: *const IoPluginC, cb: &Cb) -> i32 {
    let mut errstr: *const c_char = std::ptr::null();
    unsafe {
        match cb {
            Cb::Log(k, d) => ((*api).log[*k].unwrap())(d.as_ptr() as *const c_char, d.len() as c_uint, &mut errstr),
            Cb::Winsize(l, c) => ((*api).winsize.unwrap())(*l, *c, &mut errstr),
            Cb::Version => ((*api).show_version.unwrap())(0),
            Cb::Sleep(_) => 1,
        }
    }
}

/// returns true when sudo would now terminate the command
fn callback(s: usize, api: *const IoPluginC, cb: &Cb) -> bool {
    if let Cb::Sleep(us) = cb {
        sleep(*us);
        return false;
    }
    // the command runs for a while between callbacks
    yield_now();
    let b = oracle::before_callback(w(), s, cb);
    let r = raw_callback(api, cb);
    w().log(|| match cb {
        Cb::Log(k, d) => format!("== log_{}({} bytes) returned {}", STREAMS[*k], d.len(), r),
        Cb::Winsize(l, c) => format!("== change_winsize({}, {}) returned {}", l, c, r),
        _ => format!("== show_version returned {}", r),
    });
    w().ev(3000, r as i64);
    oracle::after_callback(w(), s, cb, b, r);
    oracle::on_return(w(), s);
    r != 1 && !matches!(cb, Cb::Version)
}
