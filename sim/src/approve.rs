//! The approval script: the real script in the real bash, as an unprivileged user, with every command it runs, its
//! identity, the sockets it looks at, its terminal and the signals it gets decided here.
use crate::scenario::{one, pct, rb};
use crate::sched::*;
use libc::*;
use std::ffi::CString;
use std::os::unix::fs::PermissionsExt;

pub const RULE: &str = "one run = one seed = one generated invocation of the approval script (caller, nesting, arguments, environment, sockets, accounts, sudo policy) with one plan of failing commands, ends of the connection and signals; it is non-trivial when the property's own condition arose in it, and two runs are distinct when their sequences of (command, outcome) differ (64-bit hash)";
pub const REAL: &str = "sample/bin/sudo_approve of the working tree, run by the real bash with the real cut and basename";
pub const STUBBED: &str = "sudo, socat, stat, id, getent, stty, clear and the like, the access and stat calls of bash itself, its account, the terminal, the approval sockets";

pub fn wants(p: &str) -> bool {
    matches!(p, "C23" | "C24" | "C25")
}

pub static mut DIR: String = String::new();
const STUBS: [&str; 18] = ["socat", "sudo", "stat", "id", "getent", "stty", "clear", "canary", "whoami", "logname", "tput", "reset", "nc", "ncat", "tty", "sleep", "su", "doas"];
const LIFE: i32 = 190;

/// put the script and the stand-ins where an unprivileged user can run them
pub fn setup(script: &str, parts: &str) -> Result<(), String> {
    let d = format!("/tmp/verif-approve-{}", std::process::id());
    let e = |x: std::io::Error| format!("{}: {}", d, x);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(format!("{}/bin", d)).map_err(e)?;
    let put = |from: &str, to: String| -> Result<(), String> {
        std::fs::copy(from, &to).map_err(|x| format!("{}: {}", from, x))?;
        std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755)).map_err(e)
    };
    put(&format!("{}/stub", parts), format!("{}/stub", d))?;
    put(&format!("{}/preload.so", parts), format!("{}/preload.so", d))?;
    put(script, format!("{}/sudo_approve", d))?;
    for s in STUBS {
        std::os::unix::fs::symlink("../stub", format!("{}/bin/{}", d, s)).map_err(e)?;
    }
    for x in [d.clone(), format!("{}/bin", d)] {
        std::fs::set_permissions(&x, std::fs::Permissions::from_mode(0o755)).map_err(e)?;
    }
    unsafe { DIR = d };
    Ok(())
}
pub fn cleanup() {
    unsafe {
        if DIR.starts_with("/tmp/verif-approve-") {
            let _ = std::fs::remove_dir_all(&DIR);
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
struct Tty {
    icanon: bool,
    echo: bool,
    isig: bool,
    intr: u8,
    rest: u64,
}
impl Tty {
    fn save(&self) -> String {
        format!("{:x}:{:x}:bf:{:x}:1c:7f", self.isig as u32 + self.icanon as u32 * 2 + self.echo as u32 * 8, self.intr, self.rest)
    }
    fn load(s: &str) -> Option<Tty> {
        let f: Vec<u64> = s.split(':').map(|x| u64::from_str_radix(x, 16).ok()).collect::<Option<_>>()?;
        if f.len() != 6 {
            return None;
        }
        Some(Tty { isig: f[0] & 1 != 0, icanon: f[0] & 2 != 0, echo: f[0] & 8 != 0, intr: f[1] as u8, rest: f[3] })
    }
}

#[derive(Clone)]
struct Level {
    uid: u32,
    gid: u32,
    groups: Vec<u32>,
    sudo_uid: Option<String>,
    chain: Vec<u32>,
}
impl Level {
    /// who is approving, by sudo's record
    fn ident(&self) -> u32 {
        self.sudo_uid.as_ref().and_then(|s| s.parse().ok()).unwrap_or(self.uid)
    }
}

const USERS: [(u32, &str, u32); 7] = [(0, "root", 0), (1000, "alice", 1000), (1001, "mallory", 1001), (2000, "bob", 2000), (2001, "carol", 2001), (3000, "svc-app", 3000), (3001, "svc.db_2", 3000)];
const GROUPS: [(u32, &str); 8] = [(0, "root"), (600, "wheel-ops"), (700, "dba"), (1000, "alice"), (1001, "mallory"), (2000, "bob"), (2001, "carol"), (3000, "svc")];
fn groups_of(u: u32) -> Vec<u32> {
    match u {
        2000 => vec![2000, 600],
        2001 => vec![2001, 700],
        1000 => vec![1000, 700],
        0 => vec![0],
        3000 | 3001 => vec![3000],
        _ => vec![u],
    }
}

#[derive(Clone, Debug)]
struct Sock {
    path: String,
    uid: u32,
    gid: u32,
    mode: u32,
}
impl Sock {
    fn writable(&self, uid: u32, gid: u32, groups: &[u32]) -> bool {
        if uid == 0 {
            true
        } else if uid == self.uid {
            self.mode & 0o200 != 0
        } else if gid == self.gid || groups.contains(&self.gid) {
            self.mode & 0o020 != 0
        } else {
            self.mode & 0o002 != 0
        }
    }
}

struct Sim {
    args: Vec<Vec<u8>>,
    valid: bool,
    /// the sockets these arguments may be taken to name, with the uid each names
    named: Vec<(String, i128)>,
    main: Option<Sock>,
    decoys: bool,
    no_user: bool,
    no_group: bool,
    tty: Tty,
    tty0: Tty,
    levels: Vec<Level>,
    connected: u32,
    sudos: u32,
    faults: u32,
    restore_fault: bool,
    signals: u32,
    max_signals: u32,
    fault_rate: u32,
    requests: u32,
    pgid: i32,
    used: Vec<String>,
}

fn hostile() -> Vec<u8> {
    let l: [&[u8]; 58] = [
        b"a[$(canary)]", b"x[$(canary)]+1", b"$(canary)", b"`canary`", b"1000;canary", b"1000 -o 1", b"-1", b"+1000", b"", b" ", b"1000 ", b" 1000",
        b"1000\n", b"1000\n1001", b"0x3e8", b"1e3", b"../1000", b"1000/../1001", b"*", b"?", b"{1000..1002}", b"ruid", b"uid", b"SUDO_UID",
        b"socket_path", b"1000,exec:canary", b"~", b"-u", b"--help", b"1000&canary", b"1000#", b"10#1000", b"8#1750", "\u{ff11}\u{ff10}".as_bytes(), "\u{b2}".as_bytes(), b"1000%",
        b"a[0$(canary>&2)]", b">out", b"1000>out", b"$UID", b"\x01", b"[", b"1000|canary", b"1000\tx", b"999+1", b"1000*1", b"(1000)", b"1000.5",
        b"x=1", b"BASH_VERSINFO", b"RANDOM", b"socket", b"pid", b"\xff\xfe", b"uid=0", b"1000]", b"a[\\$(canary)]", b"UID",
    ];
    l[rb(l.len() as u32) as usize].to_vec()
}

fn is_number(a: &[u8]) -> bool {
    !a.is_empty() && a.iter().all(|c| c.is_ascii_digit())
}
/// the numbers a string of digits may be taken for
fn readings(a: &[u8]) -> Vec<i128> {
    let s = std::str::from_utf8(a).unwrap();
    let mut v = vec![];
    if let Ok(n) = s.parse::<i128>() {
        v.push(n);
        // more than 64 bits
        if n > i64::MAX as i128 {
            v.push((n as u128 as u64) as i64 as i128);
        }
    }
    if s.starts_with('0') {
        if let Ok(n) = i128::from_str_radix(s, 8) {
            v.push(n);
        }
    }
    v
}

/// (user, group, unknown options, command) of sudo's command line
pub fn parse_sudo(a: &[String]) -> (Option<String>, Option<String>, bool, Vec<String>) {
    let (mut user, mut group, mut i) = (None, None, 1);
    let mut bad = false;
    while i < a.len() {
        let x = a[i].as_str();
        let val = |i: &mut usize| {
            *i += 1;
            a.get(*i).cloned()
        };
        match x {
            "-u" | "--user" => user = val(&mut i),
            "-g" | "--group" => group = val(&mut i),
            "--" => {
                i += 1;
                break;
            }
            _ if x.starts_with("--user=") => user = Some(x[7..].into()),
            _ if x.starts_with("--group=") => group = Some(x[8..].into()),
            _ if x.starts_with("-u") => user = Some(x[2..].into()),
            _ if x.starts_with("-g") => group = Some(x[2..].into()),
            "-n" | "-H" | "-k" | "-E" => {}
            _ if x.starts_with('-') => bad = true,
            _ => break,
        }
        i += 1;
    }
    (user, group, bad, a[i.min(a.len())..].to_vec())
}

/// the socket a command line of socat or the like names
pub fn socket_of(a: &[String]) -> Option<String> {
    let mut path = None;
    for x in &a[1..] {
        let low = x.to_ascii_lowercase();
        for pre in ["unix-connect:", "unix-client:", "unix:"] {
            if low.starts_with(pre) {
                path = Some(x[pre.len()..].to_string());
            }
        }
        if path.is_none() && x.contains("sudo_pair") {
            path = Some(x.clone());
        }
    }
    path
}

/// what stat prints; None if a file isn't there
pub fn stat_of(a: &[String], look: &mut dyn FnMut(&str) -> Option<(u32, u32, u32, String, String)>) -> Option<Vec<u8>> {
    let (mut fmt, mut files, mut i) = (None, vec![], 1);
    while i < a.len() {
        let x = a[i].as_str();
        match x {
            "-c" | "--format" | "--printf" => {
                i += 1;
                fmt = a.get(i).cloned();
            }
            _ if x.starts_with("--format=") => fmt = Some(x[9..].into()),
            _ if x.starts_with("--printf=") => fmt = Some(x[9..].into()),
            _ if x.starts_with("-c") => fmt = Some(x[2..].into()),
            "-L" | "--dereference" | "--" | "-t" => {}
            _ => files.push(x.to_string()),
        }
        i += 1;
    }
    let mut out = String::new();
    for f in files {
        let (uid, gid, mode, user, group) = look(&f)?;
        let mut it = fmt.clone().unwrap_or("%n".into()).replace("\\n", "\n").chars().collect::<Vec<_>>().into_iter();
        while let Some(c) = it.next() {
            if c != '%' {
                out.push(c);
                continue;
            }
            match it.next() {
                Some('u') => out.push_str(&uid.to_string()),
                Some('g') => out.push_str(&gid.to_string()),
                Some('a') => out.push_str(&format!("{:o}", mode)),
                Some('f') => out.push_str(&format!("{:x}", mode | 0o140000)),
                Some('U') => out.push_str(&user),
                Some('G') => out.push_str(&group),
                Some('F') => out.push_str("socket"),
                Some('A') => {
                    out.push('s');
                    for b in (0..9).rev() {
                        out.push(if mode >> b & 1 == 1 { ['x', 'w', 'r'][b % 3] } else { '-' });
                    }
                }
                Some('n') => out.push_str(&f),
                Some(c) => out.push(c),
                None => {}
            }
        }
        out.push('\n');
    }
    Some(out.into_bytes())
}

impl Sim {
    fn lookup(&self, path: &str) -> Option<Sock> {
        let p = path.replace("//", "/");
        let p = p.strip_prefix("/run/").map(|r| format!("/var/run/{}", r)).unwrap_or(p);
        match &self.main {
            Some(s) if s.path == p => Some(s.clone()),
            Some(_) | None if self.named.first().map_or(false, |n| n.0 == p) && !self.decoys => None,
            _ if self.decoys && p.starts_with("/var/run/sudo_pair/") && p.ends_with(".sock") => Some(Sock { path: p, uid: 0, gid: 0, mode: 0o777 }),
            _ => None,
        }
    }
    /// may this path be looked at with these arguments?
    fn path_ok(&self, path: &str) -> bool {
        let p = path.replace("//", "/");
        let p = p.strip_prefix("/run/").map(|r| format!("/var/run/{}", r)).unwrap_or(p);
        p == "/var/run/sudo_pair" || p == "/var/run/sudo_pair/" || self.named.iter().any(|n| n.0 == p)
    }
    fn show_args(&self) -> String {
        self.args.iter().map(|a| format!("{:?}", String::from_utf8_lossy(a))).collect::<Vec<_>>().join(" ")
    }
    fn seen(&mut self, path: &str, how: &str) {
        if path.contains("sudo_pair") && path.ends_with(".sock") && !self.path_ok(path) {
            let m = format!("arguments {}: {} looks at {:?}", self.show_args(), how, path);
            w().violate("C23", m);
        }
    }
    fn fault(&mut self, cmd: &str) -> bool {
        if self.fault_rate > 0 && w().ch.chance(self.fault_rate, 64) {
            self.faults += 1;
            *w().faults.entry(format!("{}:fails", cmd)).or_insert(0) += 1;
            return true;
        }
        false
    }
}

pub fn fields(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = b.split(|c| *c == 0).map(|x| x.to_vec()).collect();
    v.pop();
    v
}
fn s(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn generate() -> (Sim, Vec<(String, String)>, bool) {
    let r = one(&[1000u32, 1001]);
    let pid = one(&[42u32, 4242, 7, 99999, 4194304]);
    let path = |u: i128, p: i128| format!("/var/run/sudo_pair/{}.{}.sock", u, p);
    let main = if pct(93) {
        Some(Sock { path: path(r as i128, pid as i128), uid: one(&[0, 3000, 2001, 3001]), gid: one(&[0, 600, 700, 3000]), mode: one(&[0o600, 0o600, 0o060, 0o060, 0o200, 0o020, 0o660, 0o220, 0o400, 0, 0o777, 0o602]) })
    } else {
        None
    };
    let mut args: Vec<Vec<u8>> = vec![r.to_string().into_bytes(), pid.to_string().into_bytes()];
    match w().ch.weighted(&[12, 6, 1, 1, 1]) {
        0 => {}
        1 => match rb(3) {
            0 => args[0] = hostile(),
            1 => args[1] = hostile(),
            _ => {
                args[0] = hostile();
                args[1] = hostile();
            }
        },
        2 => {
            let i = rb(2) as usize;
            args[i] = one(&[format!("0{}", r), "0010".into(), "08".into(), "00".into(), "0".into(), "18446744073709552616".into(), "9223372036854775808".into(), "99999999999999999999999999".into(), "4294968296".into(), "2000".into(), "1001".into(), "1000".into()]).into_bytes();
        }
        3 => {
            args.truncate(rb(2) as usize);
        }
        _ => args.push(hostile()),
    }
    let valid = args.len() == 2 && is_number(&args[0]) && is_number(&args[1]);
    let mut named = vec![];
    if valid {
        for u in readings(&args[0]) {
            for p in readings(&args[1]) {
                named.push((path(u, p), u));
            }
        }
    }
    let who = one(&[2000u32, r, 0, 2001, 1001, 1000]);
    let lvl = |uid: u32, gid: Option<u32>, sudo: Option<String>, chain: Vec<u32>| {
        let groups = groups_of(uid);
        Level { uid, gid: gid.unwrap_or(groups[0]), groups, sudo_uid: sudo, chain }
    };
    let l = match w().ch.weighted(&[6, 4, 2, 1, 1]) {
        0 => lvl(who, None, None, vec![]),
        1 => lvl(one(&[0, 3000, 2001]), None, Some(who.to_string()), vec![]),
        2 => lvl(who, Some(one(&[600, 700, 0, 3000])), Some(who.to_string()), vec![]),
        3 => lvl(who, None, Some(String::new()), vec![]),
        _ => lvl(who, None, Some(one(&[2000u32, 1001, 2001, r]).to_string()), vec![]),
    };
    let mut env: Vec<(String, String)> = vec![];
    for (k, v) in [("TRACE", "1"), ("IFS", "0123456789"), ("uid", "2000"), ("pid", "1"), ("ruid", "5"), ("socket", "/etc/passwd"), ("socket_path", "/tmp"), ("SUDO_SOCKET_PATH", "/tmp"), ("POSIXLY_CORRECT", "1"), ("LC_ALL", "C.UTF-8"), ("CDPATH", "/"), ("SUDO_USER", "nobody"), ("UID", "7"), ("EUID", "7"), ("SUDO_GID", "9"), ("socket_mode", "777")] {
        if pct(6) {
            env.push((k.into(), v.into()));
        }
    }
    if !pct(5) {
        env.push(("TERM".into(), "xterm".into()));
    }
    let tty = Tty { icanon: pct(85), isig: true, echo: !pct(15), intr: one(&[3, 127, 4]), rest: rb(65536) as u64 };
    let fault_rate = [0, 2, 8][w().ch.weighted(&[6, 3, 2])];
    let max_signals = [0, 1, 2][w().ch.weighted(&[6, 4, 1])];
    let spaced = pct(5);
    let no_user = pct(4);
    let no_group = pct(4);
    let sim = Sim {
        args,
        valid,
        named,
        main,
        decoys: pct(40),
        no_user,
        no_group,
        tty0: tty.clone(),
        tty,
        levels: vec![l],
        connected: 0,
        sudos: 0,
        faults: 0,
        restore_fault: false,
        signals: 0,
        max_signals,
        fault_rate,
        requests: 0,
        pgid: 0,
        used: vec![],
    };
    (sim, env, spaced)
}

enum Reply {
    Exit(i32, Vec<u8>),
    Kill(i32),
    Exec(Vec<Vec<u8>>, Vec<String>),
    /// it is dead
    Nothing,
    /// answer of a library call
    Raw(String),
}

impl Sim {
    /// does this identity, through any level of nesting, belong to the requester of that socket?
    fn requester(&self, l: &Level, uid: i128) -> bool {
        l.ident() as i128 == uid || l.chain.iter().any(|x| *x as i128 == uid)
    }

    fn user_name(&self, u: u32) -> Option<&'static str> {
        if self.no_user && u != 0 {
            return None;
        }
        USERS.iter().find(|x| x.0 == u).map(|x| x.1)
    }
    fn group_name(&self, g: u32) -> Option<&'static str> {
        if self.no_group {
            return None;
        }
        GROUPS.iter().find(|x| x.0 == g).map(|x| x.1)
    }

    fn connect(&mut self, l: &Level, path: &str) -> bool {
        let args = self.show_args();
        let wd = w();
        if !self.valid {
            wd.violate("C23", format!("connected to {:?} although the arguments are {}", path, args));
        } else if !self.path_ok(path) {
            wd.violate("C23", format!("arguments {} made it connect to {:?}", args, path));
            wd.violate("C24", format!("arguments {} made it connect to {:?}", args, path));
        }
        let canon = path.replace("//", "/");
        if let Some(u) = self.named.iter().find(|n| n.0 == canon || n.0 == canon.replacen("/run/", "/var/run/", 1)).map(|n| n.1) {
            if self.requester(l, u) {
                wd.violate("C23", format!("uid {} (invoked by {:?}, earlier {:?}) was connected to the socket of its own session {}", l.uid, l.sudo_uid, l.chain, path));
            }
        }
        match self.lookup(path) {
            Some(k) => {
                if !k.writable(l.uid, l.gid, &l.groups) {
                    wd.violate("C24", format!("uid {} gid {} tried to connect to {} (owner {}:{} mode {:o}) without permission to write", l.uid, l.gid, path, k.uid, k.gid, k.mode));
                    return false;
                }
                true
            }
            None => false,
        }
    }

    fn sudo(&mut self, id: usize, a: &[String]) -> Reply {
        let l = self.levels[id].clone();
        self.sudos += 1;
        let args = self.show_args();
        let (user, group, bad, cmd) = parse_sudo(a);
        let wd = w();
        if !self.valid {
            wd.violate("C23", format!("ran sudo {:?} although the arguments are {}", &a[1..], args));
            return Reply::Exit(1, vec![]);
        }
        let mut c = cmd.clone();
        if c.first().map_or(false, |x| x == "bash" || x.ends_with("/bash")) {
            c.remove(0);
        }
        let script = c.first().map_or(false, |x| x.rsplit('/').next() == Some("sudo_approve"));
        let same = c.len() == 3
            && (0..2).all(|j| {
                let arg = c[j + 1].as_bytes();
                is_number(arg) && readings(arg).iter().any(|n| readings(&self.args[j]).contains(n)) || c[j + 1].parse::<i128>().map_or(false, |n| readings(&self.args[j]).contains(&n))
            });
        if bad || !script || !same {
            wd.violate("C24", format!("arguments {}: ran sudo {:?} instead of itself", args, &a[1..]));
            return Reply::Exit(1, vec![]);
        }
        let path = self.named[0].0.clone();
        let num = |x: &Option<String>| x.as_ref().and_then(|x| x.strip_prefix('#')).and_then(|x| x.parse::<u32>().ok());
        let uid = user.as_ref().and_then(|n| USERS.iter().find(|u| u.1 == n.as_str()).map(|u| u.0)).or(num(&user));
        let gid = group.as_ref().and_then(|n| GROUPS.iter().find(|u| u.1 == n.as_str()).map(|u| u.0)).or(num(&group));
        // only what the arguments certainly name is judged here
        if self.named.len() == 1 {
            match self.lookup(&path) {
                Some(k) => {
                    let fits_u = uid == Some(k.uid) && k.mode & 0o200 != 0;
                    let fits_g = gid == Some(k.gid) && k.mode & 0o020 != 0;
                    let ok = match (&user, &group) {
                        (Some(_), None) => fits_u,
                        (None, Some(_)) => fits_g,
                        (Some(_), Some(_)) => false,
                        // sudo's default target
                        (None, None) => k.uid == 0 && k.mode & 0o200 != 0,
                    };
                    if !ok {
                        wd.violate("C24", format!("ran sudo with user {:?} group {:?} for a socket of {}:{} mode {:o}", user, group, k.uid, k.gid, k.mode));
                    } else if k.writable(l.uid, l.gid, &l.groups) && self.faults == 0 {
                        wd.violate("C24", format!("uid {} gid {} may write to {} but ran sudo", l.uid, l.gid, path));
                    }
                }
                None => wd.violate("C24", format!("ran sudo for {}, which doesn't exist", path)),
            }
        }
        if self.levels.len() > 8 {
            wd.violate("C24", "runs itself through sudo over and over".into());
            return Reply::Exit(1, vec![]);
        }
        if pct(15) || (uid.is_none() && user.is_some()) || (gid.is_none() && group.is_some()) {
            wd.log(|| "sudo denies it".into());
            self.faults += 1;
            *wd.faults.entry("sudo:denied".into()).or_insert(0) += 1;
            return Reply::Exit(1, vec![]);
        }
        let mut chain = l.chain.clone();
        chain.push(l.ident());
        let nu = if user.is_none() && group.is_some() { l.uid } else { uid.unwrap_or(0) };
        let ng = gid.unwrap_or_else(|| groups_of(nu)[0]);
        let n = Level { uid: nu, gid: ng, groups: groups_of(nu), sudo_uid: Some(l.uid.to_string()), chain };
        self.levels.push(n.clone());
        let env = script_env(&n, self.levels.len() - 1, &[("TERM".into(), "xterm".into())]);
        let mut av: Vec<Vec<u8>> = cmd.iter().map(|x| x.clone().into_bytes()).collect();
        if cmd[0] == "bash" {
            av[0] = b"/bin/bash".to_vec();
        }
        wd.log(|| format!("sudo runs it as uid {} gid {} with SUDO_UID={}", n.uid, n.gid, l.uid));
        Reply::Exec(av, env)
    }

    fn stty(&mut self, a: &[String]) -> Reply {
        let mut i = 1;
        let mut out = vec![];
        while i < a.len() {
            let x = a[i].as_str();
            match x {
                "-g" | "--save" => out = format!("{}\n", self.tty.save()).into_bytes(),
                "-a" => out = b"speed 38400 baud; intr = ^C;\n".to_vec(),
                "cbreak" | "-icanon" => self.tty.icanon = false,
                "-cbreak" | "icanon" => self.tty.icanon = true,
                "isig" => self.tty.isig = true,
                "-isig" => self.tty.isig = false,
                "echo" => self.tty.echo = true,
                "-echo" => self.tty.echo = false,
                "sane" => {
                    self.tty.icanon = true;
                    self.tty.echo = true;
                    self.tty.isig = true;
                    self.tty.intr = 3;
                    self.tty.rest = 1;
                }
                "intr" => {
                    i += 1;
                    self.tty.intr = match a.get(i).map(|s| s.as_bytes()) {
                        Some(b"undef") | Some(b"^-") => 0,
                        Some([b'^', b'?']) => 127,
                        Some([b'^', c]) => c & 31,
                        Some([c]) => *c,
                        _ => return Reply::Exit(1, vec![]),
                    };
                }
                "raw" => {
                    self.tty.icanon = false;
                    self.tty.isig = false;
                    self.tty.rest ^= 0x100;
                }
                _ => match Tty::load(x) {
                    Some(t) => self.tty = t,
                    None => {
                        if x.contains(':') {
                            return Reply::Exit(1, vec![]);
                        }
                        // some setting this model doesn't know
                        for c in x.bytes() {
                            self.tty.rest = (self.tty.rest ^ c as u64).wrapping_mul(31) & 0xffff_ffff;
                        }
                    }
                },
            }
            i += 1;
        }
        Reply::Exit(0, out)
    }

    fn stat(&mut self, a: &[String]) -> Reply {
        let r = stat_of(a, &mut |f| {
            self.seen(f, "stat");
            let k = self.lookup(f)?;
            Some((k.uid, k.gid, k.mode, self.user_name(k.uid).unwrap_or("UNKNOWN").into(), self.group_name(k.gid).unwrap_or("UNKNOWN").into()))
        });
        match r {
            Some(o) => Reply::Exit(0, o),
            None => Reply::Exit(1, vec![]),
        }
    }

    fn command(&mut self, id: usize, shell: i32, ignored: u32, a: &[String], stdio: &str) -> Reply {
        let l = self.levels[id].clone();
        let name = a[0].as_str();
        let restoring = name == "stty" && a.len() == 2 && a[1].contains(':');
        if name == "canary" {
            let m = format!("arguments {} were executed", self.show_args());
            w().violate("C23", m);
            return Reply::Exit(0, vec![]);
        }
        // signals arrive while the shell waits for this command
        let connects = matches!(name, "socat" | "nc" | "ncat");
        if self.signals < self.max_signals && w().ch.chance(if connects { 24 } else if restoring { 16 } else { 3 }, 64) {
            self.signals += 1;
            let sig = one(&[SIGINT, SIGTERM, SIGHUP, SIGQUIT]);
            let shell_only = matches!(sig, SIGTERM | SIGHUP) && pct(30);
            let late = rb(2) == 1;
            *w().faults.entry(format!("signal {} to {}", sig, if shell_only { "the shell" } else { "all" })).or_insert(0) += 1;
            if ignored >> sig & 1 == 1 {
                // the shell has them ignored, and so has what it runs
                w().log(|| format!("signal {} is ignored", sig));
            } else {
                if connects {
                    self.arrive(&l, a, stdio);
                } else if late && name != "sudo" {
                    let _ = self.plain(id, &l, name, a);
                }
                w().log(|| format!("signal {} to {}", sig, if shell_only { "the shell only" } else { "the whole foreground" }));
                waiting(shell);
                unsafe {
                    if !shell_only {
                        kill(-self.pgid, sig);
                        return Reply::Nothing;
                    }
                    if getpgid(shell) != self.pgid {
                        // the script has replaced itself with this command
                        return Reply::Kill(sig);
                    }
                    kill(shell, sig);
                }
                // give the shell the time to act on it
                let mut n = 0;
                while n < 200 && alive(shell) && !self.pending_request() {
                    unsafe { usleep(1000) };
                    n += 1;
                }
                return Reply::Kill(SIGTERM);
            }
        }
        if connects {
            if !self.arrive(&l, a, stdio) {
                return Reply::Exit(1, vec![]);
            }
            return match rb(4) {
                0 => Reply::Exit(0, vec![]),
                1 => Reply::Exit(one(&[1, 2, 130]), vec![]),
                2 => Reply::Kill(one(&[SIGKILL, SIGPIPE, SIGSEGV, SIGHUP])),
                _ => Reply::Exit(0, b"declined".to_vec()),
            };
        }
        if name != "sudo" && self.fault(name) {
            if restoring {
                self.restore_fault = true;
            }
            return match rb(3) {
                0 => Reply::Exit(1, vec![]),
                1 => Reply::Exit(one(&[2, 127, 255]), vec![]),
                _ => Reply::Kill(SIGKILL),
            };
        }
        self.plain(id, &l, name, a)
    }
    fn pending_request(&self) -> bool {
        let mut p = pollfd { fd: unsafe { LISTEN }, events: POLLIN, revents: 0 };
        unsafe { poll(&mut p, 1, 0) > 0 }
    }

    fn arrive(&mut self, l: &Level, a: &[String], stdio: &str) -> bool {
        let Some(path) = socket_of(a) else { return false };
        if path.contains(',') {
            let m = format!("arguments {} reach socat's own options: {:?}", self.show_args(), path);
            w().violate("C23", m);
        }
        let ok = self.connect(l, &path);
        if ok {
            self.connected += 1;
            w().note("approver_connected");
            self.keys(a, stdio);
        }
        ok
    }

    /// what the approver's terminal does while it monitors the session
    fn keys(&mut self, a: &[String], stdio: &str) {
        let options = |x: &String| x.contains(',') && !x.to_ascii_lowercase().starts_with("unix");
        if a[0] != "socat" || self.faults > 0 || a[1..].iter().any(options) {
            return;
        }
        let (t, t0) = (&self.tty, &self.tty0);
        w().exercise("C25");
        w().ev(7100, t.save().len() as i64);
        let mut bad = vec![];
        if t.echo {
            bad.push("what is typed is echoed");
        }
        if t.icanon {
            bad.push("keys wait for Enter");
        }
        if t.isig && t.intr == 3 {
            bad.push("Ctrl-C ends the monitoring");
        }
        if !t.isig || t.intr != 4 {
            bad.push("Ctrl-D doesn't end the session");
        }
        let f: Vec<&str> = stdio.split('|').collect();
        if a[1..].iter().any(|x| x == "-U") || f.first().map_or(false, |x| !x.contains("approver-in") && !x.starts_with("pipe:")) {
            bad.push("what is typed doesn't reach the session");
        }
        if a[1..].iter().any(|x| x == "-u") || f.get(1).map_or(false, |x| !x.contains("approver-out") && !x.starts_with("pipe:")) {
            bad.push("what the session sends isn't shown");
        }
        for x in &a[1..] {
            match x.to_ascii_lowercase().as_str() {
                "stdin" | "0" | "fd:0" | "open:/dev/null" | "/dev/null" => bad.push("what the session sends isn't shown"),
                "stdout" | "1" | "fd:1" | "2" | "fd:2" | "stderr" => bad.push("what is typed doesn't reach the session"),
                _ => {}
            }
        }
        if !bad.is_empty() {
            let m = format!("while connected, {} ({:?}, terminal {:?}, it was {:?}, {})", bad.join(", "), a, t, t0, stdio);
            w().violate("C25", m);
        }
    }

    fn plain(&mut self, id: usize, l: &Level, name: &str, a: &[String]) -> Reply {
        let has = |f: &str| a[1..].iter().any(|x| x == f);
        let line = |x: String| Reply::Exit(0, format!("{}\n", x).into_bytes());
        match name {
            "sudo" => self.sudo(id, a),
            "stty" => self.stty(a),
            "stat" => self.stat(a),
            "id" => {
                if has("-un") || has("-nu") {
                    line(self.user_name(l.uid).unwrap_or("x").into())
                } else if has("-u") || has("-ru") || has("--user") {
                    line(l.uid.to_string())
                } else if has("-g") {
                    line(l.gid.to_string())
                } else if has("-G") {
                    line(l.groups.iter().map(|g| g.to_string()).collect::<Vec<_>>().join(" "))
                } else {
                    line(format!("uid={} gid={}", l.uid, l.gid))
                }
            }
            "whoami" | "logname" => line(self.user_name(l.uid).unwrap_or("x").into()),
            "getent" => {
                let (db, key) = (a.get(1).cloned().unwrap_or_default(), a.get(2).cloned().unwrap_or_default());
                match db.as_str() {
                    "passwd" => match USERS.iter().find(|u| u.0.to_string() == key || u.1 == key) {
                        Some(u) if self.user_name(u.0).is_some() => line(format!("{}:x:{}:{}:Some Body,,,:/home/{}:/bin/sh", u.1, u.0, u.2, u.1)),
                        _ => Reply::Exit(2, vec![]),
                    },
                    "group" => match GROUPS.iter().find(|u| u.0.to_string() == key || u.1 == key) {
                        Some(g) if self.group_name(g.0).is_some() => line(format!("{}:x:{}:bob,carol", g.1, g.0)),
                        _ => Reply::Exit(2, vec![]),
                    },
                    _ => Reply::Exit(1, vec![]),
                }
            }
            "tty" => line("/dev/pts/0".into()),
            "su" | "doas" => Reply::Exit(1, vec![]),
            _ => Reply::Exit(0, vec![]),
        }
    }

    fn library(&mut self, op: &str, id: usize, path: &str, mode: i32) -> String {
        self.seen(path, op);
        let l = self.levels[id].clone();
        let Some(k) = self.lookup(path) else { return ENOENT.to_string() };
        match op {
            "stat" => format!("0 {} {} {}", k.mode | 0o140000, k.uid, k.gid),
            _ => {
                if mode & 2 != 0 && !k.writable(l.uid, l.gid, &l.groups) {
                    EACCES.to_string()
                } else {
                    "0".into()
                }
            }
        }
    }
}

static mut LISTEN: i32 = -1;

fn alive(pid: i32) -> bool {
    // a zombie is as good as dead
    match std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
        Ok(t) => !t.rsplit(')').next().unwrap_or("").trim_start().starts_with(['Z', 'X']),
        Err(_) => false,
    }
}

/// let a shell get as far as waiting for the command that has just started: what bash makes of a signal before that is
/// decided by the machine's own scheduler
fn waiting(pid: i32) {
    for i in 0..2000 {
        match std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
            Ok(t) if t.rsplit(')').next().unwrap_or("").trim_start().starts_with('R') => {}
            _ => return,
        }
        unsafe {
            if i < 20 {
                sched_yield();
            } else {
                usleep(200);
            }
        }
    }
}

fn script_env(l: &Level, id: usize, extra: &[(String, String)]) -> Vec<String> {
    let d = unsafe { DIR.clone() };
    let mut v: Vec<String> = extra.iter().map(|(k, x)| format!("{}={}", k, x)).collect();
    v.push(format!("PATH={}/bin:/usr/bin:/bin", d));
    v.push(format!("LD_PRELOAD={}/preload.so", d));
    v.push(format!("SIM_SOCK={}", unsafe { NAME.clone() }));
    v.push(format!("SIM_ID={}", id));
    v.push(format!("SIM_CRED={}:{}:{}:{}", l.uid, l.uid, l.gid, l.gid));
    if let Some(s) = &l.sudo_uid {
        v.push(format!("SUDO_UID={}", s));
    }
    v
}
static mut NAME: String = String::new();

pub struct Script {
    pub listen: i32,
    pub life: i32,
    pub root: i32,
    pub pidfd: i32,
    pub cwd: String,
}

/// where a script's stand-ins find the simulator
pub fn listener(name: &str) -> i32 {
    unsafe {
        let l = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
        let mut a: sockaddr_un = std::mem::zeroed();
        a.sun_family = AF_UNIX as u16;
        for (i, c) in name.bytes().enumerate() {
            a.sun_path[i + 1] = c as i8;
        }
        assert_eq!(bind(l, &a as *const _ as *const sockaddr, 3 + name.len() as u32), 0);
        assert_eq!(listen(l, 16), 0);
        l
    }
}

/// run the script as an unprivileged user in an empty folder
pub fn launch(listen: i32, args: &[Vec<u8>], env: Vec<String>, cwd: String) -> Script {
    let dir = unsafe { DIR.clone() };
    // an earlier run of the same pid may have ended in the middle
    let _ = std::fs::remove_dir_all(&cwd);
    std::fs::create_dir(&cwd).unwrap();
    std::fs::set_permissions(&cwd, std::fs::Permissions::from_mode(0o777)).unwrap();
    let ev: Vec<CString> = env.into_iter().map(|x| CString::new(x).unwrap()).collect();
    let mut av: Vec<CString> = vec![CString::new(format!("{}/sudo_approve", dir)).unwrap()];
    for a in args {
        av.push(CString::new(a.clone()).unwrap_or_default());
    }
    let mut life = [0i32; 2];
    let root;
    unsafe {
        assert_eq!(pipe2(life.as_mut_ptr(), O_CLOEXEC), 0);
        let evp: Vec<*const c_char> = ev.iter().map(|x| x.as_ptr()).chain([std::ptr::null()]).collect();
        let avp: Vec<*const c_char> = av.iter().map(|x| x.as_ptr()).chain([std::ptr::null()]).collect();
        let cw = CString::new(cwd.clone()).unwrap();
        root = fork();
        assert!(root >= 0);
        if root == 0 {
            setsid();
            // stand for the terminal, as seen from the other end
            let tin = memfd_create(b"approver-in\0".as_ptr().cast(), 0);
            let tout = memfd_create(b"approver-out\0".as_ptr().cast(), 0);
            dup2(tin, 0);
            dup2(tout, 1);
            dup2(tout, 2);
            if std::env::var_os("SIM_STDERR").is_some() {
                let f = open(b"/tmp/sim-stderr\0".as_ptr().cast(), O_WRONLY | O_CREAT | O_APPEND, 0o666);
                dup2(f, 2);
            }
            dup2(life[1], LIFE);
            for f in 3..LIFE {
                close(f);
            }
            for sg in 1..32 {
                signal(sg, SIG_DFL);
            }
            let zero: itimerval = std::mem::zeroed();
            setitimer(ITIMER_PROF, &zero, std::ptr::null_mut());
            alarm(0);
            chdir(cw.as_ptr());
            umask(0o022);
            let core = rlimit { rlim_cur: 0, rlim_max: 0 };
            setrlimit(RLIMIT_CORE, &core);
            if getuid() == 0 && (setgroups(0, std::ptr::null()) != 0 || setgid(65534) != 0 || setuid(65534) != 0) {
                _exit(121);
            }
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            execve(avp[0], avp.as_ptr(), evp.as_ptr());
            _exit(120);
        }
        close(life[1]);
    }
    let pidfd = unsafe { syscall(SYS_pidfd_open, root, 0) as i32 };
    Script { listen, life: life[0], root, pidfd, cwd }
}

/// one whole run; the caller reports
pub fn run() {
    let (mut sim, env, spaced) = generate();
    let dir = unsafe { DIR.clone() };
    let l0 = sim.levels[0].clone();
    let me = unsafe { getpid() };
    unsafe {
        NAME = format!("verif-approve-{}-{}", dir.rsplit('-').next().unwrap_or(""), me);
        LISTEN = listener(&NAME);
    }
    let cwd = format!("{}/w{}{}", dir, if spaced { " " } else { "" }, me);
    w().log(|| format!("script arguments {}, uid {} gid {} SUDO_UID {:?}, socket {:?}, environment {:?}", sim.show_args(), l0.uid, l0.gid, l0.sudo_uid, sim.main, env));
    let Script { root, life, pidfd, cwd, .. } = launch(unsafe { LISTEN }, &sim.args.clone(), script_env(&l0, 0, &env), cwd);
    sim.pgid = root;
    let mut status = None;
    let mut held: Vec<i32> = vec![];
    let mut ended = false;
    let mut hung = false;
    while !ended {
        let mut p = [
            pollfd { fd: unsafe { LISTEN }, events: POLLIN, revents: 0 },
            pollfd { fd: life, events: POLLIN, revents: 0 },
            pollfd { fd: if status.is_none() { pidfd } else { -1 }, events: POLLIN, revents: 0 },
        ];
        let r = unsafe { poll(p.as_mut_ptr(), 3, 20_000) };
        if r < 0 {
            continue;
        }
        if r == 0 || sim.requests > 400 {
            hung = true;
            break;
        }
        if p[0].revents != 0 {
            serve(&mut sim, &mut held);
            continue;
        }
        if p[2].revents != 0 {
            let mut st = 0;
            unsafe { waitpid(root, &mut st, 0) };
            status = Some(st);
            // whatever it left behind ends now
            for f in held.drain(..) {
                unsafe { close(f) };
            }
        }
        if p[1].revents & POLLHUP != 0 && status.is_some() {
            ended = true;
        }
    }
    unsafe {
        kill(-root, SIGKILL);
        if status.is_none() {
            let mut st = 0;
            kill(root, SIGKILL);
            waitpid(root, &mut st, 0);
        }
        close(pidfd);
    }
    let left: Vec<String> = std::fs::read_dir(&cwd).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&cwd);
    judge(&mut sim, status, hung, left);
}

fn serve(sim: &mut Sim, held: &mut Vec<i32>) {
    let mut buf = vec![0u8; 65536];
    let fd = unsafe { accept4(LISTEN, std::ptr::null_mut(), std::ptr::null_mut(), SOCK_CLOEXEC) };
    if fd < 0 {
        return;
    }
    let n = loop {
        let n = unsafe { recv(fd, buf.as_mut_ptr().cast(), buf.len(), 0) };
        if n >= 0 || std::io::Error::last_os_error().raw_os_error() != Some(EINTR) {
            break n;
        }
    };
    if n <= 0 {
        unsafe { close(fd) };
        return;
    }
    sim.requests += 1;
    let f = fields(&buf[..n as usize]);
    let op = s(&f[0]);
    let id: usize = s(&f[1]).parse().unwrap_or(0);
    let id = id.min(sim.levels.len() - 1);
    let pid: i32 = s(&f[2]).parse().unwrap_or(-1);
    // the script's idea of who invoked it may not be changed on the way
    let reply = if op == "cmd" {
        let a: Vec<String> = f[5..].iter().map(|x| s(x)).collect();
        let ignored: u32 = s(&f[4]).parse().unwrap_or(0);
        w().log(|| format!("level {}: {}", id, a.iter().map(|x| format!("{:?}", x.rsplit("/tmp/verif-approve").next().unwrap_or(x).chars().skip_while(|c| x.contains("/tmp/verif-approve") && *c != '/').collect::<String>())).collect::<Vec<_>>().join(" ")));
        sim.used.push(a[0].clone());
        let mut h = 0u32;
        for c in a[0].bytes() {
            h = h.wrapping_mul(31) + c as u32;
        }
        w().ev(5000 + h % 4096, a.len() as i64);
        sim.command(id, pid, ignored, &a, &s(&f[3]))
    } else {
        let path = s(&f[4]);
        let mode: i32 = s(&f[5]).parse().unwrap_or(0);
        let r = sim.library(&op, id, &path, mode);
        w().log(|| format!("level {}: {}({:?}, {}) = {}", id, op, path, mode, r));
        w().ev(6000 + mode as u32, r.len() as i64);
        Reply::Raw(r)
    };
    let mut out = vec![];
    match reply {
        Reply::Exit(c, o) => {
            w().log(|| format!("   exits with {} ({} bytes)", c, o.len()));
            w().ev(7000, c as i64);
            out.extend(format!("X{}\0", c).bytes());
            out.extend(o);
        }
        Reply::Kill(g) => {
            w().log(|| format!("   dies of signal {}", g));
            w().ev(7001, g as i64);
            out.extend(format!("K{}\0", g).bytes());
        }
        Reply::Exec(a, e) => {
            w().ev(7002, a.len() as i64);
            out.extend(format!("E{}\0", a.len()).bytes());
            for x in a {
                out.extend(x);
                out.push(0);
            }
            for x in e {
                out.extend(x.bytes());
                out.push(0);
            }
        }
        Reply::Raw(r) => out.extend(r.bytes()),
        Reply::Nothing => {
            // should it survive, it goes on once everything else has ended
            held.push(fd);
            return;
        }
    }
    unsafe {
        send(fd, out.as_ptr().cast(), out.len(), MSG_NOSIGNAL);
        close(fd);
    }
}

fn judge(sim: &mut Sim, status: Option<i32>, hung: bool, left: Vec<String>) {
    let wd = w();
    let args = sim.show_args();
    if !left.is_empty() {
        wd.violate("C23", format!("arguments {} created {:?}", args, left));
    }
    if hung {
        wd.violate("C24", format!("arguments {}: neither connects nor fails ({} steps)", args, sim.requests));
        return;
    }
    let st = status.unwrap_or(0);
    let ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    wd.log(|| format!("ends with status {:#x}, terminal {:?} (was {:?})", st, sim.tty, sim.tty0));
    wd.ev(8000, if WIFEXITED(st) { WEXITSTATUS(st) as i64 } else { -(WTERMSIG(st) as i64) });
    if WIFEXITED(st) && matches!(WEXITSTATUS(st), 120 | 121 | 122 | 124 | 125) {
        wd.note("stand_in_failed");
    }
    let l = &sim.levels[0];
    let concerned = sim.valid && sim.named.iter().any(|n| sim.requester(l, n.1));
    if !sim.valid || concerned || sim.levels.len() > 1 {
        wd.exercise("C23");
    }
    if sim.valid {
        wd.exercise("C24");
    }
    if !sim.valid && ok {
        wd.violate("C23", format!("arguments {} were not rejected", args));
    }
    if sim.connected == 0 && ok && sim.signals == 0 {
        let m = format!("arguments {}: nothing was connected but the exit status is 0 (uid {}, SUDO_UID {:?}, socket {:?})", args, l.uid, l.sudo_uid, sim.main);
        wd.violate("C24", m);
    }
    if sim.tty != sim.tty0 && !sim.restore_fault {
        let m = format!("the terminal was left as {:?}, it was {:?} (status {:#x}, {} signals)", sim.tty, sim.tty0, st, sim.signals);
        wd.violate("C24", m);
    }
    // nothing failed: it must have got as far as it may
    if sim.faults == 0 && sim.signals == 0 && sim.valid && sim.named.len() == 1 && !sim.args.iter().any(|a| a.len() > 1 && a[0] == b'0') && !sim.no_user && !sim.no_group && !concerned {
        if let Some(k) = sim.lookup(&sim.named[0].0.clone()) {
            let can = k.writable(l.uid, l.gid, &l.groups);
            if can && sim.connected == 0 {
                wd.violate("C24", format!("uid {} gid {} may write to {:?} but was not connected", l.uid, l.gid, k));
            }
            if !can && (k.mode & 0o200 != 0 || k.mode & 0o020 != 0 && l.uid != k.uid) && sim.sudos == 0 {
                wd.violate("C24", format!("uid {} gid {} may not write to {:?}, but it didn't run itself through sudo", l.uid, l.gid, k));
            }
        }
    }
}
