//! Everything together: real sessions of the real plugin, and people who do what its prompt says with the real approval
//! script, whose own sudo is a session of the real plugin again.
use crate::approve::*;
use crate::kernel::*;
use crate::oracle;
use crate::scenario::*;
use crate::sched::*;
use crate::sched::sleep;
use crate::session::*;
use libc::*;

type B = Vec<u8>;

pub const RULE: &str = "one run = one seed = one generated machine with one or two gated sudo sessions and the people who run what their prompts say (colleagues, the target account, root, the requester in several guises, strangers), one seeded schedule and one seeded fault plan; it is non-trivial when somebody ran what a prompt said, and two runs are distinct when their sequences of (task, system call or command, outcome class) differ (64-bit hash)";

pub const REAL: &str = "libsudo_pair.so (release and debug builds of the working tree, unmodified) in every sudo process, the approvers' own included; sample/bin/sudo_approve in the real bash; the sample prompt templates";
pub const STUBBED: &str = "the C library calls the plugin imports and the kernel behind them, sudo's front end and policy, socat, stat, id, getent, stty and the like, the access and stat calls of bash itself, the people";

pub fn wants(p: &str) -> bool {
    p == "C26"
}

static mut BIN_PATH: &str = "";
fn bin() -> &'static str {
    unsafe { BIN_PATH }
}
static mut SAMPLES: Option<(B, B)> = None;

/// the sample prompts that come with the script
pub fn setup(script: &str) {
    let etc = std::path::Path::new(script).parent().and_then(|p| p.parent()).map(|p| p.join("etc"));
    let get = |n: &str| etc.as_ref().and_then(|e| std::fs::read(e.join(n)).ok());
    if let (Some(u), Some(p)) = (get("sudo_pair.prompt.user"), get("sudo_pair.prompt.pair")) {
        unsafe { SAMPLES = Some((u, p)) };
    }
}

#[derive(Clone, Debug)]
struct Level {
    cred: Cred,
    sudo_uid: Option<u32>,
    /// everybody whose authority brought it here
    chain: Vec<u32>,
}

pub struct Actor {
    sess: usize,
    what: &'static str,
    eligible: bool,
    /// may become the session's target through sudo
    may_sudo: bool,
    answer: B,
    start: Level,
    /// starts the script through sudo in the first place
    through_sudo: bool,
    copies: Vec<usize>,
    delay: u64,
    /// why nothing can be expected of it
    excuse: Option<String>,
    followed: bool,
    connected: Option<usize>,
    answered: bool,
    ended: bool,
    tty: usize,
}

static mut ACTORS: Vec<Actor> = vec![];
static mut SCRIPTS: Vec<(i32, String)> = vec![];
fn act(i: usize) -> &'static mut Actor {
    unsafe { &mut ACTORS[i] }
}

fn uname(u: u32) -> String {
    if u == 0 { "root".into() } else { format!("u-{}", u) }
}
fn gname(g: u32) -> String {
    if g == 0 { "root".into() } else { format!("g-{}", g) }
}
fn id_of(name: &str, group: bool) -> Option<u32> {
    if name == "root" {
        return Some(0);
    }
    if let Some(n) = name.strip_prefix('#') {
        return n.parse().ok();
    }
    name.strip_prefix(if group { "g-" } else { "u-" }).and_then(|n| n.parse().ok())
}
fn cred(uid: u32, gid: u32, groups: &[u32]) -> Cred {
    Cred { uid, euid: uid, gid, egid: gid, groups: groups.to_vec(), cap: uid == 0 }
}

#[derive(Clone)]
struct Machine {
    options: Vec<B>,
    enforced: Vec<u32>,
    tpl: [B; 2],
}

struct Want {
    uid: u32,
    gid: u32,
    groups: Vec<u32>,
    target: Option<u32>,
    tgid: u32,
    tgroups: Vec<u32>,
    pid: i32,
    /// how far behind the process group's leader
    pipe: i32,
    command: B,
    argv: Vec<B>,
    user: String,
    tty: Option<B>,
    hints: [bool; 5],
}

/// what sudo passes to the plugin for this request
fn spec_of(m: &Machine, q: &Want) -> Spec {
    let mut s = Spec::default();
    let n = |k: &str, v: String| kv(k, v.as_bytes());
    let list = |v: &[u32]| v.iter().map(|g| g.to_string()).collect::<Vec<_>>().join(",");
    s.pid = q.pid;
    s.cred = Cred { uid: q.uid, euid: 0, gid: q.gid, egid: q.gid, groups: q.groups.clone(), cap: true };
    s.umask = one(&[0o022, 0o077, 0]);
    let tuid = q.target.unwrap_or(q.uid);
    s.settings = vec![kv("plugin_dir", b"/usr/lib/sudo/"), kv("plugin_path", b"/usr/lib/sudo/libsudo_pair.so"), kv("progname", b"sudo")];
    match q.target {
        Some(t) => {
            if t != 0 || pct(50) {
                s.settings.push(n("runas_user", uname(t)));
            }
        }
        None => s.settings.push(n("runas_group", gname(q.tgid))),
    }
    s.command_info = vec![kv("command", &q.command), n("runas_uid", tuid.to_string()), n("runas_gid", q.tgid.to_string()), n("runas_groups", list(&q.tgroups)), kv("umask", b"022"), kv("use_pty", b"true")];
    for (i, k) in STREAMS.iter().enumerate() {
        if q.hints[i] {
            s.command_info.push(n(&format!("iolog_{}", k), "true".into()));
        }
    }
    s.user_info = vec![
        n("user", q.user.clone()),
        n("uid", q.uid.to_string()),
        n("euid", "0".into()),
        n("gid", q.gid.to_string()),
        n("egid", q.gid.to_string()),
        n("groups", list(&q.groups)),
        n("cwd", one(&["/home/alice", "/srv/app dir", "/"]).into()),
        n("host", one(&["prod-1", "a.b.c"]).into()),
        n("pid", q.pid.to_string()),
        n("ppid", (q.pid - 1).to_string()),
        n("pgid", (q.pid - q.pipe).to_string()),
        n("sid", one(&[31, q.pid - 1]).to_string()),
        n("tcpgid", (q.pid - q.pipe).to_string()),
        kv("lines", b"24"),
        kv("cols", b"80"),
    ];
    if let Some(t) = &q.tty {
        s.user_info.push(kv("tty", t));
    }
    s.options = m.options.clone();
    s.env = vec![b"PATH=/bin".to_vec()];
    s.argv = q.argv.clone();
    s.api = one(&[0x0001_0009, 0x0001_000d, 0x0001_0011]);
    s.sig_mode = one(&[0, 0, 1, 3]);
    s.pipe_dfl = pct(30);
    s.fd_base = 3 + rb(4) as i32;
    s.nofile = 1024;
    s.fork = pct(40);
    s.close_codes = (0, 0);
    s.user_tpl_path = m.tpl[0].clone();
    s.pair_tpl_path = m.tpl[1].clone();
    s.tpl_inos = (w().k.lookup_raw(&s.user_tpl_path), w().k.lookup_raw(&s.pair_tpl_path));
    s
}

pub fn build() {
    {
        let wd = w();
        wd.flavour = wd.ch.below(2) as usize;
        wd.rnd = wd.ch.below(u32::MAX) as u64;
        wd.prio_mode = wd.ch.chance(1, 3);
        wd.stick = wd.ch.below(16);
        wd.prio_low = 1000;
        wd.step_limit = 60_000;
        wd.k.default_cap = [65536, 212_992, 4096, 1024][wd.ch.weighted(&[6, 4, 2, 1])];
        wd.short_sends = [0, 8, 40][wd.ch.weighted(&[4, 2, 1])];
        wd.profile = match wd.ch.weighted(&[8, 3, 1, 1]) {
            0 => Profile::None,
            1 => Profile::Aux([2, 8, 24][wd.ch.below(3) as usize]),
            2 => Profile::OneShot(1 + wd.ch.below(60)),
            _ => Profile::Rate([1, 3][wd.ch.below(2) as usize]),
        };
    }
    let k = &mut w().k;
    k.put(b"/dev/stdio", Kind::Tty { out: vec![], fail: 0, budget: 0 }, 0, 0, 0o600);
    k.put(b"/etc/passwd", Kind::File(b"root".to_vec()), 0, 0, 0o644);
    k.put(b"/proc/self/exe", Kind::Symlink(b"/usr/bin/sudo".to_vec()), 0, 0, 0o777);
    k.put(b"/dev/log", Kind::DgramSock { up: true }, 0, 0, 0o666);
    k.put(b"/var/run/sudo_pair", Kind::Dir(Default::default()), 0, 0, one(&[0o755, 0o711, 0o755]));
    let mut m = Machine { options: vec![], enforced: vec![0], tpl: [b"/etc/sudo_pair.prompt.user".to_vec(), b"/etc/sudo_pair.prompt.pair".to_vec()] };
    unsafe { BIN_PATH = "/usr/bin/sudo_approve" };
    if pct(25) {
        // installed elsewhere, or the default spelled out
        unsafe { BIN_PATH = one(&["/usr/local/bin/pair", "/opt/ops/sudo-approve.sh", "/usr/bin/sudo_approve", "/usr/bin/sudo_approve_v2"]) };
        m.options.push(kv("binary_path", bin().as_bytes()));
    }
    if pct(20) {
        m.options.push(kv("socket_dir", one(&["/var/run/sudo_pair", "/var/run/sudo_pair/", "/var/run//sudo_pair"]).as_bytes()));
    }
    if pct(20) {
        m.tpl = [b"/opt/ops/asker".to_vec(), b"/opt/ops/pair".to_vec()];
        m.options.push(kv("user_prompt_path", &m.tpl[0]));
        m.options.push(kv("pair_prompt_path", &m.tpl[1]));
    }
    let sample = unsafe { SAMPLES.clone() };
    for (i, path) in m.tpl.iter().enumerate() {
        if pct(50) {
            if let Some(t) = &sample {
                let t = if i == 0 { &t.0 } else { &t.1 };
                w().k.put(path, Kind::File(t.clone()), 0, 0, one(&[0o644, 0o600]));
                continue;
            }
        }
        w().note("default_prompt");
    }

    match rb(4) {
        0 | 1 => {}
        2 => m.enforced = vec![0, 700, 3000],
        _ => m.enforced = vec![600, 700, 3000, 2001, 0],
    }
    if m.enforced != [0] {
        let l = m.enforced.iter().map(|g| g.to_string()).collect::<Vec<_>>().join(",");
        m.options.push(kv("gids_enforced", l.as_bytes()));
    }

    let np = 1 + w().ch.weighted(&[3, 2]);
    let mut copy = np;
    let mut reqs: Vec<Want> = vec![];
    for i in 0..np {
        let uid = one(&[1000u32, 1001, 1000]);
        let gid = one(&[uid, 100]);
        let mut groups = vec![gid];
        if pct(40) && gid != 20 {
            groups.push(20);
        }
        let (target, tgid, tgroups);
        if pct(65) {
            let t = one(&[0u32, 3000, 2001, 1002]);
            let g = if t == 0 { 0 } else { t };
            let mut gs = vec![g];
            if !m.enforced.contains(&g) || pct(20) {
                let e = one(&m.enforced);
                if !gs.contains(&e) {
                    gs.push(e);
                }
            }
            target = Some(t);
            tgid = g;
            tgroups = gs;
        } else {
            target = None;
            tgid = one(&m.enforced);
            let mut gs = groups.clone();
            if pct(60) {
                gs.insert(0, tgid);
            }
            tgroups = gs;
        }
        let tty = if pct(80) {
            let t = format!("/dev/pts/{}", i).into_bytes();
            w().k.put(&t, Kind::Tty { out: vec![], fail: 0, budget: 0 }, 0, 5, 0o620);
            Some(t)
        } else {
            None
        };
        let mut hints = [true; 5];
        if pct(30) {
            hints = [false, true, false, pct(50), pct(50)];
        }
        let base = bin().rsplit('/').next().unwrap_or("");
        let command = match rb(8) {
            0 => format!("{}2", bin()),
            1 => format!("/home/alice/{}", base),
            2 => base.to_string() + "/x",
            3 if bin() != "/usr/bin/sudo_approve" => "/usr/bin/sudo_approve".into(),
            _ => one(&["/bin/ls", "/usr/bin/env", "/bin/sh"]).to_string(),
        };
        let command = if command.starts_with('/') { command } else { format!("/srv/{}", command) };
        let pid = one(&[4321, 7, 100001, 4194303]) - i as i32;
        let argv = vec![command.as_bytes().to_vec(), one(&["-la", "x y", "--help"]).as_bytes().to_vec()];
        reqs.push(Want { uid, gid, groups, target, tgid, tgroups, pid, pipe: one(&[0, 0, 2]), command: command.as_bytes().to_vec(), argv, user: one(&["alice", "bob-2"]).into(), tty, hints });
    }
    for (i, q) in reqs.iter().enumerate() {
        let mut s = spec_of(&m, q);
        for c in 0..1 + rb(4) {
            s.cbs.push(match rb(4) {
                0 => Cb::Sleep(rb(2_000_000) as u64),
                1 => Cb::Winsize(50, 132),
                _ => Cb::Log(one(&[TTYOUT, STDOUT]), [&marker(i)[..], format!(" output {}\r\n", c).as_bytes()].concat()),
            });
        }
        let at = if i == 0 { 0 } else { one(&[0, 500, 3_000_000, 9_000_000]) };
        let idx = add_session(s, 0, i, at, None);
        if !w().sess[idx].m.gated || w().sess[idx].m.conflict() || w().sess[idx].m.odd() {
            w().note("not_gated");
        }
        if pct(4) {
            w().sess[idx].kill_at = 1 + rb(120) as u64;
        }
    }

    // who comes along
    unsafe { ACTORS = vec![] };
    for (i, q) in reqs.iter().enumerate() {
        let mut come: Vec<bool> = vec![];
        if !pct(12) {
            come.push(true);
        }
        for _ in 0..w().ch.weighted(&[6, 4, 1]) {
            come.push(false);
        }
        if come.len() > 1 && pct(50) {
            come.reverse();
        }
        for eligible in come {
            let l = |uid: u32, gid: u32, groups: &[u32], sudo: Option<u32>| Level { cred: cred(uid, gid, groups), sudo_uid: sudo, chain: vec![] };
            let other = if q.uid == 1000 { 1001 } else { 1000 };
            let mut a = Actor { sess: i, what: "", eligible, may_sudo: false, answer: one(&[b"y", b"y", b"y", b"Y", b"n"]).to_vec(), start: l(0, 0, &[0], None), through_sudo: false, copies: vec![], delay: one(&[0, 900, 40_000, 2_000_000, 30_000_000]), excuse: None, followed: false, connected: None, answered: false, ended: false, tty: unsafe { ACTORS.len() } };
            let free = 5 - copy;
            let kind = if eligible {
                if free == 0 { 1 + rb(3) } else { one(&[0, 0, 0, 1, 2, 3]) }
            } else if free == 0 {
                one(&[4, 5, 7])
            } else {
                4 + rb(4)
            };
            match kind {
                0 => {
                    a.what = "a colleague who may become the target through sudo";
                    a.may_sudo = true;
                    let u = one(&[2000u32, 2002, other]);
                    a.start = l(u, u, &[u], None);
                }
                1 => {
                    a.what = "root";
                    a.start = l(0, 0, &[0], if pct(50) { Some(2000) } else { None });
                }
                2 | 3 => match q.target {
                    Some(0) => {
                        a.what = "root";
                    }
                    Some(t) => {
                        a.what = "the target account itself";
                        a.start = l(t, t, &[t], None);
                    }
                    None => {
                        a.what = "a member of the target group";
                        a.start = if pct(50) { l(2002, 2002, &[2002, q.tgid], None) } else { l(2003, q.tgid, &[q.tgid], None) };
                    }
                },
                4 => {
                    a.what = "the requester";
                    a.may_sudo = true;
                    a.start = l(q.uid, q.gid, &q.groups, None);
                }
                5 => {
                    a.what = "the requester in a root shell";
                    a.start = l(0, 0, &[0], Some(q.uid));
                }
                6 => {
                    a.what = "the requester through sudo as the target";
                    a.may_sudo = true;
                    a.through_sudo = true;
                    a.start = l(q.uid, q.gid, &q.groups, None);
                }
                _ => {
                    a.what = "a stranger";
                    a.start = l(1500, 1500, &[1500], None);
                }
            }
            if (a.may_sudo || kind == 4) && copy < 5 {
                a.copies.push(copy);
                copy += 1;
            }
            let n = unsafe { ACTORS.len() };
            let name = format!("approver{}", n);
            let p = new_proc(name.clone(), a.start.cred.clone(), 50_000 + n as i32);
            unsafe { ACTORS.push(a) };
            let (mm, q2) = (m.clone(), (q.target, q.tgid));
            w().spawn(&name, p, false, Box::new(move || actor_main(p, n, mm, q2)));
        }
    }

    if pct(12) {
        let p = new_proc("clock".into(), cred(0, 0, &[]), 63_000);
        w().spawn("clock", p, false, Box::new(move || {
            for _ in 0..1 + rb(3) {
                sleep(1 + rb(5_000_000) as u64);
                let j = one(&[3_600_000_000i64, -3_600_000_000, -1_000_000]);
                w().k.clk_off += j;
                w().note("clock_jump");
            }
        }));
    }
}

fn shown(s: usize) -> B {
    let mut t = oracle::proc_tty(w(), s).cloned().unwrap_or_default();
    if w().sess[s].tty_fault {
        // whatever arrived there is garbled
        t.clear();
    }
    t.extend(&w().sess[s].err_out);
    t.extend(&w().sess[s].info_out);
    t
}

/// what a human who reads this types
fn follow(text: &[u8]) -> Option<Vec<B>> {
    let at = text.windows(bin().len()).position(|x| x == bin().as_bytes())?;
    let line = text[at + bin().len()..].split(|c| *c == b'\n' || *c == b'\r').next()?;
    let line: B = line.iter().copied().take_while(|c| *c != b'\'' && *c != b'"' && *c != 0x1b).collect();
    Some(line.split(|c| *c == b' ' || *c == b'\t').filter(|x| !x.is_empty()).map(|x| x.to_vec()).collect())
}

fn env_of(l: &Level, id: usize, name: &str) -> Vec<String> {
    let d = unsafe { DIR.clone() };
    let mut v = vec![
        "TERM=xterm".to_string(),
        format!("PATH={}/bin:/usr/bin:/bin", d),
        format!("LD_PRELOAD={}/preload.so", d),
        format!("SIM_SOCK={}", name),
        format!("SIM_ID={}", id),
        format!("SIM_CRED={}:{}:{}:{}", l.cred.uid, l.cred.euid, l.cred.gid, l.cred.egid),
    ];
    if let Some(s) = l.sudo_uid {
        v.push(format!("SUDO_UID={}", s));
    }
    v
}

/// somebody's sudo: the real plugin decides
fn sudo(n: usize, m: &Machine, levels: &mut Vec<Level>, id: usize, user: Option<u32>, group: Option<u32>, cmd: &[B]) -> bool {
    let a = act(n);
    let l = levels[id].clone();
    if a.copies.is_empty() {
        a.excuse.get_or_insert("ran out of copies of the plugin".into());
        return false;
    }
    let copy = a.copies.remove(0);
    let (target, tgid, tgroups);
    match (user, group) {
        (Some(u), None) => {
            target = Some(u);
            tgid = u;
            tgroups = vec![u];
        }
        (_, Some(g)) => {
            target = None;
            tgid = g;
            let mut gs = l.cred.groups.clone();
            if !gs.contains(&g) && pct(50) {
                gs.insert(0, g);
            }
            tgroups = gs;
        }
        _ => unreachable!(),
    }
    let mut tgroups = tgroups;
    if target.is_some() && pct(40) {
        // whatever it takes to be asked for a pair, was it not for the exemption
        let e = one(&m.enforced);
        if !tgroups.contains(&e) {
            tgroups.push(e);
        }
    }
    let argv = cmd.to_vec();
    let q = Want { uid: l.cred.uid, gid: l.cred.gid, groups: l.cred.groups.clone(), target, tgid, tgroups, pid: 20_000 + n as i32, pipe: 0, command: cmd[0].clone(), argv, user: uname(l.cred.uid), tty: None, hints: [true, true, pct(50), true, true] };
    let mut s = spec_of(m, &q);
    s.cbs = vec![Cb::Log(TTYOUT, b"what the approver sees".to_vec()), Cb::Winsize(30, 90)];
    let at = w().k.now;
    let idx = add_session(s, 0, copy, at, None);
    let sp = &w().sess[idx];
    if target.map_or(false, |t| t == l.cred.uid) || sp.m.odd() {
        w().note("sudo_to_oneself");
    }
    w().log(|| format!("runs sudo (session {}) to user {:?} group {:?} for {:?}", idx, target, group, cmd.iter().map(|x| String::from_utf8_lossy(x)).collect::<Vec<_>>()));
    block(Cond::Test(Box::new(move |wd| wd.sess[idx].open_ret.is_some() || wd.sess[idx].died.is_some())), None, false);
    let se = &w().sess[idx];
    if se.open_ret != Some(1) {
        if !se.undisturbed(true) {
            a.excuse.get_or_insert("its own sudo was disturbed".into());
        }
        w().log(|| format!("its sudo (session {}) was refused", idx));
        return false;
    }
    w().note("nested_sudo_granted");
    let mut chain = l.chain.clone();
    chain.push(l.cred.uid);
    if let Some(u) = l.sudo_uid {
        chain.push(u);
    }
    let nc = match target {
        Some(u) => cred(u, u, &[u]),
        None => {
            let mut c = l.cred.clone();
            c.gid = tgid;
            c.egid = tgid;
            c
        }
    };
    levels.push(Level { cred: nc, sudo_uid: Some(l.cred.uid), chain });
    true
}

fn inode(path: &str, c: &Cred) -> Result<(u32, u32, u32), i32> {
    let k = &w().k;
    match k.walk(c, b"/", path.as_bytes(), true) {
        Ok((_, _, Some(i))) => {
            let n = &k.inodes[i];
            Ok((n.uid, n.gid, n.mode & 0o7777 | if matches!(n.kind, Kind::Sock { .. }) { 0o140000 } else { 0o100000 }))
        }
        Ok(_) => Err(ENOENT),
        Err(e) => Err(e),
    }
}

fn actor_main(p: usize, n: usize, m: Machine, want: (Option<u32>, u32)) {
    let s = act(n).sess;
    block(Cond::Test(Box::new(move |wd| wd.sess[s].waited || wd.sess[s].died.is_some() || !matches!(wd.sess[s].phase, Phase::Pre | Phase::Open))), None, false);
    if !w().sess[s].waited {
        act(n).excuse = Some("its session never asked for a pair".into());
        act(n).ended = true;
        return;
    }
    sleep(1 + act(n).delay);
    let text = shown(s);
    let se = &w().sess[s];
    let told = !se.tty_fault && se.aux_faults == 0 && !se.printf_failed && !se.tpl_fault_user;
    let Some(args) = follow(&text) else {
        if told && oracle::base_ok(w(), s) {
            let x = String::from_utf8_lossy(&text).into_owned();
            w().violate("C26", format!("session {}: what the user was shown, {:?}, doesn't say what to run", s, x));
        }
        act(n).excuse = Some("there is nothing to follow".into());
        act(n).ended = true;
        return;
    };
    act(n).followed = true;
    w().exercise("C26");
    let what = act(n).what;
    w().log(|| format!("is {} ({:?}), runs {} {}", what, act(n).start, bin(), args.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect::<Vec<_>>().join(" ")));

    let mut levels = vec![act(n).start.clone()];
    if act(n).through_sudo {
        let cmd: Vec<B> = [vec![bin().as_bytes().to_vec()], args.clone()].concat();
        let (u, g) = match want.0 {
            Some(t) => (Some(t), None),
            None => (None, Some(want.1)),
        };
        if !sudo(n, &m, &mut levels, 0, u, g, &cmd) {
            act(n).ended = true;
            return;
        }
    }
    let dir = unsafe { DIR.clone() };
    let name = format!("verif-e2e-{}-{}-{}", dir.rsplit('-').next().unwrap_or(""), unsafe { getpid() }, n);
    let first = levels.len() - 1;
    let script = launch(listener(&name), &args, env_of(&levels[first], first, &name), format!("{}/e{}.{}", dir, unsafe { getpid() }, n));
    unsafe { SCRIPTS.push((script.root, script.cwd.clone())) };
    let mut status = None;
    let mut requests = 0;
    loop {
        let mut pf = [
            pollfd { fd: script.listen, events: POLLIN, revents: 0 },
            pollfd { fd: script.life, events: POLLIN, revents: 0 },
            pollfd { fd: if status.is_none() { script.pidfd } else { -1 }, events: POLLIN, revents: 0 },
        ];
        let r = unsafe { poll(pf.as_mut_ptr(), 3, 15_000) };
        if r < 0 {
            continue;
        }
        if r == 0 || requests > 200 {
            w().log(|| "the script never ends".into());
            w().note("script_never_ends");
            break;
        }
        if pf[0].revents != 0 {
            requests += 1;
            request(p, n, &m, want, &mut levels, script.listen, &name);
            continue;
        }
        if pf[2].revents != 0 {
            let mut st = 0;
            unsafe { waitpid(script.root, &mut st, 0) };
            status = Some(st);
        }
        if pf[1].revents & POLLHUP != 0 && status.is_some() {
            break;
        }
    }
    unsafe {
        kill(-script.root, SIGKILL);
        for f in [script.listen, script.life, script.pidfd] {
            close(f);
        }
    }
    let _ = std::fs::remove_dir_all(&script.cwd);
    unsafe { SCRIPTS.retain(|x| x.0 != script.root) };
    let st = status.unwrap_or(-1);
    w().log(|| format!("the script ends with status {:#x}", st));
    w().ev(8000, st as i64);
    act(n).ended = true;
    w().k.exit_proc(p);
}

fn request(p: usize, n: usize, m: &Machine, want: (Option<u32>, u32), levels: &mut Vec<Level>, listen: i32, name: &str) {
    let mut buf = vec![0u8; 65536];
    let fd = unsafe { accept4(listen, std::ptr::null_mut(), std::ptr::null_mut(), SOCK_CLOEXEC) };
    if fd < 0 {
        return;
    }
    let k = loop {
        let k = unsafe { recv(fd, buf.as_mut_ptr().cast(), buf.len(), 0) };
        if k >= 0 || std::io::Error::last_os_error().raw_os_error() != Some(EINTR) {
            break k;
        }
    };
    if k <= 0 {
        unsafe { close(fd) };
        return;
    }
    let f = fields(&buf[..k as usize]);
    let text = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    let op = text(&f[0]);
    let id = text(&f[1]).parse::<usize>().unwrap_or(0).min(levels.len() - 1);
    yield_now();
    let mut out: B = vec![];
    let mut exit = |c: i32, o: &[u8]| {
        w().ev(7000, c as i64);
        out.extend(format!("X{}\0", c).bytes());
        out.extend(o);
    };
    if op == "cmd" {
        let a: Vec<String> = f[5..].iter().map(|x| text(x)).collect();
        w().log(|| format!("level {}: {}", id, a.iter().map(|x| format!("{:?}", if x.contains("/verif-approve-") { bin() } else { x })).collect::<Vec<_>>().join(" ")));
        let mut h = 0u32;
        for c in a[0].bytes() {
            h = h.wrapping_mul(31) + c as u32;
        }
        w().ev(5000 + h % 4096, a.len() as i64);
        let l = levels[id].clone();
        let has = |f: &str| a[1..].iter().any(|x| x == f);
        match a[0].as_str() {
            "id" if has("-un") || has("-nu") => exit(0, format!("{}\n", uname(l.cred.euid)).as_bytes()),
            "id" if has("-ru") || has("-ur") => exit(0, format!("{}\n", l.cred.uid).as_bytes()),
            "id" if has("-u") => exit(0, format!("{}\n", l.cred.euid).as_bytes()),
            "id" if has("-g") => exit(0, format!("{}\n", l.cred.egid).as_bytes()),
            "id" if has("-G") => {
                let g: Vec<String> = [vec![l.cred.egid], l.cred.groups.clone()].concat().iter().map(|g| g.to_string()).collect();
                exit(0, format!("{}\n", g.join(" ")).as_bytes())
            }
            "whoami" => exit(0, format!("{}\n", uname(l.cred.euid)).as_bytes()),
            "logname" => exit(0, format!("{}\n", uname(levels[0].cred.uid)).as_bytes()),
            "getent" => {
                let (db, key) = (a.get(1).cloned().unwrap_or_default(), a.get(2).cloned().unwrap_or_default());
                let id = key.parse::<u32>().ok().or(id_of(&key, db == "group"));
                match (db.as_str(), id) {
                    ("passwd", Some(u)) => exit(0, format!("{}:x:{}:{}:Some Body,,,:/home/x:/bin/sh\n", uname(u), u, u).as_bytes()),
                    ("group", Some(g)) => exit(0, format!("{}:x:{}:bob,carol\n", gname(g), g).as_bytes()),
                    _ => exit(2, b""),
                }
            }
            "stat" => {
                let r = stat_of(&a, &mut |f| inode(f, &l.cred).ok().map(|(u, g, md)| (u, g, md & 0o7777, uname(u), gname(g))));
                match r {
                    Some(o) => exit(0, &o),
                    None => exit(1, b""),
                }
            }
            "stty" if has("-g") => exit(0, b"500:5:bf:8a3b:3:1c:7f\n"),
            "tty" => exit(0, b"/dev/pts/9\n"),
            "sudo" => {
                let (user, group, bad, cmd) = parse_sudo(&a);
                let uid = user.as_ref().and_then(|x| id_of(x, false));
                let gid = group.as_ref().and_then(|x| id_of(x, true));
                let uid = if user.is_none() && group.is_none() { Some(0) } else { uid };
                let allowed = act(n).may_sudo && !bad && !cmd.is_empty() && match want.0 {
                    Some(t) => uid == Some(t) && group.is_none(),
                    None => gid == Some(want.1) && user.is_none(),
                };
                let script = cmd.first().map_or(false, |c| c.contains("/verif-approve-"));
                let mut argv: Vec<B> = cmd.iter().map(|x| x.clone().into_bytes()).collect();
                if script {
                    argv[0] = bin().as_bytes().to_vec();
                } else if !argv.is_empty() && !argv[0].contains(&b'/') {
                    argv[0] = [b"/usr/bin/", &argv[0][..]].concat();
                }
                if !allowed || !sudo(n, m, levels, id, uid, gid, &argv) {
                    w().log(|| "sudo says no".into());
                    exit(1, b"");
                } else {
                    let lv = levels.len() - 1;
                    let mut av = cmd.clone();
                    if !script {
                        av[0] = text(&argv[0]);
                    }
                    out.extend(format!("E{}\0", av.len()).bytes());
                    for x in av.iter().chain(&env_of(&levels[lv], lv, name)) {
                        out.extend(x.bytes());
                        out.push(0);
                    }
                }
            }
            "socat" | "nc" | "ncat" => {
                let c = match socket_of(&a) {
                    Some(path) => {
                        let first = a[1..].iter().find(|x| !x.starts_with('-') || x.as_str() == "-").map_or(false, |x| x.to_ascii_lowercase().contains("unix"));
                        let (u, r) = (has("-u"), has("-U"));
                        let sees = !(u && !first || r && first) || a[0] != "socat";
                        let says = !(u && first || r && !first) || a[0] != "socat";
                        talk(p, n, &l, &path, sees, says)
                    }
                    None => 1,
                };
                exit(c, b"");
            }
            "su" | "doas" => exit(1, b""),
            _ => exit(0, b""),
        }
    } else {
        let path = text(&f[4]);
        let mode: i32 = text(&f[5]).parse().unwrap_or(0);
        let l = &levels[id];
        let r = match inode(&path, &l.cred) {
            Err(e) => e.to_string(),
            Ok((u, g, md)) if op == "stat" => format!("0 {} {} {}", md, u, g),
            Ok((u, g, md)) => {
                let i = Inode { kind: Kind::Null, uid: u, gid: g, mode: md & 0o7777, nlink: 1, ver: 0, creator: 0 };
                if w().k.perm(&l.cred, &i, mode as u32 & 7) { "0".into() } else { EACCES.to_string() }
            }
        };
        w().log(|| format!("level {}: {}({:?}, {}) = {}", id, op, path, mode, r));
        w().ev(6000 + mode as u32, r.len() as i64);
        out.extend(r.bytes());
    }
    unsafe {
        send(fd, out.as_ptr().cast(), out.len(), MSG_NOSIGNAL);
        close(fd);
    }
}

fn contains(h: &[u8], n: &[u8]) -> bool {
    n.is_empty() || h.windows(n.len()).any(|x| x == n)
}

/// the approver's terminal is connected to a socket; the exit status of the command that does it
fn talk(p: usize, n: usize, l: &Level, path: &str, sees: bool, says: bool) -> i32 {
    let s = act(n).sess;
    w().k.procs[p].cred = l.cred.clone();
    let o = w().k.newobj(Obj::Unbound { dgram: false });
    let Ok(fd) = w().k.fd_alloc(p, o, true, 0) else { return 1 };
    let path = path.split(',').next().unwrap_or("");
    let conn = match w().k.connect(p, fd, path.as_bytes()) {
        Ok(Ok(c)) => c,
        e => {
            let e = e.err().unwrap_or(EAGAIN);
            w().log(|| format!("can't connect to {:?} (errno {})", path, e));
            let _ = w().k.close(p, fd);
            return 1;
        }
    };
    oracle::on_outside_connect(w(), conn);
    let lp = w().k.conns[conn].listener_proc;
    let to = w().sess.iter().position(|x| x.proc == lp);
    act(n).connected = to;
    w().note("approver_connected");
    w().log(|| format!("is connected to session {:?}", to));
    let mut ids = l.chain.clone();
    ids.push(l.sudo_uid.unwrap_or(l.cred.uid));
    ids.push(l.cred.uid);
    ids.retain(|u| *u != 0);
    let what = act(n).what;
    if let Some(t) = to {
        let req = w().sess[t].m.uid;
        if ids.contains(&req) {
            w().violate("C26", format!("session {}: {} followed the prompt and was connected to session {} of uid {}", s, what, t, req));
        } else if !act(n).eligible {
            w().violate("C26", format!("session {}: {} followed the prompt and was connected", s, what));
        }
        if t != s {
            w().violate("C26", format!("following the prompt of session {} led {} to session {}", s, what, t));
        }
    } else {
        w().violate("C26", format!("following the prompt of session {} led {} to {:?}, which isn't a session's", s, what, path));
    }
    // read what there is, think, answer
    let mut seen: B = vec![];
    let think = 2_000_000;
    let mut until = w().k.now + think;
    loop {
        let before = seen.len();
        match c_recv_into(p, fd, 4096, Some(until), &mut seen) {
            Got::Data(_) => until = w().k.now + think,
            _ => break,
        }
        if seen.len() == before {
            break;
        }
    }
    if !sees {
        seen.clear();
    }
    if let Some(t) = to {
        let se = &w().sess[t];
        // accepted, and nothing kept it from showing its prompt
        let mine = se.accepted.first() == Some(&conn);
        if mine && se.undisturbed(false) && !se.send_err && se.phase == Phase::Open && !se.tpl_fault_pair {
            for k in [b'U', b'h', b'd', b'C'] {
                let x = se.m.exp[&k].clone();
                if !contains(&seen, &x) {
                    let m = format!("session {}: the pair is asked {:?}, which doesn't say {:?}", t, String::from_utf8_lossy(&seen), String::from_utf8_lossy(&x));
                    w().violate("C26", m);
                }
            }
        }
    }
    let ans = act(n).answer.clone();
    w().log(|| format!("answers {:?}", String::from_utf8_lossy(&ans)));
    act(n).answered = says && c_send(p, fd, &ans);
    loop {
        match c_recv_into(p, fd, 65536, None, &mut seen) {
            Got::Data(_) => {}
            _ => break,
        }
    }
    w().log(|| "sees the end of the session".into());
    let _ = w().k.close(p, fd);
    0
}

/// nothing can move any more, or everything is over
fn judge(wd: &mut World, over: bool) {
    for n in 0..unsafe { ACTORS.len() } {
        let a = act(n);
        let s = a.sess;
        if !a.eligible || a.excuse.is_some() || !a.followed || !oracle::base_ok(wd, s) {
            continue;
        }
        let se = &wd.sess[s];
        if wd.limited && !over {
            continue;
        }
        let yes = matches!(a.answer.first(), Some(b'y' | b'Y'));
        let granted = se.open_ret == Some(1);
        let m = if a.connected.is_none() && (a.ended || !over) {
            Some(format!("session {}: {} did as the prompt says but wasn't connected to it", s, a.what))
        } else if a.connected == Some(s) && yes && !granted && (!over || se.open_ret.is_some()) {
            Some(format!("session {}: {} did as the prompt says and said yes, but it wasn't granted", s, a.what))
        } else {
            None
        };
        if let Some(m) = m {
            wd.violate("C26", m);
        }
    }
}

pub fn stuck(wd: &mut World) {
    judge(wd, false);
}

pub fn finish(wd: &mut World) {
    for (pid, cwd) in unsafe { SCRIPTS.iter() } {
        unsafe { kill(-*pid, SIGKILL) };
        let _ = std::fs::remove_dir_all(cwd);
    }
    judge(wd, true);
    let primaries: Vec<usize> = unsafe { ACTORS.iter() }.map(|a| a.sess).collect();
    for s in primaries {
        let se = &wd.sess[s];
        if !se.waited && se.open_ret.is_some() && oracle::base_ok(wd, s) {
            let m = format!("session {} ended without asking anybody", s);
            wd.violate("C26", m);
        }
        let ok = unsafe { ACTORS.iter() }.any(|a| a.sess == s && a.eligible && a.answered && a.connected == Some(s) && matches!(a.answer.first(), Some(b'y' | b'Y')));
        if wd.sess[s].open_ret == Some(1) && wd.sess[s].m.gated && !ok {
            let m = format!("session {} was granted although nobody who may has approved it", s);
            wd.violate("C26", m);
        }
        if wd.sess[s].open_ret == Some(1) {
            wd.note("session_granted");
        }
    }
    // what was logged was seen by the one who approved it
    for c in 0..wd.k.conns.len() {
        let lp = wd.k.conns[c].listener_proc;
        let Some(s) = wd.sess.iter().position(|x| x.proc == lp) else { continue };
        if wd.sess[s].open_ret != Some(1) || wd.sess[s].accepted.first() != Some(&c) {
            continue;
        }
        let mk = marker(s);
        let said = wd.sess[s].spec.cbs.iter().any(|x| matches!(x, Cb::Log(..)));
        if said && wd.sess[s].phase == Phase::Done && wd.sess[s].undisturbed(false) && !wd.sess[s].send_err && !contains(&wd.k.conns[c].to_client, &mk) {
            let m = format!("session {}: its approver saw none of its output", s);
            wd.violate("C26", m);
        }
    }
}
