//! Seeded generation of worlds: who runs sudo with which parameters, who approves, who interferes, what is broken.
//! 0 is always the plainest alternative of every choice.
use crate::kernel::*;
use crate::oracle;
use crate::sched::*;
use crate::session::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Expect {
    pub degraded: bool,
    pub willing: BTreeSet<usize>,
    pub gave_up: BTreeSet<(usize, usize)>,
    pub mut_idx: usize,
}

pub fn marker(t: usize) -> Vec<u8> {
    format!("<#s{}#>", t).into_bytes()
}

pub fn kv(k: &str, v: &[u8]) -> B {
    [k.as_bytes(), b"=", v].concat()
}
fn kn<T: std::fmt::Display>(k: &str, v: T) -> B {
    format!("{}={}", k, v).into_bytes()
}
fn set(l: &mut Vec<B>, k: &str, v: &[u8]) {
    let pre = [k.as_bytes(), b"="].concat();
    l.retain(|e| !e.starts_with(&pre) && e != k.as_bytes());
    l.push(kv(k, v));
}
fn del(l: &mut Vec<B>, k: &str) {
    let pre = [k.as_bytes(), b"="].concat();
    l.retain(|e| !e.starts_with(&pre) && e != k.as_bytes());
}
fn join(v: &[u32]) -> B {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",").into_bytes()
}

pub fn rb(n: u32) -> u32 {
    w().ch.below(n)
}
pub fn pct(n: u32) -> bool {
    w().ch.chance(n, 100)
}
pub fn one<T: Clone>(v: &[T]) -> T {
    v[rb(v.len() as u32) as usize].clone()
}
/// delays on very different scales, mostly short
fn delay() -> u64 {
    match w().ch.weighted(&[6, 6, 4, 2, 1]) {
        0 => 0,
        1 => rb(400) as u64,
        2 => rb(50_000) as u64,
        3 => rb(30_000_000) as u64,
        _ => rb(86_400) as u64 * 3_000_000,
    }
}

fn strange(kind: u32) -> B {
    match kind {
        0 => b"-l".to_vec(),
        1 => b"".to_vec(),
        2 => b"a b\tc\nd".to_vec(),
        3 => b"%n%n%x%%C%C %u%5c".to_vec(),
        4 => b"caf\xe9\xff\xfe".to_vec(),
        5 => b"\x1b[2J\x1b[8;1;1t$(reboot);`id`".to_vec(),
        6 => vec![b'A' + (rb(26) as u8); 1 + rb(6000) as usize],
        7 => b"'\"\\|&;<>*?".to_vec(),
        8 => "ünïcødé ✓".as_bytes().to_vec(),
        9 => b"--".to_vec(),
        10 => b"=".to_vec(),
        _ => vec![b'z'; 20_000 + rb(60_000) as usize],
    }
}

fn template_text() -> B {
    let n = rb(11);
    match n {
        0 => b"%B %u %p\n".to_vec(),
        1 => b"%U@%h:%d$ %C\ny/n? [n]: ".to_vec(),
        2 => b"b=%b B=%B C=%C d=%d h=%h H=%H g=%g p=%p u=%u U=%U W=%W 100%% %x %".to_vec(),
        3 => vec![],
        4 => b"\xff\xfe%U\xc3(%C\n".to_vec(),
        5 => b"%%%%C%%%C%%%%%U%".to_vec(),
        6 => b"no expansions at all".to_vec(),
        7 => {
            let mut v = vec![];
            while v.len() < 9000 {
                v.extend_from_slice(b"line %U %p of a very long prompt, 50%% done %z\n");
            }
            v
        }
        8 => b"%n%n%n%5c%x $(id) %C".to_vec(),
        9 => b"a\0b%U\0%C".to_vec(),
        _ => {
            let mut v = vec![];
            for _ in 0..rb(40) {
                v.push(match rb(6) {
                    0 => b'%',
                    1 => b"bBCdhHgpuUW"[rb(11) as usize],
                    2 => b'\n',
                    3 => rb(256) as u8,
                    _ => b'a' + rb(26) as u8,
                });
            }
            v
        }
    }
}

const TARGETS: [u32; 6] = [0, 2000, 2001, 33, 65534, 1001];
const GIDS: [u32; 6] = [0, 600, 700, 10, 27, 65533];
const SOCKDIR: &str = "/var/run/sudo_pair";

/// 0 gated (become another user), 1 gated (gain a group), 2 conflict, 3 root, 4 self, 5 approver, 6 nolog, 7 exempted,
/// 8 unenforced, 9 version query, 10 unusable, 11 odd, 12 anything
fn kind_weights(want: &str) -> [u32; 13] {
    match want {
        "C01" => [10, 6, 1, 1, 1, 2, 2, 2, 2, 1, 1, 1, 5],
        "C18" => [5, 3, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 5],
        "C02" => [10, 10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
        "C03" => [0, 0, 0, 4, 4, 4, 4, 4, 4, 1, 0, 0, 3],
        "C04" => [0, 0, 10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
        "C22" => [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 10, 0, 0],
        "C19" => [6, 3, 1, 1, 1, 1, 1, 1, 1, 3, 2, 0, 1],
        "C06" => [10, 6, 2, 1, 1, 1, 1, 1, 1, 0, 1, 1, 3],
        "C16" => [10, 6, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 2],
        "C12" => [10, 6, 0, 1, 1, 1, 1, 1, 1, 0, 0, 0, 2],
        "" => [10, 6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 5],
        _ => [12, 8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
    }
}

fn hostile_world(want: &str) -> bool {
    matches!(want, "C03" | "C17" | "")
}

struct Req {
    uid: u32,
    gid: u32,
    groups: Vec<u32>,
}

/// parameters of one sudo invocation
fn gen_spec(want: &'static str, n: usize) -> (Spec, usize) {
    let mut s = Spec::default();
    let kind = w().ch.weighted(&kind_weights(want));
    let mut r = Req { uid: one(&[1000, 1001, 1, 4242, 60001]), gid: 0, groups: vec![] };
    r.gid = one(&[1000, 100, 1001, 600]);
    r.groups = vec![r.gid];
    for g in [20, 100, 4000] {
        if pct(25) && !r.groups.contains(&g) {
            r.groups.push(g);
        }
    }
    if pct(3) {
        r.groups.extend(6000..6008 + rb(80));
    }
    if pct(5) {
        r.uid = alias(one(&[0, 0, r.uid, 1002]));
    }
    if pct(4) {
        let g = alias(one(&[0, r.gid, 600]));
        if !r.groups.contains(&g) {
            r.groups.push(g);
        }
    }
    if kind == 3 {
        r.uid = 0;
        r.gid = 0;
        r.groups = vec![0];
    }
    s.pid = one(&[4321, 1, 21, 100001, 4194303]) + n as i32 * 100;
    if pct(8) {
        s.pid = one(&[2147483647, 32768, 10]) - n as i32;
    }
    let euid = if want == "C05" || pct(94) { 0 } else { 300 };
    s.cred = Cred { uid: r.uid, euid, gid: r.gid, egid: if pct(70) { r.gid } else { 0 }, groups: r.groups.clone(), cap: true };
    s.umask = one(&[0o022, 0, 0o077, 0o777, 0o27]);

    // whom to become
    let group_only = matches!(kind, 1) || (kind > 2 && kind != 9 && pct(25));
    let mut tuid = one(&TARGETS);
    if tuid == r.uid {
        tuid = 2002;
    }
    if pct(6) {
        tuid = alias(one(&[r.uid, r.uid, 0]));
        if tuid == r.uid {
            tuid = 2002;
        }
    }
    let mut tgid = if tuid == 0 { 0 } else { one(&[tuid, 600, 27, 100]) };
    if pct(5) {
        tgid = alias(one(&[0, 600, r.gid]));
    }
    let mut tgroups = vec![tgid];
    for g in GIDS {
        if pct(15) && !tgroups.contains(&g) {
            tgroups.push(g);
        }
    }
    let mut explicit_group = false;
    if group_only && kind != 4 {
        tuid = r.uid;
        tgid = one(&GIDS);
        if tgid == r.gid {
            tgid = 701;
        }
        tgroups = r.groups.clone();
        if pct(60) && !tgroups.contains(&tgid) {
            tgroups.insert(0, tgid);
        }
        explicit_group = kind != 11;
    }
    match kind {
        2 => {
            explicit_group = true;
            tgid = one(&GIDS);
            if tuid == r.uid {
                tuid = 2003;
            }
        }
        3 if pct(30) => tuid = 0,
        4 => {
            tuid = r.uid;
            tgid = r.gid;
            tgroups = r.groups.clone();
            explicit_group = pct(20);
        }
        11 => {
            tuid = r.uid;
            tgid = 600 + r.gid % 7;
            tgroups = r.groups.clone();
            explicit_group = false;
        }
        _ => {}
    }
    if tuid != r.uid && kind != 2 && pct(if kind == 12 { 15 } else { 0 }) {
        explicit_group = true;
    }

    // what is enforced
    let mut opts: Vec<B> = vec![];
    let mut enforced: Vec<u32> = vec![0];
    match rb(6) {
        0 => {}
        1 => {
            enforced = vec![0];
            opts.push(b"gids_enforced=0".to_vec());
        }
        2 => {
            enforced = vec![600, 27];
            opts.push(b"gids_enforced=600,27".to_vec());
        }
        3 => {
            enforced = vec![0, tgid, 9999];
            opts.push(kv("gids_enforced", &join(&enforced)));
        }
        4 => {
            opts.push(one(&[b"gids_enforced=".to_vec(), b"gids_enforced=wheel".to_vec(), b"gids_enforced=0,x".to_vec(), b"gids_enforced".to_vec(), b"gids_enforced=600, 27".to_vec(), b"gids_enforced=\xff".to_vec()]));
        }
        _ => {
            enforced = vec![tgid];
            if pct(25) {
                // something that is nearly one of the target's groups
                enforced.push(alias(tgid));
                if pct(50) {
                    enforced.remove(0);
                }
            }
            opts.push(kv("gids_enforced", &join(&enforced)));
        }
    }
    let preserve = pct(12) && kind != 4;
    if preserve {
        tgroups = r.groups.clone();
    }
    if pct(5) && kind != 4 && kind != 11 && tgroups != r.groups {
        // a member of everything
        let first = one(&[5000u32, 70000]);
        tgroups.extend(first..first + 8 + rb(80));
        if pct(30) {
            enforced.splice(0..0, 50000..50000 + 4 + rb(60));
            set(&mut opts, "gids_enforced", &join(&enforced));
        }
    }
    if kind == 8 {
        enforced = vec![7777];
        set(&mut opts, "gids_enforced", b"7777");
    } else if kind < 3 || kind == 6 || kind == 7 || kind == 5 || kind == 11 {
        // must be enforced for this kind to be interesting
        let has = tgroups.iter().chain([&tgid]).any(|g| enforced.contains(g));
        if !has {
            if preserve || pct(50) || kind == 11 {
                enforced.push(tgid);
                set(&mut opts, "gids_enforced", &join(&enforced));
            } else {
                tgroups.push(enforced[0]);
            }
        }
    }
    match rb(5) {
        0 | 1 => {}
        2 if pct(40) => {
            let g = alias(one(&r.groups));
            opts.push(kv("gids_exempted", &join(&if r.groups.contains(&g) { vec![31337] } else { vec![g] })));
        }
        2 => opts.push(b"gids_exempted=31337".to_vec()),
        3 => opts.push(one(&[b"gids_exempted=".to_vec(), b"gids_exempted=x".to_vec(), b"gids_exempted".to_vec(), b"gids_exempted=-1".to_vec()])),
        _ if kind == 12 => opts.push(kv("gids_exempted", &join(&[one(&[100, 20, 31337]), 5]))),
        _ => {}
    }
    if kind == 7 {
        set(&mut opts, "gids_exempted", &join(&[31337, one(&r.groups)]));
    }

    // words that mean nothing to the plugin
    if pct(15) {
        let w = one(&["disabled", "debug", "exempt", "trace", "off", "dry_run=true", "enabled=false", "timeout=1", "allow_root=yes", "socket_mode=0777", "gids=0", "Gids_Enforced=1", "gids_enforced_=1", "gids_exempted_all", "uids_exempted=0,1000", "", "="]);
        let at = rb(opts.len() as u32 + 1) as usize;
        opts.insert(at, w.as_bytes().to_vec());
    }

    // command
    let mut bin: B = b"/usr/bin/sudo_approve".to_vec();
    if pct(30) {
        bin = one(&[b"/opt/pair/bin/approve-it".to_vec(), b"/usr/bin/../bin/x".to_vec(), b"approve".to_vec(), b"/usr/local/bin/%U%C".to_vec(), b"/".to_vec()]);
        opts.push(kv("binary_path", &bin));
    }
    let mut command: B = one(&[b"/bin/ls".to_vec(), b"/usr/bin/env".to_vec(), b"/bin/sh".to_vec(), b"/tmp/a b".to_vec()]);
    if pct(12) {
        command = one(&[b"/tmp/caf\xe9".to_vec(), b"/tmp/\xff\xfe/run".to_vec(), b"relative".to_vec(), b"/usr/bin/../bin/sudo_approve".to_vec(), b"/usr/bin/sudo_approve2".to_vec(), b"/usr/bin/sudo_approv".to_vec()]);
    }
    if pct(6) {
        // nearly the approval command
        command = match rb(6) {
            0 => bin.to_ascii_uppercase(),
            1 => bin.iter().enumerate().map(|(i, c)| if i == bin.len() - 1 { c.to_ascii_uppercase() } else { *c }).collect(),
            2 => [&bin[..], one(&[&b" "[..], b"\n", b"/x", b".sh", b"\xff"])].concat(),
            3 => [one(&[&b"/"[..], b" ", b"/x", b"."]), &bin[..]].concat(),
            4 => bin[..bin.len() - 1].to_vec(),
            _ => [&b"/home/x/"[..], bin.rsplit(|c| *c == b'/').next().unwrap()].concat(),
        };
    }
    if kind == 5 {
        command = bin.clone();
        if pct(20) && bin.starts_with(b"/usr/bin/sudo") {
            command = b"/usr//bin/./sudo_approve".to_vec();
        }
    }
    s.argv = vec![command.rsplit(|c| *c == b'/').next().unwrap_or(b"x").to_vec()];
    if pct(6) {
        // what a program is called is up to the caller
        s.argv[0] = one(&[bin.clone(), bin.rsplit(|c| *c == b'/').next().unwrap().to_vec(), b"".to_vec(), b"-sh".to_vec()]);
    }
    if pct(3) {
        // a caller may leave out even the name
        s.argv.clear();
    }
    let big = matches!(want, "C14" | "C15");
    for _ in 0..rb(4) {
        let k = rb(if big { 12 } else { 11 });
        s.argv.push(strange(k));
    }
    if big && pct(2) {
        let n = 900 + rb(4000);
        s.argv.extend((0..n).map(|i| format!("f{}", i).into_bytes()));
    }
    let mut ci: Vec<B> = vec![kv("command", &command)];
    if pct(85) {
        ci.push(kn("runas_uid", tuid));
        if pct(40) {
            ci.push(kn("runas_euid", tuid));
        }
    } else {
        ci.push(kn("runas_uid", one(&[5u32, r.uid, 0])));
        ci.push(kn("runas_euid", tuid));
    }
    if pct(85) {
        ci.push(kn("runas_gid", tgid));
        if pct(40) {
            ci.push(kn("runas_egid", tgid));
        }
    } else {
        ci.push(kn("runas_gid", one(&[5u32, r.gid, 0])));
        ci.push(kn("runas_egid", tgid));
    }
    if preserve {
        ci.push(b"preserve_groups=true".to_vec());
    } else {
        ci.push(kv("runas_groups", &join(&tgroups)));
    }
    let mut hints = [true; 5];
    if pct(40) {
        for h in &mut hints {
            *h = !pct(40);
        }
        if !hints[TTYOUT] && !hints[STDOUT] && !hints[STDERR] && kind != 12 {
            hints[one(&[TTYOUT, STDOUT, STDERR])] = true;
        }
    }
    if want == "C12" && pct(60) {
        hints[STDIN] = false;
    }
    if kind == 6 {
        hints = [pct(50), false, pct(50), false, false];
    }
    for (i, k) in STREAMS.iter().enumerate() {
        if hints[i] {
            ci.push(kn(&format!("iolog_{}", k), "true"));
        } else if pct(50) {
            ci.push(kn(&format!("iolog_{}", k), "false"));
        }
    }
    if pct(30) {
        ci.push(kv("cwd", &one(&[b"/srv/app".to_vec(), b"/tmp/\xe9\xff".to_vec(), b"/%C/%n".to_vec(), b"/srv/a=b=".to_vec()])));
    }
    ci.push(b"umask=022".to_vec());
    if pct(85) {
        ci.push(kn("use_pty", if pct(70) { "true" } else { "false" }));
    }
    // the rest of what a policy may decide, none of which bears on who has to agree
    for (k, v) in [
        ("chroot", &[&b"/srv/jail"[..], b"/"][..]),
        ("closefrom", &[b"3", b"0"]),
        ("exec_background", &[b"true", b"false"]),
        ("execfd", &[b"9", b"0"]),
        ("iolog_compress", &[b"true", b"false"]),
        ("iolog_group", &[b"adm", b"wheel"]),
        ("iolog_mode", &[b"0600", b"0"]),
        ("iolog_path", &[b"/var/log/sudo-io/00/00/01", b""]),
        ("iolog_user", &[b"root", b"alice"]),
        ("login_class", &[b"staff"]),
        ("maxseq", &[b"1000"]),
        ("nice", &[b"-5", b"0", b"19"]),
        ("noexec", &[b"true", b"false"]),
        ("preserve_fds", &[b"3,4,9"]),
        ("selinux_role", &[b"sysadm_r"]),
        ("selinux_type", &[b"sysadm_t"]),
        ("set_utmp", &[b"true", b"false"]),
        ("sudoedit", &[b"true", b"false"]),
        ("sudoedit_checkdir", &[b"true"]),
        ("sudoedit_follow", &[b"true"]),
        ("timeout", &[b"0", b"1", b"600"]),
        ("umask_override", &[b"true"]),
        ("utmp_user", &[b"root", b"alice"]),
        ("rlimit_core", &[b"0,0"]),
        ("runas_user", &[b"root", b"alice"]),
        ("tty_pgrp", &[b"7"]),
    ] {
        if pct(10) {
            ci.push(kv(k, one(v)));
        }
    }

    // the invoking user
    let mut ui: Vec<B> = vec![
        kn("user", one(&["alice", "bob", "o'%n%U", "x", "e=mc", "=", "cwd=/x"])),
        kn("uid", r.uid),
        kn("euid", if kind == 3 { 0 } else { euid }),
        kn("gid", r.gid),
        kn("egid", s.cred.egid),
        kv("groups", &join(&r.groups)),
        kv("cwd", &one(&[b"/home/alice".to_vec(), b"/home/\xff\xfedir".to_vec(), b"/%U$(x)".to_vec(), b"/home/k=v".to_vec()])),
        kn("host", one(&["prod-1", "h%n", "a.b.c", "h=1", "host=x"])),
        kn("pid", s.pid),
        // several of them may have been started by one shell, or by one pipeline
        kn("ppid", one(&[s.pid - 1, 31, 31])),
        kn("pgid", one(&[s.pid, 32])),
        kn("sid", one(&[31, s.pid, 0])),
        kn("tcpgid", one(&[s.pid, 32, -1])),
    ];
    if pct(80) {
        ui.push(kn("lines", one(&["24", "0", "65535", "abc", "-3"])));
        ui.push(kn("cols", one(&["80", "1", "4294967296", ""])));
    }
    if kind == 3 {
        s.cred = Cred { uid: 0, euid: 0, gid: 0, egid: 0, groups: vec![0], cap: true };
        set(&mut ui, "egid", b"0");
    }

    // settings
    let mut se: Vec<B> = vec![kv("plugin_dir", b"/usr/lib/sudo/"), kv("plugin_path", b"/usr/lib/sudo/libsudo_pair.so"), kn("progname", one(&["sudo", "sudoedit", "doas %n", "s\u{e9}"]))];
    if tuid != r.uid && pct(60) {
        se.push(kv("runas_user", &one(&[b"root".to_vec(), b"svc".to_vec(), b"a=b".to_vec(), b"#0".to_vec(), b"u\xff".to_vec(), b"%n".to_vec()])));
    }
    if explicit_group {
        se.push(kv("runas_group", &one(&[b"ops".to_vec(), b"#600".to_vec(), b"g\xff\xfe".to_vec(), b"".to_vec(), b"%n%s".to_vec().iter().map(|c| if *c == b's' { b'x' } else { *c }).collect()])));
    }
    if pct(20) {
        se.push(kv("prompt", &one(&[b"pw:".to_vec(), b"%p \xff".to_vec(), b"".to_vec(), b"pw=".to_vec()])));
    }
    for k in ["login_shell", "run_shell", "set_home", "preserve_environment", "ignore_ticket", "noninteractive", "sudoedit", "implied_shell"] {
        if pct(15) {
            se.push(kn(k, one(&["true", "false", "maybe"])));
        }
    }
    if preserve && pct(80) {
        se.push(b"preserve_groups=true".to_vec());
    }
    for (k, v) in [("login_class", &b"staff"[..]), ("selinux_role", b"r\xff"), ("selinux_type", b"t"), ("bsdauth_type", b"b%n"), ("closefrom", b"3"), ("remote_host", b"db%d\xfe"), ("timeout", b"10m"), ("cmnd_cwd", b"/srv/\xff%n"), ("cmnd_chroot", b"/tmp/new root"), ("update_ticket", b"false")] {
        if pct(8) {
            se.push(kv(k, v));
        }
    }
    if pct(15) {
        se.push(kv("network_addrs", one(&[&b"10.0.0.1/255.0.0.0"[..], b"10.0.0.1/255.0.0.0 fe80::1/ffff:ffff:ffff:ffff::", b"10.0.0.1", b"", b"/", b"10.0.0.1/", b" ", b"\xff/\xff"])));
    }
    if pct(10) {
        se.push(b"valueless".to_vec());
    }
    s.env = vec![b"PATH=/bin".to_vec(), b"HOME=/root".to_vec(), b"BROKEN".to_vec(), b"X=\xff=".to_vec()];
    for (k, vs) in [
        ("SUDO_UID", &["0", "1000"][..]),
        ("SUDO_GID", &["0"]),
        ("SUDO_USER", &["root", "alice"]),
        ("SUDO_COMMAND", &["/bin/sh", "/usr/bin/sudo_approve"]),
        ("SUDO_PAIR", &["0", "off", "1"]),
        ("SUDO_PAIR_DISABLE", &["1"]),
        ("SUDO_ASKPASS", &["/bin/true"]),
        ("SUDO_PS1", &["# "]),
        ("USER", &["root"]),
        ("LOGNAME", &["root"]),
        ("HOSTNAME", &["localhost"]),
        ("TERM", &["dumb", "xterm"]),
        ("SSH_TTY", &["/dev/pts/0"]),
        ("SSH_CONNECTION", &["127.0.0.1 5 127.0.0.1 22"]),
        ("CI", &["true"]),
        ("DEBUG", &["1"]),
        ("RUST_BACKTRACE", &["1"]),
    ] {
        if pct(8) {
            s.env.push(kn(k, one(vs)));
        }
    }
    match rb(40) {
        0 => s.env.clear(),
        1 => s.env.push(b"=".to_vec()),
        _ => {}
    }
    // ways of calling sudo that show in more than one place
    match rb(40) {
        0 | 1 => {
            for (l, k) in [(&mut se, "sudoedit"), (&mut ci, "sudoedit")] {
                set(l, k, b"true");
            }
            set(&mut se, "progname", b"sudoedit");
        }
        2 | 3 => {
            for k in ["login_shell", "implied_shell", "run_shell"] {
                if pct(80) {
                    set(&mut se, k, b"true");
                }
            }
            set(&mut se, "login_class", b"staff");
            set(&mut ci, "login_class", b"staff");
        }
        4 => set(&mut se, "remote_host", one(&[&b"db-7"[..], b"localhost", b"prod-2"])),
        5 => {
            set(&mut ci, "exec_background", b"true");
            set(&mut se, "noninteractive", b"true");
        }
        6 => {
            set(&mut ci, "execfd", b"5");
            set(&mut ci, "timeout", b"1");
            set(&mut se, "timeout", b"1");
        }
        7 => {
            for k in ["preserve_environment", "set_home", "ignore_ticket"] {
                set(&mut se, k, b"true");
            }
        }
        8 => {
            set(&mut ci, "chroot", b"/srv/jail");
            set(&mut ci, "noexec", b"true");
            set(&mut se, "cmnd_chroot", b"/srv/jail");
        }
        _ => {}
    }
    s.api = one(&[0x0001_0009, 0x0001_000a, 0x0001_000d, 0x0001_ffff, 0x0002_0000]);

    if kind == 9 {
        ci.clear();
        s.argv = vec![b"sudo".to_vec()];
        s.null_command = pct(50);
        if pct(30) {
            s.argv.clear();
        }
    }
    if kind == 10 {
        match rb(8) {
            0 => s.api = one(&[0x0001_0008, 0, 0x0000_ffff, 0x0001_0000, 9]),
            1 => {
                se.clear();
                ui.clear();
                s.null_lists = true;
            }
            2 => {
                let k = one(&["plugin_dir", "plugin_path", "progname"]);
                del(&mut se, k);
                if pct(40) {
                    se.push(kv(k, b"\xff\xfe"));
                }
            }
            3 => {
                let k = one(&["host", "user"]);
                del(&mut ui, k);
                if pct(40) {
                    ui.push(kv(k, b"a\xff"));
                }
            }
            4 => del(&mut ui, "cwd"),
            5 => {
                let k = one(&["egid", "euid", "gid", "uid"]);
                del(&mut ui, k);
                if pct(70) {
                    let v = one(&["abc", "-1", "", "4294967296", "1 ", "0x10", "1,2", "99999999999999999999"]);
                    ui.push(kn(k, v));
                }
            }
            6 => {
                let k = one(&["pgid", "pid", "ppid"]);
                del(&mut ui, k);
                if pct(70) {
                    ui.push(kn(k, one(&["abc", "", "2147483648", "1.5", "--1"])));
                }
            }
            _ => {
                del(&mut ui, "groups");
                if pct(70) {
                    ui.push(kn("groups", one(&["", "1,,2", "1,x", "wheel", "1 2", "4294967296"])));
                }
            }
        }
    }

    // options shared by all sessions on the machine are added by the caller
    s.settings = se;
    s.user_info = ui;
    s.command_info = ci;
    s.options = opts;
    s.sig_mode = match w().ch.weighted(&[10, 3, 2, 3]) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => 3,
    };
    s.pipe_dfl = pct(40);
    s.fd_base = if pct(12) { one(&[1023, 1024, 1100, 4000]) } else { 3 + rb(5) as i32 };
    s.nofile = 8192;
    s.fork = pct(40);
    s.close_codes = (one(&[-1, 0, 1, 2, 9, 127, 139, 255, 256, 0x7f00, 0xff00, i32::MAX, i32::MIN]), one(&[0, 2, 13]));
    s.verbose_version = pct(50);
    (s, kind)
}

/// an id that is not x but may pass for it where it is cut, wrapped, or compared as text
fn alias(x: u32) -> u32 {
    let v = match rb(8) {
        0 => x.wrapping_add(65536),
        1 => x.wrapping_add(256),
        2 => x | 0x8000_0000,
        3 => x.wrapping_mul(10),
        4 => x / 10,
        5 => x ^ 0xffff_0000,
        6 => x.wrapping_add(1 << 24),
        _ => x.wrapping_add(1),
    };
    if v == u32::MAX { 4294967294 } else { v }
}

/// what a process may write to, or read from, one of its streams
fn gen_data(i: u32, n: usize, what: &str) -> B {
    let mut d = match w().ch.weighted(&[6, 2, 2, 2, 1, 1, 2, 1]) {
        0 => format!("{} {} ", what, i).into_bytes(),
        1 => return vec![],
        2 => vec![rb(256) as u8],
        3 => strange(rb(9)),
        4 => vec![b'0' + i as u8 % 10; 3000 + rb(6000) as usize],
        5 => (0..70_000 + rb(120_000)).map(|x| (x % 251) as u8).collect(),
        6 => one(&[&b"\n"[..], b" ", b"\t \r\n", b"\r", b"\0", b"\0\0\0", b"\x04", b"\x03", b"\x1b[2J", b"\x1b", b"\x7f", b"y", b"exit\n", b"\xff", b"\xc3"]).to_vec(),
        _ => (0..1 + rb(40)).map(|_| rb(256) as u8).collect(),
    };
    if !pct(25) {
        d.extend(marker(n));
    }
    d
}

fn gen_callbacks(want: &'static str, n: usize) -> Vec<Cb> {
    let mut v = vec![];
    // a few sessions go on for long
    let long = pct(3);
    let endless = long && pct(20);
    let cnt = 1 + rb(match want {
        _ if endless => 700,
        _ if long => 150,
        "C10" | "C11" => 14,
        _ => 7,
    });
    for i in 0..cnt {
        let stdin_w = if want == "C12" { 6 } else { 1 };
        if endless && i % 4 != 0 {
            v.push(Cb::Log(if want == "C12" && i % 8 == 1 { STDIN } else { TTYOUT }, format!("line {} {}\r\n", i, n).into_bytes()));
            continue;
        }
        v.push(match w().ch.weighted(&[6, 3, 3, 3, 2, stdin_w, 3, 1]) {
            k @ (0 | 1 | 2) => Cb::Log([TTYOUT, STDOUT, STDERR][k], gen_data(i, n, "out")),
            3 => Cb::Winsize(one(&[24, 0, 1, 65535, u32::MAX, 50, 25]), one(&[80, 0, 132, u32::MAX, 1, 81])),
            4 => Cb::Log(TTYIN, gen_data(i, n, "secret typing \r")),
            5 => Cb::Log(STDIN, gen_data(i, n, "piped")),
            6 => Cb::Sleep(delay()),
            _ => Cb::Version,
        });
    }
    v
}

// ------------------------------------------------------------------------------------------------ people
#[derive(Clone, Debug)]
pub struct Client {
    who: Cred,
    path: B,
    sess: usize,
    start: u64,
    think: u64,
    early: bool,
    /// 0 answer, 1 hang up, 2 half-close without answering, 3 never do anything
    act: u32,
    answer: B,
    /// 0 read to the end, 1 hang up after some bytes, 2 hang up after a while, 3 pause then go on, 4 half-close and
    /// read on, 5 stop reading for good, 6 shut down the reading side
    after: u32,
    n: usize,
    chunk: usize,
    pause: u64,
    tries: u32,
}

fn others_done(path: &[u8]) -> (bool, bool) {
    // (somebody is being asked on this path right now, everything on this path is over)
    let wd = w();
    let mut open = false;
    let mut over = true;
    for s in &wd.sess {
        if s.path == path {
            if s.phase == Phase::Open && s.died.is_none() {
                open = true;
            }
            if matches!(s.phase, Phase::Pre | Phase::Open) && s.died.is_none() {
                over = false;
            }
        }
    }
    (open, over)
}

pub fn c_send(p: usize, fd: i32, data: &[u8]) -> bool {
    let mut off = 0;
    while off < data.len() {
        yield_now();
        let Ok(o) = w().k.fd(p, fd) else { return false };
        match w().k.send_step(o, &data[off..], usize::MAX) {
            Ok(Some(n)) => off += n,
            Ok(None) => {
                // never stop reading only because there is more to say
                block(Cond::Poll(vec![(o, true, true)]), None, false);
                let mut buf = [0u8; 512];
                let _ = w().k.recv_step(o, &mut buf, false);
            }
            Err(_) => return false,
        }
    }
    true
}

pub enum Got {
    Data(usize),
    Eof,
    Err,
    Quiet,
}
fn c_recv(p: usize, fd: i32, max: usize, until: Option<u64>) -> Got {
    c_recv_into(p, fd, max, until, &mut vec![])
}
pub fn c_recv_into(p: usize, fd: i32, max: usize, until: Option<u64>, all: &mut B) -> Got {
    let mut buf = vec![0u8; max];
    loop {
        yield_now();
        let Ok(o) = w().k.fd(p, fd) else { return Got::Err };
        match w().k.recv_step(o, &mut buf, false) {
            Ok(Some(0)) => return Got::Eof,
            Ok(Some(n)) => {
                all.extend_from_slice(&buf[..n]);
                return Got::Data(n);
            }
            Ok(None) => {
                if block(Cond::Poll(vec![(o, true, false)]), until, false) == Wake::Timeout {
                    return Got::Quiet;
                }
            }
            Err(_) => return Got::Err,
        }
    }
}

fn client_main(p: usize, c: Client) {
    if c.start > 0 {
        sleep(c.start);
    }
    let mut left = c.tries;
    let fd = loop {
        let (open, over) = others_done(&c.path);
        if over {
            w().k.exit_proc(p);
            return;
        }
        yield_now();
        let o = w().k.newobj(Obj::Unbound { dgram: false });
        let Ok(fd) = w().k.fd_alloc(p, o, true, 0) else { return };
        match w().k.connect(p, fd, &c.path) {
            Ok(Ok(conn)) => {
                w().ev(1500, 1);
                w().log(|| format!("connects to {}", String::from_utf8_lossy(&c.path)));
                oracle::on_outside_connect(w(), conn);
                break fd;
            }
            e => {
                let e = e.err().unwrap_or(libc::EAGAIN);
                let _ = w().k.close(p, fd);
                if open {
                    if left == 0 {
                        w().log(|| format!("gives up connecting (errno {})", e));
                        // a directory that doesn't let them in is not the plugin's doing
                        let cred = w().k.procs[p].cred.clone();
                        let shut_out = matches!(w().k.walk(&cred, b"/", &c.path, false), Err(libc::EACCES));
                        for (i, s) in w().sess.iter().enumerate() {
                            if !shut_out && s.path == c.path && s.phase == Phase::Open {
                                w().exp.gave_up.insert((p, i));
                            }
                        }
                        return;
                    }
                    left -= 1;
                }
                let next = w().sess.iter().filter(|s| s.path == c.path && s.phase == Phase::Pre && s.start_at > w().k.now).map(|s| s.start_at).min();
                if !open {
                    // nobody is asking yet
                    match next {
                        Some(t) => sleep(t - w().k.now),
                        None => {
                            let path = c.path.clone();
                            block(Cond::Test(Box::new(move |wd| {
                                let mut it = wd.sess.iter().filter(|s| s.path == path);
                                wd.sess.iter().any(|s| s.path == path && s.phase == Phase::Open) || it.all(|s| s.died.is_some() || !matches!(s.phase, Phase::Pre | Phase::Open))
                            })), None, false);
                            sleep(rb(3000) as u64)
                        }
                    }
                    continue;
                }
                let mut d = 200 + 300 * (c.tries - left) as u64;
                if pct(25) {
                    d = d / 8 + rb(100) as u64;
                }
                sleep(d);
            }
        }
    };
    match c.act {
        1 => {
            if c.think > 0 {
                sleep(c.think);
            }
            yield_now();
            w().log(|| "hangs up without answering".into());
            w().note("pair_hangs_up_unanswered");
            w().k.exit_proc(p);
            return;
        }
        2 => {
            yield_now();
            if let Ok(o) = w().k.fd(p, fd) {
                let _ = w().k.shutdown(o, libc::SHUT_WR);
            }
            w().log(|| "half-closes without answering".into());
            w().note("pair_half_closes");
        }
        3 => {
            w().note("pair_stalls");
            w().log(|| "stalls".into());
            block(Cond::Never, None, false);
            return;
        }
        _ => {
            if !c.early {
                // read the prompt until it pauses, think, answer
                let mut until = w().k.now + c.think.max(1);
                loop {
                    match c_recv(p, fd, 4096, Some(until)) {
                        Got::Data(_) => until = w().k.now + c.think.max(1),
                        Got::Quiet => break,
                        Got::Eof | Got::Err => break,
                    }
                }
            }
            w().log(|| format!("answers {:?}", String::from_utf8_lossy(&c.answer)));
            c_send(p, fd, &c.answer);
        }
    }
    // afterwards
    let mut read = 0;
    if c.after == 4 {
        if let Ok(o) = w().k.fd(p, fd) {
            let _ = w().k.shutdown(o, libc::SHUT_WR);
            w().log(|| "half-closes, keeps reading".into());
            w().note("monitor_half_closes");
        }
    }
    if c.after == 2 {
        sleep(c.pause);
        w().note("monitor_leaves");
        w().log(|| "leaves".into());
        w().k.exit_proc(p);
        return;
    }
    loop {
        if c.after == 1 && read >= c.n {
            w().note("monitor_leaves");
            w().log(|| "leaves".into());
            w().k.exit_proc(p);
            return;
        }
        if c.after == 5 && read >= c.n {
            w().note("monitor_stalls");
            w().log(|| "stops reading".into());
            block(Cond::Never, None, false);
            return;
        }
        if c.after == 6 && read >= c.n {
            if let Ok(o) = w().k.fd(p, fd) {
                w().log(|| "shuts down its reading side".into());
                let _ = w().k.shutdown(o, libc::SHUT_RD);
            }
            w().note("monitor_shuts_rd");
            block(Cond::Never, None, false);
            return;
        }
        if c.after == 3 && c.pause > 0 {
            sleep(c.pause);
        }
        let queued = w().k.fd(p, fd).ok().and_then(|o| w().k.stream_mut(o).map(|s| s.rbuf.len())).unwrap_or(0);
        let chunk = c.chunk.max(queued / 32);
        let lim = if matches!(c.after, 1 | 5 | 6) { chunk.min(c.n - read).max(1) } else { chunk };
        match c_recv(p, fd, lim, None) {
            Got::Data(n) => read += n,
            _ => break,
        }
    }
    w().log(|| "sees the end of the session".into());
    w().k.exit_proc(p);
}

pub fn new_proc(name: String, cred: Cred, pid: i32) -> usize {
    let wd = w();
    let mut pr = Proc {
        pid,
        name,
        cred,
        umask: 0o022,
        cwd: b"/".to_vec(),
        fds: BTreeMap::new(),
        fd_base: 3,
        nofile: 1024,
        sig: vec![],
        blocked: 0,
        pending: 0,
        env: vec![],
        alive: true,
        died: None,
        task: usize::MAX,
        sess: None,
        alarm: None,
        held: vec![],
    };
    setup_signals(&mut pr, 0, false);
    wd.k.procs.push(pr);
    wd.k.procs.len() - 1
}

fn spawn_client(name: &str, c: Client) -> usize {
    let pid = 50_000 + w().k.procs.len() as i32;
    let p = new_proc(name.into(), c.who.clone(), pid);
    let willing = c.act == 0 && matches!(c.answer.first(), Some(b'y' | b'Y')) && matches!(c.after, 0 | 3 | 4);
    if willing {
        w().exp.willing.insert(p);
    }
    w().spawn(name, p, false, Box::new(move || client_main(p, c)));
    p
}

fn user(uid: u32, gid: u32, groups: &[u32]) -> Cred {
    Cred { uid, euid: uid, gid, egid: gid, groups: groups.to_vec(), cap: uid == 0 }
}

/// somebody who may act as the target
fn authorised(m: &Model) -> Cred {
    if pct(15) {
        return user(0, 0, &[0]);
    }
    if m.user_change {
        if m.runas_euid == 0 {
            user(0, 0, &[])
        } else {
            user(m.runas_euid, one(&[m.runas_euid, 100, 5]), &[])
        }
    } else if pct(50) {
        user(3000, 3000, &[7, m.runas_egid])
    } else {
        user(3001, m.runas_egid, &[])
    }
}

fn outsiders(s: &Spec, m: &Model, dir_gid: u32) -> Vec<Cred> {
    let mut v = vec![
        user(m.uid, m.gid, &s.cred.groups),
        user(1500, 1500, &[dir_gid, s.cred.egid]),
        user(1501, s.cred.egid, &[]),
        user(1502, 1502, &[m.runas_egid, 600, 0]),
        user(1503, 1503, &[]),
        user(1504, 0, &[0, 100, 20]),
        user(m.uid, m.gid, &[m.runas_egid]),
    ];
    v.retain(|c| !m.authorised(c) && c.euid != 0);
    v
}

fn gen_client(want: &'static str, sidx: usize, m: &Model, hostile: bool, main: bool) -> Client {
    let mut c = Client {
        who: authorised(m),
        path: m.path.clone(),
        sess: sidx,
        start: delay(),
        think: 0,
        early: false,
        act: 0,
        answer: b"y".to_vec(),
        after: 0,
        n: 0,
        chunk: 65536,
        pause: 0,
        tries: 40,
    };
    let _ = c.sess;
    c.think = delay();
    c.early = pct(15);
    let decline = match want {
        "C09" | "C17" | "C10" | "C12" | "C16" | "C11" => 12,
        "C01" | "C13" => 55,
        _ => 30,
    };
    let leave = match want {
        "C11" => 60,
        "C09" | "C17" => 8,
        "C13" => 30,
        _ => 20,
    };
    if pct(decline) || (!main && pct(50)) || hostile {
        match w().ch.weighted(&[6, 2, 1, 1]) {
            0 => c.answer = one(&[b"n".to_vec(), b"N".to_vec(), b"\n".to_vec(), b"q".to_vec(), b"\0".to_vec(), b"ny".to_vec(), b" y".to_vec(), b"\xff".to_vec(), b"9".to_vec(), b"x".to_vec(), b"\xf9".to_vec(), b"\x19".to_vec(), b"\ny".to_vec(), b"\r\ny\n".to_vec(), b"\x1by".to_vec(), b"no, y".to_vec()]),
            1 => c.act = 1,
            2 => c.act = 2,
            _ => c.act = 3,
        }
    } else if pct(40) {
        c.answer = one(&[b"Y".to_vec(), b"yes\n".to_vec(), b"y\nnnnn".to_vec(), b"Yn".to_vec()]);
    }
    if pct(leave) {
        c.after = 1 + w().ch.weighted(&[6, 6, 0, 0, 2, 2]) as u32;
        c.n = one(&[0, 1, 60, 200, 3000, 70_000]);
        c.pause = delay();
        if c.after == 3 || c.after == 4 {
            c.after = 1;
        }
    } else if pct(30) {
        c.after = one(&[3, 4]);
        c.pause = rb(20_000) as u64;
    }
    if pct(25) {
        c.chunk = one(&[1024, 4096, 20_000]);
    }
    c
}

/// the n-th terminal
fn tty_of(n: usize) -> B {
    let k = match w().tty_names {
        0 => return format!("/dev/pts/{}", n).into_bytes(),
        1 => format!("/dev/tty{}", n + 1),
        2 => format!("/dev/ttyS{}", n),
        3 => format!("/dev/hvc{}", n),
        4 => format!("/dev/vc/{}", n),
        5 => format!("/dev/pts/10{:02}", n),
        _ => format!("/dev/term {} with space", n),
    };
    k.into_bytes()
}

pub fn add_session(spec: Spec, kind: usize, copy: usize, start_at: u64, after: Option<usize>) -> usize {
    let idx = w().sess.len();
    let p = new_proc(format!("sudo{}", idx), spec.cred.clone(), spec.pid);
    {
        let k = &mut w().k;
        let tty = k.lookup_raw(b"/dev/stdio").unwrap();
        for fd in 0..3 {
            let o = k.newobj(Obj::File { ino: tty, pos: 0, w: true });
            k.objs[o].as_mut().unwrap().refs = 1;
            k.procs[p].fds.insert(fd, FdEnt { obj: o, cloexec: false });
        }
        let pr = &mut k.procs[p];
        pr.umask = spec.umask;
        pr.fd_base = spec.fd_base;
        pr.nofile = spec.nofile;
        setup_signals(pr, spec.sig_mode, spec.pipe_dfl);
        pr.sess = Some(idx);
    }
    let _ = kind;
    let s = Sess::new(idx, spec, p, start_at);
    w().sess.push(s);
    let name = format!("sudo{}", idx);
    w().spawn(&name, p, true, Box::new(move || {
        if let Some(a) = after {
            block(Cond::Test(Box::new(move |wd| wd.sess[a].died.is_some() || wd.sess[a].phase == Phase::Done)), None, false);
            sleep(3000);
        }
        sudo_main(idx, copy)
    }));
    idx
}

/// set up everything for one run
pub fn build() {
    let want = w().want;
    let prop = |p: &str| want == p;

    // ---- schedule and faults
    {
        let wd = w();
        wd.flavour = wd.ch.below(2) as usize;
        wd.rnd = wd.ch.below(u32::MAX) as u64;
        wd.prio_mode = wd.ch.chance(1, 3);
        wd.stick = wd.ch.below(16);
        wd.prio_low = 1000;
        wd.step_limit = 40_000;
        wd.k.default_cap = [65536, 212_992, 4096, 1024, 64, 1][wd.ch.weighted(&[6, 4, 2, 2, 2, 1])];
        wd.short_sends = [0, 8, 40][wd.ch.weighted(&[4, 2, 1])];
        wd.k.clk_off = [0, -1_600_000_000_000_000, 3_000_000_000_000_000][wd.ch.weighted(&[6, 1, 1])];
        let pw: [u32; 4] = match want {
            "C09" | "C12" | "C14" | "C15" | "C10" => [10, 2, 1, 1],
            "C17" => [3, 12, 0, 0],
            "C06" => [3, 2, 8, 4],
            "C03" => [4, 3, 2, 3],
            "C16" | "C07" | "C08" | "C05" | "C04" => [8, 2, 1, 1],
            "C11" | "C13" => [8, 1, 2, 2],
            _ => [8, 2, 4, 3],
        };
        wd.profile = match wd.ch.weighted(&pw) {
            0 => Profile::None,
            1 => Profile::Aux([2, 8, 24, 64][wd.ch.below(4) as usize]),
            2 => Profile::OneShot(1 + wd.ch.below(60)),
            _ => Profile::Rate([1, 3, 10, 30][wd.ch.below(4) as usize]),
        };
        if matches!(want, "C01" | "C02" | "") && wd.ch.chance(1, 16) {
            wd.oom_at = 1 + wd.ch.below(900) as u64;
        }
    }

    // ---- the machine
    let k = &mut w().k;
    k.put(b"/dev/stdio", Kind::Tty { out: vec![], fail: 0, budget: 0 }, 0, 0, 0o600);
    k.put(b"/home/alice/x", Kind::File(vec![]), 0, 0, 0o644);
    k.put(b"/etc/passwd", Kind::File(b"root".to_vec()), 0, 0, 0o644);
    let bad_env = hostile_world(want) && pct(60) || matches!(want, "C15") && pct(50) || pct(12);
    if !(bad_env && pct(25)) {
        w().k.put(b"/proc/self/exe", Kind::Symlink(b"/usr/bin/sudo".to_vec()), 0, 0, 0o777);
    } else {
        w().exp.degraded = true;
        w().note("proc_not_mounted");
    }
    match if bad_env { rb(3) } else { 0 } {
        0 => {
            w().k.put(b"/dev/log", Kind::DgramSock { up: true }, 0, 0, 0o666);
        }
        1 => {
            w().k.put(b"/dev/log", Kind::DgramSock { up: false }, 0, 0, 0o666);
            w().exp.degraded = true;
            w().note("syslog_down");
        }
        _ => {
            w().exp.degraded = true;
            w().note("syslog_missing");
        }
    }

    // ---- socket directory
    let mut dir: B = one(&[SOCKDIR.as_bytes().to_vec(), SOCKDIR.as_bytes().to_vec(), b"/run/pairs".to_vec()]);
    let mut dirval = dir.clone();
    let mut give_dir = dir != SOCKDIR.as_bytes();
    match w().ch.weighted(&[12, 2, if prop("C05") { 2 } else { 0 }, 1]) {
        0 => {}
        1 => {
            dirval.push(b'/');
            give_dir = true;
        }
        2 => {
            dirval = one(&[b"".to_vec(), b"run/pairs".to_vec(), b"/".to_vec(), b".".to_vec()]);
            dir = b"/run/pairs".to_vec();
            give_dir = true;
        }
        _ => {
            dir = [b"/srv/".to_vec(), vec![b'd'; one(&[70, 78, 82, 86, 90, 120])]].concat();
            dirval = dir.clone();
            give_dir = true;
        }
    }
    let dir_gid = one(&[0, 4000, 600, 100]);
    let bad_dir = if prop("C05") { 85 } else if hostile_world(want) && prop("C03") { 50 } else if prop("C06") { 10 } else { 4 };
    let d = Kind::Dir(Default::default());
    if pct(bad_dir) {
        match rb(9) {
            0 => {}
            1 => {
                w().k.put(&dir, Kind::File(b"x".to_vec()), 0, 0, 0o644);
            }
            2 => {
                w().k.put(&dir, d, one(&[1000, 1001, 300, 1]), dir_gid, 0o755);
            }
            3 => {
                w().k.put(&dir, d, 0, dir_gid, one(&[0o775, 0o770, 0o720, 0o2775]));
            }
            4 => {
                w().k.put(&dir, d, 0, dir_gid, one(&[0o757, 0o1777, 0o702, 0o777]));
            }
            5 => {
                w().k.put(&dir, Kind::Sock { listener: None }, 0, 0, 0o700);
            }
            6 => {
                w().k.put(b"/elsewhere", d, one(&[0, 1000]), dir_gid, one(&[0o777, 0o755, 0o775]));
                w().k.put(&dir, Kind::Symlink(b"/elsewhere".to_vec()), 0, 0, 0o777);
            }
            7 => {
                w().k.put(&dir, Kind::Symlink(b"/nowhere".to_vec()), 0, 0, 0o777);
            }
            _ => {
                w().k.put(&dir, one(&[Kind::Null, Kind::Fifo, Kind::Tty { out: vec![], fail: 0, budget: 0 }]), 0, 0, 0o600);
            }
        }
    } else {
        let mode = one(&[0o755, 0o700, 0o711, 0o2755, 0o1755]);
        if pct(8) {
            w().k.put(b"/real/dir", d, 0, dir_gid, mode);
            w().k.put(&dir, Kind::Symlink(b"/real/dir".to_vec()), 0, 0, 0o777);
        } else {
            w().k.put(&dir, d, 0, dir_gid, mode);
        }
    }

    // ---- templates
    let tpl = |pair: bool| -> (B, Option<B>, Option<Ino>) {
        let (opt, dflt) = if pair { ("pair_prompt_path", "/etc/sudo_pair.prompt.pair") } else { ("user_prompt_path", "/etc/sudo_pair.prompt.user") };
        let mut path = dflt.as_bytes().to_vec();
        let mut o = None;
        if pct(30) {
            path = if pair { b"/opt/pair.tpl".to_vec() } else { b"/opt/user.tpl".to_vec() };
            o = Some(kv(opt, &path));
        }
        let wts = if matches!(want, "C14" | "C15") { [2, 10, 1, 1, 1] } else { [4, 6, 1, 1, 1] };
        let ino = match w().ch.weighted(&wts) {
            0 => None,
            1 => {
                let mut t = template_text();
                if matches!(want, "C14" | "C15") && pct(2) {
                    t = [vec![b'-'; 65_000 + rb(80_000) as usize], t].concat();
                }
                w().k.put(&path, Kind::File(t), 0, 0, one(&[0o644, 0o600, 0]))
            }
            2 => {
                w().exp.degraded = true;
                w().k.put(&path, Kind::Dir(Default::default()), 0, 0, 0o755)
            }
            3 => w().k.put(&path, Kind::Null, 0, 0, 0o666),
            _ => {
                w().exp.degraded = true;
                w().k.put(&path, Kind::Symlink(path.clone()), 0, 0, 0o777)
            }
        };
        if ino.is_none() {
            w().exp.degraded = true;
        }
        (path, o, ino)
    };
    let ut = tpl(false);
    let pt = tpl(true);

    if pct(30) {
        w().tty_names = rb(7);
    }

    // ---- sessions
    let nsess = match want {
        "C16" => 2 + rb(2) as usize,
        "C02" | "C06" | "" | "C01" | "C13" => 1 + w().ch.weighted(&[6, 2, 1]),
        _ => 1 + w().ch.weighted(&[12, 1]),
    };
    let mut specs = vec![];
    for n in 0..nsess {
        let (mut s, kind) = gen_spec(want, n);
        if give_dir {
            s.options.push(kv("socket_dir", &dirval));
        }
        for t in [&ut, &pt] {
            if let Some(o) = &t.1 {
                s.options.push(o.clone());
            }
        }
        if pct(10) {
            // duplicates: the last one counts
            s.options.insert(0, b"socket_dir=/ignored".to_vec());
            if !give_dir {
                s.options.push(kv("socket_dir", &dirval));
            }
        }
        if pct(5) {
            s.options.push(b"unknown_option".to_vec());
        }
        s.user_tpl_path = ut.0.clone();
        s.pair_tpl_path = pt.0.clone();
        s.tpl_inos = (ut.2, pt.2);
        // terminal
        let tty = tty_of(n);
        let tw: [u32; 6] = if matches!(want, "C15" | "C17" | "C03") { [8, 4, 3, 5, 1, 1] } else { [16, 2, 1, 1, 1, 1] };
        let mut have = true;
        match w().ch.weighted(&tw) {
            0 => {
                w().k.put(&tty, Kind::Tty { out: vec![], fail: 0, budget: 0 }, 0, 5, 0o620);
            }
            1 => {
                have = false;
                w().exp.degraded = true;
            }
            2 => w().exp.degraded = true,
            3 => {
                let f = 1 + rb(4) as u8;
                let b = one(&[0, 1, 5, 9, 40]);
                w().k.put(&tty, Kind::Tty { out: vec![], fail: f, budget: b }, 0, 5, 0o620);
                w().exp.degraded = true;
                w().note("tty_fails");
            }
            4 => {
                w().k.put(&tty, Kind::Null, 0, 5, 0o666);
                w().exp.degraded = true;
            }
            _ => {
                w().k.put(&tty, Kind::Dir(Default::default()), 0, 5, 0o755);
                w().exp.degraded = true;
            }
        }
        if have && !s.null_lists {
            s.user_info.push(kv("tty", &tty));
        }
        if pct(if matches!(want, "C17" | "C03" | "C22") { 12 } else { 4 }) {
            s.printf_null = pct(40);
            if !s.printf_null {
                s.printf_fail = one(&[16, 8, 2]);
                s.printf_errno = one(&[libc::EIO, libc::EINTR, libc::EAGAIN, 0]);
            }
            w().exp.degraded = true;
        }
        s.cbs = gen_callbacks(want, n);
        s.keep_going = pct(if matches!(want, "C11" | "C12") { 60 } else { 30 });
        s.post = if prop("C19") { 1 + rb(3) } else if pct(15) { 1 + rb(3) } else { 0 };
        specs.push((s, kind));
    }
    let mut restart_of = None;
    for n in 0..nsess {
        let (s, kind) = specs[n].clone();
        let start = if n == 0 { 0 } else { delay() % 5_000_000 };
        let idx = add_session(s, kind, n, start, None);
        let kill = match want {
            "C07" => 45,
            "C16" | "" => 20,
            "C06" | "C02" => 6,
            _ => 2,
        };
        if pct(kill) {
            w().sess[idx].kill_at = 1 + rb(120) as u64;
            if restart_of.is_none() && pct(if prop("C07") { 100 } else { 60 }) {
                restart_of = Some(idx);
            }
        }
    }
    if let Some(a) = restart_of {
        let (mut s, kind) = specs[a].clone();
        if prop("C07") && pct(30) {
            // another request of the same user and process id
            let (mut s2, _) = gen_spec(want, a);
            for k in ["uid", "gid", "groups", "pid"] {
                if let Some(v) = map_of(&s.user_info).get(k.as_bytes()) {
                    set(&mut s2.user_info, k, v);
                }
            }
            s2.pid = s.pid;
            s2.options.retain(|o| !o.starts_with(b"socket_dir"));
            if give_dir {
                s2.options.push(kv("socket_dir", &dirval));
            }
            for t in [&ut, &pt] {
                if let Some(o) = &t.1 {
                    s2.options.push(o.clone());
                }
            }
            s2.user_tpl_path = ut.0.clone();
            s2.pair_tpl_path = pt.0.clone();
            s2.tpl_inos = (ut.2, pt.2);
            let m2 = Model::of(&s2);
            // keep the framework's own sanity checks on sudo's parameters satisfied
            if m2.why != "self" {
                s = s2;
            }
        }
        let _ = kind;
        s.cbs = gen_callbacks(want, nsess);
        // the terminal already shows the first attempt; give the second its own
        let tty = tty_of(nsess);
        w().k.put(&tty, Kind::Tty { out: vec![], fail: 0, budget: 0 }, 0, 5, 0o620);
        if !s.null_lists {
            set(&mut s.user_info, "tty", &tty);
        }
        add_session(s, kind, nsess, 0, Some(a));
        w().note("restart_after_crash");
    }

    // ---- nobody's prompts are needed: reading one may take forever
    if w().sess.iter().all(|s| !s.m.gated && s.m.params_ok()) && pct(35) {
        for path in [&ut.0, &pt.0] {
            if pct(60) {
                match w().k.lookup_raw(path) {
                    Some(i) => w().k.inodes[i].kind = Kind::Fifo,
                    None => { w().k.put(path, Kind::Fifo, 0, 0, 0o600); }
                }
            }
        }
        for n in 0..w().sess.len() {
            let tty = tty_of(n);
            if pct(30) {
                match w().k.lookup_raw(&tty) {
                    Some(i) => w().k.inodes[i].kind = Kind::Fifo,
                    None => { w().k.put(&tty, Kind::Fifo, 0, 5, 0o620); }
                }
            }
        }
        w().note("blocking_files");
    }

    // ---- what is at the socket path already
    for n in 0..w().sess.len().min(nsess) {
        let squat = match want {
            "C07" => 60,
            "C03" => 20,
            "C16" => 6,
            "" => 15,
            _ => 4,
        };
        if !pct(squat) {
            continue;
        }
        let path = w().sess[n].path.clone();
        let ru = w().sess[n].m.runas_euid;
        match rb(9) {
            8 => {
                // a link to a socket is not a socket
                let other = one(&[b"/srv/socket".to_vec(), w().sess[(n + 1) % w().sess.len()].path.clone()]);
                if other != path && w().k.lookup_raw(&other).is_none() && other.starts_with(b"/srv") {
                    w().k.put(&other, Kind::Sock { listener: None }, one(&[ru, 0, 1000]), 0, 0o200);
                }
                if other != path {
                    w().k.put(&path, Kind::Symlink(other), 0, 0, 0o777);
                }
            }
            0 | 1 => {
                w().k.put(&path, Kind::Sock { listener: None }, one(&[ru, 0, 1000]), 0, one(&[0o200, 0, 0o020, 0o777]));
                w().note("stale_socket");
            }
            2 => {
                w().k.put(&path, Kind::File(b"precious".to_vec()), 0, 0, 0o644);
            }
            3 => {
                w().k.put(&path, Kind::Dir(Default::default()), 0, 0, 0o755);
            }
            4 => {
                w().k.put(b"/srv/data", Kind::File(b"precious".to_vec()), 0, 0, 0o644);
                w().k.put(&path, Kind::Symlink(b"/srv/data".to_vec()), 0, 0, 0o777);
            }
            5 => {
                w().k.put(&path, Kind::Symlink(b"/nonexistent/thing".to_vec()), 0, 0, 0o777);
            }
            6 => {
                w().k.put(&path, Kind::Fifo, 0, 0, 0o600);
            }
            _ => {
                w().k.put(&path, Kind::Null, 0, 0, 0o600);
            }
        }
    }

    // ---- people
    let mut universe = vec![user(0, 0, &[0])];
    for n in 0..w().sess.len() {
        let m = w().sess[n].m.clone();
        let sp = w().sess[n].spec.clone();
        let outs = outsiders(&sp, &m, dir_gid);
        universe.extend(outs.clone());
        if m.user_change {
            universe.push(user(m.runas_euid, 100, &[]));
        }
        if !m.gated && pct(70) {
            continue;
        }
        let c = gen_client(want, n, &m, false, true);
        spawn_client(&format!("pair{}", n), c);
        let extra = match want {
            "C13" => 60,
            "C09" | "" | "C16" => 25,
            _ => 10,
        };
        if pct(extra) {
            for _ in 0..1 + rb(2) {
                let c = gen_client(want, n, &m, false, false);
                spawn_client(&format!("extra{}", n), c);
            }
        }
        let evil = match want {
            "C02" | "C09" => 60,
            "C01" | "" => 40,
            _ => 8,
        };
        if !outs.is_empty() && pct(evil) {
            for _ in 0..1 + rb(2) {
                let mut c = gen_client(want, n, &m, false, true);
                c.who = one(&outs);
                c.start = delay() % 20_000;
                c.act = 0;
                c.answer = b"y".to_vec();
                c.tries = 60;
                spawn_client(&format!("outsider{}", n), c);
            }
        }
    }
    universe.push(user(1600, 1600, &[]));
    w().universe = universe;

    // ---- signals
    for n in 0..w().sess.len() {
        let sig = match want {
            "C08" => 92,
            "C01" | "C06" | "" => 18,
            "C13" | "C16" => 6,
            _ => 1,
        };
        if !pct(sig) {
            continue;
        }
        let no = if prop("C08") || pct(70) { libc::SIGINT } else { one(&[libc::SIGTERM, libc::SIGHUP, libc::SIGCHLD, libc::SIGUSR1, libc::SIGALRM, libc::SIGQUIT]) };
        match w().ch.weighted(&[5, 3, 3]) {
            0 => {
                // when it is blocked in the n-th wait
                let answer = pct(50);
                let d = delay();
                let p = new_proc("tty".into(), user(0, 0, &[]), 60_000 + n as i32);
                w().spawn(&format!("ctrl-c{}", n), p, false, Box::new(move || {
                    for _ in 0..400 {
                        let se = &w().sess[n];
                        if matches!(se.phase, Phase::Closed | Phase::Done | Phase::Running) || se.died.is_some() {
                            return;
                        }
                        if se.phase == Phase::Open && (if answer { se.answer_wait } else { se.waited }) {
                            break;
                        }
                        sleep(2_000 + rb(100) as u64);
                    }
                    if d > 0 {
                        sleep(d);
                    }
                    let se = &mut w().sess[n];
                    if se.died.is_none() && !matches!(se.phase, Phase::Done) {
                        se.signals += 1;
                        let pr = se.proc;
                        w().raise(pr, no);
                        w().note("signal_in_wait");
                    }
                }));
            }
            1 => {
                w().sess[n].sig_at = 1 + rb(110) as u64;
                w().sess[n].sig_no = no;
            }
            _ => {
                let d = delay();
                let p = new_proc("tty".into(), user(0, 0, &[]), 61_000 + n as i32);
                w().spawn(&format!("signal{}", n), p, false, Box::new(move || {
                    sleep(d.max(1));
                    let se = &mut w().sess[n];
                    if se.died.is_none() && !matches!(se.phase, Phase::Done) {
                        se.signals += 1;
                        let pr = se.proc;
                        w().raise(pr, no);
                        w().note("signal_timed");
                    }
                }));
            }
        }
    }

    // ---- an administrator who interferes with the path while it is in use
    let admin = match want {
        "C07" => 25,
        "" | "C16" => 5,
        _ => 0,
    };
    if pct(admin) {
        let n = rb(w().sess.len() as u32) as usize;
        w().sess[n].intruder_admin = true;
        let path = w().sess[n].path.clone();
        for s in w().sess.iter_mut() {
            if s.path == path {
                s.intruder_admin = true;
            }
        }
        let p = new_proc("admin".into(), user(0, 0, &[0]), 62_000);
        let when = rb(3);
        let what = rb(3);
        let d = delay() % 3_000_000;
        w().note("admin_replaces_socket");
        w().spawn("admin", p, false, Box::new(move || {
            // only while the session waits: nobody can protect themselves
            // against root racing them between two system calls
            let t = w().k.procs[w().sess[n].proc].task;
            let ready = move |wd: &World| {
                let se = &wd.sess[n];
                matches!(wd.tasks[t].state, TState::Blocked(Cond::Poll(_), ..))
                    && match when {
                        0 => se.waited && !se.answer_wait,
                        1 => se.answer_wait || se.recv_started,
                        _ => se.phase == Phase::Open && (se.waited || se.recv_started),
                    }
            };
            for _ in 0..3 {
                block(Cond::Test(Box::new(move |wd| ready(wd) || wd.sess[n].phase == Phase::Done || wd.sess[n].died.is_some())), None, false);
                if d > 0 {
                    sleep(d);
                }
                if ready(w()) {
                    break;
                }
            }
            if w().sess.iter().any(|s| s.path == path && s.phase == Phase::Open && !matches!(w().tasks[w().k.procs[s.proc].task].state, TState::Blocked(Cond::Poll(_), ..))) {
                return;
            }
            let _ = w().k.unlink(p, &path, false);
            let kind = match what {
                0 => Kind::File(b"precious".to_vec()),
                1 => Kind::Dir(Default::default()),
                _ => Kind::Fifo,
            };
            let c = user(0, 0, &[0]);
            if let Ok((par, name, None)) = w().k.walk(&c, b"/", &path, false) {
                if let Ok(_) = w().k.link_in(p, par, &name, kind, 0o644) {
                    w().log(|| "replaces the socket by a file of their own".into());
                }
            }
        }));
    }

    // ---- clock
    if pct(15) {
        let p = new_proc("clock".into(), user(0, 0, &[]), 63_000);
        w().spawn("clock", p, false, Box::new(move || {
            for _ in 0..1 + rb(4) {
                sleep(1 + delay());
                let j = one(&[3_600_000_000i64, -3_600_000_000, 86_400_000_000 * 400, -1_000_000, -1_700_000_000_000_000]);
                w().k.clk_off += j;
                w().note("clock_jump");
                w().log(|| format!("wall clock jumps by {} us", j));
            }
        }));
    }
}

pub fn force_client_close(wd: &mut World, conn: usize, client_obj: usize) {
    let p = wd.k.conns[conn].client_proc;
    if let Some(pr) = wd.k.procs.get(p) {
        let fds: Vec<i32> = pr.fds.iter().filter(|(_, e)| e.obj == client_obj).map(|(f, _)| *f).collect();
        for f in fds {
            let _ = wd.k.close(p, f);
        }
    }
    wd.exp.willing.remove(&p);
}

pub fn stuck(wd: &mut World, what: &str, busy: bool) {
    if crate::e2e::wants(wd.want) {
        crate::e2e::stuck(wd);
    }
    for s in 0..wd.sess.len() {
        let se = &wd.sess[s];
        // somebody else may be keeping the run busy, or it is merely getting ahead in small steps
        let t = &wd.tasks[wd.k.procs[se.proc].task];
        if busy && (t.recent < wd.step_limit / 8 || t.recent != u64::MAX && t.moved > wd.step_limit / 4 * 3) {
            continue;
        }
        if se.died.is_some() || !matches!(se.phase, Phase::Open | Phase::Running | Phase::Closing) {
            continue;
        }
        let wait = match se.last_wait {
            1 => "for somebody to connect",
            2 => "for an answer",
            3 => "for the pair to read",
            _ => "",
        };
        if !se.m.params_ok() {
            wd.violate("C22", format!("session {} with unusable parameters {} {}", s, what, wait));
            continue;
        }
        if se.m.version_query {
            wd.violate("C01", format!("session {}: version query {} {}", s, what, wait));
            continue;
        }
        if !se.m.gated {
            if !se.oom {
                let why = se.m.why;
                wd.violate("C03", format!("session {} ({}) is exempt but {} {}", s, why, what, wait));
            }
            continue;
        }
        if se.printf_calls > 2000 {
            wd.violate("C21", format!("session {}: {} print calls and counting", s, wd.sess[s].printf_calls));
        }
        let se = &wd.sess[s];
        if se.phase != Phase::Open {
            continue;
        }
        let first = se.accepted.first().copied();
        if oracle::base_ok(wd, s) {
            let willing = first.map_or(false, |c| wd.exp.willing.contains(&wd.k.conns[c].client_proc));
            let waiting: Vec<usize> = match wd.sess[s].bound_ino.map(|i| &wd.k.inodes[i].kind) {
                Some(Kind::Sock { listener: Some(l) }) => match wd.k.slot(*l).map(|s| &s.obj) {
                    Some(Obj::Listener { backlog, .. }) => backlog.iter().copied().collect(),
                    _ => vec![],
                },
                _ => vec![],
            };
            let refused = first.is_none()
                && wd.exp.willing.iter().any(|p| {
                    let queued = wd.k.conns.iter().any(|c| c.client_proc == *p && waiting.contains(&c.server_obj));
                    let tried = wd.exp.gave_up.contains(&(*p, s));
                    let auth = wd.sess[s].m.authorised(&wd.k.procs[*p].cred);
                    auth && (queued || tried)
                });
            if willing || refused {
                let msg = format!("session {}: {} {} although {}", s, what, wait, if willing { "its authorised pair said yes" } else { "an authorised pair tried to connect" });
                oracle::unfair(wd, s, msg);
            }
        }
    }
}

pub fn at_limit(wd: &mut World) -> bool {
    for i in 0..wd.tasks.len() {
        let t = &wd.tasks[i];
        let st = match &t.state {
            TState::Done => continue,
            TState::Runnable => "runnable".to_string(),
            TState::Blocked(_, d, _) => format!("blocked until {:?}", d),
        };
        let m = format!("at the step limit: task {} is {}", t.name, st);
        wd.log(|| m);
    }
    wd.note("step_limit");
    stuck(wd, "never finishes", true);
    crate::probe::stuck(wd);
    false
}

/// nothing can run and no timer is armed
pub fn quiescent(wd: &mut World) -> bool {
    loop {
        let st = wd.stage;
        wd.stage += 1;
        match st {
            0 => stuck(wd, "is blocked forever waiting", false),
            1 => {
                let mut any = false;
                for s in 0..wd.sess.len() {
                    let se = &mut wd.sess[s];
                    if se.phase == Phase::Open && se.died.is_none() && se.spec.sig_mode != 2 {
                        se.signals += 1;
                        se.poked = matches!(se.last_wait, 1 | 2);
                        let p = se.proc;
                        wd.raise(p, libc::SIGINT);
                        wd.note("sigint_when_stuck");
                        any = true;
                    }
                }
                if any {
                    return true;
                }
            }
            2 => {
                for s in 0..wd.sess.len() {
                    let se = &wd.sess[s];
                    if se.poked && se.phase == Phase::Open && se.died.is_none() && matches!(se.last_wait, 1 | 2) {
                        wd.violate("C08", format!("session {}: still waiting for its pair after SIGINT", s));
                    }
                }
                let mut any = false;
                for p in 0..wd.k.procs.len() {
                    if wd.k.procs[p].alive && wd.k.procs[p].sess.is_none() && !wd.k.procs[p].fds.is_empty() {
                        wd.k.exit_proc(p);
                        any = true;
                    }
                }
                if any {
                    return true;
                }
            }
            3 => {
                let mut any = false;
                for s in 0..wd.sess.len() {
                    if wd.sess[s].died.is_none() && wd.sess[s].phase != Phase::Done {
                        wd.sess[s].signals += 1;
                        let p = wd.sess[s].proc;
                        wd.raise(p, libc::SIGKILL);
                        any = true;
                    }
                }
                if any {
                    return true;
                }
            }
            _ => return false,
        }
    }
}
