//! The framework itself: four scripted plugins built with the working tree's sudo_plugin, driven through arbitrary
//! histories of opens, callbacks and closes, against a small reference model of their life cycle.
use crate::kernel::*;
use crate::scenario::{kv, new_proc, one, pct, rb};
use crate::sched::*;
use crate::session::*;
use std::collections::BTreeSet;
use std::os::raw::{c_char, c_int};

pub const RULE: &str = "one run = one seed = one generated history of opens, callbacks and closes over four scripted plugins in one process, with one script of handler outcomes and one plan of printing failures (or, for C18 and C21, sometimes a whole simulated sudo session as for C01); it is non-trivial when the property's own condition arose in it, and two runs are distinct when their sequences of (task, call, outcome class) differ (64-bit hash)";

/// this property is decided with the scripted plugins
pub fn wants(p: &str) -> bool {
    matches!(p, "C18" | "C19" | "C20" | "C21" | "C27")
}

const NAMES: [&str; 4] = ["hints", "all%d", "min", "own"];
const SYMBOLS: [&str; 4] = ["probe_hints", "probe_all", "probe_min", "probe_own"];
const IGNORE: [bool; 4] = [false, true, false, false];
const OPEN: u32 = 1;
const CLOSE: u32 = 2;
const VERSION: u32 = 3;
const WINSIZE: u32 = 4;
const DROP: u32 = 5;
const PAYLOAD_DROP: u32 = 6;
const ERROR_FROM: u32 = 7;
const LOG: u32 = 10;

#[repr(C)]
struct Action {
    kind: u32,
    open: i32,
    log: i32,
    n: u32,
    msgs: *const *const u8,
    lens: *const usize,
}

#[derive(Clone, Debug)]
struct Ev {
    plugin: u32,
    what: u32,
    id: u64,
    data: B,
    a: i64,
    b: i64,
    canary: B,
}

#[derive(Clone, Debug, Default)]
struct Plan {
    kind: u32,
    open: i32,
    log: i32,
    msgs: Vec<B>,
}
impl Plan {
    fn panics(&self) -> bool {
        !matches!(self.kind, 0 | 1 | 14)
    }
}

#[derive(Default)]
struct Plug {
    live: Option<u64>,
    opened: bool,
    /// the last open was accepted without an instance
    query: bool,
    canary: B,
    hints: [bool; 5],
    panicked: bool,
    alive: BTreeSet<u64>,
    /// what its environment has to look like
    want: Vec<(String, Want)>,
}

#[derive(Clone, Debug)]
enum Want {
    Is(Option<B>),
    /// some error
    Fails,
}

#[derive(Default)]
struct State {
    proc: usize,
    plug: [Plug; 4],
    plan: Plan,
    events: Vec<Ev>,
    nested: Vec<Ev>,
    err: B,
    prints: u64,
    any_fail: bool,
    fail: u32,
    errno: i32,
    zero: bool,
    /// how often (of 16) only part of a text is printed at once
    short: u32,
    null_print: bool,
    /// histories about what plugins are told
    full: bool,
    dump: B,
    out: B,
    op: String,
    busy: bool,
}
static mut ST: Option<State> = None;

fn st() -> &'static mut State {
    unsafe { ST.as_mut().unwrap() }
}
pub fn running() -> bool {
    unsafe { ST.is_some() }
}
pub fn is_probe(p: usize) -> bool {
    running() && st().proc == p
}
pub fn errno() -> i32 {
    if running() { st().errno } else { libc::EIO }
}

pub fn stuck(wd: &mut World) {
    if running() && st().busy {
        let s = st();
        wd.violate("C21", format!("{} never returns ({} print calls so far{})", s.op, s.prints, if s.any_fail { ", printing fails" } else { "" }));
    }
}
/// a real crash inside the probe
pub fn died(wd: &mut World, sig: i32) {
    let s = st();
    wd.violate("C18", format!("{} crashed sudo with signal {}", s.op, sig));
}
pub fn finish(_wd: &mut World) {}

/// returns Some(what printf returns) when it is to fail
pub fn on_print(wd: &mut World, level: i32, text: &[u8], fail: &mut bool) -> i32 {
    if !running() {
        return text.len() as i32;
    }
    let s = st();
    s.prints += 1;
    if s.fail > 0 && wd.ch.chance(s.fail, 16) {
        *fail = true;
        s.any_fail = true;
        *wd.faults.entry(if s.zero { "printf:0".into() } else { "printf:-1".into() }).or_insert(0) += 1;
        return if s.zero { 0 } else { -1 };
    }
    let mut n = text.len();
    if n > 1 && s.short > 0 && wd.ch.chance(s.short, 16) {
        // only part of the text is printed at once, as the return value says
        n = 1 + wd.ch.below(n as u32 - 1) as usize;
        s.prints -= 1;
        *wd.faults.entry("printf:short".into()).or_insert(0) += 1;
    }
    if level == ERROR_MSG {
        s.err.extend_from_slice(&text[..n]);
    } else {
        s.out.extend_from_slice(&text[..n]);
    }
    n as i32
}

unsafe extern "C" fn event(plugin: u32, what: u32, id: u64, data: *const u8, len: usize, a: i64, b: i64, canary: *const u8, clen: usize) -> *const Action {
    let data = if len == 0 { vec![] } else { std::slice::from_raw_parts(data, len).to_vec() };
    let canary = if clen == 0 { vec![] } else { std::slice::from_raw_parts(canary, clen).to_vec() };
    let s = st();
    let e = Ev { plugin, what, id, data, a, b, canary };
    w().log(|| format!("   handler: plugin {} event {} instance {} ({} bytes) {} {}", NAMES[plugin as usize % 4], what, id, e.data.len(), a, b));
    w().ev(4000 + what, plugin as i64);
    if s.full && plugin < 4 && !s.dump.is_empty() {
        let d = std::mem::take(&mut s.dump);
        check_dump(plugin as usize, &d);
    }
    let plan = if matches!(what, DROP | PAYLOAD_DROP) { Plan::default() } else { s.plan.clone() };
    if matches!(what, PAYLOAD_DROP | ERROR_FROM) {
        s.nested.push(e);
    } else {
        s.events.push(e);
    }
    let lens: Vec<usize> = plan.msgs.iter().map(|m| m.len()).collect();
    let ptrs: Vec<*const u8> = plan.msgs.iter().map(|m| Box::leak(m.clone().into_boxed_slice()).as_ptr()).collect();
    Box::leak(Box::new(Action {
        kind: plan.kind,
        open: plan.open,
        log: plan.log,
        n: plan.msgs.len() as u32,
        msgs: Box::leak(ptrs.into_boxed_slice()).as_ptr(),
        lens: Box::leak(lens.into_boxed_slice()).as_ptr(),
    }))
}

unsafe extern "C" fn dump(data: *const u8, len: usize) {
    st().dump = std::slice::from_raw_parts(data, len).to_vec();
}

fn show(v: &Option<B>) -> String {
    match v {
        None => "nothing".into(),
        Some(b) => format!("\"{}\"{}", String::from_utf8_lossy(&b[..b.len().min(80)]).escape_debug(), if b.len() > 80 { format!(" ({} bytes)", b.len()) } else { String::new() }),
    }
}

/// is what a plugin sees of its environment what its open was given?
fn check_dump(k: usize, d: &[u8]) {
    let mut got: Vec<(String, Option<B>)> = vec![];
    let mut i = 0;
    while i < d.len() {
        let n = d[i..].iter().position(|c| *c == 0).unwrap();
        let name = String::from_utf8_lossy(&d[i..i + n]).into_owned();
        i += n + 1;
        let some = d[i] == 1;
        let len = u32::from_le_bytes([d[i + 1], d[i + 2], d[i + 3], d[i + 4]]) as usize;
        i += 5;
        got.push((name, if some { Some(d[i..i + len].to_vec()) } else { None }));
        i += len;
    }
    let got: std::collections::HashMap<String, Option<B>> = got.into_iter().collect();
    w().exercise("C27");
    for (n, x) in &st().plug[k].want {
        let g = got.get(n).cloned().flatten();
        let fits = match x {
            Want::Is(v) => g == *v,
            Want::Fails => g.as_ref().map_or(false, |g| !g.starts_with(b"ok ")),
        };
        if !fits {
            let m = format!("{}: {} sees {} as {}, not {}", st().op, NAMES[k], n, show(&g), match x { Want::Is(v) => show(v), Want::Fails => "an error".into() });
            w().violate("C27", m);
        }
    }
}

/// the value sudo passed for a key
fn look(l: &[B], k: &[u8]) -> Option<B> {
    let mut r = None;
    for e in l {
        let (a, b) = match e.iter().position(|c| *c == b'=') {
            Some(i) => (&e[..i], &e[i + 1..]),
            None => (&e[..], &e[..]),
        };
        if a == k {
            r = Some(b.to_vec());
        }
    }
    r
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Bool,
    Int(i128, i128),
    Oct,
    Str,
    Path,
    Ints(i128, i128),
    Nets,
}
use Ty::*;
const U8: Ty = Int(0, u8::MAX as i128);
const I8: Ty = Int(i8::MIN as i128, i8::MAX as i128);
const U16: Ty = Int(0, u16::MAX as i128);
const I16: Ty = Int(i16::MIN as i128, i16::MAX as i128);
const U32: Ty = Int(0, u32::MAX as i128);
const I32: Ty = Int(i32::MIN as i128, i32::MAX as i128);
const U64: Ty = Int(0, u64::MAX as i128);
const I64: Ty = Int(i64::MIN as i128, i64::MAX as i128);

fn int(s: &str, min: i128, max: i128) -> Option<i128> {
    let d = if min < 0 { s.strip_prefix('-').unwrap_or(s) } else { s };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) || d.len() > 30 {
        return None;
    }
    let v: i128 = d.parse().ok()?;
    let v = if d.len() < s.len() { -v } else { v };
    if v < min || v > max { None } else { Some(v) }
}

/// what a value of this type is shown as, if it is one
fn typed(t: Ty, v: &[u8]) -> Option<B> {
    if t == Path {
        return Some(v.to_vec());
    }
    let s = std::str::from_utf8(v).ok()?;
    Some(match t {
        Bool if s == "true" || s == "false" => s.to_string(),
        Bool => return None,
        Int(a, b) => int(s, a, b)?.to_string(),
        Oct => {
            if s.is_empty() || s.len() > 6 || !s.bytes().all(|c| (b'0'..=b'7').contains(&c)) {
                return None;
            }
            s.bytes().fold(0u32, |n, c| n * 8 + (c - b'0') as u32).to_string()
        }
        Str | Path => s.to_string(),
        Ints(a, b) => {
            let l: Option<Vec<i128>> = s.split(',').map(|x| int(x, a, b)).collect();
            l?.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        }
        Nets => {
            let mut l = vec![];
            for e in s.split(' ') {
                let (a, m) = e.split_once('/')?;
                let (a, m): (std::net::IpAddr, std::net::IpAddr) = (a.parse().ok()?, m.parse().ok()?);
                l.push(format!("{}/{}", a, m));
            }
            l.join(" ")
        }
    }.into_bytes())
}

fn fine(t: Ty) -> B {
    let n = |min: i128, max: i128| -> B {
        match rb(7) {
            0 => max.to_string(),
            1 => min.to_string(),
            2 => "0".into(),
            3 => format!("00{}", rb(100)),
            4 => (max / 2 + 1).to_string(),
            5 => rb(100).to_string(),
            _ => ((rb(1 << 30) as i128 * 7919) % (max + 1)).to_string(),
        }.into_bytes()
    };
    match t {
        Bool => one(&[&b"true"[..], b"false"]).to_vec(),
        Int(a, b) => n(a, b),
        Oct => one(&[&b"022"[..], b"0022", b"077", b"0", b"0777", b"27", b"7777", b"002"]).to_vec(),
        Str => one(&["", "x", "a=b", "=", "tr\u{fc}e", "true", "12", "%s%n", " sp ace ", "a,b", "\n\x1b[2J"]).as_bytes().to_vec(),
        Path => one(&[&b"/"[..], b"", b"/a b", b"/\xff\xfe", b"rel", b"/k=v", b"/a/../b/", b"//x", b"/x\n"]).to_vec(),
        Ints(a, b) => {
            let l: Vec<B> = (0..1 + rb(if pct(5) { 300 } else if pct(2) { 2000 } else { 5 })).map(|_| n(a, b)).collect();
            l.join(&b','.to_owned())
        }
        Nets => {
            let a = ["10.0.0.1/255.0.0.0", "192.168.1.2/255.255.255.0", "fe80::1/ffff:ffff:ffff:ffff::", "::1/ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "0.0.0.0/0.0.0.0"];
            (0..1 + rb(4)).map(|_| one(&a)).collect::<Vec<_>>().join(" ").into_bytes()
        }
    }
}

fn odd() -> B {
    let v: [&[u8]; 21] = [
        b"", b"abc", b"-1", b"256", b"65536", b"4294967296", b"18446744073709551616", b" 1", b"1 ", b"0x10", b"1,2", b"1,", b",", b"\xff", b"12\xff", b"truely",
        b"9", b"1.5", b"10.0.0.1", b"10.0.0.1/8", b"10.0.0.1/255.0.0.0/1",
    ];
    one(&v).to_vec()
}

const SETTINGS: [(&str, Ty, Option<&str>); 23] = [
    ("bsdauth_type", Str, None), ("closefrom", U64, None), ("debug_flags", Str, None), ("debug_level", U64, None), ("ignore_ticket", Bool, Some("false")),
    ("implied_shell", Bool, Some("false")), ("login_class", Str, None), ("login_shell", Bool, Some("false")), ("max_groups", U64, None), ("network_addrs", Nets, Some("")),
    ("noninteractive", Bool, Some("false")), ("preserve_environment", Bool, Some("false")), ("preserve_groups", Bool, Some("false")), ("prompt", Str, None), ("remote_host", Str, None),
    ("run_shell", Bool, Some("false")), ("runas_group", Str, None), ("runas_user", Str, None), ("selinux_role", Str, None), ("selinux_type", Str, None),
    ("set_home", Bool, Some("false")), ("sudoedit", Bool, Some("false")), ("timeout", Str, None),
];
const USER: [(&str, Ty, Option<&str>); 6] = [("cols", U64, Some("80")), ("lines", U64, Some("24")), ("sid", I32, Some("0")), ("tcpgid", I32, Some("-1")), ("tty", Str, None), ("umask", Str, None)];
const COMMAND: [(&str, Ty, Option<&str>); 32] = [
    ("chroot", Str, None), ("closefrom", U64, None), ("cwd", Path, None), ("exec_background", Bool, Some("false")), ("execfd", U64, None), ("iolog_compress", Bool, Some("false")),
    ("iolog_group", Str, None), ("iolog_mode", Str, None), ("iolog_path", Str, None), ("iolog_stdin", Bool, Some("false")), ("iolog_stdout", Bool, Some("false")),
    ("iolog_stderr", Bool, Some("false")), ("iolog_ttyin", Bool, Some("false")), ("iolog_ttyout", Bool, Some("false")), ("iolog_user", Str, None), ("login_class", Str, None),
    ("nice", I64, None), ("noexec", Bool, Some("false")), ("preserve_fds", Ints(i32::MIN as i128, i32::MAX as i128), Some("")), ("preserve_groups", Bool, Some("false")),
    ("runas_groups", Ints(0, u32::MAX as i128), None), ("selinux_role", Str, None), ("selinux_type", Str, None), ("set_utmp", Bool, Some("false")), ("sudoedit", Bool, Some("false")),
    ("sudoedit_checkdir", Bool, Some("true")), ("sudoedit_follow", Bool, Some("false")), ("timeout", U64, None), ("umask", Oct, Some("4095")), ("umask_override", Bool, None),
    ("use_pty", Bool, Some("false")), ("utmp_user", Str, None),
];
const REQUIRED: [(usize, &str, Ty); 17] = [
    (0, "plugin_dir", Str), (0, "plugin_path", Str), (0, "progname", Str), (1, "cwd", Path), (1, "egid", U32), (1, "euid", U32), (1, "gid", U32), (1, "groups", Ints(0, u32::MAX as i128)),
    (1, "host", Str), (1, "pgid", I32), (1, "pid", I32), (1, "ppid", I32), (1, "uid", U32), (1, "user", Str), (2, "runas_uid", U32), (2, "runas_gid", U32), (2, "command", Path),
];

struct Told {
    api: u32,
    argv: Vec<B>,
    lists: [Vec<B>; 5],
    missing: Option<&'static str>,
    query: bool,
}

fn told(k: usize) -> Told {
    let (maj, min) = one(&[(1u32, 9u32), (1, 10), (1, 14), (1, 22), (2, 0), (1, 65535)]);
    let mut l: [Vec<B>; 5] = Default::default();
    let missing = if pct(8) { Some(&REQUIRED[rb(14) as usize]) } else { None };
    let query = missing.is_none() && pct(6);
    let junk = |l: &mut Vec<B>| {
        for _ in 0..rb(3) {
            let e: [&[u8]; 12] = [b"valueless", b"=x", b"=", b"a=b=c", b"uidx=5", b"xuid=7", b"UID=3", b"uid =4", b"\xff\xfe=\xfd", b"cwd", b"tty=/dev/other", b"k="];
            let x = one(&e).to_vec();
            // whatever means something is left to the real parameters
            if !REQUIRED.iter().any(|r| x.split(|c| *c == b'=').next() == Some(r.1.as_bytes())) {
                l.push(x);
            }
        }
    };
    for (i, table) in [&SETTINGS[..], &USER[..], &COMMAND[..]].iter().enumerate() {
        junk(&mut l[i]);
        // sudo's order is its own business
        let n = table.len() as u32;
        let start = rb(n);
        for x in 0..n {
            let (key, t, _) = table[((start + x) % n) as usize];
            if t == Bool && key.starts_with("iolog_") && i == 2 && pct(60) {
                l[i].push(kv(key, b"true"));
                continue;
            }
            match w().ch.weighted(&[5, 9, 2, 1]) {
                0 => {}
                1 => l[i].push(kv(key, &fine(t))),
                2 => l[i].push(kv(key, &if key == "tty" { b"/dev/pts/9".to_vec() } else { odd() })),
                _ => {
                    l[i].push(kv(key, &fine(t)));
                    l[i].push(kv(key, &fine(t)));
                }
            }
        }
    }
    for r in REQUIRED.iter() {
        if missing.map_or(false, |m| m.1 == r.1 && m.0 == r.0) {
            let v = odd();
            if pct(50) && typed(r.2, &v).is_none() {
                l[r.0].push(kv(r.1, &v));
            }
            continue;
        }
        let v = if r.1 == "command" && r.0 == 2 { if query { b"".to_vec() } else { [b"/c", &fine(Path)[..]].concat() } } else { fine(r.2) };
        if pct(4) {
            l[r.0].push(kv(r.1, &fine(r.2)));
        }
        l[r.0].push(kv(r.1, &v));
    }
    for x in ["runas_egid", "runas_euid"].iter() {
        if pct(60) {
            let v = if pct(80) { fine(U32) } else { odd() };
            l[2].push(kv(x, &v));
        }
    }
    for x in 3..5 {
        junk(&mut l[x]);
    }
    for _ in 0..rb(6) {
        let e: [&[u8]; 7] = [b"PATH=/bin:/usr/bin", b"HOME=/root", b"BROKEN", b"X=\xff=", b"_=", b"LC_ALL=C", b"uid=0"];
        l[3].push(one(&e).to_vec());
    }
    for x in ["g0", "g1", "g2"].iter() {
        if pct(90) {
            let v = match rb(9) { 0 | 1 => odd(), 2 => fine(Bool), 3 => fine(Ints(0, 300)), 4 => fine(U8), 5 => fine(I16), 6 => fine(U64), 7 => fine(Str), _ => fine(I64) };
            l[4].push(kv(x, &v));
        }
    }
    if pct(3) {
        // a great deal of everything
        let n = 200 + rb(3000);
        let at = rb(6) as usize;
        if at < 5 {
            l[at].extend((0..n).map(|i| kv(&format!("V{}", i), format!("{}", i * 3).as_bytes())));
            let last = kv("last", b"one");
            l[at].push(last);
        } else {
            l[3].push(kv("LONG", &vec![b'v'; 4000 + rb(130_000) as usize]));
            l[4].push([vec![b'k'; 250 + rb(5000) as usize], b"=long key".to_vec()].concat());
        }
    }
    let canary: B = format!("canary-{}-{}", rb(1_000_000), w().steps).into_bytes();
    l[4].push(kv("canary", &canary));
    let mut keys: Vec<B> = vec![b"absent".to_vec(), b"uid".to_vec(), b"cwd".to_vec(), b"".to_vec(), b"last".to_vec()];
    for x in &l[3..5] {
        keys.extend(x.iter().filter(|e| e.len() > 255).map(|e| e.split(|c| *c == b'=').next().unwrap().to_vec()));
    }
    for _ in 0..4 + rb(8) {
        let x = &l[rb(5) as usize];
        if !x.is_empty() {
            let e = &x[rb(x.len() as u32) as usize];
            keys.push(e.split(|c| *c == b'=').next().unwrap().to_vec());
        }
    }
    l[4].push(kv("keys", &keys.join(&31u8)));

    // and what the plugin has to be told then
    let mut want: Vec<(String, Want)> = vec![];
    let argc = if pct(2) { 250 + rb(3000) } else { rb(5) };
    let argv: Vec<B> = (0..argc).map(|_| match rb(6) { 0 => vec![], 1 => b"\xff%n".to_vec(), 2 => vec![b'a'; 1 + rb(if argc > 5 { 50 } else { 5000 }) as usize], 3 => b"-x".to_vec(), _ => b"id".to_vec() }).collect();
    {
        let mut is = |n: String, v: Option<B>| want.push((n, Want::Is(v)));
        is("plugin_name".into(), Some(NAMES[k].as_bytes().to_vec()));
        if k < 2 {
            is("plugin_version".into(), Some(b"7.8.9".to_vec()));
        }
        is("api".into(), Some(format!("{}.{}", maj, min).into_bytes()));
        is("argc".into(), Some(argv.len().to_string().into_bytes()));
        for (i, a) in argv.iter().enumerate() {
            is(format!("argv{}", i), Some(a.clone()));
        }
        for (i, table) in [&SETTINGS[..], &USER[..], &COMMAND[..]].iter().enumerate() {
            for (key, t, def) in table.iter() {
                let v = look(&l[i], key.as_bytes()).and_then(|v| typed(*t, &v)).or(def.map(|d| d.as_bytes().to_vec()));
                is(format!("{}.{}", ["s", "u", "c"][i], key), v);
            }
        }
        for (i, key, t) in REQUIRED.iter() {
            is(format!("{}.{}", ["s", "u", "c"][*i], key), look(&l[*i], key.as_bytes()).and_then(|v| typed(*t, &v)));
        }
        for (x, y) in [("runas_egid", "runas_gid"), ("runas_euid", "runas_uid")].iter() {
            let of = |k: &str| look(&l[2], k.as_bytes()).and_then(|v| typed(U32, &v));
            is(format!("c.{}", x), of(x).or(of(y)));
        }
        is("cwd()".into(), look(&l[2], b"cwd").or(look(&l[1], b"cwd")));
        let cmd = |k: &str, t: Ty| look(&l[2], k.as_bytes()).and_then(|v| typed(t, &v));
        let ids = Ints(0, u32::MAX as i128);
        let kept = cmd("preserve_groups", Bool).as_deref() == Some(b"true");
        if missing.is_none() && kept != cmd("runas_groups", ids).is_some() {
            let of = cmd("runas_groups", ids).or(look(&l[1], b"groups")).unwrap();
            let mut set: BTreeSet<u32> = String::from_utf8_lossy(&of).split(',').map(|x| x.parse().unwrap()).collect();
            set.insert(String::from_utf8_lossy(&cmd("runas_egid", U32).or(cmd("runas_gid", U32)).unwrap()).parse().unwrap());
            is("runas_gids()".into(), Some(set.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",").into_bytes()));
        }
        for (i, key) in keys.iter().enumerate() {
            for (n, m) in ["s", "u", "c", "e", "o"].iter().zip(&l) {
                is(format!("raw.{}.{}", n, i), look(m, key));
            }
        }
    }
    for x in ["g0", "g1", "g2"].iter() {
        let v = look(&l[4], x.as_bytes());
        let text = v.as_ref().and_then(|v| std::str::from_utf8(v).ok());
        want.push((format!("{}:text", x), Want::Is(text.map(|t| t.as_bytes().to_vec()))));
        let dedup = |b: B| -> B {
            let l: BTreeSet<u32> = String::from_utf8_lossy(&b).split(',').map(|x| x.parse().unwrap()).collect();
            l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",").into_bytes()
        };
        for (n, t) in [
            ("bool", Bool), ("i8", I8), ("u8", U8), ("i16", I16), ("u16", U16), ("i32", I32), ("u32", U32), ("i64", I64), ("u64", U64), ("string", Str), ("path", Str),
            ("i32s", Ints(i32::MIN as i128, i32::MAX as i128)), ("u64s", Ints(0, u64::MAX as i128)), ("paths", Str), ("u32set", Ints(0, u32::MAX as i128)),
        ].iter() {
            let name = format!("{}:{}", x, n);
            let x27 = match (&v, text) {
                (None, _) => Want::Is(Some(format!("missing {}", x).into_bytes())),
                (Some(_), None) => Want::Fails,
                (Some(v), Some(s)) => Want::Is(Some(match typed(*t, v) {
                    Some(b) => [b"ok ".to_vec(), if *n == "u32set" { dedup(b) } else { b }].concat(),
                    None => format!("invalid {} {}", x, s).into_bytes(),
                })),
            };
            want.push((name, x27));
        }
    }
    let p = &mut st().plug[k];
    p.canary = canary;
    p.want = want;
    for i in 0..5 {
        p.hints[i] = look(&l[2], format!("iolog_{}", STREAMS[i]).as_bytes()).as_deref() == Some(&b"true"[..]);
    }
    Told { api: maj << 16 | min, argv, lists: l, missing: missing.map(|m| m.1), query }
}

fn text() -> B {
    match rb(9) {
        0 => b"it failed".to_vec(),
        7 => b"\0nul \0\0 and\0".to_vec(),
        1 => b"".to_vec(),
        2 => b"100% %s %n %5c %x".to_vec(),
        3 => "ünïcødé ✓".as_bytes().to_vec(),
        4 => vec![b'a' + rb(26) as u8; 1 + rb(3000) as usize],
        5 => b"tab\tescape\x1b[2Jbell\x07".to_vec(),
        6 => b"%".to_vec(),
        _ => format!("cause {}", rb(1000)).into_bytes(),
    }
}

fn plan(allow_err: bool) -> Plan {
    let kind = match w().ch.weighted(&[10, if allow_err { 7 } else { 0 }, 6, 1, 1]) {
        0 => 0,
        1 => 1,
        2 => one(&[2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15]),
        3 => if allow_err { 11 } else { 2 },
        _ => 14,
    };
    let n = match w().ch.weighted(&[6, 4, 2, 1]) {
        0 => 1,
        1 => 2 + rb(3),
        2 => 4 + rb(12),
        _ => 30 + rb(170),
    };
    Plan { kind, open: one(&[-1, 0, 1, -2]), log: one(&[0, -1, 1]), msgs: (0..n).map(|_| text()).collect() }
}

fn bytes() -> B {
    if pct(1) {
        return (0..131_000 + rb(200_000)).map(|x| (x / 7) as u8).collect();
    }
    match rb(7) {
        0 => b"hello\n".to_vec(),
        1 => vec![],
        2 => vec![0; 1 + rb(40) as usize],
        3 => (0..256u32).map(|x| x as u8).collect(),
        4 => vec![b'q'; 1 + rb(70_000) as usize],
        5 => vec![rb(256) as u8],
        _ => b"\xff\xfe%s%n\x1b]0;x\x07".to_vec(),
    }
}

fn num() -> u32 {
    one(&[24, 0, 1, 80, 65535, 65536, u32::MAX, 0x8000_0000])
}

fn begin(op: String) {
    let s = st();
    s.events.clear();
    s.nested.clear();
    s.err.clear();
    s.out.clear();
    s.prints = 0;
    s.any_fail = false;
    w().log(|| format!("-- {}", op));
    s.op = op;
    s.busy = true;
    yield_now();
}

/// a discrepancy in how a callback's result or data is passed on
fn bad(k: usize, prop: &'static str, msg: String) {
    let s = st();
    let m = format!("{}: {}", s.op, msg);
    if s.plug[k].panicked {
        w().violate("C18", format!("after an earlier panic, {}", m));
    }
    if s.any_fail || s.null_print {
        w().violate("C21", format!("when printing fails, {}", m));
    }
    w().violate(prop, m);
}

/// what handlers ran besides the expected ones?
fn expect(k: usize, want: &[(u32, B, i64, i64)], prop: &'static str) -> bool {
    let s = st();
    s.busy = false;
    let got: Vec<Ev> = s.events.iter().filter(|e| e.what != DROP).cloned().collect();
    let fit = got.len() == want.len() && got.iter().zip(want).all(|(g, x)| g.plugin == k as u32 && g.what == x.0 && g.data == x.1 && g.a == x.2 && g.b == x.3);
    if !fit {
        let d = |e: &Ev| format!("{} event {} ({} bytes, {}, {})", NAMES[e.plugin as usize % 4], e.what, e.data.len(), e.a, e.b);
        bad(k, prop, format!("handlers that ran: [{}], expected {}", got.iter().map(d).collect::<Vec<_>>().join("; "), want.iter().map(|x| format!("{} event {} ({} bytes, {}, {})", NAMES[k], x.0, x.1.len(), x.2, x.3)).collect::<Vec<_>>().join("; ")));
    }
    // whichever ran, it must have been the live instance, with its environment
    for e in &st().events.clone() {
        let p = &st().plug[(e.plugin as usize).min(3)];
        if e.canary != p.canary {
            let m = format!("a handler of {} ran with another environment than the one of its open", NAMES[e.plugin as usize]);
            bad(k, "C19", m);
        }
        if e.what != OPEN && e.what != VERSION && Some(e.id) != p.live {
            let m = format!("a handler ran for instance {} while the live one is {:?}", e.id, p.live);
            bad(k, "C19", m);
        }
    }
    fit
}

fn drops(k: usize, want: usize) {
    let n = st().events.iter().filter(|e| e.what == DROP).count();
    if n != want {
        bad(k, "C19", format!("{} instances dropped, expected {}", n, want));
    }
}

fn check_print(k: usize, msgs: &[B]) {
    let s = st();
    let name = NAMES[k];
    let mut want: B = vec![];
    let mut size = 0;
    for m in msgs {
        want.extend_from_slice(name.as_bytes());
        want.extend_from_slice(b": ");
        want.extend_from_slice(m);
        want.push(b'\n');
        size += m.len();
    }
    if s.prints > (100 + 20 * msgs.len() + size) as u64 {
        let m = format!("{}: {} print calls for {} messages", s.op, s.prints, msgs.len());
        w().violate("C21", m);
    }
    if s.any_fail || s.null_print {
        w().exercise("C21");
        return;
    }
    w().exercise("C21");
    let skip = s.err.iter().take_while(|c| **c == b'\n').count();
    if s.err[skip..] != want[..] {
        let show = |b: &[u8]| {
            let t: String = String::from_utf8_lossy(&b[..b.len().min(200)]).escape_debug().collect();
            format!("\"{}\" ({} bytes)", t, b.len())
        };
        let m = format!("{}: printed {}, expected {}", s.op, show(&s.err[skip..]), show(&want));
        w().violate("C21", m);
    }
}

fn params(k: usize) -> (u32, [Vec<B>; 4], Option<&'static str>, bool) {
    let api = (1u32 << 16) | one(&[9, 10, 14, 22]);
    let mut settings = vec![kv("plugin_dir", b"/usr/lib/sudo"), kv("plugin_path", b"/usr/lib/sudo/probe.so"), kv("progname", b"sudo")];
    let mut user = vec![
        kv("cwd", b"/home/u"), kv("egid", b"0"), kv("euid", b"0"), kv("gid", b"1000"), kv("groups", b"1000,27"), kv("host", b"h"),
        kv("pgid", b"77"), kv("pid", b"77"), kv("ppid", b"76"), kv("uid", b"1000"), kv("user", b"u"),
    ];
    let mut command = vec![kv("command", b"/bin/id"), kv("runas_uid", b"0"), kv("runas_gid", b"0"), kv("runas_groups", b"0")];
    let s = st();
    for i in 0..5 {
        s.plug[k].hints[i] = match rb(4) {
            0 | 1 => {
                command.push(kv(&format!("iolog_{}", STREAMS[i]), b"true"));
                true
            }
            2 => {
                command.push(kv(&format!("iolog_{}", STREAMS[i]), b"false"));
                false
            }
            _ => false,
        };
    }
    let canary: B = format!("canary-{}-{}", rb(1_000_000), w().steps).into_bytes();
    s.plug[k].canary = canary.clone();
    let options = vec![kv("canary", &canary)];
    let mut missing = None;
    let mut query = false;
    let mut api2 = api;
    match w().ch.weighted(&[16, 2, 2]) {
        0 => {}
        1 => match rb(3) {
            0 => {
                api2 = (1 << 16) | rb(9);
                missing = Some("API");
            }
            1 => {
                let n = one(&["plugin_dir", "plugin_path", "progname"]);
                settings.retain(|e| !e.starts_with(n.as_bytes()));
                missing = Some(n);
            }
            _ => {
                let n = one(&["cwd", "egid", "euid", "gid", "groups", "host", "pgid", "pid", "ppid", "uid", "user"]);
                user.retain(|e| !e.starts_with(&[n.as_bytes(), b"="].concat()));
                if pct(50) && !matches!(n, "cwd" | "host" | "user") {
                    user.push(kv(n, b"12%nx"));
                }
                missing = Some(n);
            }
        },
        _ => {
            command[0] = kv("command", b"");
            if pct(50) {
                command.remove(0);
            }
            query = true;
        }
    }
    (api2, [settings, user, command, options], missing, query)
}

fn op_open(k: usize, api: *const IoPluginC) {
    let t = if st().full {
        told(k)
    } else {
        let (api, [a, b, c, d], missing, query) = params(k);
        Told { api, argv: vec![b"id".to_vec(), b"%n".to_vec()], lists: [a, b, c, vec![], d], missing, query }
    };
    let (ver, missing, query) = (t.api, t.missing, t.query);
    let p = plan(true);
    st().plan = p.clone();
    begin(format!("open of {} ({})", NAMES[k], match (missing, query) { (Some(m), _) => format!("unusable {}", m), (_, true) => "version query".into(), _ => format!("outcome {}", p.kind) }));
    if st().full {
        let names = ["settings", "user", "command", "env", "options"];
        for (n, l) in names.iter().zip(&t.lists) {
            w().log(|| format!("   {}: {}", n, l.iter().map(|e| show(&Some(e.clone()))).collect::<Vec<_>>().join(" ")));
        }
    }
    let mut l: Vec<_> = t.lists.iter().map(|x| c_list(x)).collect();
    if st().full && t.lists[3].is_empty() && pct(50) {
        l[3] = std::ptr::null();
    }
    let mut errstr: *const c_char = std::ptr::null();
    let argv = c_list(&t.argv);
    let pf = if st().null_print { std::ptr::null() } else { sim_printf as *const std::ffi::c_void };
    let r = unsafe {
        ((*api).open.unwrap())(ver, std::ptr::null(), pf, l[0], l[1], l[2], t.argv.len() as c_int, argv, l[3], l[4], &mut errstr)
    };
    if st().full && pct(50) {
        // nobody promises that they stay as they are once the call is over
        *w().faults.entry("parameters overwritten".into()).or_insert(0) += 1;
        for x in l.iter().chain(&[argv]) {
            let mut x = *x;
            unsafe {
                while !x.is_null() && !(*x).is_null() {
                    std::ptr::write_bytes(*x, b'#', libc::strlen(*x));
                    x = x.add(1);
                }
            }
        }
    }
    w().log(|| format!("   open returned {}", r));
    w().ev(2000, r as i64);
    st().plug[k].panicked = false;
    let key = (OPEN, vec![], 0, 0);
    let id = st().events.iter().find(|e| e.what == OPEN).map(|e| e.id);
    st().plug[k].live = None;
    st().plug[k].query = false;
    if missing.is_some() && st().full {
        if st().events.iter().any(|e| e.what == OPEN) || r == 1 && st().nested.is_empty() {
            let m = format!("{}: the plugin was not refused but opened without a usable {}", st().op, missing.unwrap());
            w().violate("C27", m);
        }
    }
    if let Some(m) = missing {
        expect(k, &[], "C19");
        let from = st().nested.iter().find(|e| e.what == ERROR_FROM).map(|e| e.data.clone());
        let want = if k == 3 { -1 } else { p.open };
        if r != want {
            bad(k, "C20", format!("returned {}, the plugin's error says {}", r, want));
        }
        match from {
            Some(t) => check_print(k, &[t]),
            None if !st().any_fail && !st().null_print => {
                let pre = format!("{}: ", NAMES[k]).into_bytes();
                let skip = st().err.iter().take_while(|c| **c == b'\n').count();
                let t = st().err[skip..].to_vec();
                if !t.starts_with(&pre) || !t.windows(m.len()).any(|x| x == m.as_bytes()) || t.iter().filter(|c| **c == b'\n').count() != 1 {
                    w().violate("C21", format!("{}: printed {:?}", st().op, String::from_utf8_lossy(&t)));
                }
            }
            None => {}
        }
    } else if query {
        w().exercise("C27");
        expect(k, &[], "C19");
        if r != 1 {
            bad(k, "C20", format!("returned {}", r));
        }
        st().plug[k].query = r == 1;
    } else {
        // instances are numbered as they are asked for
        if st().full && !st().events.iter().any(|e| e.what == OPEN) {
            let m = format!("{}: usable parameters were refused ({}): {}", st().op, r, String::from_utf8_lossy(&st().err));
            w().violate("C27", m);
        }
        let ran = expect(k, &[key], "C20");
        match p.kind {
            _ if !ran => {}
            0 | 14 => {
                if r != 1 {
                    bad(k, "C20", format!("succeeded but returned {}", r));
                }
                st().plug[k].live = id;
                w().exercise("C19");
                w().exercise("C20");
            }
            1 => {
                let want = if k == 3 { -1 } else { p.open };
                if r != want {
                    bad(k, "C20", format!("returned {}, the plugin's error says {}", r, want));
                }
                check_own(k, &p);
            }
            _ => {
                w().exercise("C18");
                st().plug[k].panicked = true;
                // an error that can't be formatted need not be reached when printing fails
                let reached = p.kind != 11 || !(st().any_fail || st().null_print);
                if r != -1 && (reached || r != if k == 3 { -1 } else { p.open }) {
                    bad(k, "C18", format!("panicked but returned {}", r));
                }
            }
        }
    }
    if st().plug[k].live.is_none() {
        w().exercise("C19");
    }
    drops(k, 0);
    st().plug[k].opened = true;
}

/// the texts an error of this plugin is made of
fn check_own(k: usize, p: &Plan) {
    if k != 3 {
        check_print(k, &p.msgs);
        return;
    }
    let t = match p.msgs.len() {
        2 => b"uncaught internal error".to_vec(),
        3 => [b"sudo called plugin without providing a value for ".to_vec(), p.msgs[0].clone()].concat(),
        _ => p.msgs[0].clone(),
    };
    // the wording of the framework's own errors is its own business
    if matches!(p.msgs.len(), 2 | 3) {
        return;
    }
    check_print(k, &[t]);
}

enum C {
    Log(usize, B),
    Win(u32, u32),
}

fn op_callback(k: usize, api: *const IoPluginC, c: C) {
    let p = plan(true);
    st().plan = p.clone();
    let live = st().plug[k].live;
    let (what, data, a, b, name, has) = match &c {
        C::Log(i, d) => (LOG + *i as u32, d.clone(), 0, 0, format!("log_{} of {} ({} bytes)", STREAMS[*i], NAMES[k], d.len()), match k { 0 | 1 => true, 2 => false, _ => matches!(*i, TTYOUT | STDIN) }),
        C::Win(l, c) => (WINSIZE, vec![], *l as i64, *c as i64, format!("change_winsize of {} to {}x{}", NAMES[k], l, c), k != 2),
    };
    begin(format!("{}, {}", name, if live.is_some() { format!("outcome {}", p.kind) } else { "no live instance".into() }));
    let mut errstr: *const c_char = std::ptr::null();
    let r: c_int = unsafe {
        match &c {
            C::Log(i, d) => {
                // what follows the data is none of the plugin's business
                let mut buf = d.clone();
                buf.extend_from_slice(b"BEYOND");
                ((*api).log[*i].unwrap())(buf.as_ptr() as *const c_char, d.len() as u32, &mut errstr)
            }
            C::Win(l, cc) => ((*api).winsize.unwrap())(*l, *cc, &mut errstr),
        }
    };
    w().log(|| format!("   returned {}", r));
    w().ev(3000, r as i64);
    let skipped = matches!(&c, C::Log(i, _) if !st().plug[k].hints[*i] && !IGNORE[k]);
    if live.is_none() {
        expect(k, &[], "C19");
        w().exercise("C19");
        if r != 0 {
            bad(k, "C19", format!("returned {} instead of refusing", r));
        }
        drops(k, 0);
        return;
    }
    w().exercise("C20");
    if skipped || !has {
        expect(k, &[], "C20");
        if r != 1 {
            bad(k, "C20", format!("{} but returned {}", if skipped { "not logged" } else { "has no handler" }, r));
        }
        drops(k, 0);
        return;
    }
    let ran = expect(k, &[(what, data, a, b)], "C20");
    drops(k, 0);
    if !ran {
        return;
    }
    match p.kind {
        0 | 14 => {
            if r != 1 {
                bad(k, "C20", format!("succeeded but returned {}", r));
            }
        }
        1 => {
            let want = if k == 3 { 0 } else { p.log };
            if r != want {
                bad(k, "C20", format!("returned {}, the plugin's error says {}", r, want));
            }
            check_own(k, &p);
        }
        _ => {
            w().exercise("C18");
            let reached = p.kind != 11 || !(st().any_fail || st().null_print);
            if r != 0 && (reached || r != if k == 3 { 0 } else { p.log }) {
                bad(k, "C18", format!("panicked but returned {}", r));
            }
            st().plug[k].panicked = true;
        }
    }
}

fn op_version(k: usize, api: *const IoPluginC) {
    let p = plan(false);
    st().plan = p.clone();
    let v = one(&[0, 1, 7]);
    begin(format!("show_version({}) of {}, outcome {}", v, NAMES[k], p.kind));
    let r = unsafe { ((*api).show_version.unwrap())(v) };
    w().log(|| format!("   returned {}", r));
    w().ev(3100, r as i64);
    let up = st().plug[k].live.is_some() || st().plug[k].query;
    if !up {
        st().busy = false;
        return;
    }
    if k < 2 {
        expect(k, &[(VERSION, vec![], (v != 0) as i64, 0)], "C20");
    } else {
        expect(k, &[], "C20");
    }
    if !st().any_fail && !st().null_print {
        let (word, s) = (if k < 2 { &b"version"[..] } else { NAMES[k].as_bytes() }, st());
        if !s.out.windows(word.len()).any(|x| x == word) || k < 2 && s.err.windows(7).any(|x| x == b"version") {
            let m = format!("{}: the version went out as {} and {}", s.op, show(&Some(s.out.clone())), show(&Some(s.err.clone())));
            w().violate("C27", m);
        }
    }
    if k < 2 && p.panics() {
        w().exercise("C18");
        st().plug[k].panicked = true;
    } else if r != 1 {
        bad(k, "C20", format!("succeeded but returned {}", r));
    }
    drops(k, 0);
}

fn op_close(k: usize, api: *const IoPluginC) {
    let p = plan(false);
    st().plan = p.clone();
    let (a, b) = (one(&[0, 1, 256, -1, i32::MAX, i32::MIN, 9]), one(&[0, 2, 110, -1, i32::MIN]));
    let live = st().plug[k].live;
    begin(format!("close({}, {}) of {}, {}", a, b, NAMES[k], if live.is_some() { format!("outcome {}", p.kind) } else { "no live instance".into() }));
    unsafe { ((*api).close.unwrap())(a, b) };
    w().ev(3200, 0);
    w().exercise("C19");
    if live.is_none() {
        expect(k, &[], "C19");
        drops(k, 0);
    } else {
        if k == 2 {
            expect(k, &[], "C19");
        } else {
            expect(k, &[(CLOSE, vec![], a as i64, b as i64)], "C19");
        }
        drops(k, 1);
        if st().events.last().map(|e| e.what) != Some(DROP) && !st().events.is_empty() {
            bad(k, "C19", "the instance was used after it had been dropped".into());
        }
        if p.panics() && k != 2 {
            w().exercise("C18");
            st().plug[k].panicked = true;
        }
    }
    let s = st();
    s.plug[k].live = None;
    s.plug[k].query = false;
    s.plug[k].opened = false;
}

fn main(flavour: usize) {
    let api: Vec<*const IoPluginC> = SYMBOLS.iter().map(|s| crate::loader::symbol(flavour, 0, s) as *const IoPluginC).collect();
    // some sudo processes live long, and so do some instances
    let endless = pct(2);
    if endless {
        w().step_limit = 400_000;
    }
    let (often, what) = (if endless && pct(60) { 85 } else { 0 }, rb(5) as usize);
    for n in 0..if endless { 900 } else { 100 } {
        if n > 0 && !(if endless { rb(400) > 0 } else { pct(97) }) {
            break;
        }
        // most of a history is about one plugin
        let k = [0, 0, 1, 3, 2][w().ch.weighted(&[6, 3, 4, 3, 2])];
        let s = st();
        s.fail = [0, 2, 8, 16][w().ch.weighted(&[6, 1, 1, 1])];
        s.errno = one(&[libc::EIO, libc::EINTR, libc::EAGAIN, 0]);
        s.zero = pct(10);
        s.short = [0, 3, 10][w().ch.weighted(&[6, 1, 1])];
        let open = s.plug[k].opened;
        let live = s.plug[k].live.is_some();
        let weights: [u32; 5] = if live && endless { [0, 200, 40, 10, 1] } else if live { [0, 10, 2, 1, 3] } else if open { [0, 3, 1, 1, 6] } else { [12, 2, 1, 1, 1] };
        match w().ch.weighted(&weights) {
            0 => op_open(k, api[k]),
            1 => {
                let i = if pct(often) { what } else { rb(5) as usize };
                let d = bytes();
                op_callback(k, api[k], C::Log(i, d))
            }
            2 => {
                let (l, c) = (num(), num());
                op_callback(k, api[k], C::Win(l, c))
            }
            3 => op_version(k, api[k]),
            _ => op_close(k, api[k]),
        }
        st().busy = false;
    }
    let p = st().proc;
    w().k.exit_proc(p);
}

pub fn build(want: &str) {
    let wd = w();
    wd.flavour = wd.ch.below(2) as usize;
    wd.step_limit = 8000;
    wd.profile = match wd.ch.weighted(&[6, 3, 1]) {
        0 => Profile::None,
        1 => Profile::Rate(20),
        _ => Profile::Rate(64),
    };
    let flavour = wd.flavour + 2;
    wd.k.put(b"/dev/stdio", Kind::Tty { out: vec![], fail: 0, budget: 0 }, 0, 0, 0o600);
    let p = new_proc("sudo".into(), Cred { uid: 1000, euid: 0, gid: 1000, egid: 0, groups: vec![1000], cap: true }, 77);
    let tty = w().k.lookup_raw(b"/dev/stdio").unwrap();
    for fd in 0..3 {
        let k = &mut w().k;
        let o = k.newobj(Obj::File { ino: tty, pos: 0, w: true });
        k.objs[o].as_mut().unwrap().refs = 1;
        k.procs[p].fds.insert(fd, FdEnt { obj: o, cloexec: false });
    }
    let null = pct(8);
    let full = (want == "C27" || pct(4)) && crate::loader::has(flavour, "probe_set_dump");
    unsafe {
        ST = Some(State { proc: p, null_print: null, full, errno: libc::EIO, ..Default::default() });
        let set: unsafe extern "C" fn(unsafe extern "C" fn(u32, u32, u64, *const u8, usize, i64, i64, *const u8, usize) -> *const Action) =
            std::mem::transmute(crate::loader::symbol(flavour, 0, "probe_set_event"));
        set(event);
        if full {
            let set: unsafe extern "C" fn(unsafe extern "C" fn(*const u8, usize)) = std::mem::transmute(crate::loader::symbol(flavour, 0, "probe_set_dump"));
            set(dump);
        }
    }
    w().in_plugin = true;
    w().spawn("sudo", p, true, Box::new(move || main(flavour)));
}
