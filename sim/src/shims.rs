//! The libc surface offered to the plugin. Every function here replaces a GOT entry of the plugin image, runs on
//! the calling coroutine, and is a scheduling point and a fault point.
#![allow(clippy::missing_safety_doc)]
use crate::kernel::*;
use crate::sched::*;
use libc::*;
use std::ffi::CStr;

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
fn cur() -> usize {
    let wd = w();
    wd.tasks[wd.cur].proc
}
fn ret(r: R<i64>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    if p.is_null() {
        b""
    } else {
        CStr::from_ptr(p).to_bytes()
    }
}
fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(120).map(|c| match *c {
        b'\n' => "\\n".to_string(),
        32..=126 => (*c as char).to_string(),
        c => format!("\\x{:02x}", c),
    }).collect();
    if b.len() > 120 { format!("\"{}\"...({} bytes)", s, b.len()) } else { format!("\"{}\"", s) }
}

/// operation tags for the abstract trace
macro_rules! ops { ($($n:ident),*) => { #[allow(non_camel_case_types, dead_code)] #[derive(Clone, Copy, PartialEq, Debug)] #[repr(u32)] pub enum Op { $($n),* } } }
ops!(open, close, read, write, stat, access, chmod, chown, unlink, rename, mkdir, link, readlink, dup, fcntl, socket, bind, listen, accept, connect, send, recv, shutdown, poll, sigaction, umask, sockopt, sleep, getrandom, printf, malloc, statx, dgram, tty, tpl, abort, misc);

/// Deliver pending signals to the current process. Returns Some(interrupting) if a handler ran.
fn deliver() -> Option<(i32, bool)> {
    let p = cur();
    let mut out = None;
    loop {
        let wd = w();
        let d = wd.deliverable(p);
        if d == 0 {
            return out;
        }
        let sig = d.trailing_zeros() as i32;
        wd.k.procs[p].pending &= !(1u64 << sig);
        let act = wd.k.procs[p].sig[sig as usize].0;
        if act.sa_sigaction == SIG_DFL {
            wd.die(p, sig);
        }
        if act.sa_sigaction == SIG_IGN {
            continue;
        }
        wd.log(|| format!("handler for signal {} runs (SA_RESTART {})", sig, act.sa_flags & SA_RESTART != 0));
        wd.ev(1000 + sig as u32, 0);
        let h: extern "C" fn(c_int) = unsafe { std::mem::transmute(act.sa_sigaction) };
        h(sig);
        if act.sa_flags & SA_RESETHAND != 0 {
            w().k.procs[p].sig[sig as usize].0.sa_sigaction = SIG_DFL;
        }
        let intr = act.sa_flags & SA_RESTART == 0;
        out = Some((sig, intr || out.map_or(false, |x: (i32, bool)| x.1)));
    }
}

/// entry of every system call: crash points, scheduling, signals
pub fn enter(op: Op) {
    let p = cur();
    if let Some(s) = w().k.procs[p].sess {
        let wd = w();
        wd.sess[s].yields += 1;
        if wd.sess[s].kill_at == wd.sess[s].yields {
            wd.note("sigkill_at_syscall");
            wd.die(p, SIGKILL);
        }
        if wd.sess[s].sig_at == wd.sess[s].yields {
            let sig = wd.sess[s].sig_no;
            wd.sess[s].signals += 1;
            wd.note("signal_at_syscall");
            wd.raise(p, sig);
        }
    }
    if let Some(t) = w().k.procs[p].alarm {
        if t <= w().k.now {
            w().k.procs[p].alarm = None;
            w().raise(p, SIGALRM);
        }
    }
    yield_now();
    let _ = op;
    deliver();
}

fn done(op: Op, r: R<i64>, f: impl FnOnce() -> String) -> i64 {
    let wd = w();
    wd.ev(op as u32, match r { Ok(v) if op == Op::send || op == Op::recv || op == Op::read || op == Op::write => if v > 1 { 2 } else { v }, Ok(_) => 0, Err(e) => -(e as i64) });
    wd.log(|| match r {
        Ok(v) => format!("{} = {}", f(), v),
        Err(e) => format!("{} = -1 errno {}", f(), e),
    });
    ret(r)
}

pub enum Fault {
    No,
    Err(i32),
    Short(usize),
}

/// decide whether this call fails
fn fault(op: Op, aux: bool, errs: &[i32], short: usize) -> Fault {
    let p = cur();
    let wd = w();
    let s = wd.k.procs[p].sess;
    if s.is_none() && !crate::probe::is_probe(p) {
        return Fault::No;
    }
    let hit = match wd.profile {
        Profile::None => false,
        Profile::Aux(r) => aux && wd.ch.chance(r, 64),
        Profile::OneShot(n) => {
            wd.eligible += 1;
            wd.eligible == n
        }
        Profile::Rate(r) => wd.ch.chance(r, 64),
    };
    if !hit || (errs.is_empty() && short <= 1) {
        return Fault::No;
    }
    let opts = errs.len() as u32 + if short > 1 { 1 } else { 0 };
    let i = wd.ch.below(opts) as usize;
    let f = if i < errs.len() { Fault::Err(errs[i]) } else { Fault::Short(1 + wd.ch.below(short as u32 - 1) as usize) };
    let name = match &f {
        Fault::Err(e) => format!("{:?}:{}", op, errname(*e)),
        _ => format!("{:?}:short", op),
    };
    if let (Fault::Err(_), Some(s)) = (&f, s) {
        if aux {
            wd.sess[s].aux_faults += 1;
        } else {
            wd.sess[s].hard_faults += 1;
        }
    }
    wd.log(|| format!("** fault injected: {}{}", name, if aux { " (auxiliary)" } else { "" }));
    *wd.faults.entry(name).or_insert(0) += 1;
    f
}

pub fn errname(e: i32) -> &'static str {
    match e {
        EACCES => "EACCES", EPERM => "EPERM", ENOENT => "ENOENT", EIO => "EIO", ENOMEM => "ENOMEM", EMFILE => "EMFILE", ENFILE => "ENFILE",
        EINTR => "EINTR", EADDRINUSE => "EADDRINUSE", ENOSPC => "ENOSPC", EROFS => "EROFS", ENOBUFS => "ENOBUFS", ECONNABORTED => "ECONNABORTED",
        ECONNRESET => "ECONNRESET", EPIPE => "EPIPE", ENXIO => "ENXIO", EAGAIN => "EAGAIN", ENOTCONN => "ENOTCONN", ECONNREFUSED => "ECONNREFUSED",
        EBUSY => "EBUSY", ELOOP => "ELOOP", ETIMEDOUT => "ETIMEDOUT", EMSGSIZE => "EMSGSIZE", EISDIR => "EISDIR", EDQUOT => "EDQUOT", EINVAL => "EINVAL",
        _ => "errno",
    }
}

fn sess() -> Option<usize> {
    w().k.procs[cur()].sess
}

// ------------------------------------------------------------------------------------------------ identity, environment
unsafe extern "C" fn s_getpid() -> pid_t { w().k.procs[cur()].pid }
unsafe extern "C" fn s_getppid() -> pid_t { w().k.procs[cur()].pid - 1 }
unsafe extern "C" fn s_getuid() -> uid_t { w().k.procs[cur()].cred.uid }
unsafe extern "C" fn s_geteuid() -> uid_t { w().k.procs[cur()].cred.euid }
unsafe extern "C" fn s_getgid() -> gid_t { w().k.procs[cur()].cred.gid }
unsafe extern "C" fn s_getegid() -> gid_t { w().k.procs[cur()].cred.egid }
unsafe extern "C" fn s_getgroups(n: c_int, out: *mut gid_t) -> c_int {
    let g = w().k.procs[cur()].cred.groups.clone();
    if n == 0 { return g.len() as c_int; }
    if (n as usize) < g.len() { set_errno(EINVAL); return -1; }
    for (i, x) in g.iter().enumerate() { *out.add(i) = *x; }
    g.len() as c_int
}
unsafe extern "C" fn s_umask(m: mode_t) -> mode_t {
    enter(Op::umask);
    let p = cur();
    let old = w().k.procs[p].umask;
    w().k.procs[p].umask = m & 0o777;
    done(Op::umask, Ok(old as i64), || format!("umask({:o})", m)) as mode_t
}
unsafe extern "C" fn s_getenv(n: *const c_char) -> *mut c_char {
    let n = bytes(n);
    for (k, v) in &w().k.procs[cur()].env {
        if k == n { return v.as_ptr() as *mut c_char; }
    }
    std::ptr::null_mut()
}
unsafe extern "C" fn s_gethostname(out: *mut c_char, len: size_t) -> c_int {
    let n = b"simhost\0";
    if len < n.len() { set_errno(ENAMETOOLONG); return -1; }
    std::ptr::copy_nonoverlapping(n.as_ptr() as *const c_char, out, n.len());
    0
}
unsafe extern "C" fn s_getpw(_a: usize, _b: usize, _c: usize, _d: usize, res: *mut usize) -> c_int {
    if !res.is_null() { *res = 0; }
    0
}
unsafe extern "C" fn s_getrandom(buf: *mut u8, n: size_t, _f: c_uint) -> ssize_t {
    let wd = w();
    for i in 0..n {
        let v = crate::choice::splitmix(&mut wd.rnd);
        *buf.add(i) = v as u8;
    }
    n as ssize_t
}

// ------------------------------------------------------------------------------------------------ time
unsafe extern "C" fn s_clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    let wd = w();
    wd.k.now += 1;
    let base: i64 = if clk == CLOCK_REALTIME || clk == 5 { 1_600_000_000_000_000 + wd.k.clk_off } else { 0 };
    let t = base + wd.k.now as i64;
    (*ts).tv_sec = t.div_euclid(1_000_000);
    (*ts).tv_nsec = t.rem_euclid(1_000_000) * 1000;
    0
}
unsafe extern "C" fn s_gettimeofday(tv: *mut timeval, _z: usize) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    s_clock_gettime(0, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
unsafe extern "C" fn s_time(t: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    s_clock_gettime(0, &mut ts);
    if !t.is_null() { *t = ts.tv_sec; }
    ts.tv_sec
}
unsafe extern "C" fn s_localtime_r(t: *const time_t, out: *mut tm) -> *mut tm { gmtime_r(t, out) }
unsafe extern "C" fn s_mktime(t: *mut tm) -> time_t { timegm(t) }
fn do_sleep(us: u64) -> c_int {
    enter(Op::sleep);
    let d = w().k.now + us;
    let mut wk = Wake::Ready;
    while w().k.now < d {
        wk = block(Cond::Never, Some(d), true);
        if wk == Wake::Signal { deliver(); break; }
    }
    if wk == Wake::Signal { done(Op::sleep, Err(EINTR), || format!("sleep({}us)", us)) as c_int } else { done(Op::sleep, Ok(0), || format!("sleep({}us)", us)) as c_int }
}
unsafe extern "C" fn s_nanosleep(a: *const timespec, _r: *mut timespec) -> c_int { do_sleep((*a).tv_sec as u64 * 1_000_000 + (*a).tv_nsec as u64 / 1000) }
unsafe extern "C" fn s_clock_nanosleep(_c: c_int, flags: c_int, a: *const timespec, _r: *mut timespec) -> c_int {
    let mut us = (*a).tv_sec as u64 * 1_000_000 + (*a).tv_nsec as u64 / 1000;
    if flags & TIMER_ABSTIME != 0 { us = us.saturating_sub(w().k.now); }
    if do_sleep(us) < 0 { EINTR } else { 0 }
}
unsafe extern "C" fn s_usleep(us: c_uint) -> c_int { do_sleep(us as u64) }
unsafe extern "C" fn s_sleep(s: c_uint) -> c_uint { if do_sleep(s as u64 * 1_000_000) < 0 { 1 } else { 0 } }
unsafe extern "C" fn s_alarm(s: c_uint) -> c_uint {
    let p = cur();
    w().k.procs[p].alarm = if s == 0 { None } else { Some(w().k.now + s as u64 * 1_000_000) };
    0
}
unsafe extern "C" fn s_pause() -> c_int {
    enter(Op::sleep);
    loop {
        if block(Cond::Never, alarm_deadline(), true) == Wake::Timeout { enter(Op::sleep); } else { deliver(); }
        set_errno(EINTR);
        return -1;
    }
}
fn alarm_deadline() -> Option<u64> { w().k.procs[cur()].alarm }

// ------------------------------------------------------------------------------------------------ file system
fn is_tpl(path: &[u8]) -> Option<(usize, bool)> {
    let s = sess()?;
    let se = &w().sess[s];
    if path == &se.spec.user_tpl_path[..] { Some((s, false)) } else if path == &se.spec.pair_tpl_path[..] { Some((s, true)) } else { None }
}
/// is this path the session's own approval socket?
fn own_sock(path: &[u8]) -> Option<usize> {
    let s = sess()?;
    if path == &w().sess[s].path[..] { Some(s) } else { None }
}

fn do_open(path: &[u8], flags: c_int, mode: c_int) -> c_int {
    enter(Op::open);
    let p = cur();
    let r = (|| {
        let wd = w();
        let c = wd.k.procs[p].cred.clone();
        let cwd = wd.k.procs[p].cwd.clone();
        let acc = flags & O_ACCMODE;
        let wants_w = acc != O_RDONLY;
        if let Some((s, pair)) = is_tpl(path) {
            if let Fault::Err(e) = fault(Op::tpl, true, &[EACCES, EMFILE, EIO, ENOENT, ENFILE, ENOMEM, EINTR], 0) {
                // EINTR from open is retried by std; everything else makes the template unusable
                if pair { w().sess[s].tpl_fault_pair = true } else { w().sess[s].tpl_fault_user = true }
                return Err(e);
            }
        }
        let res = w().k.walk(&c, &cwd, path, flags & O_NOFOLLOW == 0);
        let (par, name, ino) = res?;
        let ino = match ino {
            Some(i) => {
                if flags & (O_CREAT | O_EXCL) == O_CREAT | O_EXCL { return Err(EEXIST); }
                i
            }
            None => {
                if flags & O_CREAT == 0 { return Err(ENOENT); }
                let i = w().k.link_in(p, par, &name, Kind::File(vec![]), mode as u32)?;
                w().k.muts.push((p, "creat", path.to_vec(), Some(i)));
                i
            }
        };
        let need = match acc { O_RDONLY => 4, O_WRONLY => 2, _ => 6 };
        if flags & O_PATH == 0 && !w().k.perm(&c, &w().k.inodes[ino], need) { return Err(EACCES); }
        let kind = w().k.inodes[ino].kind.clone();
        let obj = match kind {
            Kind::Dir(_) => {
                if wants_w { return Err(EISDIR); }
                Obj::File { ino, pos: 0, w: false }
            }
            Kind::Sock { .. } | Kind::DgramSock { .. } => return Err(ENXIO),
            Kind::Symlink(_) => return Err(ELOOP),
            Kind::Tty { .. } => {
                if let Some(s) = sess() {
                    if let Fault::Err(e) = fault(Op::tty, true, &[EIO, ENXIO, EACCES, EMFILE], 0) {
                        w().sess[s].tty_fault = true;
                        return Err(e);
                    }
                }
                Obj::File { ino, pos: 0, w: wants_w }
            }
            Kind::Fifo => {
                // nobody is on the other end
                if wants_w && flags & O_NONBLOCK != 0 { return Err(ENXIO); }
                if !wants_w || flags & O_NONBLOCK == 0 {
                    if flags & O_NONBLOCK == 0 && acc != O_RDWR {
                        while block(Cond::Never, alarm_deadline(), true) != Wake::Signal { if w().k.procs[p].alarm.is_some() { enter(Op::open); } }
                        deliver();
                        return Err(EINTR);
                    }
                }
                Obj::Pipe { ino, w: wants_w }
            }
            Kind::File(_) => {
                if flags & O_TRUNC != 0 && wants_w {
                    w().k.inodes[ino].kind = Kind::File(vec![]);
                    w().k.inodes[ino].ver += 1;
                }
                Obj::File { ino, pos: 0, w: wants_w }
            }
            Kind::Null => Obj::File { ino, pos: 0, w: wants_w },
        };
        let o = w().k.newobj(obj);
        let fd = w().k.fd_alloc(p, o, flags & O_CLOEXEC != 0, 0).map_err(|e| { w().k.objs[o] = None; e })?;
        Ok(fd as i64)
    })();
    done(Op::open, r, || format!("open({}, {:#x})", show(path), flags)) as c_int
}
unsafe extern "C" fn s_open(p: *const c_char, flags: c_int, mode: c_int) -> c_int { do_open(bytes(p), flags, mode) }
unsafe extern "C" fn s_openat(dfd: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    match at(dfd, bytes(p)) { Ok(v) => do_open(&v, flags, mode), Err(e) => { set_errno(e); -1 } }
}
unsafe extern "C" fn s_creat(p: *const c_char, mode: c_int) -> c_int { do_open(bytes(p), O_CREAT | O_WRONLY | O_TRUNC, mode) }
/// resolve *at() paths: relative to a directory fd we find the directory's absolute path
fn at(dfd: c_int, p: &[u8]) -> R<Vec<u8>> {
    if p.first() == Some(&b'/') || dfd == AT_FDCWD { return Ok(p.to_vec()); }
    let o = w().k.fd(cur(), dfd)?;
    if let Obj::File { ino, .. } = w().k.obj(o) {
        let ino = *ino;
        if let Some(mut base) = path_of(ino) {
            if !p.is_empty() { base.push(b'/'); base.extend_from_slice(p); }
            return Ok(base);
        }
    }
    Err(ENOTDIR)
}
fn path_of(ino: Ino) -> Option<Vec<u8>> {
    fn rec(k: &Kernel, cur: Ino, want: Ino, acc: &mut Vec<u8>) -> bool {
        if cur == want { return true; }
        if let Kind::Dir(d) = &k.inodes[cur].kind {
            for (n, i) in d {
                let l = acc.len();
                acc.push(b'/');
                acc.extend_from_slice(n);
                if rec(k, *i, want, acc) { return true; }
                acc.truncate(l);
            }
        }
        false
    }
    let mut acc = vec![];
    if rec(&w().k, 0, ino, &mut acc) { if acc.is_empty() { acc.push(b'/'); } Some(acc) } else { None }
}

unsafe extern "C" fn s_close(fd: c_int) -> c_int {
    enter(Op::close);
    let r = w().k.close(cur(), fd).map(|_| 0);
    done(Op::close, r, || format!("close({})", fd)) as c_int
}

fn do_read(fd: c_int, buf: &mut [u8]) -> i64 {
    let p = cur();
    let o = match w().k.fd(p, fd) { Ok(o) => o, Err(e) => { return done(Op::read, Err(e), || format!("read({})", fd)); } };
    if matches!(w().k.obj(o), Obj::Stream(_) | Obj::Listener { .. } | Obj::Dgram { .. } | Obj::Unbound { .. } | Obj::Bound { .. }) {
        return do_recv(fd, buf, 0);
    }
    // regular files: no scheduling point (templates are read byte by byte)
    let (ino, pos) = match w().k.obj(o) {
        Obj::File { ino, pos, .. } => (*ino, *pos),
        _ => { enter(Op::read); block(Cond::Never, alarm_deadline(), true); deliver(); return done(Op::read, Err(EINTR), || format!("read({})", fd)); }
    };
    w().k.now += 1;
    let mut lim = buf.len();
    if let Some(s) = sess() {
        let t = w().sess[s].spec.tpl_inos;
        if Some(ino) == t.0 || Some(ino) == t.1 {
            match fault(Op::tpl, true, &[EIO, EIO, EISDIR, EINTR], buf.len()) {
                Fault::Err(e) => {
                    if Some(ino) == t.0 { w().sess[s].tpl_fault_user = true; }
                    if Some(ino) == t.1 { w().sess[s].tpl_fault_pair = true; }
                    return done(Op::read, Err(e), || format!("read({}, template)", fd));
                }
                Fault::Short(n) => lim = n,
                Fault::No => {}
            }
        }
    }
    let r = match &w().k.inodes[ino].kind {
        Kind::File(d) => {
            let n = lim.min(d.len().saturating_sub(pos));
            buf[..n].copy_from_slice(&d[pos.min(d.len())..pos.min(d.len()) + n]);
            Ok(n)
        }
        Kind::Dir(_) => Err(EISDIR),
        Kind::Null => Ok(0),
        Kind::Tty { .. } => { block(Cond::Never, alarm_deadline(), true); deliver(); Err(EINTR) }
        _ => Err(EINVAL),
    };
    if let Ok(n) = r { if let Obj::File { pos, .. } = w().k.obj_mut(o) { *pos += n; } }
    if r.is_err() || buf.len() > 1 || r == Ok(0) {
        done(Op::read, r.map(|v| v as i64), || format!("read({}, {})", fd, buf.len()))
    } else {
        ret(r.map(|v| v as i64))
    }
}
unsafe extern "C" fn s_read(fd: c_int, buf: *mut u8, n: size_t) -> ssize_t {
    do_read(fd, std::slice::from_raw_parts_mut(if n == 0 { std::ptr::NonNull::dangling().as_ptr() } else { buf }, n)) as ssize_t
}
unsafe extern "C" fn s_pread(fd: c_int, buf: *mut u8, n: size_t, off: i64) -> ssize_t {
    let p = cur();
    if let Ok(o) = w().k.fd(p, fd) {
        if let Obj::File { pos, .. } = w().k.obj_mut(o) {
            let save = *pos;
            *pos = off as usize;
            let r = s_read(fd, buf, n);
            if let Obj::File { pos, .. } = w().k.obj_mut(o) { *pos = save; }
            return r;
        }
    }
    set_errno(ESPIPE);
    -1
}
unsafe extern "C" fn s_readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 { return s_read(fd, v.iov_base as *mut u8, v.iov_len); }
    }
    0
}

fn do_write(fd: c_int, buf: &[u8]) -> i64 {
    let p = cur();
    let o = match w().k.fd(p, fd) { Ok(o) => o, Err(e) => return ret(Err(e)) };
    match w().k.obj(o) {
        Obj::Stream(_) | Obj::Dgram { .. } | Obj::Listener { .. } | Obj::Unbound { .. } | Obj::Bound { .. } => do_send(fd, buf, 0),
        Obj::File { ino, w: wr, .. } => {
            let (ino, wr) = (*ino, *wr);
            enter(Op::write);
            let r = (|| {
                if !wr { return Err(EBADF); }
                match &w().k.inodes[ino].kind {
                    Kind::Tty { .. } => {
                        let mut lim = usize::MAX;
                        if fd > 2 {
                            match fault(Op::tty, true, &[EIO, EAGAIN, EINTR, ENOSPC, EPIPE], buf.len()) {
                                Fault::Err(e) => {
                                    if e != EINTR { if let Some(s) = sess() { w().sess[s].tty_fault = true; } }
                                    return Err(e);
                                }
                                Fault::Short(n) => lim = n,
                                Fault::No => {}
                            }
                        }
                        let r = w().k.tty_write(ino, buf, lim);
                        if r.is_err() { if let Some(s) = sess() { w().sess[s].tty_fault = true; } }
                        r
                    }
                    Kind::Null => Ok(buf.len()),
                    Kind::File(_) => {
                        if let Kind::File(d) = &mut w().k.inodes[ino].kind { d.extend_from_slice(buf); }
                        w().k.inodes[ino].ver += 1;
                        Ok(buf.len())
                    }
                    _ => Err(EINVAL),
                }
            })();
            done(Op::write, r.map(|v| v as i64), || format!("write({}, {})", fd, show(buf)))
        }
        Obj::Pipe { .. } => ret(Err(EPIPE)),
    }
}
unsafe extern "C" fn s_write(fd: c_int, buf: *const u8, n: size_t) -> ssize_t {
    do_write(fd, if n == 0 { &[] } else { std::slice::from_raw_parts(buf, n) }) as ssize_t
}
unsafe extern "C" fn s_writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    let mut all = vec![];
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 { all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len)); }
    }
    do_write(fd, &all) as ssize_t
}
unsafe extern "C" fn s_lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
    let p = cur();
    let o = match w().k.fd(p, fd) { Ok(o) => o, Err(e) => return ret(Err(e)) };
    if let Obj::File { ino, pos, .. } = w().k.obj(o) {
        let len = match &w().k.inodes[*ino].kind { Kind::File(d) => d.len() as i64, _ => return ret(Err(ESPIPE)) };
        let np = match wh { SEEK_SET => off, SEEK_CUR => *pos as i64 + off, _ => len + off };
        if np < 0 { return ret(Err(EINVAL)); }
        if let Obj::File { pos, .. } = w().k.obj_mut(o) { *pos = np as usize; }
        return np;
    }
    ret(Err(ESPIPE))
}

fn stat_of(ino: Ino) -> stat64 {
    let k = &w().k;
    let i = &k.inodes[ino];
    let mut s: stat64 = unsafe { std::mem::zeroed() };
    s.st_dev = 42;
    s.st_ino = ino as u64 + 2;
    s.st_nlink = i.nlink as u64;
    s.st_mode = k.fmt_bits(ino) | i.mode;
    s.st_uid = i.uid;
    s.st_gid = i.gid;
    s.st_size = match &i.kind { Kind::File(d) => d.len() as i64, Kind::Symlink(t) => t.len() as i64, _ => 0 };
    s.st_blksize = 4096;
    s
}
fn stat_common(path: &[u8], follow: bool) -> R<Ino> {
    let p = cur();
    let own = own_sock(path);
    let late = own.map_or(false, |s| w().sess[s].accept_done);
    if sess().is_some() {
        if let Fault::Err(e) = fault(Op::stat, late, &[EACCES, EIO, ENOMEM, ELOOP], 0) {
            if let Some(s) = own { w().sess[s].removal_fault = true; }
            return Err(e);
        }
    }
    let c = w().k.procs[p].cred.clone();
    let cwd = w().k.procs[p].cwd.clone();
    let (_, _, i) = w().k.walk(&c, &cwd, path, follow)?;
    i.ok_or(ENOENT)
}
fn fd_ino(fd: c_int) -> R<Option<Ino>> {
    let o = w().k.fd(cur(), fd)?;
    Ok(match w().k.obj(o) {
        Obj::File { ino, .. } | Obj::Pipe { ino, .. } => Some(*ino),
        _ => None,
    })
}
fn do_stat(path: &[u8], follow: bool, out: *mut stat64) -> c_int {
    enter(Op::stat);
    let r = stat_common(path, follow).map(|i| { unsafe { *out = stat_of(i) }; 0 });
    done(Op::stat, r, || format!("stat({})", show(path))) as c_int
}
unsafe extern "C" fn s_stat(p: *const c_char, out: *mut stat64) -> c_int { do_stat(bytes(p), true, out) }
unsafe extern "C" fn s_lstat(p: *const c_char, out: *mut stat64) -> c_int { do_stat(bytes(p), false, out) }
unsafe extern "C" fn s_fstat(fd: c_int, out: *mut stat64) -> c_int {
    match fd_ino(fd) {
        Ok(Some(i)) => { *out = stat_of(i); 0 }
        Ok(None) => { *out = std::mem::zeroed(); (*out).st_mode = S_IFSOCK | 0o777; 0 }
        Err(e) => { set_errno(e); -1 }
    }
}
unsafe extern "C" fn s_fstatat(dfd: c_int, p: *const c_char, out: *mut stat64, flags: c_int) -> c_int {
    if flags & AT_EMPTY_PATH != 0 && bytes(p).is_empty() { return s_fstat(dfd, out); }
    match at(dfd, bytes(p)) { Ok(v) => do_stat(&v, flags & AT_SYMLINK_NOFOLLOW == 0, out), Err(e) => { set_errno(e); -1 } }
}
unsafe extern "C" fn s_statx(dfd: c_int, p: *const c_char, flags: c_int, _mask: c_uint, out: *mut statx) -> c_int {
    if p.is_null() || out.is_null() {
        // std probes for the system call this way
        set_errno(EFAULT);
        return -1;
    }
    let path = bytes(p);
    let st = if path.is_empty() && (flags & AT_EMPTY_PATH != 0) {
        match fd_ino(dfd) {
            Ok(Some(i)) => stat_of(i),
            Ok(None) => { let mut s: stat64 = std::mem::zeroed(); s.st_mode = S_IFSOCK | 0o777; s }
            Err(e) => { set_errno(e); return -1; }
        }
    } else {
        enter(Op::statx);
        let r = at(dfd, path).and_then(|v| stat_common(&v, flags & AT_SYMLINK_NOFOLLOW == 0));
        let rr = done(Op::statx, r.map(|v| v as i64), || format!("statx({})", show(path)));
        if rr < 0 { return -1; }
        stat_of(rr as usize)
    };
    let mut x: statx = std::mem::zeroed();
    x.stx_mask = 0x7ff;
    x.stx_blksize = 4096;
    x.stx_nlink = st.st_nlink as u32;
    x.stx_uid = st.st_uid;
    x.stx_gid = st.st_gid;
    x.stx_mode = st.st_mode as u16;
    x.stx_ino = st.st_ino;
    x.stx_size = st.st_size as u64;
    x.stx_dev_minor = 42;
    *out = x;
    0
}
fn do_access(path: &[u8], mode: c_int, real: bool) -> c_int {
    enter(Op::access);
    let p = cur();
    let r = (|| {
        let mut c = w().k.procs[p].cred.clone();
        if real { c.euid = c.uid; c.egid = c.gid; c.cap = c.uid == 0; }
        let cwd = w().k.procs[p].cwd.clone();
        let (_, _, i) = w().k.walk(&c, &cwd, path, true)?;
        let i = i.ok_or(ENOENT)?;
        if mode != 0 && !w().k.perm(&c, &w().k.inodes[i], mode as u32) { return Err(EACCES); }
        Ok(0)
    })();
    done(Op::access, r, || format!("access({})", show(path))) as c_int
}
unsafe extern "C" fn s_access(p: *const c_char, m: c_int) -> c_int { do_access(bytes(p), m, true) }
unsafe extern "C" fn s_eaccess(p: *const c_char, m: c_int) -> c_int { do_access(bytes(p), m, false) }
unsafe extern "C" fn s_faccessat(d: c_int, p: *const c_char, m: c_int, f: c_int) -> c_int {
    match at(d, bytes(p)) { Ok(v) => do_access(&v, m, f & AT_EACCESS == 0), Err(e) => { set_errno(e); -1 } }
}

fn meta_target(path: Option<&[u8]>, fd: c_int, follow: bool) -> R<Ino> {
    match path {
        Some(pa) => {
            let p = cur();
            let c = w().k.procs[p].cred.clone();
            let cwd = w().k.procs[p].cwd.clone();
            w().k.walk(&c, &cwd, pa, follow)?.2.ok_or(ENOENT)
        }
        None => {
            // fchmod/fchown on a socket descriptor changes the anonymous socket inode, not the file
            fd_ino(fd)?.ok_or(0)
        }
    }
}
fn do_chmod(path: Option<&[u8]>, fd: c_int, mode: mode_t) -> c_int {
    enter(Op::chmod);
    let p = cur();
    let r = (|| {
        if let Fault::Err(e) = fault(Op::chmod, false, &[EPERM, EIO, EROFS, ENOENT], 0) { return Err(e); }
        let i = match meta_target(path, fd, true) { Err(0) => return Ok(0), x => x? };
        let c = w().k.procs[p].cred.clone();
        if !c.cap && c.euid != w().k.inodes[i].uid { return Err(EPERM); }
        w().k.inodes[i].mode = mode & 0o7777;
        w().k.inodes[i].ver += 1;
        if let Some(pa) = path { w().k.muts.push((p, "chmod", pa.to_vec(), Some(i))); }
        Ok(0)
    })();
    done(Op::chmod, r, || format!("chmod({}, {:o})", path.map_or(format!("fd {}", fd), show), mode)) as c_int
}
unsafe extern "C" fn s_chmod(p: *const c_char, m: mode_t) -> c_int { do_chmod(Some(bytes(p)), -1, m) }
unsafe extern "C" fn s_fchmod(fd: c_int, m: mode_t) -> c_int { do_chmod(None, fd, m) }
unsafe extern "C" fn s_fchmodat(d: c_int, p: *const c_char, m: mode_t, _f: c_int) -> c_int {
    match at(d, bytes(p)) { Ok(v) => do_chmod(Some(&v), -1, m), Err(e) => { set_errno(e); -1 } }
}
fn do_chown(path: Option<&[u8]>, fd: c_int, uid: uid_t, gid: gid_t, follow: bool) -> c_int {
    enter(Op::chown);
    let p = cur();
    let r = (|| {
        if let Fault::Err(e) = fault(Op::chown, false, &[EPERM, EIO, EROFS, ENOENT, EDQUOT], 0) { return Err(e); }
        let i = match meta_target(path, fd, follow) { Err(0) => return Ok(0), x => x? };
        let c = w().k.procs[p].cred.clone();
        if !c.cap { return Err(EPERM); }
        let n = &mut w().k.inodes[i];
        if uid != u32::MAX { n.uid = uid; }
        if gid != u32::MAX { n.gid = gid; }
        n.ver += 1;
        // Linux clears setuid/setgid on chown
        n.mode &= !0o6000;
        if let Some(pa) = path { w().k.muts.push((p, "chown", pa.to_vec(), Some(i))); }
        Ok(0)
    })();
    done(Op::chown, r, || format!("chown({}, {}, {})", path.map_or(format!("fd {}", fd), show), uid as i32, gid as i32)) as c_int
}
unsafe extern "C" fn s_chown(p: *const c_char, u: uid_t, g: gid_t) -> c_int { do_chown(Some(bytes(p)), -1, u, g, true) }
unsafe extern "C" fn s_lchown(p: *const c_char, u: uid_t, g: gid_t) -> c_int { do_chown(Some(bytes(p)), -1, u, g, false) }
unsafe extern "C" fn s_fchown(fd: c_int, u: uid_t, g: gid_t) -> c_int { do_chown(None, fd, u, g, true) }
unsafe extern "C" fn s_fchownat(d: c_int, p: *const c_char, u: uid_t, g: gid_t, f: c_int) -> c_int {
    match at(d, bytes(p)) { Ok(v) => do_chown(Some(&v), -1, u, g, f & AT_SYMLINK_NOFOLLOW == 0), Err(e) => { set_errno(e); -1 } }
}
fn do_unlink(path: &[u8], rmdir: bool) -> c_int {
    enter(Op::unlink);
    let p = cur();
    let own = own_sock(path);
    let late = own.map_or(false, |s| w().sess[s].accept_done);
    let r = (|| {
        if let Fault::Err(e) = fault(Op::unlink, late, &[EACCES, EBUSY, EROFS, EIO, EPERM], 0) {
            if let Some(s) = own { w().sess[s].removal_fault = true; }
            return Err(e);
        }
        w().k.unlink(p, path, rmdir).map(|_| 0)
    })();
    done(Op::unlink, r, || format!("unlink({})", show(path))) as c_int
}
unsafe extern "C" fn s_unlink(p: *const c_char) -> c_int { do_unlink(bytes(p), false) }
unsafe extern "C" fn s_remove(p: *const c_char) -> c_int {
    let b = bytes(p);
    let d = w().k.lookup_raw(b).map_or(false, |i| matches!(w().k.inodes[i].kind, Kind::Dir(_)));
    do_unlink(b, d)
}
unsafe extern "C" fn s_rmdir(p: *const c_char) -> c_int { do_unlink(bytes(p), true) }
unsafe extern "C" fn s_unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    match at(d, bytes(p)) { Ok(v) => do_unlink(&v, f & AT_REMOVEDIR != 0), Err(e) => { set_errno(e); -1 } }
}
fn do_mk(path: &[u8], kind: Kind, mode: u32, op: &'static str) -> c_int {
    enter(Op::mkdir);
    let p = cur();
    let r = (|| {
        let c = w().k.procs[p].cred.clone();
        let cwd = w().k.procs[p].cwd.clone();
        let (par, name, i) = w().k.walk(&c, &cwd, path, false)?;
        if i.is_some() { return Err(EEXIST); }
        let n = w().k.link_in(p, par, &name, kind.clone(), mode)?;
        w().k.muts.push((p, op, path.to_vec(), Some(n)));
        Ok(0)
    })();
    done(Op::mkdir, r, || format!("{}({})", op, show(path))) as c_int
}
unsafe extern "C" fn s_mkdir(p: *const c_char, m: mode_t) -> c_int { do_mk(bytes(p), Kind::Dir(Default::default()), m, "mkdir") }
unsafe extern "C" fn s_mkdirat(d: c_int, p: *const c_char, m: mode_t) -> c_int {
    match at(d, bytes(p)) { Ok(v) => do_mk(&v, Kind::Dir(Default::default()), m, "mkdir"), Err(e) => { set_errno(e); -1 } }
}
unsafe extern "C" fn s_symlink(t: *const c_char, p: *const c_char) -> c_int { do_mk(bytes(p), Kind::Symlink(bytes(t).to_vec()), 0o777, "symlink") }
fn do_rename(a: &[u8], b: &[u8]) -> c_int {
    enter(Op::rename);
    let r = w().k.rename(cur(), a, b).map(|_| 0);
    done(Op::rename, r, || format!("rename({}, {})", show(a), show(b))) as c_int
}
unsafe extern "C" fn s_rename(a: *const c_char, b: *const c_char) -> c_int { do_rename(bytes(a), bytes(b)) }
unsafe extern "C" fn s_renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    match (at(d, bytes(a)), at(e, bytes(b))) { (Ok(x), Ok(y)) => do_rename(&x, &y), _ => { set_errno(EBADF); -1 } }
}
unsafe extern "C" fn s_readlink(p: *const c_char, out: *mut u8, n: size_t) -> ssize_t {
    let path = bytes(p).to_vec();
    enter(Op::readlink);
    let r = match fault(Op::readlink, true, &[EACCES, ENOENT, ENOMEM], 0) {
        Fault::Err(e) => Err(e),
        _ => w().k.lookup_raw(&path).ok_or(ENOENT).and_then(|i| match &w().k.inodes[i].kind { Kind::Symlink(t) => Ok(t.clone()), _ => Err(EINVAL) }),
    };
    let r = r.map(|t| { let l = t.len().min(n); std::ptr::copy_nonoverlapping(t.as_ptr(), out, l); l as i64 });
    done(Op::readlink, r, || format!("readlink({})", show(&path))) as ssize_t
}
unsafe extern "C" fn s_realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let Some(i) = w().k.lookup_follow(bytes(p)) else { set_errno(ENOENT); return std::ptr::null_mut() };
    let Some(mut v) = path_of(i) else { set_errno(ENOENT); return std::ptr::null_mut() };
    v.push(0);
    let dst = if out.is_null() { malloc(4096) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(v.as_ptr() as *const c_char, dst, v.len());
    dst
}
unsafe extern "C" fn s_getcwd(out: *mut c_char, n: size_t) -> *mut c_char {
    let mut v = w().k.procs[cur()].cwd.clone();
    v.push(0);
    if out.is_null() || v.len() > n { set_errno(ERANGE); return std::ptr::null_mut(); }
    std::ptr::copy_nonoverlapping(v.as_ptr() as *const c_char, out, v.len());
    out
}
fn do_chdir(what: R<Ino>) -> R<i64> {
    let p = cur();
    let i = what?;
    if !matches!(w().k.inodes[i].kind, Kind::Dir(_)) { return Err(ENOTDIR); }
    let c = w().k.procs[p].cred.clone();
    if !w().k.perm(&c, &w().k.inodes[i], 1) { return Err(EACCES); }
    w().k.procs[p].cwd = path_of(i).ok_or(ENOENT)?;
    Ok(0)
}
unsafe extern "C" fn s_chdir(p: *const c_char) -> c_int {
    enter(Op::stat);
    let path = bytes(p).to_vec();
    let r = do_chdir(meta_target(Some(&path), -1, true));
    done(Op::stat, r, || format!("chdir({})", show(&path))) as c_int
}
unsafe extern "C" fn s_fchdir(fd: c_int) -> c_int {
    enter(Op::stat);
    let r = do_chdir(fd_ino(fd).and_then(|i| i.ok_or(ENOTDIR)));
    done(Op::stat, r, || format!("fchdir({})", fd)) as c_int
}
unsafe extern "C" fn s_zero() -> c_int { 0 }
unsafe extern "C" fn s_nosys() -> c_long { set_errno(ENOSYS); -1 }

// ------------------------------------------------------------------------------------------------ directories
struct SimDir { fd: c_int, list: Vec<(Vec<u8>, Ino, u8)>, at: usize, ent: dirent64 }
fn dir_list(fd: c_int) -> R<Vec<(Vec<u8>, Ino, u8)>> {
    let i = fd_ino(fd)?.ok_or(ENOTDIR)?;
    let k = &w().k;
    let Kind::Dir(d) = &k.inodes[i].kind else { return Err(ENOTDIR) };
    let mut v = vec![(b".".to_vec(), i, DT_DIR), (b"..".to_vec(), i, DT_DIR)];
    v.extend(d.iter().map(|(n, j)| (n.clone(), *j, (k.fmt_bits(*j) >> 12) as u8)));
    Ok(v)
}
unsafe extern "C" fn s_opendir(p: *const c_char) -> *mut SimDir {
    let fd = do_open(bytes(p), O_RDONLY | O_CLOEXEC, 0);
    if fd < 0 { return std::ptr::null_mut(); }
    let d = s_fdopendir(fd);
    if d.is_null() { let e = *__errno_location(); w().k.close(cur(), fd).ok(); set_errno(e); }
    d
}
unsafe extern "C" fn s_fdopendir(fd: c_int) -> *mut SimDir {
    match dir_list(fd) {
        Ok(list) => Box::into_raw(Box::new(SimDir { fd, list, at: 0, ent: std::mem::zeroed() })),
        Err(e) => { set_errno(e); std::ptr::null_mut() }
    }
}
unsafe extern "C" fn s_readdir(d: *mut SimDir) -> *mut dirent64 {
    enter(Op::read);
    let d = &mut *d;
    let Some((n, i, t)) = d.list.get(d.at).cloned() else { return std::ptr::null_mut() };
    d.at += 1;
    d.ent.d_ino = i as u64 + 1;
    d.ent.d_off = d.at as i64;
    d.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
    d.ent.d_type = t;
    for (x, c) in d.ent.d_name.iter_mut().zip(n.iter().chain(&[0])) { *x = *c as c_char; }
    done(Op::read, Ok(0), || format!("readdir({}) gives {}", d.fd, show(&n)));
    &mut d.ent
}
unsafe extern "C" fn s_closedir(d: *mut SimDir) -> c_int { let d = Box::from_raw(d); s_close(d.fd) }
unsafe extern "C" fn s_dirfd(d: *mut SimDir) -> c_int { (*d).fd }
unsafe extern "C" fn s_rewinddir(d: *mut SimDir) { (*d).at = 0; if let Ok(l) = dir_list((*d).fd) { (*d).list = l; } }

// ------------------------------------------------------------------------------------------------ credentials
const KEEP: u32 = u32::MAX;
/// a program that sudo runs in is set-user-id root: the saved id always allows going back
fn set_ids(name: &'static str, ids: [u32; 4]) -> c_int {
    enter(Op::umask);
    let p = cur();
    let c = &mut w().k.procs[p].cred;
    let may = |x: u32, c: &Cred| x == KEEP || c.cap || x == c.uid || x == c.euid || x == 0;
    let mayg = |x: u32, c: &Cred| x == KEEP || c.cap || x == c.gid || x == c.egid;
    let r = if may(ids[0], c) && may(ids[1], c) && mayg(ids[2], c) && mayg(ids[3], c) {
        if ids[0] != KEEP { c.uid = ids[0]; }
        if ids[1] != KEEP { c.euid = ids[1]; c.cap = ids[1] == 0; }
        if ids[2] != KEEP { c.gid = ids[2]; }
        if ids[3] != KEEP { c.egid = ids[3]; }
        Ok(0)
    } else { Err(EPERM) };
    done(Op::umask, r, || format!("{}({:?})", name, ids)) as c_int
}
unsafe extern "C" fn s_setuid(u: uid_t) -> c_int { set_ids("setuid", [u, u, KEEP, KEEP]) }
unsafe extern "C" fn s_seteuid(u: uid_t) -> c_int { set_ids("seteuid", [KEEP, u, KEEP, KEEP]) }
unsafe extern "C" fn s_setreuid(r: uid_t, e: uid_t) -> c_int { set_ids("setreuid", [r, e, KEEP, KEEP]) }
unsafe extern "C" fn s_setresuid(r: uid_t, e: uid_t, _s: uid_t) -> c_int { set_ids("setresuid", [r, e, KEEP, KEEP]) }
unsafe extern "C" fn s_setgid(g: gid_t) -> c_int { set_ids("setgid", [KEEP, KEEP, g, g]) }
unsafe extern "C" fn s_setegid(g: gid_t) -> c_int { set_ids("setegid", [KEEP, KEEP, KEEP, g]) }
unsafe extern "C" fn s_setregid(r: gid_t, e: gid_t) -> c_int { set_ids("setregid", [KEEP, KEEP, r, e]) }
unsafe extern "C" fn s_setresgid(r: gid_t, e: gid_t, _s: gid_t) -> c_int { set_ids("setresgid", [KEEP, KEEP, r, e]) }
unsafe extern "C" fn s_setgroups(n: size_t, g: *const gid_t) -> c_int {
    let c = &mut w().k.procs[cur()].cred;
    if !c.cap { set_errno(EPERM); return -1; }
    c.groups = if n == 0 { vec![] } else { std::slice::from_raw_parts(g, n).to_vec() };
    0
}
unsafe extern "C" fn s_eagain() -> c_int { EAGAIN }
unsafe extern "C" fn s_isatty(fd: c_int) -> c_int {
    match fd_ino(fd) { Ok(Some(i)) if matches!(w().k.inodes[i].kind, Kind::Tty { .. }) => 1, Ok(_) => { set_errno(ENOTTY); 0 } Err(e) => { set_errno(e); 0 } }
}
fn do_dup(fd: c_int, min: c_int, cloexec: bool) -> R<i64> {
    let p = cur();
    let o = w().k.fd(p, fd)?;
    w().k.fd_alloc(p, o, cloexec, min).map(|v| v as i64)
}
unsafe extern "C" fn s_dup(fd: c_int) -> c_int { enter(Op::dup); done(Op::dup, do_dup(fd, 0, false), || format!("dup({})", fd)) as c_int }
unsafe extern "C" fn s_dup3(fd: c_int, to: c_int, fl: c_int) -> c_int {
    enter(Op::dup);
    let p = cur();
    let r = w().k.fd(p, fd).map(|o| {
        if fd == to { return to as i64; }
        w().k.objs[o].as_mut().unwrap().refs += 1;
        let _ = w().k.close(p, to);
        w().k.procs[p].fds.insert(to, FdEnt { obj: o, cloexec: fl & O_CLOEXEC != 0 });
        to as i64
    });
    done(Op::dup, r, || format!("dup3({}, {})", fd, to)) as c_int
}
unsafe extern "C" fn s_dup2(fd: c_int, to: c_int) -> c_int { s_dup3(fd, to, 0) }
/// take or give up an advisory lock, waiting for it unless told not to
fn take_lock(l: Lock, unlock: bool, nb: bool) -> R<i64> {
    if unlock { w().k.unlock(&l); return Ok(0); }
    let me = sess();
    let (ino, flock, obj, proc, excl, range) = (l.ino, l.flock, l.obj, l.proc, l.excl, l.range);
    let again = move || Lock { ino, flock, obj, proc, excl, range };
    if w().k.lock_holder(&l).is_none() { w().k.unlock(&l); }
    while let Some(h) = w().k.lock_holder(&l).map(|h| h.proc) {
        if nb { return Err(EAGAIN); }
        if let Some(s) = me { crate::oracle::on_lock_wait(w(), s, h, ino); }
        let k = again();
        let r = block(Cond::Test(Box::new(move |wd: &World| wd.k.lock_holder(&k).is_none())), alarm_deadline(), true);
        if let Some(s) = me { w().sess[s].lock_wait = None; }
        match r {
            Wake::Signal => if let Some((_, intr)) = deliver() { if intr { return Err(EINTR); } },
            Wake::Timeout => { enter(Op::fcntl); }
            _ => {}
        }
    }
    w().k.unlock(&l);
    w().k.locks.push(l);
    Ok(0)
}
unsafe extern "C" fn s_flock(fd: c_int, op: c_int) -> c_int {
    enter(Op::fcntl);
    let r = (|| {
        let o = w().k.fd(cur(), fd)?;
        let Some(ino) = fd_ino(fd)? else { return Ok(0) };
        let l = Lock { ino, flock: true, obj: Some(o), proc: cur(), excl: op & LOCK_EX != 0, range: (0, i64::MAX) };
        take_lock(l, op & LOCK_UN != 0, op & LOCK_NB != 0)
    })();
    done(Op::fcntl, r, || format!("flock({}, {})", fd, op)) as c_int
}
unsafe extern "C" fn s_lockf(fd: c_int, cmd: c_int, len: i64) -> c_int {
    enter(Op::fcntl);
    let r = (|| {
        w().k.fd(cur(), fd)?;
        let Some(ino) = fd_ino(fd)? else { return Err(EINVAL) };
        let l = Lock { ino, flock: false, obj: None, proc: cur(), excl: true, range: (0, if len <= 0 { i64::MAX } else { len }) };
        match cmd {
            F_TEST => if w().k.lock_holder(&l).is_some() { Err(EACCES) } else { Ok(0) },
            _ => take_lock(l, cmd == F_ULOCK, cmd == F_TLOCK),
        }
    })();
    done(Op::fcntl, r, || format!("lockf({}, {}, {})", fd, cmd, len)) as c_int
}
unsafe extern "C" fn s_fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    enter(Op::fcntl);
    let p = cur();
    let r: R<i64> = (|| {
        let o = w().k.fd(p, fd)?;
        Ok(match cmd {
            F_GETFD => if w().k.procs[p].fds[&fd].cloexec { 1 } else { 0 },
            F_SETFD => { w().k.procs[p].fds.get_mut(&fd).unwrap().cloexec = arg & 1 != 0; 0 }
            F_GETFL => {
                let nb = w().k.slot(o).unwrap().nonblock;
                (O_RDWR | if nb { O_NONBLOCK } else { 0 }) as i64
            }
            F_SETFL => { w().k.objs[o].as_mut().unwrap().nonblock = arg & O_NONBLOCK as i64 != 0; 0 }
            F_SETLK | F_SETLKW | F_OFD_SETLK | F_OFD_SETLKW => {
                let l = unsafe { &*(arg as *const libc::flock) };
                let (a, b) = if l.l_len < 0 { (l.l_start + l.l_len, l.l_start) } else { (l.l_start, if l.l_len == 0 { i64::MAX } else { l.l_start + l.l_len }) };
                let Some(ino) = fd_ino(fd)? else { return Err(EINVAL) };
                let lock = Lock { ino, flock: false, obj: if matches!(cmd, F_OFD_SETLK | F_OFD_SETLKW) { Some(o) } else { None }, proc: p, excl: l.l_type as c_int == F_WRLCK, range: (a, b) };
                return take_lock(lock, l.l_type as c_int == F_UNLCK, matches!(cmd, F_SETLK | F_OFD_SETLK));
            }
            F_DUPFD => return do_dup(fd, arg as c_int, false),
            F_DUPFD_CLOEXEC => return do_dup(fd, arg as c_int, true),
            _ => 0,
        })
    })();
    // the third argument is garbage unless the command takes one
    let arg = if matches!(cmd, libc::F_GETFD | libc::F_GETFL) { 0 } else { arg };
    done(Op::fcntl, r, || format!("fcntl({}, {}, {})", fd, cmd, arg)) as c_int
}
unsafe extern "C" fn s_ioctl(fd: c_int, req: c_ulong, arg: *mut c_int) -> c_int {
    let p = cur();
    let o = match w().k.fd(p, fd) { Ok(o) => o, Err(e) => { set_errno(e); return -1; } };
    match req as u64 {
        0x5421 => { w().k.objs[o].as_mut().unwrap().nonblock = *arg != 0; 0 } // FIONBIO
        0x541B => { *arg = w().k.stream(o).map_or(0, |s| s.rbuf.len()) as c_int; 0 } // FIONREAD
        0x5451 => { w().k.procs[p].fds.get_mut(&fd).unwrap().cloexec = true; 0 } // FIOCLEX
        0x5450 => { w().k.procs[p].fds.get_mut(&fd).unwrap().cloexec = false; 0 }
        _ => { set_errno(ENOTTY); -1 }
    }
}
unsafe extern "C" fn s_mmap(a: *mut c_void, n: size_t, pr: c_int, fl: c_int, fd: c_int, off: i64) -> *mut c_void {
    if fd >= 0 && fl & MAP_ANONYMOUS == 0 { set_errno(ENODEV); return MAP_FAILED; }
    mmap(a, n, pr, fl, fd, off)
}

// ------------------------------------------------------------------------------------------------ sockets
unsafe extern "C" fn s_socket(dom: c_int, ty: c_int, _pr: c_int) -> c_int {
    enter(Op::socket);
    let p = cur();
    let dgram = ty & 0xf == SOCK_DGRAM;
    let r = (|| {
        if dom != AF_UNIX { return Err(EAFNOSUPPORT); }
        if ty & 0xf != SOCK_DGRAM && ty & 0xf != SOCK_STREAM { return Err(ESOCKTNOSUPPORT); }
        if let Fault::Err(e) = fault(if dgram { Op::dgram } else { Op::socket }, dgram, &[EMFILE, ENFILE, ENOMEM, ENOBUFS, EACCES], 0) { return Err(e); }
        let o = w().k.newobj(Obj::Unbound { dgram });
        w().k.objs[o].as_mut().unwrap().nonblock = ty & SOCK_NONBLOCK != 0;
        w().k.fd_alloc(p, o, ty & SOCK_CLOEXEC != 0, 0).map(|v| v as i64)
    })();
    done(Op::socket, r, || format!("socket({})", if dgram { "dgram" } else { "stream" })) as c_int
}
unsafe fn sun_path(a: *const sockaddr, len: socklen_t) -> R<Vec<u8>> {
    if len < 3 { return Err(EINVAL); }
    let b = std::slice::from_raw_parts(a as *const u8, len as usize);
    if u16::from_ne_bytes([b[0], b[1]]) != AF_UNIX as u16 { return Err(EAFNOSUPPORT); }
    let v = &b[2..];
    if v[0] == 0 { return Err(EACCES); } // abstract names: not offered
    let n = v.iter().position(|c| *c == 0).unwrap_or(v.len());
    Ok(v[..n].to_vec())
}
unsafe extern "C" fn s_bind(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    enter(Op::bind);
    let p = cur();
    let path = sun_path(a, len);
    let pa = path.clone().unwrap_or_default();
    let r = path.and_then(|pa| {
        if let Fault::Err(e) = fault(Op::bind, false, &[EADDRINUSE, EACCES, ENOSPC, EROFS, ENOMEM, EIO], 0) { return Err(e); }
        w().k.bind(p, fd, &pa)?;
        crate::oracle::on_bind(w(), p, &pa);
        Ok(0)
    });
    done(Op::bind, r, || format!("bind({}, {})", fd, show(&pa))) as c_int
}
unsafe extern "C" fn s_listen(fd: c_int, n: c_int) -> c_int {
    enter(Op::listen);
    let p = cur();
    let r = (|| {
        if let Fault::Err(e) = fault(Op::listen, false, &[EADDRINUSE, ENOBUFS, ENOMEM], 0) { return Err(e); }
        w().k.listen(p, fd, n).map(|_| 0)
    })();
    done(Op::listen, r, || format!("listen({}, {})", fd, n)) as c_int
}
/// bookkeeping when the kernel interrupts one of the two waits
fn waiting(kind: u8) {
    if let Some(s) = sess() { crate::oracle::on_wait(w(), s, kind); }
}
fn interrupted(kind: u8, sig: i32) {
    if let Some(s) = sess() { crate::oracle::on_eintr(w(), s, kind, sig); }
}
unsafe extern "C" fn s_accept4(fd: c_int, a: *mut sockaddr, len: *mut socklen_t, fl: c_int) -> c_int {
    enter(Op::accept);
    let p = cur();
    let r = (|| {
        let o = w().k.fd(p, fd)?;
        if !matches!(w().k.obj(o), Obj::Listener { .. }) { return Err(EINVAL); }
        let had = w().k.readable(o);
        if had {
            if let Fault::Err(e) = fault(Op::accept, false, &[EMFILE, ENFILE, ENOMEM, ECONNABORTED, EPERM, ENOBUFS], 0) {
                if e == ECONNABORTED {
                    if let Obj::Listener { backlog, .. } = w().k.obj_mut(o) {
                        if let Some(b) = backlog.pop_front() { let cr = w().k.stream(b).unwrap().conn; w().k.objs[b].as_mut().unwrap().refs = 1; w().k.conns[cr].injected_err = true; w().k.unref(b); }
                    }
                }
                return Err(e);
            }
        }
        let nb = w().k.slot(o).unwrap().nonblock;
        loop {
            if w().k.readable(o) { break; }
            if nb { return Err(EAGAIN); }
            waiting(1);
            match block(Cond::Poll(vec![(o, true, false)]), alarm_deadline(), true) {
                Wake::Signal => if let Some((sig, intr)) = deliver() { interrupted(1, sig); if intr { return Err(EINTR); } },
                Wake::Timeout => { enter(Op::accept); }
                _ => {}
            }
        }
        let mut b = None;
        if let Obj::Listener { backlog, .. } = w().k.obj_mut(o) { b = backlog.pop_front(); }
        let b = b.ok_or(EAGAIN)?;
        let nfd = match w().k.fd_alloc(p, b, fl & SOCK_CLOEXEC != 0, 0) {
            Ok(v) => v,
            Err(e) => { if let Obj::Listener { backlog, .. } = w().k.obj_mut(o) { backlog.push_front(b); } return Err(e); }
        };
        w().k.objs[b].as_mut().unwrap().nonblock = fl & SOCK_NONBLOCK != 0;
        let c = w().k.stream(b).unwrap().conn;
        w().k.conns[c].accepted_by = Some(p);
        if let Some(s) = sess() { crate::oracle::on_accept(w(), s, c); }
        if !a.is_null() && !len.is_null() && *len >= 2 { *(a as *mut u16) = AF_UNIX as u16; *len = 2; }
        Ok(nfd as i64)
    })();
    done(Op::accept, r, || format!("accept({})", fd)) as c_int
}
unsafe extern "C" fn s_accept(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int { s_accept4(fd, a, len, 0) }
unsafe extern "C" fn s_connect(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    enter(Op::connect);
    let p = cur();
    let path = sun_path(a, len);
    let pa = path.clone().unwrap_or_default();
    let r = path.and_then(|pa| {
        let o = w().k.fd(p, fd)?;
        if let Obj::Unbound { dgram: true } = w().k.obj(o) {
            if let Fault::Err(e) = fault(Op::dgram, true, &[ECONNREFUSED, ENOENT, EACCES, EAGAIN], 0) { return Err(e); }
        }
        loop {
            match w().k.connect(p, fd, &pa)? {
                Ok(_) => return Ok(0),
                Err(l) => {
                    if block(Cond::Slot(l), None, true) == Wake::Signal { if let Some((_, true)) = deliver() { return Err(EINTR); } }
                }
            }
        }
    });
    done(Op::connect, r, || format!("connect({}, {})", fd, show(&pa))) as c_int
}

fn do_send(fd: c_int, buf: &[u8], flags: c_int) -> i64 {
    enter(Op::send);
    let p = cur();
    let r: R<i64> = (|| {
        let o = w().k.fd(p, fd)?;
        match w().k.obj(o) {
            Obj::Dgram { .. } => {
                if let Fault::Err(e) = fault(Op::dgram, true, &[ECONNREFUSED, EAGAIN, ENOBUFS, EMSGSIZE, ENOTCONN, EPIPE], 0) { return Err(e); }
                w().k.syslog.push(buf.to_vec());
                w().log(|| format!("   syslog: {}", String::from_utf8_lossy(buf).escape_debug()));
                return Ok(buf.len() as i64);
            }
            Obj::Stream(_) => {}
            _ => return Err(ENOTCONN),
        }
        let conn = w().k.stream(o).unwrap().conn;
        let mut lim = usize::MAX;
        if let Some(s) = sess() {
            let echo = w().sess[s].phase_is_open() && w().k.conns[conn].sent_at_first_read.is_some();
            match fault(Op::send, echo, &[EPIPE, ECONNRESET, ENOBUFS, ENOMEM, EINTR], buf.len()) {
                Fault::Err(e) => {
                    if e == EPIPE || e == ECONNRESET {
                        // a real loss of the peer
                        w().k.conns[conn].injected_err = true;
                        let co = w().k.conns[conn].client_obj;
                        crate::scenario::force_client_close(w(), conn, co);
                    } else if e != EINTR {
                        w().sess[s].send_err = true;
                    }
                    return Err(e);
                }
                Fault::Short(n) => lim = n,
                Fault::No => {}
            }
            if lim == usize::MAX && buf.len() > 1 && w().ch.chance(w().short_sends, 64) {
                lim = 1 + w().ch.below(buf.len() as u32 - 1) as usize;
                w().note("short_send");
            }
        }
        let nb = w().k.slot(o).unwrap().nonblock || flags & MSG_DONTWAIT != 0;
        let mut sent = 0usize;
        loop {
            match w().k.send_step(o, &buf[sent..], lim.saturating_sub(sent)) {
                Ok(Some(n)) => {
                    if n > 0 { moved(); }
                    sent += n;
                    if sent >= buf.len() || sent >= lim { return Ok(sent as i64); }
                    continue;
                }
                Err(e) => {
                    if sent > 0 { return Ok(sent as i64); }
                    if e == EPIPE && flags & MSG_NOSIGNAL == 0 { w().raise(p, SIGPIPE); deliver(); }
                    return Err(e);
                }
                Ok(None) => {
                    if nb { if sent > 0 { return Ok(sent as i64); } return Err(EAGAIN); }
                    waiting(3);
                    let to = w().k.slot(o).unwrap().sndtimeo;
                    let dl = if to > 0 { Some(w().k.now + to) } else { alarm_deadline() };
                    match block(Cond::Poll(vec![(o, false, true)]), dl, true) {
                        Wake::Signal => if let Some((sig, intr)) = deliver() {
                            if intr || sent > 0 {
                                interrupted(3, sig);
                                if sent > 0 { return Ok(sent as i64); }
                                return Err(EINTR);
                            }
                        },
                        Wake::Timeout => { if to > 0 { if sent > 0 { return Ok(sent as i64); } return Err(EAGAIN); } enter(Op::send); }
                        _ => {}
                    }
                }
            }
        }
    })();
    done(Op::send, r, || format!("send({}, {})", fd, show(buf)))
}
unsafe extern "C" fn s_send(fd: c_int, buf: *const u8, n: size_t, fl: c_int) -> ssize_t { do_send(fd, if n == 0 { &[] } else { std::slice::from_raw_parts(buf, n) }, fl) as ssize_t }
unsafe extern "C" fn s_sendto(fd: c_int, buf: *const u8, n: size_t, fl: c_int, a: *const sockaddr, al: socklen_t) -> ssize_t {
    let p = cur();
    if !a.is_null() {
        if let Ok(o) = w().k.fd(p, fd) {
            if let Obj::Unbound { dgram: true } | Obj::Dgram { .. } = w().k.obj(o) {
                enter(Op::dgram);
                let r = sun_path(a, al).and_then(|pa| {
                    if let Fault::Err(e) = fault(Op::dgram, true, &[ECONNREFUSED, EAGAIN, ENOBUFS, EMSGSIZE], 0) { return Err(e); }
                    let i = w().k.lookup_follow(&pa).ok_or(ENOENT)?;
                    match w().k.inodes[i].kind { Kind::DgramSock { up: true } => { let b = std::slice::from_raw_parts(buf, n).to_vec(); w().k.syslog.push(b); Ok(n as i64) } _ => Err(ECONNREFUSED) }
                });
                return done(Op::dgram, r, || "sendto(syslog)".into()) as ssize_t;
            }
        }
    }
    s_send(fd, buf, n, fl)
}
unsafe extern "C" fn s_sendmsg(fd: c_int, m: *const msghdr, fl: c_int) -> ssize_t {
    let mut all = vec![];
    for i in 0..(*m).msg_iovlen { let v = &*(*m).msg_iov.add(i); all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len)); }
    do_send(fd, &all, fl) as ssize_t
}
fn moved() {
    let wd = w();
    wd.tasks[wd.cur].moved = wd.steps;
}
fn do_recv(fd: c_int, buf: &mut [u8], flags: c_int) -> i64 {
    enter(Op::recv);
    let p = cur();
    let mut got = vec![];
    let r: R<i64> = (|| {
        let o = w().k.fd(p, fd)?;
        if !matches!(w().k.obj(o), Obj::Stream(_)) { return Err(ENOTCONN); }
        let conn = w().k.stream(o).unwrap().conn;
        if let Some(s) = sess() {
            crate::oracle::on_recv_call(w(), s, conn);
            if flags & MSG_PEEK == 0 {
                if let Fault::Err(e) = fault(Op::recv, false, &[ECONNRESET, EINTR, ENOMEM, ETIMEDOUT, EIO], 0) {
                    w().sess[s].recv_fault = true;
                    return Err(e);
                }
            }
        }
        let nb = w().k.slot(o).unwrap().nonblock || flags & MSG_DONTWAIT != 0;
        loop {
            if let Some(n) = w().k.recv_step(o, buf, flags & MSG_PEEK != 0)? {
                got = buf[..n].to_vec();
                if n > 0 && flags & MSG_PEEK == 0 { moved(); }
                if n == 0 && !buf.is_empty() { if let Some(s) = sess() { w().sess[s].saw_eof = true; } }
                return Ok(n as i64);
            }
            if nb { return Err(EAGAIN); }
            waiting(2);
            let to = w().k.slot(o).unwrap().rcvtimeo;
            let dl = if to > 0 { Some(w().k.now + to) } else { alarm_deadline() };
            match block(Cond::Poll(vec![(o, true, false)]), dl, true) {
                Wake::Signal => if let Some((sig, intr)) = deliver() { interrupted(2, sig); if intr { return Err(EINTR); } },
                Wake::Timeout => { if to > 0 { return Err(EAGAIN); } enter(Op::recv); }
                _ => {}
            }
        }
    })();
    done(Op::recv, r, || format!("recv({}, {}) {}", fd, buf.len(), show(&got)))
}
unsafe extern "C" fn s_recv(fd: c_int, buf: *mut u8, n: size_t, fl: c_int) -> ssize_t { do_recv(fd, if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(buf, n) }, fl) as ssize_t }
unsafe extern "C" fn s_recvfrom(fd: c_int, buf: *mut u8, n: size_t, fl: c_int, _a: usize, al: *mut socklen_t) -> ssize_t { if !al.is_null() { *al = 0; } s_recv(fd, buf, n, fl) }
unsafe extern "C" fn s_recvmsg(fd: c_int, m: *mut msghdr, fl: c_int) -> ssize_t {
    (*m).msg_controllen = 0;
    if (*m).msg_iovlen == 0 { return 0; }
    let v = &*(*m).msg_iov;
    s_recv(fd, v.iov_base as *mut u8, v.iov_len, fl)
}
unsafe extern "C" fn s_shutdown(fd: c_int, how: c_int) -> c_int {
    enter(Op::shutdown);
    let p = cur();
    let r = (|| { let o = w().k.fd(p, fd)?; w().k.shutdown(o, how).map(|_| 0) })();
    done(Op::shutdown, r, || format!("shutdown({}, {})", fd, how)) as c_int
}
unsafe extern "C" fn s_setsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *const u8, n: socklen_t) -> c_int {
    enter(Op::sockopt);
    let p = cur();
    let o = match w().k.fd(p, fd) { Ok(o) => o, Err(e) => { set_errno(e); return -1; } };
    if lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && n as usize >= std::mem::size_of::<timeval>() {
        let tv = &*(v as *const timeval);
        let us = tv.tv_sec as u64 * 1_000_000 + tv.tv_usec as u64;
        let s = w().k.objs[o].as_mut().unwrap();
        if opt == SO_RCVTIMEO { s.rcvtimeo = us } else { s.sndtimeo = us }
    }
    done(Op::sockopt, Ok(0), || format!("setsockopt({}, {})", fd, opt)) as c_int
}
unsafe extern "C" fn s_getsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *mut u8, n: *mut socklen_t) -> c_int {
    enter(Op::sockopt);
    let p = cur();
    let o = match w().k.fd(p, fd) { Ok(o) => o, Err(e) => { set_errno(e); return -1; } };
    if lvl == SOL_SOCKET && opt == SO_PEERCRED && *n as usize >= 12 {
        let mut cr = (0i32, 0u32, 0u32);
        if let Some(st) = w().k.stream(o) {
            let c = &w().k.conns[st.conn];
            let q = if st.server { c.client_proc } else { c.listener_proc };
            if let Some(pr) = w().k.procs.get(q) { cr = (pr.pid, pr.cred.euid, pr.cred.egid); }
        }
        *(v as *mut i32) = cr.0;
        *(v as *mut u32).add(1) = cr.1;
        *(v as *mut u32).add(2) = cr.2;
        *n = 12;
        return 0;
    }
    if *n as usize >= 4 { *(v as *mut i32) = 0; *n = 4; }
    0
}
unsafe extern "C" fn s_getname(fd: c_int, a: *mut sockaddr, n: *mut socklen_t) -> c_int {
    if let Err(e) = w().k.fd(cur(), fd) { set_errno(e); return -1; }
    if *n >= 2 { *(a as *mut u16) = AF_UNIX as u16; }
    *n = 2;
    0
}
fn poll_common(v: &[(i32, bool, bool)], timeout: Option<u64>, op: &'static str) -> R<Vec<(bool, bool, bool, bool)>> {
    // returns per fd: (readable, writable, hup, nval)
    let p = cur();
    if let Fault::Err(e) = fault(Op::poll, false, &[EINTR, ENOMEM], 0) { let _ = op; return Err(e); }
    let dl = timeout.map(|t| w().k.now + t);
    loop {
        let mut out = vec![];
        let mut any = false;
        let mut cond = vec![];
        let mut kind = 0;
        for (fd, r, wr) in v {
            if *fd < 0 { out.push((false, false, false, false)); continue; }
            match w().k.fd(p, *fd) {
                Err(_) => { out.push((false, false, false, true)); any = true; }
                Ok(o) => {
                    let rd = *r && w().k.readable(o);
                    let wrb = *wr && w().k.poll_writable(o);
                    let hup = w().k.hup(o);
                    any |= rd || wrb || hup;
                    cond.push((o, *r, *wr));
                    match w().k.obj(o) { Obj::Listener { .. } => kind = 1, Obj::Stream(_) if *r => kind = 2, Obj::Stream(_) => kind = 3, _ => {} }
                    out.push((rd, wrb, hup, false));
                }
            }
        }
        if any { return Ok(out); }
        if timeout == Some(0) || dl.map_or(false, |d| d <= w().k.now) { return Ok(out); }
        waiting(kind);
        let d = match (dl, alarm_deadline()) { (Some(a), Some(b)) => Some(a.min(b)), (a, b) => a.or(b) };
        match block(Cond::Test(Box::new(move |wd: &World| cond.iter().any(|(o, r, wr)| *r && wd.k.readable(*o) || *wr && wd.k.poll_writable(*o)))), d, true) {
            Wake::Signal => if let Some((sig, _)) = deliver() { interrupted(kind, sig); return Err(EINTR); },
            Wake::Timeout => { if alarm_deadline().is_some() { enter(Op::poll); } }
            _ => {}
        }
    }
}
unsafe fn do_poll(f: *mut pollfd, n: nfds_t, to: Option<u64>) -> c_int {
    enter(Op::poll);
    let fds = std::slice::from_raw_parts_mut(if n == 0 { std::ptr::NonNull::dangling().as_ptr() } else { f }, n as usize);
    let v: Vec<_> = fds.iter().map(|x| (x.fd, x.events & (POLLIN | POLLRDNORM | POLLRDHUP) != 0, x.events & (POLLOUT | POLLWRNORM) != 0)).collect();
    let r = poll_common(&v, to, "poll").map(|o| {
        let mut c = 0;
        for (x, (r, wr, h, nv)) in fds.iter_mut().zip(o) {
            x.revents = 0;
            if r { x.revents |= POLLIN & x.events; if x.revents == 0 { x.revents |= POLLRDHUP & x.events; } }
            if wr { x.revents |= POLLOUT; }
            if h { x.revents |= POLLHUP; }
            if nv { x.revents |= POLLNVAL; }
            if x.revents != 0 { c += 1; }
        }
        c
    });
    done(Op::poll, r, || format!("poll({:?})", v)) as c_int
}
unsafe extern "C" fn s_poll(f: *mut pollfd, n: nfds_t, to: c_int) -> c_int { do_poll(f, n, if to < 0 { None } else { Some(to as u64 * 1000) }) }
unsafe extern "C" fn s_ppoll(f: *mut pollfd, n: nfds_t, to: *const timespec, _m: usize) -> c_int {
    do_poll(f, n, if to.is_null() { None } else { Some((*to).tv_sec as u64 * 1_000_000 + (*to).tv_nsec as u64 / 1000) })
}
unsafe fn do_select(n: c_int, r: *mut u8, wr: *mut u8, ex: *mut u8, to: Option<u64>) -> c_int {
    enter(Op::poll);
    let bit = |s: *mut u8, i: c_int| !s.is_null() && *s.add(i as usize / 8) & (1 << (i % 8)) != 0;
    let mut v = vec![];
    for i in 0..n.min(4096) {
        if bit(r, i) || bit(wr, i) {
            if w().k.fd(cur(), i).is_err() { set_errno(EBADF); return -1; }
            v.push((i, bit(r, i), bit(wr, i)));
        }
    }
    let res = poll_common(&v, to, "select").map(|o| {
        for s in [r, wr, ex] { if !s.is_null() { for i in 0..(n as usize + 7) / 8 { *s.add(i) = 0; } } }
        let mut c = 0;
        for ((fd, wantr, wantw), (rd, wrb, h, _)) in v.iter().zip(o) {
            if (rd || h) && *wantr { *r.add(*fd as usize / 8) |= 1 << (fd % 8); c += 1; }
            if wrb && *wantw { *wr.add(*fd as usize / 8) |= 1 << (fd % 8); c += 1; }
        }
        c
    });
    done(Op::poll, res, || format!("select({:?})", v)) as c_int
}
unsafe extern "C" fn s_select(n: c_int, r: *mut u8, wr: *mut u8, ex: *mut u8, to: *mut timeval) -> c_int {
    do_select(n, r, wr, ex, if to.is_null() { None } else { Some((*to).tv_sec as u64 * 1_000_000 + (*to).tv_usec as u64) })
}
unsafe extern "C" fn s_pselect(n: c_int, r: *mut u8, wr: *mut u8, ex: *mut u8, to: *const timespec, _m: usize) -> c_int {
    do_select(n, r, wr, ex, if to.is_null() { None } else { Some((*to).tv_sec as u64 * 1_000_000 + (*to).tv_nsec as u64 / 1000) })
}

// ------------------------------------------------------------------------------------------------ signals, exit
unsafe extern "C" fn s_sigaction(sig: c_int, new: *const sigaction, old: *mut sigaction) -> c_int {
    enter(Op::sigaction);
    if !(1..64).contains(&sig) { set_errno(EINVAL); return -1; }
    let p = cur();
    let prev = w().k.procs[p].sig[sig as usize].0;
    let nv = if new.is_null() { None } else { Some(*new) };
    if !old.is_null() { *old = prev; }
    if let Some(n) = nv { w().k.procs[p].sig[sig as usize].0 = n; }
    done(Op::sigaction, Ok(0), || match nv { Some(n) => format!("sigaction({}, handler {:#x}, flags {:#x})", sig, if n.sa_sigaction < 2 { n.sa_sigaction } else { 0xf00 }, n.sa_flags), None => format!("sigaction({}, query)", sig) }) as c_int
}
unsafe extern "C" fn s_signal(sig: c_int, h: usize) -> usize {
    enter(Op::sigaction);
    let p = cur();
    let prev = w().k.procs[p].sig[sig as usize].0.sa_sigaction;
    let mut a: sigaction = std::mem::zeroed();
    a.sa_sigaction = h;
    a.sa_flags = SA_RESTART;
    w().k.procs[p].sig[sig as usize].0 = a;
    done(Op::sigaction, Ok(0), || format!("signal({})", sig));
    prev
}
unsafe extern "C" fn s_sigprocmask(how: c_int, set: *const sigset_t, old: *mut sigset_t) -> c_int {
    enter(Op::sigaction);
    let p = cur();
    let prev = w().k.procs[p].blocked;
    if !set.is_null() {
        let m = *(set as *const u64) << 1;
        let b = &mut w().k.procs[p].blocked;
        match how { SIG_BLOCK => *b |= m, SIG_UNBLOCK => *b &= !m, _ => *b = m }
    }
    if !old.is_null() { *(old as *mut u64) = prev >> 1; }
    deliver();
    done(Op::sigaction, Ok(0), || format!("sigprocmask({})", how)) as c_int
}
unsafe extern "C" fn s_kill(pid: pid_t, sig: c_int) -> c_int {
    enter(Op::misc);
    if let Some(p) = w().k.procs.iter().position(|x| x.alive && x.pid == pid) { if sig != 0 { w().raise(p, sig); deliver(); } 0 } else { set_errno(ESRCH); -1 }
}
unsafe extern "C" fn s_raise(sig: c_int) -> c_int { let p = cur(); w().raise(p, sig); deliver(); 0 }
unsafe extern "C" fn s_abort() -> ! {
    let p = cur();
    w().note("abort");
    w().log(|| "abort()".into());
    w().die(p, SIGABRT);
    loop {}
}
unsafe extern "C" fn s_exit(_c: c_int) -> ! { s_abort() }
unsafe extern "C" fn s_syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    match n {
        SYS_getrandom => s_getrandom(a as *mut u8, b, c as c_uint) as c_long,
        SYS_gettid | SYS_getpid => s_getpid() as c_long,
        SYS_statx => s_statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut statx) as c_long,
        SYS_futex => syscall(n, a, b, c, d, e, f),
        SYS_fchmodat2 => s_fchmodat(a as c_int, b as *const c_char, c as mode_t, d as c_int) as c_long,
        _ => { w().note("unknown_syscall"); set_errno(ENOSYS); -1 }
    }
}
#[allow(non_upper_case_globals)]
const SYS_fchmodat2: c_long = 452;
unsafe extern "C" fn s_dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void {
    match lookup(std::str::from_utf8(bytes(n)).unwrap_or("")) { Some(a) => a as *mut c_void, None => dlsym(h, n) }
}

// ------------------------------------------------------------------------------------------------ allocation failure
fn oom() -> bool {
    if !active() { return false; }
    let wd = w();
    if !wd.in_plugin || wd.oom_at == 0 { return false; }
    if wd.k.procs[wd.tasks[wd.cur].proc].sess.is_none() { return false; }
    wd.mallocs += 1;
    if wd.mallocs == wd.oom_at {
        *wd.faults.entry("malloc:ENOMEM".into()).or_insert(0) += 1;
        let p = wd.tasks[wd.cur].proc;
        if let Some(s) = wd.k.procs[p].sess { wd.sess[s].hard_faults += 1; wd.sess[s].oom = true; }
        return true;
    }
    false
}
unsafe extern "C" fn s_malloc(n: size_t) -> *mut c_void { if oom() { set_errno(ENOMEM); return std::ptr::null_mut(); } malloc(n) }
unsafe extern "C" fn s_calloc(a: size_t, b: size_t) -> *mut c_void { if oom() { set_errno(ENOMEM); return std::ptr::null_mut(); } calloc(a, b) }
unsafe extern "C" fn s_realloc(p: *mut c_void, n: size_t) -> *mut c_void { if oom() { set_errno(ENOMEM); return std::ptr::null_mut(); } realloc(p, n) }

pub fn lookup(name: &str) -> Option<usize> {
    Some(match name {
        "getpid" | "gettid" | "getpgrp" => s_getpid as usize,
        "getppid" => s_getppid as usize,
        "getuid" => s_getuid as usize,
        "geteuid" => s_geteuid as usize,
        "getgid" => s_getgid as usize,
        "getegid" => s_getegid as usize,
        "getgroups" => s_getgroups as usize,
        "umask" => s_umask as usize,
        "getenv" | "secure_getenv" => s_getenv as usize,
        "gethostname" => s_gethostname as usize,
        "getpwuid_r" | "getpwnam_r" | "getgrgid_r" | "getgrnam_r" => s_getpw as usize,
        "getrandom" => s_getrandom as usize,
        "clock_gettime" => s_clock_gettime as usize,
        "gettimeofday" => s_gettimeofday as usize,
        "time" => s_time as usize,
        "localtime_r" => s_localtime_r as usize,
        "mktime" => s_mktime as usize,
        "nanosleep" => s_nanosleep as usize,
        "clock_nanosleep" => s_clock_nanosleep as usize,
        "usleep" => s_usleep as usize,
        "sleep" => s_sleep as usize,
        "alarm" => s_alarm as usize,
        "pause" => s_pause as usize,
        "open" | "open64" => s_open as usize,
        "openat" | "openat64" => s_openat as usize,
        "creat" | "creat64" => s_creat as usize,
        "close" => s_close as usize,
        "read" => s_read as usize,
        "pread" | "pread64" => s_pread as usize,
        "readv" => s_readv as usize,
        "write" => s_write as usize,
        "writev" => s_writev as usize,
        "lseek" | "lseek64" => s_lseek as usize,
        "stat" | "stat64" => s_stat as usize,
        "lstat" | "lstat64" => s_lstat as usize,
        "fstat" | "fstat64" => s_fstat as usize,
        "fstatat" | "fstatat64" | "newfstatat" => s_fstatat as usize,
        "statx" => s_statx as usize,
        "access" => s_access as usize,
        "eaccess" | "euidaccess" => s_eaccess as usize,
        "faccessat" => s_faccessat as usize,
        "chmod" => s_chmod as usize,
        "fchmod" => s_fchmod as usize,
        "fchmodat" => s_fchmodat as usize,
        "chown" => s_chown as usize,
        "lchown" => s_lchown as usize,
        "fchown" => s_fchown as usize,
        "fchownat" => s_fchownat as usize,
        "unlink" => s_unlink as usize,
        "remove" => s_remove as usize,
        "rmdir" => s_rmdir as usize,
        "unlinkat" => s_unlinkat as usize,
        "mkdir" => s_mkdir as usize,
        "mkdirat" => s_mkdirat as usize,
        "symlink" => s_symlink as usize,
        "rename" => s_rename as usize,
        "renameat" | "renameat2" => s_renameat as usize,
        "readlink" => s_readlink as usize,
        "realpath" => s_realpath as usize,
        "getcwd" => s_getcwd as usize,
        "chdir" => s_chdir as usize,
        "fchdir" => s_fchdir as usize,
        "fsync" | "fdatasync" | "ftruncate" | "ftruncate64" => s_zero as usize,
        "opendir" => s_opendir as usize,
        "fdopendir" => s_fdopendir as usize,
        "readdir" | "readdir64" => s_readdir as usize,
        "closedir" => s_closedir as usize,
        "dirfd" => s_dirfd as usize,
        "rewinddir" => s_rewinddir as usize,
        "setuid" => s_setuid as usize,
        "seteuid" => s_seteuid as usize,
        "setreuid" => s_setreuid as usize,
        "setresuid" => s_setresuid as usize,
        "setgid" => s_setgid as usize,
        "setegid" => s_setegid as usize,
        "setregid" => s_setregid as usize,
        "setresgid" => s_setresgid as usize,
        "setgroups" => s_setgroups as usize,
        "pthread_create" => s_eagain as usize,
        "flock" => s_flock as usize,
        "lockf" | "lockf64" => s_lockf as usize,
        "isatty" => s_isatty as usize,
        "dup" => s_dup as usize,
        "dup2" => s_dup2 as usize,
        "dup3" => s_dup3 as usize,
        "fcntl" | "fcntl64" => s_fcntl as usize,
        "ioctl" => s_ioctl as usize,
        "mmap" | "mmap64" => s_mmap as usize,
        "socket" => s_socket as usize,
        "bind" => s_bind as usize,
        "listen" => s_listen as usize,
        "accept" => s_accept as usize,
        "accept4" => s_accept4 as usize,
        "connect" => s_connect as usize,
        "send" => s_send as usize,
        "sendto" => s_sendto as usize,
        "sendmsg" => s_sendmsg as usize,
        "recv" => s_recv as usize,
        "recvfrom" => s_recvfrom as usize,
        "recvmsg" => s_recvmsg as usize,
        "shutdown" => s_shutdown as usize,
        "setsockopt" => s_setsockopt as usize,
        "getsockopt" => s_getsockopt as usize,
        "getsockname" | "getpeername" => s_getname as usize,
        "poll" => s_poll as usize,
        "ppoll" => s_ppoll as usize,
        "select" => s_select as usize,
        "pselect" => s_pselect as usize,
        "epoll_create1" | "epoll_ctl" | "epoll_wait" | "socketpair" | "pipe" | "pipe2" | "fork" | "vfork" | "execve" | "execvp" | "posix_spawn" | "posix_spawnp" | "system" | "popen"
        | "chroot" | "mount" | "umount" | "umount2" | "link" | "linkat"
        | "symlinkat" | "truncate" | "truncate64" | "utimes" | "utimensat" | "mknod" | "mknodat" | "mkfifo" | "setsid" | "setpgid" | "ptrace" | "reboot" | "setrlimit" | "setrlimit64"
        | "copy_file_range" | "sendfile" | "sendfile64" | "splice" | "waitpid" | "wait4" | "killpg" | "setitimer" | "timer_create" => s_nosys as usize,
        "sigaction" => s_sigaction as usize,
        "signal" => s_signal as usize,
        "sigprocmask" | "pthread_sigmask" => s_sigprocmask as usize,
        "kill" => s_kill as usize,
        "raise" => s_raise as usize,
        "abort" => s_abort as usize,
        "exit" | "_exit" | "_Exit" => s_exit as usize,
        "syscall" => s_syscall as usize,
        "dlsym" => s_dlsym as usize,
        "malloc" => s_malloc as usize,
        "calloc" => s_calloc as usize,
        "realloc" => s_realloc as usize,
        _ => return None,
    })
}

/// names that are fine to leave to the real C library (pure, or memory/unwinder internals)
pub fn harmless(name: &str) -> bool {
    name.starts_with("_Unwind") || name.starts_with("mem") || name.starts_with("str") || name.starts_with("pthread_") || name.starts_with("__")
        || matches!(name, "free" | "malloc_usable_size" | "posix_memalign" | "aligned_alloc" | "gmtime_r" | "timegm" | "munmap" | "mprotect" | "madvise" | "dl_iterate_phdr" | "sysconf" | "gnu_get_libc_version" | "bcmp" | "sigemptyset" | "sigfillset" | "sigaddset" | "sigdelset" | "sigismember" | "sigaltstack" | "uname" | "getauxval" | "environ" | "qsort" | "snprintf" | "sched_yield" | "sched_getaffinity" | "closedir" | "dirfd" | "setenv" | "unsetenv" | "getrlimit" | "getrlimit64" | "bsearch" | "dladdr" | "log" | "exp" | "pow" | "fmod" | "fmodf" | "trunc" | "floor" | "ceil" | "round")
}
