//! The properties, judged on what the simulated kernel and front end recorded.
use crate::kernel::*;
use crate::sched::*;
use crate::session::*;

pub const DEFAULT_USER: &[u8] = b"%B %u %p\n";
pub const DEFAULT_PAIR: &[u8] = b"%U@%h:%d$ %C\ny/n? [n]: ";

fn q(b: &[u8]) -> String {
    let s: String = String::from_utf8_lossy(&b[..b.len().min(160)]).escape_debug().collect();
    if b.len() > 160 { format!("\"{}\"...({} bytes)", s, b.len()) } else { format!("\"{}\"", s) }
}

fn sess_of(wd: &World, p: usize) -> Option<usize> {
    wd.k.procs.get(p).and_then(|x| x.sess)
}

fn dir_state(wd: &World, s: usize) -> bool {
    let se = &wd.sess[s];
    match wd.k.lookup_follow(&se.m.dir) {
        Some(i) => {
            let n = &wd.k.inodes[i];
            matches!(n.kind, Kind::Dir(_)) && n.uid == wd.k.procs[se.proc].cred.euid && n.mode & 0o022 == 0
        }
        None => false,
    }
}

fn template(wd: &World, path: &[u8]) -> Option<B> {
    let i = wd.k.lookup_follow(path)?;
    match &wd.k.inodes[i].kind {
        Kind::File(d) => Some(d.clone()),
        Kind::Null => Some(vec![]),
        _ => None,
    }
}

pub fn before_open(wd: &mut World, s: usize) {
    let se = &wd.sess[s];
    let p = &wd.k.procs[se.proc];
    let squat = wd.k.lookup_raw(&se.path).map(|i| (i, wd.k.inodes[i].ver, matches!(wd.k.inodes[i].kind, Kind::Sock { .. } | Kind::DgramSock { .. })));
    let b = Before {
        umask: p.umask,
        cwd: p.cwd.clone(),
        cred: p.cred.clone(),
        sigs: sig_view(p),
        fds: p.fds.keys().copied().collect(),
        squat,
        stale: squat.map_or(false, |x| x.2),
        dir_ok: dir_state(wd, s),
        dir: None,
        user_tpl: template(wd, &se.spec.user_tpl_path),
        pair_tpl: template(wd, &se.spec.pair_tpl_path),
    };
    wd.sess[s].before = Some(b);
}

fn gated(se: &Sess) -> bool {
    se.m.params_ok() && !se.m.version_query && se.m.gated
}
fn exempt(se: &Sess) -> bool {
    se.m.params_ok() && !se.m.version_query && !se.m.gated
}

/// could a willing pair legitimately be refused here? (no, if this returns true)
pub fn base_ok(wd: &World, s: usize) -> bool {
    let se = &wd.sess[s];
    let Some(b) = &se.before else { return false };
    gated(se)
        && !se.m.conflict()
        && !se.m.odd()
        && b.dir_ok
        && !b.squat.map_or(false, |x| !x.2)
        && se.path.len() < 108
        && se.path.first() == Some(&b'/')
        && se.undisturbed(true)
        && !se.intruder_admin
}

fn degraded(wd: &World, s: usize) -> bool {
    wd.sess[s].aux_faults > 0 || wd.sess[s].printf_failed || wd.exp.degraded
}

/// a session that should have been granted was not
pub fn unfair(wd: &mut World, s: usize, msg: String) {
    let stale = wd.sess[s].before.as_ref().map_or(false, |b| b.stale);
    if wd.sess[s].aux_faults == 0 && !wd.sess[s].printf_failed {
        wd.violate("C09", msg.clone());
    }
    if degraded(wd, s) {
        wd.violate("C17", msg.clone());
    }
    if stale {
        wd.violate("C07", format!("left-over socket was present; {}", msg));
    }
}

pub fn on_bind(wd: &mut World, p: usize, path: &[u8]) {
    let Some(s) = sess_of(wd, p) else { return };
    wd.sess[s].bound += 1;
    wd.sess[s].bound_ino = wd.k.lookup_raw(path);
    wd.sess[s].reach_key = (u32::MAX, 0, false);
}

pub fn proc_tty<'a>(wd: &'a World, s: usize) -> Option<&'a Vec<u8>> {
    let t = wd.sess[s].m.tty.as_ref()?;
    let i = wd.k.lookup_follow(t)?;
    match &wd.k.inodes[i].kind {
        Kind::Tty { out, .. } => Some(out),
        _ => None,
    }
}

/// a session waits for a lock that another one has
pub fn on_lock_wait(wd: &mut World, s: usize, holder: usize, ino: Ino) {
    let Some(h) = sess_of(wd, holder) else { return };
    wd.sess[s].lock_wait = Some((h, ino));
    let se = &wd.sess[h];
    let asleep = matches!(wd.tasks[wd.k.procs[se.proc].task].state, TState::Blocked(Cond::Poll(_), ..));
    if h != s && se.phase == Phase::Open && asleep && matches!(se.last_wait, 1 | 2) {
        wd.violate("C16", format!("session {} can't go on before session {} is decided", s, h));
    }
}
/// another session that waits for a lock of this one
fn held_up(wd: &World, s: usize) -> Option<usize> {
    let p = wd.sess[s].proc;
    (0..wd.sess.len()).find(|t| *t != s && wd.sess[*t].lock_wait.map_or(false, |(h, ino)| h == s && wd.k.locks.iter().any(|l| l.proc == p && l.ino == ino)))
}
/// one of a session's callbacks is over
pub fn on_return(wd: &mut World, s: usize) {
    if let Some(t) = held_up(wd, s) {
        wd.violate("C16", format!("session {} can't go on before session {} ends", t, s));
    }
}

pub fn on_wait(wd: &mut World, s: usize, kind: u8) {
    wd.sess[s].last_wait = kind;
    if matches!(kind, 1 | 2) && wd.sess[s].phase == Phase::Open {
        if let Some(t) = held_up(wd, s) {
            wd.violate("C16", format!("session {} can't go on before session {} is decided", t, s));
        }
    }
    if wd.sess[s].phase != Phase::Open {
        return;
    }
    if kind == 1 || kind == 2 {
        if wd.sess[s].int_in_wait {
            wd.violate("C08", format!("session {}: waits for its pair again after SIGINT interrupted the wait", s));
        }
    }
    if kind == 2 {
        wd.sess[s].answer_wait = true;
    }
    if kind == 1 && !wd.sess[s].waited {
        wd.sess[s].waited = true;
        check_user_prompt(wd, s);
    }
}

/// the requesting user must already have been told what to do
fn check_user_prompt(wd: &mut World, s: usize) {
    let se = &wd.sess[s];
    if !gated(se) {
        return;
    }
    let b = se.before.as_ref().unwrap();
    let full = se.m.expand(b.user_tpl.as_deref().unwrap_or(DEFAULT_USER));
    let deflt = se.m.expand(DEFAULT_USER);
    let wants: Vec<B> = if se.tpl_fault_user { vec![full, deflt] } else { vec![full] };
    let null_tty = se.m.tty.as_ref().and_then(|t| wd.k.lookup_follow(t)).map_or(false, |i| match wd.k.inodes[i].kind {
        Kind::Null => true,
        // a file may stand for the terminal, unless it wasn't there before
        Kind::File(_) => wd.k.inodes[i].creator != se.proc,
        _ => false,
    });
    if null_tty && !se.tty_fault {
        return;
    }
    let tty = proc_tty(wd, s).cloned();
    let tty_ok = tty.is_some() && !se.tty_fault;
    let mut fine = false;
    for want in &wants {
        if tty_ok {
            fine |= tty.as_ref() == Some(want);
        } else if se.spec.printf_null || se.printf_failed {
            // cannot be shown anywhere: nothing to judge
            fine = true;
        } else {
            fine |= &se.err_out == want;
        }
    }
    let got = if tty_ok { tty.clone().unwrap_or_default() } else { se.err_out.clone() };
    wd.exercise("C15");
    if !fine {
        wd.violate("C15", format!("session {}: user was shown {} via {} instead of {} before sudo started waiting", s, q(&got), if tty_ok { "the terminal" } else { "the front end" }, q(&wants[0])));
    }
}

/// the handler for `sig` ran while the session was blocked in a wait of this kind
pub fn on_eintr(wd: &mut World, s: usize, kind: u8, sig: i32) {
    if sig == libc::SIGINT && wd.sess[s].phase == Phase::Open && (kind == 1 || kind == 2) {
        wd.sess[s].int_in_wait = true;
        wd.note(if kind == 1 { "sigint_in_connect_wait" } else { "sigint_in_answer_wait" });
    }
}

pub fn on_accept(wd: &mut World, s: usize, conn: usize) {
    wd.sess[s].accepted.push(conn);
    wd.sess[s].accept_done = true;
    if !wd.sess[s].waited {
        // a pair was already queued: the user still must have been told first
        wd.sess[s].waited = true;
        check_user_prompt(wd, s);
    }
    if wd.k.conns[conn].path != wd.sess[s].path {
        let m = format!("session {}: accepted a connection made to {} instead of its own {}", s, q(&wd.k.conns[conn].path), q(&wd.sess[s].path));
        wd.violate("C16", m.clone());
        wd.violate("C01", m);
    }
}

pub fn on_recv_call(wd: &mut World, s: usize, conn: usize) {
    if wd.sess[s].phase != Phase::Open || wd.sess[s].recv_started {
        return;
    }
    if !wd.sess[s].accepted.contains(&conn) {
        return;
    }
    wd.sess[s].recv_started = true;
    let se = &wd.sess[s];
    let b = se.before.as_ref().unwrap();
    let full = se.m.expand(b.pair_tpl.as_deref().unwrap_or(DEFAULT_PAIR));
    let deflt = se.m.expand(DEFAULT_PAIR);
    let got = wd.k.conns[conn].to_client.clone();
    let ok = got == full || (se.tpl_fault_pair && got == deflt);
    wd.sess[s].prompt_len = got.len();
    wd.exercise("C14");
    if !ok {
        wd.violate("C14", format!("session {}: reads the answer after sending {} but the prompt is {}", s, q(&got), q(&full)));
    }
}

fn yes_conn(wd: &World, s: usize) -> Option<usize> {
    wd.sess[s].accepted.iter().rev().copied().find(|c| wd.k.conns[*c].path == wd.sess[s].path && matches!(wd.k.conns[*c].server_read.first(), Some(b'y' | b'Y')))
}

fn own_muts(wd: &World, s: usize) -> Option<String> {
    let p = wd.sess[s].proc;
    wd.k.muts.iter().find(|m| m.0 == p).map(|m| format!("{}({})", m.1, String::from_utf8_lossy(&m.2)))
}

pub fn after_open(wd: &mut World, s: usize, r: i32) {
    let runs = r == 1 || r == 0;
    let b = wd.sess[s].before.clone().unwrap();
    let p = wd.sess[s].proc;
    let oom = wd.sess[s].oom;
    let tty_touched = proc_tty(wd, s).map_or(false, |o| !o.is_empty());
    let shown = tty_touched || !wd.sess[s].err_out.is_empty() || !wd.sess[s].info_out.is_empty();
    let umask_now = wd.k.procs[p].umask;
    let sigs_now = sig_view(&wd.k.procs[p]);

    // ---- unusable parameters
    if !wd.sess[s].m.params_ok() {
        wd.exercise("C22");
        let se = &wd.sess[s];
        let what = if se.m.api_bad { "API version".to_string() } else { se.m.bad_keys.join(",") };
        let mut bad = vec![];
        if r != -1 && r != -2 {
            bad.push(format!("was not refused (open returned {})", r));
        }
        if se.bound > 0 {
            bad.push("created an approval socket".into());
        }
        if se.waited || se.answer_wait {
            bad.push("waited for a pair".into());
        }
        if tty_touched {
            bad.push("wrote to the terminal".into());
        }
        if let Some(m) = own_muts(wd, s) {
            bad.push(format!("changed the file system: {}", m));
        }
        if umask_now != b.umask || sigs_now != b.sigs {
            bad.push("changed umask or signal handling".into());
        }
        let se = &wd.sess[s];
        if !se.spec.printf_null && !se.printf_failed {
            let t = String::from_utf8_lossy(&se.err_out).to_string();
            let named = if se.m.api_bad { t.contains("version") || t.contains("1.9") } else { se.m.bad_keys.iter().any(|k| t.contains(k)) };
            if !named {
                bad.push(format!("printed {:?}, which does not name the problem", t));
            }
        }
        for m in bad {
            wd.violate("C22", format!("session {} with unusable {} {}", s, what, m));
        }
        check_residue(wd, s, false, &b, umask_now, &sigs_now);
        return;
    }
    if wd.sess[s].m.version_query {
        if wd.sess[s].bound > 0 || tty_touched {
            wd.violate("C01", format!("session {}: a version query involved the pairing machinery", s));
        }
        check_residue(wd, s, false, &b, umask_now, &sigs_now);
        return;
    }

    // ---- exempt
    if !wd.sess[s].m.gated {
        wd.exercise("C03");
        let why = wd.sess[s].m.why;
        if !oom {
            if r != 1 {
                wd.violate("C03", format!("session {} ({}) is exempt from pairing but open returned {}", s, why, r));
            }
            if wd.sess[s].bound > 0 || own_muts(wd, s).is_some() {
                wd.violate("C03", format!("session {} ({}) is exempt but touched the file system: {:?}", s, why, own_muts(wd, s)));
            }
            if wd.sess[s].waited || wd.sess[s].answer_wait || wd.sess[s].blocks > 0 {
                wd.violate("C03", format!("session {} ({}) is exempt but had to wait", s, why));
            }
            if shown {
                wd.violate("C03", format!("session {} ({}) is exempt but something was shown to the user", s, why));
            }
        }
        check_residue(wd, s, runs, &b, umask_now, &sigs_now);
        return;
    }

    // ---- gated
    wd.exercise("C01");
    let yes = yes_conn(wd, s);
    if runs && yes.is_none() {
        let heard: Vec<String> = wd.sess[s].accepted.iter().map(|c| q(&wd.k.conns[*c].server_read)).collect();
        wd.violate("C01", format!("session {} needs pairing but open returned {}; connections accepted answered {:?}", s, r, heard));
    }
    if r == 0 {
        wd.violate("C01", format!("session {} needs pairing but the plugin only disabled itself", s));
    }
    if let (true, Some(c)) = (runs, yes) {
        if !wd.sess[s].m.authorised(&wd.k.procs[wd.k.conns[c].client_proc].cred) {
            wd.violate("C02", format!("session {} was approved by uid {} who cannot act as the target", s, wd.k.procs[wd.k.conns[c].client_proc].cred.euid));
        }
    }
    if wd.sess[s].m.conflict() {
        wd.exercise("C04");
        if runs {
            wd.violate("C04", format!("session {} changes user and names a group but open returned {}", s, r));
        }
        if wd.sess[s].bound > 0 {
            wd.violate("C04", format!("session {} changes user and names a group but an approval socket was created", s));
        }
        if wd.sess[s].waited {
            wd.violate("C04", format!("session {} changes user and names a group but waited for a pair", s));
        }
    } else if !b.dir_ok {
        wd.exercise("C05");
        if runs {
            wd.violate("C05", format!("session {}: socket directory {} is not trustworthy but open returned {}", s, q(&wd.sess[s].m.dir), r));
        }
        if let Some(m) = own_muts(wd, s) {
            wd.violate("C05", format!("session {}: socket directory {} is not trustworthy but {}", s, q(&wd.sess[s].m.dir), m));
        }
        if wd.sess[s].waited {
            wd.violate("C05", format!("session {}: socket directory {} is not trustworthy but the session waited for a pair", s, q(&wd.sess[s].m.dir)));
        }
    } else if let Some((i, ver, sock)) = b.squat {
        let path = wd.sess[s].path.clone();
        if !sock {
            wd.exercise("C07");
            if runs {
                wd.violate("C07", format!("session {}: {} is not a socket but open returned {}", s, q(&path), r));
            }
            if wd.k.lookup_raw(&path) != Some(i) || wd.k.inodes[i].ver != ver {
                wd.violate("C07", format!("session {}: foreign file {} was removed or modified", s, q(&path)));
            }
        }
    }
    if wd.sess[s].int_in_wait {
        wd.exercise("C08");
        if runs {
            wd.violate("C08", format!("session {}: SIGINT interrupted the wait for the pair but open returned {}", s, r));
        }
    }
    // everyone who connected and is not the monitor has been hung up on
    let mine: Vec<usize> = (0..wd.k.conns.len()).filter(|c| wd.k.conns[*c].listener_proc == p).collect();
    if !mine.is_empty() {
        wd.exercise("C13");
        for c in mine {
            if runs && Some(c) == yes {
                continue;
            }
            if !wd.k.server_hung_up(c) {
                let st = if wd.sess[s].accepted.contains(&c) { "the pair" } else { "someone queued on the socket" };
                wd.violate("C13", format!("session {}: open returned {} but {} is still connected", s, r, st));
            }
        }
    }
    // the willing are not turned away
    if base_ok(wd, s) {
        let first = wd.sess[s].accepted.first().copied();
        let willing = first.map_or(false, |c| wd.exp.willing.contains(&wd.k.conns[c].client_proc));
        if willing {
            wd.exercise("C09");
            if degraded(wd, s) {
                wd.exercise("C17");
            }
            if b.stale {
                wd.exercise("C07");
            }
            if wd.sess.len() > 1 {
                wd.exercise("C16");
            }
        }
        if !runs && (first.is_none() || willing) {
            let m = format!("session {}: refused (open returned {}) although {}", s, r, if willing { "its authorised pair said yes" } else { "nobody was even asked" });
            unfair(wd, s, m);
        }
    }
    if runs {
        // nothing but the echoed answer and a newline follows the prompt
        if let Some(c) = yes {
            let after = wd.k.conns[c].to_client[wd.sess[s].prompt_len.min(wd.k.conns[c].to_client.len())..].to_vec();
            let want = vec![wd.k.conns[c].server_read[0], b'\n'];
            let lost = wd.k.client_lost(c) || wd.sess[s].aux_faults > 0 || wd.sess[s].hard_faults > 0;
            let fine = after == want || (lost && (after.is_empty() || after == want[..1] || after == want[1..]));
            if !fine {
                wd.violate("C10", format!("session {}: {} was sent after the prompt instead of the echoed answer", s, q(&after)));
            }
        }
    }
    check_residue(wd, s, runs, &b, umask_now, &sigs_now);
}

fn check_residue(wd: &mut World, s: usize, runs: bool, b: &Before, umask_now: u32, sigs_now: &[(usize, i32, u64)]) {
    wd.exercise("C06");
    let p = wd.sess[s].proc;
    if umask_now != b.umask {
        wd.violate("C06", format!("session {}: umask was {:03o} before open and is {:03o} after", s, b.umask, umask_now));
    }
    if wd.k.procs[p].cwd != b.cwd {
        let now = q(&wd.k.procs[p].cwd);
        wd.violate("C06", format!("session {}: sudo was in {} before open and is in {} after", s, q(&b.cwd), now));
    }
    if wd.k.procs[p].cred != b.cred {
        wd.violate("C06", format!("session {}: sudo's credentials are not what they were before open", s));
    }
    for (i, (x, y)) in b.sigs.iter().zip(sigs_now).enumerate() {
        if x != y {
            wd.violate("C06", format!("session {}: handling of signal {} changed from {:x?} to {:x?}", s, i, x, y));
        }
    }
    if wd.k.procs[p].blocked != 0 {
        wd.violate("C06", format!("session {}: signals left blocked", s));
    }
    let yes = yes_conn(wd, s);
    let new: Vec<i32> = wd.k.procs[p].fds.keys().copied().filter(|f| !b.fds.contains(f)).collect();
    for f in new {
        let e = wd.k.procs[p].fds[&f];
        let (what, allowed) = match wd.k.obj(e.obj) {
            Obj::Stream(st) => ("connection", runs && Some(st.conn) == yes),
            Obj::Dgram { .. } => ("log connection", true),
            Obj::Unbound { dgram: true } => ("log socket", true),
            Obj::Listener { .. } => ("listening socket", false),
            _ => ("file", false),
        };
        if !allowed {
            wd.violate("C06", format!("session {}: descriptor {} ({}) is still open after open", s, f, what));
        }
        if !e.cloexec && what == "connection" {
            wd.violate("C06", format!("session {}: descriptor {} ({}) would be inherited by the command", s, f, what));
        }
    }
    if let Some(f) = b.fds.iter().find(|f| !wd.k.procs[p].fds.contains_key(f)) {
        wd.violate("C06", format!("session {}: descriptor {} of sudo was closed", s, f));
    }
    if !wd.sess[s].removal_fault {
        if let Some(i) = (0..wd.k.inodes.len()).find(|i| wd.k.inodes[*i].creator == p && wd.k.inodes[*i].nlink > 0) {
            wd.violate("C06", format!("session {}: a file system object it created (mode {:03o}) is still there after open", s, wd.k.inodes[i].mode));
        }
    }
}

#[derive(Clone, Copy)]
pub struct Cbb {
    conn: Option<usize>,
    len: usize,
    lost: bool,
}

pub fn before_callback(wd: &mut World, s: usize, _cb: &Cb) -> Cbb {
    let conn = yes_conn(wd, s);
    wd.sess[s].send_err = false;
    match conn {
        Some(c) => {
            let len = wd.k.conns[c].to_client.len();
            if wd.sess[s].refs_lost && len != wd.sess[s].prompt_len {
                wd.violate("C10", format!("session {}: bytes reached the pair outside any callback", s));
            }
            Cbb { conn, len, lost: wd.k.client_lost(c) }
        }
        None => Cbb { conn, len: 0, lost: false },
    }
}

pub fn after_callback(wd: &mut World, s: usize, cb: &Cb, b: Cbb, r: i32) {
    if wd.sess[s].m.version_query {
        if let Cb::Log(..) | Cb::Winsize(..) = cb {
            if r != 0 {
                wd.violate("C19", format!("session {}: callback after a version query returned {}", s, r));
            }
        }
        return;
    }
    if exempt(&wd.sess[s]) {
        if r != 1 && !wd.sess[s].oom {
            let why = wd.sess[s].m.why;
            wd.violate("C03", format!("session {} ({}) is exempt but {} returned {}", s, why, cb_name(cb), r));
        }
        if wd.k.conns.iter().any(|c| c.listener_proc == wd.sess[s].proc) {
            wd.violate("C03", format!("session {} is exempt but has a connection", s));
        }
        return;
    }
    let Some(c) = b.conn else { return };
    let data: B = match cb {
        Cb::Log(TTYOUT | STDOUT | STDERR, d) => d.clone(),
        Cb::Winsize(l, co) => format!("\x1b[8;{};{}t", l, co).into_bytes(),
        _ => vec![],
    };
    let is_out = matches!(cb, Cb::Log(TTYOUT | STDOUT | STDERR, _) | Cb::Winsize(..));
    let sent = wd.k.conns[c].to_client[b.len..].to_vec();
    let lost_after = wd.k.client_lost(c);
    wd.sess[s].refs_lost = true;
    wd.sess[s].prompt_len = wd.k.conns[c].to_client.len();
    if is_out {
        wd.exercise("C10");
        if r == 1 && sent != data {
            wd.violate("C10", format!("session {}: {} reported success for {} but the pair got {}", s, cb_name(cb), q(&data), q(&sent)));
        }
        if r != 1 && !data.starts_with(&sent) {
            wd.violate("C10", format!("session {}: {} sent {} which is not a prefix of {}", s, cb_name(cb), q(&sent), q(&data)));
        }
        if (b.lost || wd.sess[s].send_err) && !data.is_empty() {
            wd.exercise("C11");
            if r != 0 {
                wd.violate("C11", format!("session {}: the monitor is gone but {} returned {}", s, cb_name(cb), r));
            }
        }
        if r == -1 || r < -1 {
            if lost_after {
                wd.violate("C11", format!("session {}: the monitor is gone but {} only disabled itself ({})", s, cb_name(cb), r));
            }
        }
    } else if !sent.is_empty() {
        wd.violate("C10", format!("session {}: {} sent {} to the pair", s, cb_name(cb), q(&sent)));
    }
    if let Cb::Log(STDIN, d) = cb {
        if !d.is_empty() {
            wd.exercise("C12");
            if r != 0 {
                wd.violate("C12", format!("session {}: piped input was not refused (log_stdin returned {})", s, r));
            }
        }
    } else if r != 1 && !matches!(cb, Cb::Version) && !b.lost && !lost_after && wd.sess[s].undisturbed(true) && !wd.sess[s].send_err {
        let m = format!("session {}: {} returned {} although the pair is still there", s, cb_name(cb), r);
        if degraded(wd, s) {
            wd.violate("C17", m.clone());
        }
        wd.violate("C09", m);
    }
}

fn cb_name(cb: &Cb) -> String {
    match cb {
        Cb::Log(k, d) => format!("log_{} ({} bytes)", STREAMS[*k], d.len()),
        Cb::Winsize(..) => "change_winsize".into(),
        _ => "show_version".into(),
    }
}

pub fn after_close(wd: &mut World, s: usize) {
    let p = wd.sess[s].proc;
    let mine: Vec<usize> = (0..wd.k.conns.len()).filter(|c| wd.k.conns[*c].listener_proc == p).collect();
    for c in mine {
        wd.exercise("C13");
        if !wd.k.server_hung_up(c) {
            wd.violate("C13", format!("session {}: close returned but the pair is still connected", s));
        }
        if wd.sess[s].refs_lost && yes_conn(wd, s) == Some(c) && wd.k.conns[c].to_client.len() != wd.sess[s].prompt_len {
            wd.violate("C10", format!("session {}: close sent bytes to the pair", s));
        }
    }
}

pub fn after_late_callback(wd: &mut World, s: usize, r: i32) {
    wd.exercise("C19");
    if r != 0 && !wd.sess[s].oom {
        wd.violate("C19", format!("session {}: a callback without a live session returned {}", s, r));
    }
}

pub fn session_died(wd: &mut World, s: usize) {
    let sig = wd.sess[s].died.unwrap_or(0);
    if sig == libc::SIGKILL || wd.sess[s].oom {
        return;
    }
    let m = format!("session {}: sudo died of signal {} inside the plugin", s, sig);
    wd.violate("C18", m.clone());
    if exempt(&wd.sess[s]) || wd.sess[s].m.version_query && wd.sess[s].m.params_ok() {
        wd.violate("C03", m.clone());
    }
    if !wd.sess[s].m.params_ok() {
        wd.violate("C22", m.clone());
    }
    if sig == libc::SIGPIPE && gated(&wd.sess[s]) && wd.sess[s].phase == Phase::Running {
        wd.violate("C11", m.clone());
    }
    wd.sess[s].died = None;
    if base_ok(wd, s) {
        unfair(wd, s, m);
    }
    wd.sess[s].died = Some(sig);
}

/// evaluated after every simulated system call and task switch
pub fn each_step(wd: &mut World) {
    // name-space changes made by sessions
    while wd.exp.mut_idx < wd.k.muts.len() {
        let (p, op, path, ino) = wd.k.muts[wd.exp.mut_idx].clone();
        wd.exp.mut_idx += 1;
        let Some(s) = sess_of(wd, p) else { continue };
        let Some(i) = ino else { continue };
        let creator = wd.k.inodes[i].creator;
        if creator == p {
            continue;
        }
        let kind_sock = matches!(wd.k.inodes[i].kind, Kind::Sock { .. } | Kind::DgramSock { .. });
        if !kind_sock {
            wd.violate("C07", format!("session {}: {}({}) hit something that is not a socket", s, op, q(&path)));
        }
        if let Some(t) = sess_of(wd, creator) {
            if t != s && wd.sess[t].live() && wd.sess[t].path != wd.sess[s].path {
                wd.violate("C16", format!("session {}: {}({}) disturbs the socket of live session {}", s, op, q(&path), t));
            }
        }
        if path != wd.sess[s].path && kind_sock && op == "unlink" {
            wd.violate("C16", format!("session {}: removed {} which is not its own socket", s, q(&path)));
        }
    }
    // who can reach a listening approval socket
    for s in 0..wd.sess.len() {
        if wd.sess[s].phase != Phase::Open {
            continue;
        }
        let Some(i) = wd.sess[s].bound_ino else { continue };
        let n = &wd.k.inodes[i];
        let listening = matches!(n.kind, Kind::Sock { listener: Some(_) }) && n.nlink > 0;
        let key = (n.ver, n.mode ^ (n.uid << 12) ^ n.gid.rotate_left(20), listening);
        if !listening || key == wd.sess[s].reach_key {
            continue;
        }
        wd.sess[s].reach_key = key;
        wd.exercise("C02");
        if !gated(&wd.sess[s]) {
            continue;
        }
        for c in wd.universe.clone() {
            if wd.k.reach(&c, &wd.k.inodes[i]) && !wd.sess[s].m.authorised(&c) {
                let n = &wd.k.inodes[i];
                let m = format!(
                    "session {}: approval socket (owner {}, group {}, mode {:04o}) accepts connections from uid {} groups {:?}, who cannot act as the target",
                    s, n.uid, n.gid, n.mode, c.euid, [vec![c.egid], c.groups.clone()].concat()
                );
                wd.violate("C02", m);
            }
        }
    }
}

/// an outsider's connect(2) to a session's socket succeeded
pub fn on_outside_connect(wd: &mut World, conn: usize) {
    let p = wd.k.conns[conn].client_proc;
    let lp = wd.k.conns[conn].listener_proc;
    let Some(s) = sess_of(wd, lp) else { return };
    let c = wd.k.procs[p].cred.clone();
    if gated(&wd.sess[s]) && !wd.sess[s].m.authorised(&c) {
        wd.violate("C02", format!("session {}: uid {} groups {:?} connected to its approval socket", s, c.euid, c.groups));
    }
}

pub fn finish(wd: &mut World) {
    for c in 0..wd.k.conns.len() {
        let Some(s) = sess_of(wd, wd.k.conns[c].listener_proc) else { continue };
        for t in 0..wd.sess.len() {
            if t != s {
                let mk = crate::scenario::marker(t);
                if wd.k.conns[c].to_client.windows(mk.len()).any(|x| x == &mk[..]) {
                    wd.violate("C16", format!("output of session {} reached the pair of session {}", t, s));
                }
            }
        }
    }
}
