//! The simulated kernel: file system with ownership and permissions, Unix sockets, descriptors, signals.
//! Nothing here touches the real system.
use std::collections::{BTreeMap, VecDeque};

pub type Ino = usize;
pub type ObjId = usize;

pub const S_IFMT: u32 = 0o170000;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Dir(BTreeMap<Vec<u8>, Ino>),
    File(Vec<u8>),
    Symlink(Vec<u8>),
    Sock { listener: Option<ObjId> },
    Fifo,
    Tty { out: Vec<u8>, fail: u8, budget: usize },
    Null,
    DgramSock { up: bool },
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    pub uid: u32,
    pub gid: u32,
    pub mode: u32,
    pub nlink: u32,
    pub ver: u32,
    pub creator: usize,
}

#[derive(Debug)]
pub enum Obj {
    File { ino: Ino, pos: usize, w: bool },
    Unbound { dgram: bool },
    Bound { ino: Ino, path: Vec<u8> },
    Listener { ino: Ino, path: Vec<u8>, backlog: VecDeque<ObjId>, max: usize },
    Stream(Stream),
    Dgram { connected: bool },
    Pipe { ino: Ino, w: bool },
}

#[derive(Debug)]
pub struct Stream {
    pub peer: Option<ObjId>,
    pub conn: usize,
    pub server: bool,
    pub rbuf: VecDeque<u8>,
    pub cap: usize,
    pub rd_shut: bool,
    pub wr_shut: bool,
    pub err: i32,
}

#[derive(Debug)]
pub struct ObjSlot {
    pub obj: Obj,
    pub refs: usize,
    pub nonblock: bool,
    pub rcvtimeo: u64,
    pub sndtimeo: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct FdEnt {
    pub obj: ObjId,
    pub cloexec: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Cred {
    pub uid: u32,
    pub euid: u32,
    pub gid: u32,
    pub egid: u32,
    pub groups: Vec<u32>,
    pub cap: bool,
}

#[derive(Clone, Copy)]
pub struct SigAct(pub libc::sigaction);

pub struct Proc {
    pub pid: i32,
    pub name: String,
    pub cred: Cred,
    pub umask: u32,
    pub cwd: Vec<u8>,
    pub fds: BTreeMap<i32, FdEnt>,
    pub fd_base: i32,
    pub nofile: i32,
    pub sig: Vec<SigAct>,
    pub blocked: u64,
    pub pending: u64,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    pub alive: bool,
    pub died: Option<i32>, // signal number
    pub task: usize,
    pub sess: Option<usize>,
    pub alarm: Option<u64>,
    /// what a process forked from this one has inherited
    pub held: Vec<ObjId>,
}

/// Everything that ever happened on one stream connection.
#[derive(Clone, Debug, Default)]
pub struct ConnRec {
    pub path: Vec<u8>,
    pub client_proc: usize,
    pub listener_proc: usize,
    pub accepted_by: Option<usize>,
    pub server_obj: ObjId,
    pub client_obj: ObjId,
    pub to_client: Vec<u8>,
    pub to_server: Vec<u8>,
    pub server_read: Vec<u8>,
    pub client_read: usize,
    pub sent_at_first_read: Option<usize>,
    pub server_gone: bool,
    pub client_gone: bool,
    pub sends_after_hangup: usize,
    pub injected_err: bool,
}

/// An advisory lock: flock and OFD locks belong to an open file, the others to
/// a process.
pub struct Lock {
    pub ino: Ino,
    pub flock: bool,
    pub obj: Option<ObjId>,
    pub proc: usize,
    pub excl: bool,
    pub range: (i64, i64),
}

pub struct Kernel {
    pub locks: Vec<Lock>,
    pub inodes: Vec<Inode>,
    pub objs: Vec<Option<ObjSlot>>,
    pub procs: Vec<Proc>,
    pub conns: Vec<ConnRec>,
    pub now: u64,
    pub clk_off: i64,
    pub default_cap: usize,
    pub syslog: Vec<Vec<u8>>,
    /// (proc, op, path) of every name-space mutation
    pub muts: Vec<(usize, &'static str, Vec<u8>, Option<Ino>)>,
}

pub type R<T> = Result<T, i32>;
use libc::*;

impl Kernel {
    pub fn new() -> Self {
        let root = Inode { kind: Kind::Dir(BTreeMap::new()), uid: 0, gid: 0, mode: 0o755, nlink: 2, ver: 0, creator: usize::MAX };
        Kernel {
            locks: vec![],
            inodes: vec![root],
            objs: vec![],
            procs: vec![],
            conns: vec![],
            now: 1_000_000,
            clk_off: 0,
            default_cap: 65536,
            syslog: vec![],
            muts: vec![],
        }
    }

    // ---------------------------------------------------------------- file system
    pub fn mknode(&mut self, kind: Kind, uid: u32, gid: u32, mode: u32, creator: usize) -> Ino {
        self.inodes.push(Inode { kind, uid, gid, mode, nlink: 1, ver: 0, creator });
        self.inodes.len() - 1
    }
    /// create directories (0755 root) and put a node at an absolute path, replacing nothing
    pub fn put(&mut self, path: &[u8], kind: Kind, uid: u32, gid: u32, mode: u32) -> Option<Ino> {
        let comps: Vec<&[u8]> = path.split(|b| *b == b'/').filter(|c| !c.is_empty()).collect();
        let mut cur = 0;
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            let ent = match &self.inodes[cur].kind {
                Kind::Dir(d) => d.get(*c).copied(),
                Kind::Symlink(_) => return None,
                _ => return None,
            };
            match ent {
                Some(n) if !last => {
                    let mut n = n;
                    if let Kind::Symlink(t) = &self.inodes[n].kind {
                        let t = t.clone();
                        n = self.lookup_raw(&t)?;
                    }
                    cur = n
                }
                Some(_) => return None,
                None => {
                    let n = if last {
                        self.mknode(kind.clone(), uid, gid, mode, usize::MAX)
                    } else {
                        self.mknode(Kind::Dir(BTreeMap::new()), 0, 0, 0o755, usize::MAX)
                    };
                    if let Kind::Dir(d) = &mut self.inodes[cur].kind {
                        d.insert(c.to_vec(), n);
                    }
                    cur = n;
                }
            }
        }
        Some(cur)
    }
    pub fn lookup_raw(&self, path: &[u8]) -> Option<Ino> {
        let cred = Cred { cap: true, ..Default::default() };
        self.walk(&cred, b"/", path, false).ok().and_then(|(_, _, i)| i)
    }
    pub fn lookup_follow(&self, path: &[u8]) -> Option<Ino> {
        let cred = Cred { cap: true, ..Default::default() };
        self.walk(&cred, b"/", path, true).ok().and_then(|(_, _, i)| i)
    }
    pub fn perm(&self, c: &Cred, i: &Inode, want: u32) -> bool {
        if c.cap {
            return true;
        }
        let bits = if c.euid == i.uid {
            i.mode >> 6
        } else if c.egid == i.gid || c.groups.contains(&i.gid) {
            i.mode >> 3
        } else {
            i.mode
        };
        bits & want == want
    }
    /// resolve a path: parent inode, last component, inode if present
    pub fn walk(&self, c: &Cred, cwd: &[u8], path: &[u8], follow: bool) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() >= 4096 {
            return Err(ENAMETOOLONG);
        }
        let mut stack: Vec<Ino> = vec![0];
        let mut todo: VecDeque<Vec<u8>> = VecDeque::new();
        let push = |todo: &mut VecDeque<Vec<u8>>, p: &[u8]| {
            for (k, comp) in p.split(|b| *b == b'/').filter(|x| !x.is_empty()).enumerate() {
                todo.insert(k, comp.to_vec());
            }
        };
        push(&mut todo, path);
        let must_dir = path.ends_with(b"/");
        if path[0] != b'/' {
            push(&mut todo, cwd);
        }
        let mut links = 0;
        let mut last = Vec::new();
        loop {
            let Some(comp) = todo.pop_front() else {
                let i = *stack.last().unwrap();
                let par = if stack.len() > 1 { stack[stack.len() - 2] } else { 0 };
                return Ok((par, last, Some(i)));
            };
            if comp.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let cur = *stack.last().unwrap();
            let node = &self.inodes[cur];
            let Kind::Dir(d) = &node.kind else { return Err(ENOTDIR) };
            if !self.perm(c, node, 1) {
                return Err(EACCES);
            }
            if comp == b"." {
                continue;
            }
            if comp == b".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            let fin = todo.is_empty();
            match d.get(&comp) {
                None => {
                    if fin {
                        return Ok((cur, comp, None));
                    }
                    return Err(ENOENT);
                }
                Some(&n) => {
                    if let Kind::Symlink(t) = &self.inodes[n].kind {
                        if !fin || follow || must_dir {
                            links += 1;
                            if links > 40 {
                                return Err(ELOOP);
                            }
                            let t = t.clone();
                            if t.first() == Some(&b'/') {
                                stack.truncate(1);
                            }
                            push(&mut todo, &t);
                            last = comp;
                            if todo.is_empty() {
                                return Err(ENOENT);
                            }
                            continue;
                        }
                    }
                    if fin && must_dir && !matches!(self.inodes[n].kind, Kind::Dir(_)) {
                        return Err(ENOTDIR);
                    }
                    stack.push(n);
                    last = comp;
                    if fin {
                        let par = stack[stack.len() - 2];
                        return Ok((par, last, Some(n)));
                    }
                }
            }
        }
    }
    pub fn fmt_bits(&self, i: Ino) -> u32 {
        match self.inodes[i].kind {
            Kind::Dir(_) => S_IFDIR,
            Kind::File(_) => S_IFREG,
            Kind::Symlink(_) => S_IFLNK,
            Kind::Sock { .. } | Kind::DgramSock { .. } => S_IFSOCK,
            Kind::Fifo => S_IFIFO,
            Kind::Tty { .. } | Kind::Null => S_IFCHR,
        }
    }
    pub fn link_in(&mut self, p: usize, par: Ino, name: &[u8], kind: Kind, mode: u32) -> R<Ino> {
        let c = self.procs[p].cred.clone();
        if !self.perm(&c, &self.inodes[par], 3) {
            return Err(EACCES);
        }
        let m = mode & !self.procs[p].umask & 0o7777;
        let gid = if self.inodes[par].mode & 0o2000 != 0 { self.inodes[par].gid } else { c.egid };
        let n = self.mknode(kind, c.euid, gid, m, p);
        match &mut self.inodes[par].kind {
            Kind::Dir(d) => {
                d.insert(name.to_vec(), n);
            }
            _ => return Err(ENOTDIR),
        }
        self.inodes[par].ver += 1;
        Ok(n)
    }
    pub fn unlink(&mut self, p: usize, path: &[u8], rmdir: bool) -> R<()> {
        let c = self.procs[p].cred.clone();
        let cwd = self.procs[p].cwd.clone();
        let (par, name, ino) = self.walk(&c, &cwd, path, false)?;
        let ino = ino.ok_or(ENOENT)?;
        if !self.perm(&c, &self.inodes[par], 3) {
            return Err(EACCES);
        }
        if self.inodes[par].mode & 0o1000 != 0 && !c.cap && c.euid != self.inodes[ino].uid && c.euid != self.inodes[par].uid {
            return Err(EPERM);
        }
        match &self.inodes[ino].kind {
            Kind::Dir(d) => {
                if !rmdir {
                    return Err(EISDIR);
                }
                if !d.is_empty() {
                    return Err(ENOTEMPTY);
                }
            }
            _ if rmdir => return Err(ENOTDIR),
            _ => {}
        }
        if let Kind::Dir(d) = &mut self.inodes[par].kind {
            d.remove(&name);
        }
        self.inodes[par].ver += 1;
        self.inodes[ino].nlink -= 1;
        self.muts.push((p, "unlink", path.to_vec(), Some(ino)));
        Ok(())
    }
    pub fn rename(&mut self, p: usize, a: &[u8], b: &[u8]) -> R<()> {
        let c = self.procs[p].cred.clone();
        let cwd = self.procs[p].cwd.clone();
        let (pa, na, ia) = self.walk(&c, &cwd, a, false)?;
        let ia = ia.ok_or(ENOENT)?;
        let (pb, nb, ib) = self.walk(&c, &cwd, b, false)?;
        if !self.perm(&c, &self.inodes[pa], 3) || !self.perm(&c, &self.inodes[pb], 3) {
            return Err(EACCES);
        }
        if let Some(ib) = ib {
            if matches!(self.inodes[ib].kind, Kind::Dir(_)) && !matches!(self.inodes[ia].kind, Kind::Dir(_)) {
                return Err(EISDIR);
            }
            self.inodes[ib].nlink -= 1;
            self.muts.push((p, "unlink", b.to_vec(), Some(ib)));
        }
        if let Kind::Dir(d) = &mut self.inodes[pa].kind {
            d.remove(&na);
        }
        if let Kind::Dir(d) = &mut self.inodes[pb].kind {
            d.insert(nb, ia);
        }
        self.inodes[pa].ver += 1;
        self.inodes[pb].ver += 1;
        self.muts.push((p, "rename", a.to_vec(), Some(ia)));
        Ok(())
    }

    // ---------------------------------------------------------------- descriptors
    pub fn newobj(&mut self, obj: Obj) -> ObjId {
        self.objs.push(Some(ObjSlot { obj, refs: 0, nonblock: false, rcvtimeo: 0, sndtimeo: 0 }));
        self.objs.len() - 1
    }
    pub fn obj(&self, o: ObjId) -> &Obj {
        &self.objs[o].as_ref().expect("live object").obj
    }
    pub fn obj_mut(&mut self, o: ObjId) -> &mut Obj {
        &mut self.objs[o].as_mut().expect("live object").obj
    }
    pub fn slot(&self, o: ObjId) -> Option<&ObjSlot> {
        self.objs.get(o).and_then(|x| x.as_ref())
    }
    pub fn stream(&self, o: ObjId) -> Option<&Stream> {
        match self.slot(o).map(|s| &s.obj) {
            Some(Obj::Stream(s)) => Some(s),
            _ => None,
        }
    }
    pub fn stream_mut(&mut self, o: ObjId) -> Option<&mut Stream> {
        match self.objs.get_mut(o).and_then(|x| x.as_mut()).map(|s| &mut s.obj) {
            Some(Obj::Stream(s)) => Some(s),
            _ => None,
        }
    }
    pub fn fd_alloc(&mut self, p: usize, o: ObjId, cloexec: bool, min: i32) -> R<i32> {
        let pr = &mut self.procs[p];
        let mut fd = min.max(if min == 0 { pr.fd_base } else { 0 });
        // descriptors below fd_base (other than the ones explicitly present) are taken by sudo itself
        while pr.fds.contains_key(&fd) {
            fd += 1;
        }
        if fd >= pr.nofile {
            return Err(EMFILE);
        }
        pr.fds.insert(fd, FdEnt { obj: o, cloexec });
        self.objs[o].as_mut().unwrap().refs += 1;
        Ok(fd)
    }
    pub fn fd(&self, p: usize, fd: i32) -> R<ObjId> {
        self.procs[p].fds.get(&fd).map(|e| e.obj).ok_or(EBADF)
    }
    pub fn close(&mut self, p: usize, fd: i32) -> R<()> {
        let e = self.procs[p].fds.remove(&fd).ok_or(EBADF)?;
        if !self.locks.is_empty() {
            // closing any of its descriptors ends a process' locks of a file
            if let Some(Obj::File { ino, .. }) = self.slot(e.obj).map(|s| &s.obj) {
                let ino = *ino;
                self.locks.retain(|l| l.obj.is_some() || l.proc != p || l.ino != ino);
            }
        }
        self.unref(e.obj);
        Ok(())
    }
    pub fn unref(&mut self, o: ObjId) {
        let s = self.objs[o].as_mut().unwrap();
        s.refs -= 1;
        if s.refs == 0 {
            let s = self.objs[o].take().unwrap();
            self.locks.retain(|l| l.obj != Some(o));
            match s.obj {
                Obj::Listener { ino, backlog, .. } => {
                    if let Kind::Sock { listener } = &mut self.inodes[ino].kind {
                        *listener = None;
                    }
                    for b in backlog {
                        // embryonic connections are reset
                        self.stream_gone(b, true);
                    }
                }
                Obj::Stream(st) => {
                    self.objs[o] = Some(ObjSlot { obj: Obj::Stream(st), refs: 0, nonblock: false, rcvtimeo: 0, sndtimeo: 0 });
                    self.stream_gone(o, false);
                }
                _ => {}
            }
        }
    }
    /// the last reference to a stream end went away
    fn stream_gone(&mut self, o: ObjId, embryo: bool) {
        let Some(s) = self.objs[o].take() else { return };
        let Obj::Stream(st) = s.obj else { return };
        let unread = !st.rbuf.is_empty() || embryo;
        let conn = st.conn;
        if st.server {
            self.conns[conn].server_gone = true;
        } else {
            self.conns[conn].client_gone = true;
        }
        if let Some(p) = st.peer {
            if let Some(ps) = self.stream_mut(p) {
                ps.peer = None;
                if unread {
                    ps.err = ECONNRESET;
                }
            }
        }
    }
    /// a child now shares every descriptor
    pub fn fork_child(&mut self, p: usize) {
        let l: Vec<ObjId> = self.procs[p].fds.values().map(|e| e.obj).collect();
        for o in l {
            self.objs[o].as_mut().unwrap().refs += 1;
            self.procs[p].held.push(o);
        }
    }
    pub fn child_exits(&mut self, p: usize) {
        for o in std::mem::take(&mut self.procs[p].held) {
            self.unref(o);
        }
    }
    pub fn exit_proc(&mut self, p: usize) {
        self.child_exits(p);
        let fds: Vec<i32> = self.procs[p].fds.keys().copied().collect();
        for fd in fds {
            let _ = self.close(p, fd);
        }
        self.procs[p].alive = false;
    }

    // ---------------------------------------------------------------- locks
    /// somebody else's lock that is in the way
    pub fn lock_holder(&self, n: &Lock) -> Option<&Lock> {
        self.locks.iter().find(|l| {
            l.ino == n.ino && l.flock == n.flock && (l.excl || n.excl) && l.range.0 < n.range.1 && n.range.0 < l.range.1 && (l.obj, if l.obj.is_none() { l.proc } else { 0 }) != (n.obj, if n.obj.is_none() { n.proc } else { 0 })
        })
    }
    pub fn unlock(&mut self, n: &Lock) {
        // (a part of a locked range being unlocked unlocks all of it)
        self.locks.retain(|l| !(l.ino == n.ino && l.flock == n.flock && l.obj == n.obj && (l.obj.is_some() || l.proc == n.proc) && l.range.0 < n.range.1 && n.range.0 < l.range.1));
    }

    // ---------------------------------------------------------------- readiness
    pub fn readable(&self, o: ObjId) -> bool {
        match self.slot(o).map(|s| &s.obj) {
            None => true,
            Some(Obj::Stream(s)) => !s.rbuf.is_empty() || s.peer.is_none() || s.rd_shut || s.err != 0 || self.peer_wr_shut(s),
            Some(Obj::Listener { backlog, .. }) => !backlog.is_empty(),
            Some(Obj::Dgram { .. }) => false,
            _ => true,
        }
    }
    pub fn peer_wr_shut(&self, s: &Stream) -> bool {
        s.peer.and_then(|p| self.stream(p)).map_or(true, |p| p.wr_shut)
    }
    pub fn send_room(&self, s: &Stream) -> usize {
        match s.peer.and_then(|p| self.stream(p)) {
            Some(p) => p.cap.saturating_sub(p.rbuf.len()),
            None => usize::MAX,
        }
    }
    pub fn writable(&self, o: ObjId) -> bool {
        match self.slot(o).map(|s| &s.obj) {
            None => true,
            Some(Obj::Stream(s)) => s.wr_shut || s.err != 0 || self.send_broken(s) || self.send_room(s) > 0,
            _ => true,
        }
    }
    /// what poll says: like Linux, only once most of the buffer is free
    pub fn poll_writable(&self, o: ObjId) -> bool {
        let full = |s: &Stream| s.peer.and_then(|p| self.stream(p)).map_or(false, |p| p.rbuf.len() * 4 > p.cap);
        match self.slot(o).map(|s| &s.obj) {
            Some(Obj::Stream(s)) => s.wr_shut || s.err != 0 || self.send_broken(s) || !full(s),
            _ => true,
        }
    }
    pub fn send_broken(&self, s: &Stream) -> bool {
        match s.peer.and_then(|p| self.stream(p)) {
            Some(p) => p.rd_shut,
            None => true,
        }
    }
    pub fn hup(&self, o: ObjId) -> bool {
        match self.slot(o).map(|s| &s.obj) {
            Some(Obj::Stream(s)) => s.peer.is_none() || (s.rd_shut && s.wr_shut) || (s.wr_shut && self.peer_wr_shut(s)),
            _ => false,
        }
    }

    // ---------------------------------------------------------------- sockets
    pub fn bind(&mut self, p: usize, fd: i32, path: &[u8]) -> R<()> {
        let o = self.fd(p, fd)?;
        match self.obj(o) {
            Obj::Unbound { dgram: false } => {}
            _ => return Err(EINVAL),
        }
        let c = self.procs[p].cred.clone();
        let cwd = self.procs[p].cwd.clone();
        let (par, name, ino) = self.walk(&c, &cwd, path, false)?;
        if ino.is_some() {
            return Err(EADDRINUSE);
        }
        let n = self.link_in(p, par, &name, Kind::Sock { listener: None }, 0o777)?;
        self.muts.push((p, "bind", path.to_vec(), Some(n)));
        *self.obj_mut(o) = Obj::Bound { ino: n, path: path.to_vec() };
        Ok(())
    }
    pub fn listen(&mut self, p: usize, fd: i32, max: i32) -> R<()> {
        let o = self.fd(p, fd)?;
        let (ino, path) = match self.obj(o) {
            Obj::Bound { ino, path } => (*ino, path.clone()),
            Obj::Listener { .. } => return Ok(()),
            _ => return Err(EINVAL),
        };
        let max = if max < 0 { 4096 } else { (max as usize).max(1) };
        *self.obj_mut(o) = Obj::Listener { ino, path, backlog: VecDeque::new(), max };
        if let Kind::Sock { listener } = &mut self.inodes[ino].kind {
            *listener = Some(o);
        }
        Ok(())
    }
    /// Ok(Err(())) = backlog full, would block
    pub fn connect(&mut self, p: usize, fd: i32, path: &[u8]) -> R<Result<usize, ObjId>> {
        let o = self.fd(p, fd)?;
        let c = self.procs[p].cred.clone();
        let cwd = self.procs[p].cwd.clone();
        let (_, _, ino) = self.walk(&c, &cwd, path, true)?;
        let ino = ino.ok_or(ENOENT)?;
        match self.obj(o) {
            Obj::Unbound { dgram: true } => {
                match self.inodes[ino].kind {
                    Kind::DgramSock { up: true } => {}
                    _ => return Err(ECONNREFUSED),
                }
                if !self.perm(&c, &self.inodes[ino], 2) {
                    return Err(EACCES);
                }
                *self.obj_mut(o) = Obj::Dgram { connected: true };
                return Ok(Ok(usize::MAX));
            }
            Obj::Dgram { .. } => return Ok(Ok(usize::MAX)),
            Obj::Unbound { dgram: false } => {}
            Obj::Stream(_) => return Err(EISCONN),
            _ => return Err(EINVAL),
        }
        let l = match &self.inodes[ino].kind {
            Kind::Sock { listener } => *listener,
            Kind::DgramSock { .. } => return Err(EPROTOTYPE),
            _ => return Err(ECONNREFUSED),
        };
        if !self.perm(&c, &self.inodes[ino], 2) {
            return Err(EACCES);
        }
        let l = l.ok_or(ECONNREFUSED)?;
        let lp = self.owner_of(l);
        match self.obj(l) {
            Obj::Listener { backlog, max, .. } => {
                if backlog.len() > *max {
                    return Ok(Err(l));
                }
            }
            _ => return Err(ECONNREFUSED),
        }
        let conn = self.conns.len();
        let cap = self.default_cap;
        let srv = self.newobj(Obj::Stream(Stream { peer: Some(o), conn, server: true, rbuf: VecDeque::new(), cap, rd_shut: false, wr_shut: false, err: 0 }));
        *self.obj_mut(o) = Obj::Stream(Stream { peer: Some(srv), conn, server: false, rbuf: VecDeque::new(), cap, rd_shut: false, wr_shut: false, err: 0 });
        let mut lpath = vec![];
        if let Obj::Listener { backlog, path, .. } = self.obj_mut(l) {
            backlog.push_back(srv);
            lpath = path.clone();
        }
        self.conns.push(ConnRec { path: lpath, client_proc: p, listener_proc: lp.unwrap_or(usize::MAX), server_obj: srv, client_obj: o, ..Default::default() });
        Ok(Ok(conn))
    }
    pub fn owner_of(&self, o: ObjId) -> Option<usize> {
        self.procs.iter().position(|p| p.alive && p.fds.values().any(|e| e.obj == o))
    }
    /// non-blocking send step: Ok(Some(n)) sent, Ok(None) would block
    pub fn send_step(&mut self, o: ObjId, buf: &[u8], limit: usize) -> R<Option<usize>> {
        let Some(st) = self.stream_mut(o) else { return Err(ENOTCONN) };
        if st.err != 0 {
            let e = st.err;
            st.err = 0;
            return Err(e);
        }
        let (conn, server, wr_shut, peer) = (st.conn, st.server, st.wr_shut, st.peer);
        let broken = wr_shut || self.send_broken(self.stream(o).unwrap());
        if broken {
            if wr_shut && server {
                self.conns[conn].sends_after_hangup += 1;
            }
            return Err(EPIPE);
        }
        let room = self.send_room(self.stream(o).unwrap());
        let n = buf.len().min(room).min(limit);
        if n == 0 && !buf.is_empty() {
            return Ok(None);
        }
        let ps = self.stream_mut(peer.unwrap()).unwrap();
        ps.rbuf.extend(&buf[..n]);
        if server {
            self.conns[conn].to_client.extend_from_slice(&buf[..n]);
        } else {
            self.conns[conn].to_server.extend_from_slice(&buf[..n]);
        }
        Ok(Some(n))
    }
    /// non-blocking receive step: Ok(Some(n)), Ok(None) = would block
    pub fn recv_step(&mut self, o: ObjId, buf: &mut [u8], peek: bool) -> R<Option<usize>> {
        let Some(st) = self.stream_mut(o) else { return Err(ENOTCONN) };
        if buf.is_empty() {
            return Ok(Some(0));
        }
        if !st.rbuf.is_empty() {
            let n = buf.len().min(st.rbuf.len());
            for (i, b) in st.rbuf.iter().take(n).enumerate() {
                buf[i] = *b;
            }
            if !peek {
                st.rbuf.drain(..n);
            }
            let (conn, server) = (st.conn, st.server);
            let c = &mut self.conns[conn];
            if !peek {
                if server {
                    if c.sent_at_first_read.is_none() {
                        c.sent_at_first_read = Some(c.to_client.len());
                    }
                    c.server_read.extend_from_slice(&buf[..n]);
                } else {
                    c.client_read += n;
                }
            }
            return Ok(Some(n));
        }
        if st.err != 0 {
            let e = st.err;
            st.err = 0;
            return Err(e);
        }
        if st.rd_shut || st.peer.is_none() || self.peer_wr_shut(self.stream(o).unwrap()) {
            return Ok(Some(0));
        }
        Ok(None)
    }
    pub fn shutdown(&mut self, o: ObjId, how: i32) -> R<()> {
        let Some(st) = self.stream_mut(o) else {
            return match self.slot(o).map(|s| &s.obj) {
                Some(Obj::Listener { .. }) => Ok(()),
                Some(_) => Err(ENOTCONN),
                None => Err(EBADF),
            };
        };
        if how == SHUT_RD || how == SHUT_RDWR {
            st.rd_shut = true;
        }
        if how == SHUT_WR || how == SHUT_RDWR {
            st.wr_shut = true;
        }
        Ok(())
    }
    /// has the server side of a connection hung up, as seen by the client?
    pub fn server_hung_up(&self, conn: usize) -> bool {
        let c = &self.conns[conn];
        if c.server_gone {
            return true;
        }
        self.stream(c.server_obj).map_or(true, |s| s.wr_shut)
    }
    /// can anything the server sends still reach the client?
    pub fn client_lost(&self, conn: usize) -> bool {
        let c = &self.conns[conn];
        if c.client_gone {
            return true;
        }
        self.stream(c.client_obj).map_or(true, |s| s.rd_shut)
    }
    /// could credentials `c` connect to (or take over) the socket inode?
    pub fn reach(&self, c: &Cred, i: &Inode) -> bool {
        c.cap || c.euid == i.uid || self.perm(c, i, 2)
    }
    pub fn tty_write(&mut self, ino: Ino, buf: &[u8], limit: usize) -> R<usize> {
        if let Kind::Tty { out, fail, budget } = &mut self.inodes[ino].kind {
            if *budget == 0 && *fail != 0 {
                return Err(match *fail {
                    1 => EIO,
                    2 => EAGAIN,
                    3 => ENOSPC,
                    _ => ENXIO,
                });
            }
            let mut n = buf.len().min(limit.max(1));
            if *fail != 0 {
                n = n.min(*budget);
                *budget -= n;
            }
            out.extend_from_slice(&buf[..n]);
            Ok(n)
        } else {
            Err(EINVAL)
        }
    }
}
