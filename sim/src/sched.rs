//! Seeded scheduler, virtual clock, tasks, and the global world of one run.
use crate::choice::Choices;
use crate::coro::{switch, Coro};
use crate::kernel::*;
use crate::session::Sess;
use std::collections::BTreeMap;

pub enum Cond {
    Never,
    /// until the test holds
    Test(Box<dyn Fn(&World) -> bool>),
    Poll(Vec<(ObjId, bool, bool)>),
    Slot(ObjId),
}

pub enum TState {
    Runnable,
    Blocked(Cond, Option<u64>, bool),
    Done,
}

pub struct Task {
    pub coro: Coro,
    pub state: TState,
    pub name: String,
    pub proc: usize,
    pub essential: bool,
    pub prio: u32,
    /// steps it made in the second half of what a run may make
    pub recent: u64,
    /// the step at which this task last moved bytes over a socket
    pub moved: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wake {
    Ready,
    Timeout,
    Signal,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Profile {
    None,
    Aux(u32),
    OneShot(u32),
    Rate(u32),
}

pub struct World {
    pub k: Kernel,
    pub ch: Choices,
    pub tasks: Vec<Task>,
    pub cur: usize,
    pub picked: Option<usize>,
    pub main_sp: usize,
    pub steps: u64,
    pub hash: u64,
    pub verbose: bool,
    pub trace: Vec<String>,
    pub sess: Vec<Sess>,
    pub profile: Profile,
    pub eligible: u32,
    pub stick: u32,
    pub prio_mode: bool,
    pub prio_next: u64,
    pub prio_low: u32,
    /// what terminals are called
    pub tty_names: u32,
    pub viol: BTreeMap<&'static str, String>,
    pub exercised: u64,
    pub faults: BTreeMap<String, u32>,
    pub notes: BTreeMap<&'static str, u32>,
    pub want: &'static str,
    pub step_limit: u64,
    pub stage: u32,
    pub limited: bool,
    pub short_sends: u32,
    pub oom_at: u64,
    pub mallocs: u64,
    pub in_plugin: bool,
    pub universe: Vec<Cred>,
    pub rnd: u64,
    pub flavour: usize,
    pub exp: crate::scenario::Expect,
}

pub static mut WORLD: *mut World = std::ptr::null_mut();

#[inline]
pub fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}

pub fn active() -> bool {
    unsafe { !WORLD.is_null() && (*WORLD).cur != usize::MAX }
}

impl World {
    pub fn note(&mut self, n: &'static str) {
        *self.notes.entry(n).or_insert(0) += 1;
    }
    pub fn violate(&mut self, prop: &'static str, msg: String) {
        if self.verbose {
            let l = format!("[{:>12}us] !! VIOLATION {}: {}", self.k.now, prop, msg);
            self.trace.push(l);
        }
        self.viol.entry(prop).or_insert(msg);
    }
    pub fn exercise(&mut self, prop: &'static str) {
        if let Some(i) = crate::PROPS.iter().position(|p| *p == prop) {
            self.exercised |= 1 << i;
        }
    }
    pub fn ev(&mut self, tag: u32, res: i64) {
        let t = self.cur as u64;
        let mut h = self.hash;
        for v in [t, tag as u64, res as u64] {
            h = (h ^ v).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        self.hash = h;
    }
    pub fn log<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose && self.trace.len() < 6000 {
            let n = if self.cur == usize::MAX { "world".into() } else { self.tasks[self.cur].name.clone() };
            let l = format!("[{:>12}us] {:<12} {}", self.k.now, n, f());
            self.trace.push(l);
        }
    }

    pub fn spawn(&mut self, name: &str, proc: usize, essential: bool, f: Box<dyn FnOnce()>) -> usize {
        let prio = self.tasks.len() as u32;
        self.tasks.push(Task { coro: Coro::new(f), state: TState::Runnable, name: name.into(), proc, essential, prio: 1000 + prio, recent: 0, moved: 0 });
        let t = self.tasks.len() - 1;
        self.k.procs[proc].task = t;
        t
    }

    fn cond_ready(&self, c: &Cond) -> bool {
        match c {
            Cond::Never => false,
            Cond::Test(f) => f(self),
            Cond::Poll(v) => v.iter().any(|(o, r, wr)| (*r && self.k.readable(*o)) || (*wr && self.k.writable(*o))),
            Cond::Slot(l) => match self.k.slot(*l).map(|s| &s.obj) {
                Some(Obj::Listener { backlog, max, .. }) => backlog.len() <= *max,
                _ => true,
            },
        }
    }
    pub fn deliverable(&self, p: usize) -> u64 {
        let pr = &self.k.procs[p];
        pr.pending & !pr.blocked
    }
    fn runnable(&self, i: usize) -> bool {
        let t = &self.tasks[i];
        match &t.state {
            TState::Done => false,
            TState::Runnable => true,
            TState::Blocked(c, d, intr) => {
                self.cond_ready(c) || d.map_or(false, |d| d <= self.k.now) || (*intr && self.deliverable(t.proc) != 0)
            }
        }
    }
    /// choose the next task to run; None if nothing can run now
    fn pick(&mut self) -> Option<usize> {
        let run: Vec<usize> = (0..self.tasks.len()).filter(|i| self.runnable(*i)).collect();
        if run.is_empty() {
            return None;
        }
        if run.len() == 1 {
            return Some(run[0]);
        }
        if self.prio_mode {
            if self.steps >= self.prio_next {
                let i = self.ch.below(run.len() as u32) as usize;
                self.prio_low = self.prio_low.saturating_sub(1);
                self.tasks[run[i]].prio = self.prio_low;
                self.prio_next = self.steps + 1 + self.ch.below(60) as u64;
            }
            return run.iter().copied().max_by_key(|i| self.tasks[*i].prio);
        }
        if run.contains(&self.cur) && !self.ch.chance(self.stick, 16) {
            return Some(self.cur);
        }
        Some(run[self.ch.below(run.len() as u32) as usize])
    }

    pub fn raise(&mut self, p: usize, sig: i32) {
        if !self.k.procs[p].alive {
            return;
        }
        let act = self.k.procs[p].sig[sig as usize].0;
        let ign = act.sa_sigaction == libc::SIG_IGN
            || (act.sa_sigaction == libc::SIG_DFL && matches!(sig, libc::SIGCHLD | libc::SIGWINCH | libc::SIGCONT | libc::SIGURG));
        self.log(|| format!("signal {} raised for proc {}{}", sig, p, if ign { " (ignored)" } else { "" }));
        if sig == libc::SIGKILL {
            self.die(p, sig);
            return;
        }
        if ign {
            return;
        }
        self.k.procs[p].pending |= 1 << sig;
    }

    /// the process dies now; does not return if it is the current one
    pub fn die(&mut self, p: usize, sig: i32) {
        self.log(|| format!("proc {} dies of signal {}", p, sig));
        self.k.procs[p].died = Some(sig);
        self.k.exit_proc(p);
        if let Some(s) = self.k.procs[p].sess {
            self.sess[s].died = Some(sig);
            crate::oracle::session_died(self, s);
        }
        if crate::probe::is_probe(p) {
            crate::probe::died(self, sig);
        }
        let t = self.k.procs[p].task;
        if t != usize::MAX && !self.tasks.is_empty() && self.tasks[t].proc == p {
            self.tasks[t].state = TState::Done;
            if t == self.cur {
                switch_to_main();
            }
        }
    }
}

fn switch_to_main() {
    let wd = w();
    let cur = wd.cur;
    let main = wd.main_sp;
    let save: *mut usize = &mut wd.tasks[cur].coro.sp;
    unsafe { switch(&mut *save, main) };
}

pub fn task_finished() -> ! {
    let wd = w();
    wd.tasks[wd.cur].state = TState::Done;
    switch_to_main();
    unreachable!()
}

/// give other tasks a chance to run (the current one stays runnable)
pub fn yield_now() {
    let wd = w();
    wd.k.now += 7;
    wd.steps += 1;
    if wd.steps > wd.step_limit / 2 {
        wd.tasks[wd.cur].recent += 1;
    }
    if wd.steps >= wd.step_limit {
        switch_to_main();
        return;
    }
    crate::oracle::each_step(wd);
    match wd.pick() {
        Some(i) if i == wd.cur => {}
        x => {
            wd.picked = x;
            switch_to_main()
        }
    }
}

pub fn block(cond: Cond, deadline: Option<u64>, intr: bool) -> Wake {
    let wd = w();
    let cur = wd.cur;
    if wd.cond_ready(&cond) {
        return Wake::Ready;
    }
    if let Some(s) = wd.k.procs[wd.tasks[cur].proc].sess {
        if wd.sess[s].phase == crate::session::Phase::Open {
            wd.sess[s].blocks += 1;
        }
    }
    wd.tasks[cur].state = TState::Blocked(cond, deadline, intr);
    switch_to_main();
    let wd = w();
    let st = std::mem::replace(&mut wd.tasks[cur].state, TState::Runnable);
    match st {
        TState::Blocked(c, d, intr) => {
            if wd.cond_ready(&c) {
                Wake::Ready
            } else if intr && wd.deliverable(wd.tasks[cur].proc) != 0 {
                Wake::Signal
            } else if d.map_or(false, |d| d <= wd.k.now) {
                Wake::Timeout
            } else {
                Wake::Ready
            }
        }
        _ => Wake::Ready,
    }
}

pub fn sleep(us: u64) {
    let d = w().k.now + us.max(1);
    let mut guard = 0;
    while w().k.now < d {
        match block(Cond::Never, Some(d), false) {
            Wake::Timeout => break,
            _ => {
                guard += 1;
                if guard > 3 {
                    break;
                }
            }
        }
    }
}

/// run until every essential task is done (or nothing can move any more)
pub fn run() {
    loop {
        let wd = w();
        if !wd.tasks.iter().any(|t| t.essential && !matches!(t.state, TState::Done)) {
            break;
        }
        if wd.steps >= wd.step_limit {
            wd.limited = true;
            wd.cur = usize::MAX;
            if !crate::scenario::at_limit(wd) {
                break;
            }
            continue;
        }
        let pick = match wd.picked.take() {
            Some(i) if wd.runnable(i) => Some(i),
            _ => wd.pick(),
        };
        match pick {
            Some(i) => {
                wd.cur = i;
                let sp = wd.tasks[i].coro.sp;
                let save: *mut usize = &mut wd.main_sp;
                unsafe { switch(&mut *save, sp) };
                crate::oracle::each_step(w());
            }
            None => {
                wd.cur = usize::MAX;
                let next = wd
                    .tasks
                    .iter()
                    .filter_map(|t| match t.state {
                        TState::Blocked(_, Some(d), _) => Some(d),
                        _ => None,
                    })
                    .min();
                match next {
                    Some(d) => {
                        if d > wd.k.now {
                            wd.k.now = d;
                        }
                    }
                    None => {
                        if !crate::scenario::quiescent(wd) {
                            break;
                        }
                    }
                }
            }
        }
    }
    w().cur = usize::MAX;
}
