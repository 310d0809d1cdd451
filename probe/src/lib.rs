//! Plugins written with the framework under test whose handlers do whatever the simulator tells them to.
#![allow(static_mut_refs)]
use std::fmt;
use std::panic::{panic_any, resume_unwind};
use sudo_plugin::core::{LogStatus, OpenStatus};
use sudo_plugin::errors::Error;
use sudo_plugin::prelude::*;
use std::io::Write;

/// what a handler is to do
#[repr(C)]
pub struct Action {
    /// 0 succeed, 1 return an error, 2.. panic in some way
    kind: u32,
    open: i32,
    log: i32,
    n: u32,
    msgs: *const *const u8,
    lens: *const usize,
}

pub type Event = unsafe extern "C" fn(plugin: u32, what: u32, id: u64, data: *const u8, len: usize, a: i64, b: i64, canary: *const u8, canary_len: usize) -> *const Action;
static mut EVENT: Option<Event> = None;

#[no_mangle]
pub unsafe extern "C" fn probe_set_event(f: Event) {
    EVENT = Some(f);
}

pub const OPEN: u32 = 1;
pub const CLOSE: u32 = 2;
pub const VERSION: u32 = 3;
pub const WINSIZE: u32 = 4;
pub const DROP: u32 = 5;
pub const PAYLOAD_DROP: u32 = 6;
pub const ERROR_FROM: u32 = 7;
pub const LOG: u32 = 10; // + stream

/// receives everything a plugin can see of its environment
pub type Dump = unsafe extern "C" fn(data: *const u8, len: usize);
static mut DUMP: Option<Dump> = None;

#[cfg(feature = "dump")]
mod dump;
#[cfg(feature = "dump")]
use dump::dump;
#[cfg(not(feature = "dump"))]
fn dump(_: &IoEnv) -> Vec<u8> {
    vec![]
}

fn event(plugin: u32, what: u32, id: u64, data: &[u8], a: i64, b: i64, env: Option<&IoEnv>) -> &'static Action {
    if let (Some(f), Some(env)) = (unsafe { DUMP }, env) {
        let d = dump(env);
        unsafe { f(d.as_ptr(), d.len()) }
    }
    let canary = env.and_then(|e| e.plugin_options.get_bytes(b"canary")).unwrap_or(b"");
    unsafe { &*(EVENT.unwrap())(plugin, what, id, data.as_ptr(), data.len(), a, b, canary.as_ptr(), canary.len()) }
}

#[derive(Debug)]
pub struct PErr {
    text: Vec<u8>,
    open: i32,
    log: i32,
    panics: bool,
    next: Option<Box<PErr>>,
}

impl fmt::Display for PErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.panics {
            panic!("panic while an error is formatted");
        }
        f.write_str(&String::from_utf8_lossy(&self.text))
    }
}
impl std::error::Error for PErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.next.as_ref().map(|e| &**e as _)
    }
}
impl From<Error> for PErr {
    fn from(e: Error) -> Self {
        let text = e.to_string().into_bytes();
        let a = event(0, ERROR_FROM, 0, &text, 0, 0, None);
        PErr { text, open: a.open, log: a.log, panics: false, next: None }
    }
}
impl From<PErr> for OpenStatus {
    fn from(e: PErr) -> Self {
        match e.open {
            1 => OpenStatus::Ok,
            0 => OpenStatus::Disable,
            -2 => OpenStatus::Usage,
            _ => OpenStatus::Deny,
        }
    }
}
impl From<PErr> for LogStatus {
    fn from(e: PErr) -> Self {
        match e.log {
            1 => LogStatus::Ok,
            -1 => LogStatus::Disable,
            _ => LogStatus::Deny,
        }
    }
}

struct Payload(u32);
impl Drop for Payload {
    fn drop(&mut self) {
        event(0, PAYLOAD_DROP, 0, b"", i64::from(self.0), 0, None);
        if self.0 > 0 {
            panic_any(Payload(self.0 - 1));
        }
    }
}

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        panic!("panic in a destructor");
    }
}

fn chain(a: &Action, panics: bool) -> PErr {
    let mut next = None;
    for i in (0..a.n as usize).rev() {
        let text = unsafe { std::slice::from_raw_parts(*a.msgs.add(i), *a.lens.add(i)) }.to_vec();
        next = Some(Box::new(PErr { text, open: a.open, log: a.log, panics: panics && i + 1 == a.n as usize, next }));
    }
    *next.unwrap()
}

fn act(a: &Action) -> Result<(), PErr> {
    match a.kind {
        0 => Ok(()),
        1 => Err(chain(a, false)),
        2 => panic!("a constant message"),
        3 => panic!("a formatted message %s %n {}", a.kind),
        4 => panic_any(42i32),
        5 => panic_any(Payload(0)),
        6 => panic_any(Payload(1)),
        7 => panic_any(Payload(3)),
        8 => resume_unwind(Box::new(())),
        9 => {
            let v: Vec<u32> = Vec::new();
            let i = a.kind as usize;
            panic_any(v[i])
        }
        10 => {
            let _g = Guard;
            Ok(())
        }
        11 => Err(chain(a, true)),
        12 => panic_any(Box::new(chain(a, true))),
        13 => panic!("{}", "x".repeat(20_000)),
        14 => {
            // an inner panic that is caught does not matter
            let _ = std::panic::catch_unwind(|| panic!("inner"));
            Ok(())
        }
        _ => {
            let r: Result<(), String> = Err("unwrapped".into());
            r.unwrap();
            Ok(())
        }
    }
}

static mut NEXT: u64 = 0;

macro_rules! probe {
    ($name:ident, $ty:ident, $no:expr, $plugin_name:expr, $ignore:expr) => {
        sudo_io_plugin! { $name : $ty }

        pub struct $ty {
            env: &'static IoEnv,
            id: u64,
        }

        impl Drop for $ty {
            fn drop(&mut self) {
                event($no, DROP, self.id, b"", 0, 0, Some(self.env));
            }
        }

        impl IoPlugin for $ty {
            type Error = PErr;

            const NAME: &'static str = $plugin_name;
            const VERSION: &'static str = "7.8.9";
            const IGNORE_IOLOG_HINTS: bool = $ignore;

            fn open(env: &'static IoEnv) -> Result<Self, PErr> {
                let id = unsafe {
                    NEXT += 1;
                    NEXT
                };
                let a = event($no, OPEN, id, b"", 0, 0, Some(env));
                act(a)?;
                Ok($ty { env, id })
            }
            fn close(self, status: i32, error: i32) {
                let a = event($no, CLOSE, self.id, b"", status.into(), error.into(), Some(self.env));
                let _ = act(a);
            }
            fn show_version(env: &IoEnv, verbose: bool) {
                let a = event($no, VERSION, 0, b"", verbose.into(), 0, Some(env));
                let _ = writeln!(env.stdout(), "version");
                let _ = act(a);
            }
            fn log_ttyin(&self, b: &[u8]) -> Result<(), PErr> {
                act(event($no, LOG, self.id, b, 0, 0, Some(self.env)))
            }
            fn log_ttyout(&self, b: &[u8]) -> Result<(), PErr> {
                act(event($no, LOG + 1, self.id, b, 0, 0, Some(self.env)))
            }
            fn log_stdin(&self, b: &[u8]) -> Result<(), PErr> {
                act(event($no, LOG + 2, self.id, b, 0, 0, Some(self.env)))
            }
            fn log_stdout(&self, b: &[u8]) -> Result<(), PErr> {
                act(event($no, LOG + 3, self.id, b, 0, 0, Some(self.env)))
            }
            fn log_stderr(&self, b: &[u8]) -> Result<(), PErr> {
                act(event($no, LOG + 4, self.id, b, 0, 0, Some(self.env)))
            }
            fn change_winsize(&self, lines: u64, cols: u64) -> Result<(), PErr> {
                act(event($no, WINSIZE, self.id, b"", lines as i64, cols as i64, Some(self.env)))
            }
        }
    };
}

probe!(probe_hints, Hints, 0, "hints", false);
probe!(probe_all, All, 1, "all%d", true);

/// overrides only what it must
sudo_io_plugin! { probe_min : Min }
pub struct Min(&'static IoEnv, u64);
impl Drop for Min {
    fn drop(&mut self) {
        event(2, DROP, self.1, b"", 0, 0, Some(self.0));
    }
}
impl IoPlugin for Min {
    type Error = PErr;
    const NAME: &'static str = "min";
    fn open(env: &'static IoEnv) -> Result<Self, PErr> {
        let id = unsafe {
            NEXT += 1;
            NEXT
        };
        act(event(2, OPEN, id, b"", 0, 0, Some(env)))?;
        Ok(Min(env, id))
    }
}

/// uses the framework's own error type
sudo_io_plugin! { probe_own : Own }
pub struct Own(&'static IoEnv, u64);
impl Drop for Own {
    fn drop(&mut self) {
        event(3, DROP, self.1, b"", 0, 0, Some(self.0));
    }
}
fn own(a: &Action) -> Result<(), Error> {
    act(a).map_err(|e| match a.n {
        2 => Error::UncaughtPanic,
        3 => Error::OptionMissing { key: e.to_string() },
        _ => Error::Other(e.to_string()),
    })
}
impl IoPlugin for Own {
    type Error = Error;
    const NAME: &'static str = "own";
    fn open(env: &'static IoEnv) -> Result<Self, Error> {
        let id = unsafe {
            NEXT += 1;
            NEXT
        };
        own(event(3, OPEN, id, b"", 0, 0, Some(env)))?;
        Ok(Own(env, id))
    }
    fn close(self, status: i32, error: i32) {
        let _ = own(event(3, CLOSE, self.1, b"", status.into(), error.into(), Some(self.0)));
    }
    fn log_ttyout(&self, b: &[u8]) -> Result<(), Error> {
        own(event(3, LOG + 1, self.1, b, 0, 0, Some(self.0)))
    }
    fn log_stdin(&self, b: &[u8]) -> Result<(), Error> {
        own(event(3, LOG + 2, self.1, b, 0, 0, Some(self.0)))
    }
    fn change_winsize(&self, lines: u64, cols: u64) -> Result<(), Error> {
        own(event(3, WINSIZE, self.1, b"", lines as i64, cols as i64, Some(self.0)))
    }
}
