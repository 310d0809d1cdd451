#![allow(static_mut_refs, clippy::all)]
mod approve;
mod choice;
mod coro;
mod e2e;
mod kernel;
mod loader;
mod oracle;
mod probe;
mod runner;
mod scenario;
mod sched;
mod session;
mod shims;

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
];

fn main() {
    // addresses show up in backtraces; make them the same in every run
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p != -1 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() && libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) != -1 {
            use std::os::unix::process::CommandExt;
            let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_REEXEC", "1").exec();
        }
    }
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => runner::check(&a[2..]),
        Some("replay") => runner::replay(&a[2..]),
        Some("hashes") => runner::hashes(&a[2..]),
        Some("one") => runner::one(&a[2..]),
        _ => {
            eprintln!("usage: sim check PROP key=value... | replay FILE key=value... | one PROP SEED key=value...");
            2
        }
    };
    approve::cleanup();
    std::process::exit(code);
}
