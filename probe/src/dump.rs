//! everything a plugin can see of its environment (C27)
use crate::*;

#[no_mangle]
pub unsafe extern "C" fn probe_set_dump(f: Dump) {
    DUMP = Some(f);
}

struct D(Vec<u8>);
impl D {
    fn put(&mut self, name: &str, v: Option<&[u8]>) {
        self.0.extend_from_slice(name.as_bytes());
        self.0.push(0);
        self.0.push(v.is_some() as u8);
        let v = v.unwrap_or(b"");
        self.0.extend_from_slice(&(v.len() as u32).to_le_bytes());
        self.0.extend_from_slice(v);
    }
    fn s<T: ToString>(&mut self, name: &str, v: T) {
        self.put(name, Some(v.to_string().as_bytes()));
    }
    fn o<T: ToString>(&mut self, name: &str, v: &Option<T>) {
        self.put(name, v.as_ref().map(|v| v.to_string()).as_ref().map(|v| v.as_bytes()));
    }
    fn p(&mut self, name: &str, v: Option<&std::path::PathBuf>) {
        use std::os::unix::ffi::OsStrExt;
        self.put(name, v.map(|v| v.as_os_str().as_bytes()));
    }
    fn l<T: ToString>(&mut self, name: &str, v: Option<&Vec<T>>) {
        self.o(name, &v.map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    }
}
macro_rules! g {
    ($d:ident, $env:ident, $k:ident, $t:ty, $n:expr, $show:expr) => {{
        let name = format!("{}:{}", $k, $n);
        let show: fn($t) -> String = $show;
        match $env.plugin_options.get::<$t>($k) {
            Ok(v) => $d.s(&name, format!("ok {}", show(v))),
            Err(Error::OptionMissing { key }) => $d.s(&name, format!("missing {}", key)),
            Err(Error::OptionInvalid { key, value }) => $d.s(&name, format!("invalid {} {}", key, value)),
            Err(_) => $d.s(&name, "error"),
        }
    }};
}
fn join<T: ToString>(v: &[T]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

pub fn dump(env: &IoEnv) -> Vec<u8> {
    let mut d = D(vec![]);
    d.s("plugin_name", env.plugin_name);
    d.s("plugin_version", env.plugin_version);
    d.s("api", env.api_version);
    d.s("argc", env.cmdline.len());
    for (i, a) in env.cmdline.iter().enumerate() {
        d.put(&format!("argv{}", i), Some(a.as_bytes()));
    }
    let s = &env.settings;
    d.o("s.bsdauth_type", &s.bsd_auth_type);
    d.o("s.closefrom", &s.close_from);
    d.o("s.debug_flags", &s.debug_flags);
    d.o("s.debug_level", &s.debug_level);
    d.s("s.ignore_ticket", s.ignore_ticket);
    d.s("s.implied_shell", s.implied_shell);
    d.o("s.login_class", &s.login_class);
    d.s("s.login_shell", s.login_shell);
    d.o("s.max_groups", &s.max_groups);
    d.s("s.network_addrs", s.network_addrs.iter().map(|n| format!("{}/{}", n.addr, n.mask)).collect::<Vec<_>>().join(" "));
    d.s("s.noninteractive", s.noninteractive);
    d.s("s.plugin_dir", &s.plugin_dir);
    d.s("s.plugin_path", &s.plugin_path);
    d.s("s.preserve_environment", s.preserve_environment);
    d.s("s.preserve_groups", s.preserve_groups);
    d.s("s.progname", &s.progname);
    d.o("s.prompt", &s.prompt);
    d.o("s.remote_host", &s.remote_host);
    d.s("s.run_shell", s.run_shell);
    d.o("s.runas_group", &s.runas_group);
    d.o("s.runas_user", &s.runas_user);
    d.o("s.selinux_role", &s.selinux_role);
    d.o("s.selinux_type", &s.selinux_type);
    d.s("s.set_home", s.set_home);
    d.s("s.sudoedit", s.sudoedit);
    d.o("s.timeout", &s.timeout);
    let u = &env.user_info;
    d.s("u.cols", u.cols);
    d.p("u.cwd", Some(&u.cwd));
    d.s("u.egid", u.egid);
    d.s("u.euid", u.euid);
    d.s("u.gid", u.gid);
    d.l("u.groups", Some(&u.groups));
    d.s("u.host", &u.host);
    d.s("u.lines", u.lines);
    d.s("u.pgid", u.pgid);
    d.s("u.pid", u.pid);
    d.s("u.ppid", u.ppid);
    d.s("u.sid", u.sid);
    d.s("u.tcpgid", u.tcpgid);
    d.p("u.tty", u.tty.as_ref());
    d.s("u.uid", u.uid);
    d.o("u.umask", &u.umask);
    d.s("u.user", &u.user);
    let c = &env.command_info;
    d.o("c.chroot", &c.chroot);
    d.o("c.closefrom", &c.close_from);
    d.p("c.command", Some(&c.command));
    d.p("c.cwd", c.cwd.as_ref());
    d.s("c.exec_background", c.exec_background);
    d.o("c.execfd", &c.exec_fd);
    d.s("c.iolog_compress", c.iolog_compress);
    d.o("c.iolog_group", &c.iolog_group);
    d.o("c.iolog_mode", &c.iolog_mode);
    d.o("c.iolog_path", &c.iolog_path);
    d.s("c.iolog_stdin", c.iolog_stdin);
    d.s("c.iolog_stdout", c.iolog_stdout);
    d.s("c.iolog_stderr", c.iolog_stderr);
    d.s("c.iolog_ttyin", c.iolog_ttyin);
    d.s("c.iolog_ttyout", c.iolog_ttyout);
    d.o("c.iolog_user", &c.iolog_user);
    d.o("c.login_class", &c.login_class);
    d.o("c.nice", &c.nice);
    d.s("c.noexec", c.noexec);
    d.l("c.preserve_fds", Some(&c.preserve_fds));
    d.s("c.preserve_groups", c.preserve_groups);
    d.s("c.runas_egid", c.runas_egid);
    d.s("c.runas_euid", c.runas_euid);
    d.s("c.runas_gid", c.runas_gid);
    d.l("c.runas_groups", c.runas_groups.as_ref());
    d.s("c.runas_uid", c.runas_uid);
    d.o("c.selinux_role", &c.selinux_role);
    d.o("c.selinux_type", &c.selinux_type);
    d.s("c.set_utmp", c.set_utmp);
    d.s("c.sudoedit", c.sudoedit);
    d.s("c.sudoedit_checkdir", c.sudoedit_checkdir);
    d.s("c.sudoedit_follow", c.sudoedit_follow);
    d.o("c.timeout", &c.timeout);
    d.s("c.umask", c.umask);
    d.o("c.umask_override", &c.umask_override);
    d.s("c.use_pty", c.use_pty);
    d.o("c.utmp_user", &c.utmp_user);
    d.p("cwd()", Some(env.cwd()));
    if c.preserve_groups != c.runas_groups.is_some() {
        let mut v: Vec<u32> = env.runas_gids().into_iter().collect();
        v.sort();
        d.s("runas_gids()", join(&v));
    }
    // what was passed, byte for byte
    let keys = env.plugin_options.get_bytes(b"keys").unwrap_or(b"").to_vec();
    for (i, k) in keys.split(|c| *c == 31).enumerate() {
        for (n, m) in [("s", &s.raw), ("u", &u.raw), ("c", &c.raw), ("e", &env.user_env), ("o", &env.plugin_options)].iter() {
            d.put(&format!("raw.{}.{}", n, i), m.get_bytes(k));
        }
    }
    for k in ["g0", "g1", "g2"].iter() {
        d.put(&format!("{}:text", k), env.plugin_options.get_str(k).map(|s| s.as_bytes()));
        g!(d, env, k, bool, "bool", |v| v.to_string());
        g!(d, env, k, i8, "i8", |v| v.to_string());
        g!(d, env, k, u8, "u8", |v| v.to_string());
        g!(d, env, k, i16, "i16", |v| v.to_string());
        g!(d, env, k, u16, "u16", |v| v.to_string());
        g!(d, env, k, i32, "i32", |v| v.to_string());
        g!(d, env, k, u32, "u32", |v| v.to_string());
        g!(d, env, k, i64, "i64", |v| v.to_string());
        g!(d, env, k, u64, "u64", |v| v.to_string());
        g!(d, env, k, String, "string", |v| v);
        g!(d, env, k, std::path::PathBuf, "path", |v| v.to_string_lossy().into_owned());
        g!(d, env, k, Vec<i32>, "i32s", |v| join(&v));
        g!(d, env, k, Vec<u64>, "u64s", |v| join(&v));
        g!(d, env, k, Vec<std::path::PathBuf>, "paths", |v| join(&v.iter().map(|x| x.to_string_lossy().into_owned()).collect::<Vec<_>>()));
        g!(d, env, k, std::collections::HashSet<u32>, "u32set", |v| {
            let mut v: Vec<u32> = v.into_iter().collect();
            v.sort();
            join(&v)
        });
    }
    d.0
}
