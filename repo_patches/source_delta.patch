From 149c74288786bf33ccc8001699a883dbdd744f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 01/25] fix: gate commands whose path is not valid UTF-8

The command path was parsed as a UTF-8 string. When that failed it
became empty, which open() takes for 'sudo -V', so the command was
allowed to start without any approval.
---
 sudo_plugin/src/options/command_info.rs |  2 +-
 sudo_plugin/src/options/option_map.rs   | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 9c56cb9..ff01a31 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -248,7 +248,7 @@ impl TryFrom<OptionMap> for CommandInfo {
         Ok(Self {
             // in the event that the `-V` flag is passed to `sudo`,
             // there's no command
-            command:       value.get("command").unwrap_or_default(),
+            command:       value.get_path("command").unwrap_or_default(),
             runas_gid,
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
diff --git a/sudo_plugin/src/options/option_map.rs b/sudo_plugin/src/options/option_map.rs
index 4515a08..60c37fa 100644
--- a/sudo_plugin/src/options/option_map.rs
+++ b/sudo_plugin/src/options/option_map.rs
@@ -16,7 +16,9 @@ use crate::errors::{Result, Error};
 use crate::options::traits::FromSudoOption;
 
 use std::collections::HashMap;
-use std::ffi::CStr;
+use std::ffi::{CStr, OsStr};
+use std::os::unix::ffi::OsStrExt;
+use std::path::PathBuf;
 use std::str;
 
 use libc::c_char;
@@ -120,6 +122,19 @@ impl OptionMap {
         self.get_bytes(k.as_bytes()).and_then(|b| str::from_utf8(b).ok())
     }
 
+    /// Gets the value of a key as a filesystem path. Paths are arbitrary
+    /// bytes, so (unlike with `get`) the value is not required to be
+    /// interpretable as a UTF-8 string.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if no such key/value-pair was provided.
+    pub(crate) fn get_path(&self, k: &str) -> Result<PathBuf> {
+        self.get_bytes(k.as_bytes())
+            .map(|b| OsStr::from_bytes(b).into())
+            .ok_or(Error::OptionMissing { key: k.into() })
+    }
+
     /// Fetches a raw byte value using a bytes as the key. This is
     /// provided to allow plugins to retrieve values for keys when the
     /// value and/or key are not guaranteed to be UTF-8 strings.
-- 
2.43.0


From dedee05886cba16a0466327b892b1b6fb688f227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 02/25] fix: accept working directories that are not valid
 UTF-8

Such a directory locked everybody in it out of sudo (exempt users and
root included), and a command's own one was silently replaced by the
directory of the invoking user in the approval prompt.
---
 sudo_plugin/src/options/command_info.rs | 2 +-
 sudo_plugin/src/options/user_info.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index ff01a31..a188cad 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -257,7 +257,7 @@ impl TryFrom<OptionMap> for CommandInfo {
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-            cwd:               value.get("cwd")               .ok(),
+            cwd:               value.get_path("cwd")          .ok(),
             exec_background:   value.get("exec_background")   .unwrap_or(false),
             exec_fd:           value.get("execfd")            .ok(),
             iolog_compress:    value.get("iolog_compress")    .unwrap_or(false),
diff --git a/sudo_plugin/src/options/user_info.rs b/sudo_plugin/src/options/user_info.rs
index 388324a..6d672c5 100644
--- a/sudo_plugin/src/options/user_info.rs
+++ b/sudo_plugin/src/options/user_info.rs
@@ -99,7 +99,7 @@ impl TryFrom<OptionMap> for UserInfo {
 
     fn try_from(value: OptionMap) -> Result<Self> {
         Ok(Self {
-            cwd:    value.get("cwd")?,
+            cwd:    value.get_path("cwd")?,
             egid:   value.get("egid")?,
             euid:   value.get("euid")?,
             gid:    value.get("gid")?,
-- 
2.43.0


From 2fa56ef1835e810099d991439cb1419639526f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 03/25] fix: refuse piped input and mirror all output whatever
 the log hints

With iolog_stdin unset (sudo's default) the framework skipped the
plugin's log_stdin callback altogether, so a gated session could be
piped to. Likewise stdout and stderr were hidden from the pair when
only terminal output was to be logged.
---
 sudo_pair/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 6ac49e8..d2c03ca 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -111,6 +111,12 @@ impl IoPlugin for SudoPair {
 
     const NAME: &'static str = "sudo_pair";
 
+    // the I/O logging hints describe what the administrator wants to be
+    // logged, but the pair must see all output (and piped input must be
+    // refused) regardless; a session for which output logging is off is
+    // exempt altogether (see `is_exempted_from_logging`)
+    const IGNORE_IOLOG_HINTS: bool = true;
+
     fn open(env: &'static IoEnv) -> Result<Self> {
         let mut slog = slog(Self::NAME, Self::VERSION);
 
-- 
2.43.0


From 214d5270ec0518c9af96fdc9efb1d036b3b94a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 04/25] fix: print messages literally instead of using them as
 format strings

Prompts and error messages contain user-controlled names, paths and
arguments, which sudo's printf interpreted as format directives.
---
 sudo_plugin/src/output/print_facility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 0c19d59..12892ac 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -109,7 +109,10 @@ impl Write for PrintFacility {
         let count = unsafe {
             // TODO: level should be bitflags when we start implementing the
             // full conversation interface
-            (printf)(self.level as _, message.as_ptr())
+            //
+            // the message is data and must not be interpreted as a
+            // format string
+            (printf)(self.level as _, b"%s\0".as_ptr().cast(), message.as_ptr())
         };
 
         #[allow(clippy::cast_sign_loss)]
-- 
2.43.0


From 57cc8d0e345b2dc8e17891faf29ed00c23410470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 05/25] fix: don't print the first cause of an error forever

---
 sudo_plugin/src/output/print_facility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 12892ac..54e9e7b 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -88,8 +88,11 @@ impl PrintFacility {
         // stabilized
         self.write_line(format!("{}", error).as_bytes())?;
 
-        while let Some(error) = error.source() {
+        let mut source = error.source();
+
+        while let Some(error) = source {
             self.write_line(format!("{}", error).as_bytes())?;
+            source = error.source();
         }
 
         Ok(())
-- 
2.43.0


From 5a271a4b7a3fd70671487fbe441342afd4330608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 06/25] fix: recognise -g with a group name that is not valid
 UTF-8

Such a group went unnoticed, so that combining it with -u was not
refused.
---
 sudo_pair/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index d2c03ca..fc40e8f 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -555,7 +555,9 @@ impl SudoPair {
 
     // returns true if `-g` was specified
     fn is_sudoing_to_explicit_group(&self) -> bool {
-        self.env.settings.runas_group.is_some()
+        // not `settings.runas_group`, which is `None` as well if the name
+        // that was given isn't valid UTF-8
+        self.env.settings.raw.get_bytes(b"runas_group").is_some()
     }
 
     fn socket_path(&self) -> PathBuf {
-- 
2.43.0


From 6587b629b6c6a0c64301148937f24e125a7172bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 07/25] fix: wait for the pair with poll(2), not select(2)

FD_SET panics on descriptors that don't fit in an fd_set, which aborted
sudo when it had been started with many descriptors open.
---
 sudo_pair/src/socket.rs | 42 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/sudo_pair/src/socket.rs b/sudo_pair/src/socket.rs
index eaf45c6..43b1dcd 100644
--- a/sudo_pair/src/socket.rs
+++ b/sudo_pair/src/socket.rs
@@ -25,7 +25,6 @@ use std::os::unix::prelude::*;
 use std::os::unix::net::{UnixListener, UnixStream};
 use std::mem;
 use std::path::Path;
-use std::ptr;
 
 use libc::{self, gid_t, mode_t, uid_t};
 
@@ -69,36 +68,33 @@ impl Socket {
                     return Err(Error::last_os_error());
                 }
 
-                let     fd      = listener.as_raw_fd();
-                let mut readfds = mem::MaybeUninit::<libc::fd_set>::uninit();
-
-                libc::FD_ZERO(readfds.as_mut_ptr());
-
-                let mut readfds = readfds.assume_init();
-
-                libc::FD_SET(fd, &mut readfds);
-
                 // rust automatically wraps the `accept()` function in a
                 // loop that retries on SIGINT, so we have to get
-                // creative here and `select(2)` ourselves if we want
+                // creative here and `poll(2)` ourselves if we want
                 // Ctrl-C to interrupt the process
-                match libc::select(
-                    fd + 1, // this must be greater than the fd's int value
-                    &mut readfds,
-                    ptr::null_mut(),
-                    ptr::null_mut(),
-                    ptr::null_mut(),
-                ) {
+                //
+                // this can't be `select(2)`, since an `fd_set` has no
+                // room for descriptors that aren't below `FD_SETSIZE`
+                let mut pollfd = libc::pollfd {
+                    fd:      listener.as_raw_fd(),
+                    events:  libc::POLLIN,
+                    revents: 0,
+                };
+
+                match libc::poll(&mut pollfd, 1, -1) {
                     1  => (),
                     -1 => return Err(Error::last_os_error()),
-                    0  => unreachable!("`select` returned 0 even though no timeout was set"),
-                    _  => unreachable!("`select` indicated that more than 1 fd is ready"),
+                    0  => unreachable!("`poll` returned 0 even though no timeout was set"),
+                    _  => unreachable!("`poll` indicated that more than 1 fd is ready"),
                 };
 
                 // as a sanity check, confirm that the fd we're going to
-                // `accept` is the one that `select` says is ready
-                if !libc::FD_ISSET(fd, &readfds) {
-                    unreachable!("`select` returned an unexpected file descriptor");
+                // `accept` is ready for it
+                if pollfd.revents & libc::POLLIN == 0 {
+                    return Err(Error::new(
+                        ErrorKind::Other,
+                        "the socket can't be used to wait for a connection",
+                    ));
                 }
             }
 
-- 
2.43.0


From bfbf8873c5a1a3d2cf7964a27a2ea1e381a7a0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 08/25] fix: keep flags whose values are not valid UTF-8

They were left out of the invocation that is shown to the pair.
---
 sudo_plugin/src/options/settings.rs | 31 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 4115411..087858c 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -172,6 +172,9 @@ impl Settings {
     // TODO: maybe if /proc/$$/cmd exists I can prefer to use it
     #[must_use]
     pub fn flags(&self) -> Vec<Vec<u8>> {
+        // values that can be arbitrary strings are taken from the raw
+        // options, since they needn't be valid UTF-8 and their parsed
+        // counterparts are `None` when they aren't
         let mut flags: Vec<Vec<u8>> = vec![];
 
         // `sudoedit` is set if the flag was provided *or* if sudo
@@ -182,23 +185,23 @@ impl Settings {
             flags.push(b"--edit".to_vec());
         }
 
-        if let Some(ref runas_user) = self.runas_user {
+        if let Some(runas_user) = self.raw.get_bytes(b"runas_user") {
             let mut flag = b"--user ".to_vec();
-            flag.extend_from_slice(runas_user.as_bytes());
+            flag.extend_from_slice(runas_user);
 
             flags.push(flag);
         }
 
-        if let Some(ref runas_group) = self.runas_group {
+        if let Some(runas_group) = self.raw.get_bytes(b"runas_group") {
             let mut flag = b"--group ".to_vec();
-            flag.extend_from_slice(runas_group.as_bytes());
+            flag.extend_from_slice(runas_group);
 
             flags.push(flag);
         }
 
-        if let Some(ref prompt) = self.prompt {
+        if let Some(prompt) = self.raw.get_bytes(b"prompt") {
             let mut flag = b"--prompt ".to_vec();
-            flag.extend_from_slice(prompt.as_bytes());
+            flag.extend_from_slice(prompt);
 
             flags.push(flag);
         }
@@ -231,30 +234,30 @@ impl Settings {
             flags.push(b"--non-interactive".to_vec());
         }
 
-        if let Some(ref login_class) = self.login_class {
+        if let Some(login_class) = self.raw.get_bytes(b"login_class") {
             let mut flag = b"--login-class ".to_vec();
-            flag.extend_from_slice(login_class.as_bytes());
+            flag.extend_from_slice(login_class);
 
             flags.push(flag);
         }
 
-        if let Some(ref selinux_role) = self.selinux_role {
+        if let Some(selinux_role) = self.raw.get_bytes(b"selinux_role") {
             let mut flag = b"--role ".to_vec();
-            flag.extend_from_slice(selinux_role.as_bytes());
+            flag.extend_from_slice(selinux_role);
 
             flags.push(flag);
         }
 
-        if let Some(ref selinux_type) = self.selinux_type {
+        if let Some(selinux_type) = self.raw.get_bytes(b"selinux_type") {
             let mut flag = b"--type ".to_vec();
-            flag.extend_from_slice(selinux_type.as_bytes());
+            flag.extend_from_slice(selinux_type);
 
             flags.push(flag);
         }
 
-        if let Some(ref bsd_auth_type) = self.bsd_auth_type {
+        if let Some(bsd_auth_type) = self.raw.get_bytes(b"bsd_auth_type") {
             let mut flag = b"--auth-type ".to_vec();
-            flag.extend_from_slice(bsd_auth_type.as_bytes());
+            flag.extend_from_slice(bsd_auth_type);
 
             flags.push(flag);
         }
-- 
2.43.0


From 17a8eca655717665ef0763a5750878050fe31bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 09/25] fix: don't refuse sessions when syslog can't be set up

The syslog crate panics if /proc/self/exe can't be read.
---
 sudo_pair/src/lib.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index fc40e8f..d35ccf5 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -784,12 +784,18 @@ fn slog(name: &str, version: &str) -> slog::Logger {
     #[cfg(all(not(target_os = "macos"), feature = "syslog"))]
     const SYSLOG_PATH: &str = "/dev/log";
 
-    let drain = slog_syslog::SyslogBuilder::new()
-        .unix(SYSLOG_PATH)
-        .facility(slog_syslog::Facility::LOG_AUTH)
-        .start()
-        .map(slog::Drain::ignore_res)
-        .ok();
+    // the syslog crate panics, rather than returning an error, if it
+    // can't determine the name of our process; not being able to log
+    // mustn't decide who can use sudo
+    let drain = std::panic::catch_unwind(|| {
+        slog_syslog::SyslogBuilder::new()
+            .unix(SYSLOG_PATH)
+            .facility(slog_syslog::Facility::LOG_AUTH)
+            .start()
+    })
+        .ok()
+        .and_then(std::result::Result::ok)
+        .map(slog::Drain::ignore_res);
 
     match drain {
         Some(d) => slog::Logger::root(d, slog::o!(
-- 
2.43.0


From 23ba3d3cb5db3d5a7e718c7b1c490961c0284750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 10/25] fix: only accept plain numbers in sudo_approve

Its arguments were evaluated as arithmetic expressions, which can run
commands, with the privileges sudo_approve is run with.
---
 sample/bin/sudo_approve | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index ec412ef..13dbfe1 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -49,6 +49,10 @@ usage() {
 }
 
 main() {
+    # these end up in arithmetic, where anything but a plain number would
+    # be evaluated as an expression, and in the path of the socket
+    [[ "${2}" =~ ^[0-9]+$ && "${3}" =~ ^[0-9]+$ ]] || usage
+
     declare -r socket_path="${1}"
     declare -ri uid="${2}"
     declare -ri pid="${3}"
-- 
2.43.0


From ea77284f68f2774be216ec44f5c9a3fa7872a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 11/25] fix: don't panic on network addresses without a netmask

A network_addrs entry that is a bare IP address made every session be
refused.
---
 sudo_plugin/src/options/settings.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 087858c..d11f37a 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -320,18 +320,12 @@ pub struct NetAddr {
 impl FromSudoOption for NetAddr {
     type Err = AddrParseError;
 
-    // indexing into an array can panic, but there's no cleaner way in
-    // rust to split a byte array on a delimiter, and the code below
-    // selects the midpoint such that it's guaranteed to be within the
-    // slice
     fn from_sudo_option(s: &str) -> ::std::result::Result<Self, Self::Err> {
-        let bytes = s.as_bytes();
-        let mid   = bytes.iter()
-            .position(|b| *b == b'/' )
-            .unwrap_or_else(|| bytes.len());
+        let mut parts = s.splitn(2, '/');
 
-        let addr = s[        .. mid].parse()?;
-        let mask = s[mid + 1 ..    ].parse()?;
+        // a missing netmask is as invalid as one that can't be parsed
+        let addr = parts.next().unwrap_or("").parse()?;
+        let mask = parts.next().unwrap_or("").parse()?;
 
         Ok(Self {
             addr,
-- 
2.43.0


From 66424e4f7bd0adac7409382b494d3d96d9701a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 12/25] fix: accept a null argument vector

The documentation of the plugin API allows for it if there is no command,
as for 'sudo -V', but slices can't be made from null pointers.
---
 sudo_plugin/src/plugin/io_env.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sudo_plugin/src/plugin/io_env.rs b/sudo_plugin/src/plugin/io_env.rs
index ba078d7..5ec5b40 100644
--- a/sudo_plugin/src/plugin/io_env.rs
+++ b/sudo_plugin/src/plugin/io_env.rs
@@ -121,12 +121,18 @@ impl IoEnv {
             plugin_printf
         );
 
-        // god help us all if `argc` is negative
-        #[allow(clippy::cast_sign_loss)]
-        let mut argv = slice::from_raw_parts(
-            argv,
-            argc as usize
-        ).to_vec();
+        // `argv` may be null if there is no command, but slices can't
+        // start at a null pointer, not even empty ones
+        let mut argv = if argv.is_null() {
+            vec![]
+        } else {
+            // god help us all if `argc` is negative
+            #[allow(clippy::cast_sign_loss)]
+            slice::from_raw_parts(
+                argv,
+                argc as usize
+            ).to_vec()
+        };
 
         let cmdline = argv
             .iter_mut()
-- 
2.43.0


From 2fe02cda1499d00820d3bc1816a853591eb70267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 13/25] fix: don't take failures to print for interruptions

Nothing says that sudo's printing functions set errno. A failure while
errno happened to be EINTR was retried forever.
---
 sudo_plugin/src/output/print_facility.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 54e9e7b..c798be6 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -120,7 +120,9 @@ impl Write for PrintFacility {
 
         #[allow(clippy::cast_sign_loss)]
         match count {
-            c if c < 0 => Err(io::Error::last_os_error()),
+            // `errno` isn't necessarily set, and a stale `EINTR` would
+            // have this retried forever
+            c if c < 0 => Err(io::Error::new(io::ErrorKind::Other, "printf failed")),
             c          => Ok(c as _)
         }
     }
-- 
2.43.0


From 018e05162547d3a83e9e1ff2829127170bb13b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 14/25] fix: don't let a panic's payload unwind into sudo

Whatever a panic carries is dropped once it has been caught; if that
panics in turn, sudo was aborted.
---
 sudo_plugin/src/core.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index 86e5619..63a97c3 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -25,6 +25,7 @@ use crate::output::PrintFacility;
 use crate::plugin::{IoEnv, IoPlugin, IoState};
 use crate::sys;
 
+use std::mem::forget;
 use std::os::raw;
 use std::path::PathBuf;
 use std::panic::{catch_unwind, UnwindSafe};
@@ -105,7 +106,12 @@ impl<T: Into<OpenStatus>> From<std::thread::Result<T>> for OpenStatus {
     fn from(result: std::thread::Result<T>) -> Self {
         match result {
             Ok(v)  => v.into(),
-            Err(_) => Error::UncaughtPanic.into(),
+            Err(e) => {
+                // dropping the payload could panic again, this time
+                // with nothing left to catch it
+                forget(e);
+                Error::UncaughtPanic.into()
+            }
         }
     }
 }
@@ -114,7 +120,12 @@ impl<T: Into<LogStatus>> From<std::thread::Result<T>> for LogStatus {
     fn from(result: std::thread::Result<T>) -> Self {
         match result {
             Ok(v)  => v.into(),
-            Err(_) => Error::UncaughtPanic.into(),
+            Err(e) => {
+                // dropping the payload could panic again, this time
+                // with nothing left to catch it
+                forget(e);
+                Error::UncaughtPanic.into()
+            }
         }
     }
 }
@@ -193,9 +204,15 @@ pub unsafe extern "C" fn close<P: IoPlugin, S: IoState<P>>(
     exit_status: raw::c_int,
     error:       raw::c_int,
 ) {
-    drop(catch_unwind(|| {
+    let result = catch_unwind(|| {
         S::drop(|plugin| plugin.close(exit_status, error));
-    }));
+    });
+
+    // dropping the payload of a panic could panic again, this time with
+    // nothing left to catch it
+    if let Err(e) = result {
+        forget(e);
+    }
 }
 
 #[doc(hidden)]
-- 
2.43.0


From ce170a06bef109290ce1e79fb1944422a6c85960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 15/25] fix: drop the environment even if close panics

The next open would have kept using the environment of the session
before it.
---
 sudo_plugin/src/plugin/io_state.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/plugin/io_state.rs b/sudo_plugin/src/plugin/io_state.rs
index 6ef0188..d88f8b2 100644
--- a/sudo_plugin/src/plugin/io_state.rs
+++ b/sudo_plugin/src/plugin/io_state.rs
@@ -15,6 +15,8 @@
 use super::{IoEnv, IoPlugin};
 use crate::core::OpenStatus;
 
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
+
 /// This trait is implemented invisibly by the `sudo_io_plugin` macro
 /// and is not user-visible.
 ///
@@ -79,8 +81,16 @@ pub unsafe trait IoState<P: IoPlugin> {
         // SAFETY: it's extremely important that the plugin be dropped
         // *before* the environment is dropped, because the plugin may
         // hold onto a reference to the static environment
-        let _ = Self::io_plugin_mut().take().map(f);
-        let _ = Self::io_env_mut()   .take();
+        let plugin = Self::io_plugin_mut().take();
+        let result = catch_unwind(AssertUnwindSafe(|| plugin.map(f)));
+
+        // even if the plugin panicked, the environment must not survive
+        // to be mistaken for the one of the next session
+        let _ = Self::io_env_mut().take();
+
+        if let Err(e) = result {
+            resume_unwind(e);
+        }
     }
 
     /// Returns an immutable borrow to the static location of the
-- 
2.43.0


From 22b353d507591205ab26b0b882983d495858bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 16/25] fix: don't have the socket's owner try its group
 forever

---
 sample/bin/sudo_approve | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index 13dbfe1..8abc60f 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -100,7 +100,7 @@ main() {
         pair "${socket}"
     elif [[ $(( 8#${socket_mode} & 8#200 )) -ne 0 ]]; then
         sudo -u "${socket_user}" "${0}" "${uid}" "${pid}"
-    elif [[ $(( 8#${socket_mode} & 8#020 )) -ne 0 ]]; then
+    elif [[ $(( 8#${socket_mode} & 8#020 )) -ne 0 && ! -O "${socket}" ]]; then
         sudo -g "${socket_group}" "${0}" "${uid}" "${pid}"
     else
         echo "The socket for this sudo session is neither user- nor group-writable."
-- 
2.43.0


From 92c668a60d2e6da2588c3642447eddd909ade139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 17/25] fix: save the TTY settings before changing them

---
 sample/bin/sudo_approve | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index 8abc60f..f213573 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -25,9 +25,14 @@ declare -r SUDO_SOCKET_PATH="/var/run/sudo_pair"
 pair() {
     declare -r socket="${1}"
 
+    # don't touch the TTY unless its settings could be saved
+    declare settings
+    settings="$(stty -g)"
+    declare -r settings
+
     # restore TTY settings on exit
     # shellcheck disable=SC2064
-    trap "stty $(stty -g)" EXIT
+    trap "stty ${settings}" EXIT
 
     # disable line-buffering and local echo, so the pairer doesn't
     # get confused that their typing in the shell isn't doing
-- 
2.43.0


From 154fb079c77968bd9f34f0e417815724d4abbf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:52 +0000
Subject: [PATCH 18/25] fix: restore the TTY settings on SIGQUIT and in spite
 of more signals

---
 sample/bin/sudo_approve | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index f213573..6b9af2f 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -30,9 +30,12 @@ pair() {
     settings="$(stty -g)"
     declare -r settings
 
-    # restore TTY settings on exit
+    # restore TTY settings on exit, without being interrupted again
     # shellcheck disable=SC2064
-    trap "stty ${settings}" EXIT
+    trap "trap '' HUP INT QUIT TERM; stty ${settings}" EXIT
+
+    # `bash` dies of SIGQUIT without running the above
+    trap 'exit 131' QUIT
 
     # disable line-buffering and local echo, so the pairer doesn't
     # get confused that their typing in the shell isn't doing
-- 
2.43.0


From 08eda80e1730f68f90f988510a02970b26237b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:10 +0000
Subject: [PATCH 19/25] fix: don't remove a symbolic link to a socket

A link at the path of the approval socket is not a leftover of a dead
session. It was removed and the session went ahead if it led to a
socket.
---
 sudo_pair/src/socket.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/socket.rs b/sudo_pair/src/socket.rs
index 43b1dcd..04718b4 100644
--- a/sudo_pair/src/socket.rs
+++ b/sudo_pair/src/socket.rs
@@ -125,7 +125,8 @@ impl Socket {
     }
 
     fn unlink(path: &Path) -> Result<()> {
-        match fs::metadata(&path).map(|md| md.file_type().is_socket()) {
+        // a symbolic link isn't a socket, not even if it leads to one
+        match fs::symlink_metadata(&path).map(|md| md.file_type().is_socket()) {
             // file exists, is a socket; delete it
             Ok(true) => fs::remove_file(path),
 
-- 
2.43.0


From 5025b8ed4341db0c202e16580268d06b0a1ffaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:10 +0000
Subject: [PATCH 20/25] fix: include --host and --command-timeout in the
 invocation

Both are among the settings but were left out of the command shown to
the pair.
---
 sudo_plugin/src/options/settings.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index d11f37a..c5cdcbc 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -269,6 +269,20 @@ impl Settings {
             flags.push(flag);
         }
 
+        if let Some(remote_host) = self.raw.get_bytes(b"remote_host") {
+            let mut flag = b"--host ".to_vec();
+            flag.extend_from_slice(remote_host);
+
+            flags.push(flag);
+        }
+
+        if let Some(timeout) = self.raw.get_bytes(b"timeout") {
+            let mut flag = b"--command-timeout ".to_vec();
+            flag.extend_from_slice(timeout);
+
+            flags.push(flag);
+        }
+
         flags
     }
 }
-- 
2.43.0


From b201237eee25e050f563c5ef9d7012a3bb3c20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:23 +0000
Subject: [PATCH 21/25] fix: print text containing NUL bytes in full

A C string ends at its first NUL, so text with one in it (an error's, or a
prompt template's) was not printed at all, and the causes of the error
neither.
---
 sudo_plugin/src/output/print_facility.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index c798be6..b54d48e 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -105,7 +105,11 @@ impl Write for PrintFacility {
             io::Error::new(io::ErrorKind::NotConnected, "no printf provided")
         )?;
 
-        let message = CString::new(buf).map_err(|err|
+        // a C string ends at its first NUL, so what follows one is left to
+        // the next call, and a NUL itself is printed as a character
+        let text = buf.split(|b| *b == 0).next().unwrap_or_default();
+
+        let message = CString::new(text).map_err(|err|
             io::Error::new(io::ErrorKind::InvalidData, err)
         )?;
 
@@ -115,7 +119,11 @@ impl Write for PrintFacility {
             //
             // the message is data and must not be interpreted as a
             // format string
-            (printf)(self.level as _, b"%s\0".as_ptr().cast(), message.as_ptr())
+            if text.is_empty() && !buf.is_empty() {
+                (printf)(self.level as _, b"%c\0".as_ptr().cast(), 0)
+            } else {
+                (printf)(self.level as _, b"%s\0".as_ptr().cast(), message.as_ptr())
+            }
         };
 
         #[allow(clippy::cast_sign_loss)]
-- 
2.43.0


From e45d72e2511e842d74a3477a1b862c10bd6b3e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:50 +0000
Subject: [PATCH 22/25] fix: read the BSD authentication type from bsdauth_type

That's the name sudo passes it under, so neither the setting nor its flag
was ever available.
---
 sudo_plugin/src/options/settings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index c5cdcbc..8fbf916 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -255,7 +255,7 @@ impl Settings {
             flags.push(flag);
         }
 
-        if let Some(bsd_auth_type) = self.raw.get_bytes(b"bsd_auth_type") {
+        if let Some(bsd_auth_type) = self.raw.get_bytes(b"bsdauth_type") {
             let mut flag = b"--auth-type ".to_vec();
             flag.extend_from_slice(bsd_auth_type);
 
@@ -296,7 +296,7 @@ impl TryFrom<OptionMap> for Settings {
             plugin_path: value.get("plugin_path")?,
             progname:    value.get("progname")?,
 
-            bsd_auth_type:        value.get("bsd_auth_type")       .ok(),
+            bsd_auth_type:        value.get("bsdauth_type")        .ok(),
             close_from:           value.get("closefrom")           .ok(),
             debug_flags:          value.get("debug_flags")         .ok(),
             debug_level:          value.get("debug_level")         .ok(),
-- 
2.43.0


From eff2bc3c4ed8eada93780069385c8c12f006f6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:50 +0000
Subject: [PATCH 23/25] fix: include --chdir, --chroot and --no-update in the
 invocation

A command in another root directory isn't the command it looks like, so
the pair has to be told.
---
 sudo_plugin/src/options/settings.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 8fbf916..7355ac9 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -283,6 +283,24 @@ impl Settings {
             flags.push(flag);
         }
 
+        if let Some(chdir) = self.raw.get_bytes(b"cmnd_cwd") {
+            let mut flag = b"--chdir ".to_vec();
+            flag.extend_from_slice(chdir);
+
+            flags.push(flag);
+        }
+
+        if let Some(chroot) = self.raw.get_bytes(b"cmnd_chroot") {
+            let mut flag = b"--chroot ".to_vec();
+            flag.extend_from_slice(chroot);
+
+            flags.push(flag);
+        }
+
+        if let Ok(false) = self.raw.get::<bool>("update_ticket") {
+            flags.push(b"--no-update".to_vec());
+        }
+
         flags
     }
 }
-- 
2.43.0


From f7318f512f3445945d89c4c87c5c1c1c7c02eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:50 +0000
Subject: [PATCH 24/25] fix: parse the umask of the command as octal

sudo passes 0022 for a umask of 0o022, which was taken for 22.
---
 sudo_plugin/src/options/command_info.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index a188cad..af55773 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -253,7 +253,10 @@ impl TryFrom<OptionMap> for CommandInfo {
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
             runas_euid:    value.get("runas_euid").unwrap_or(runas_uid),
-            umask:         value.get("umask").unwrap_or(0o7777),
+            // unlike all other numbers, it's passed in octal
+            umask:         value.get_str("umask")
+                .and_then(|s| mode_t::from_str_radix(s, 8).ok())
+                .unwrap_or(0o7777),
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-- 
2.43.0


From 4330d7d7c849b0a86b9c3b1bcbf52858968e753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:50 +0000
Subject: [PATCH 25/25] fix: accept negative nice values

---
 sudo_plugin/src/options/command_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index af55773..a08dcf6 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -137,7 +137,7 @@ pub struct CommandInfo {
     /// Nice value (priority) to use when executing the command. The nice
     /// value, if specified, overrides the priority associated with the
     /// login_class on BSD systems.
-    pub nice: Option<u64>,
+    pub nice: Option<i64>,
 
     /// If set, prevent the command from executing other programs.
     pub noexec: bool,
-- 
2.43.0

