From 271e5d41da42e5fa428dfda28f74979487d38bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 01/52] fix: parse /proc/PID/stat of processes with any name

The name in /proc/PID/stat may contain a closing parenthesis or bytes that
are not UTF-8; parsing it panicked, and the task that was to collect the
process died with it.
---
 src/procinfo.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index c9f66d2..5a99f77 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -186,7 +186,8 @@ impl ProcStat {
         let pid = pid.parse::<pid_t>().unwrap();
 
         let (_, text) = text.split_once('(').unwrap();
-        let (comm, text) = text.split_once(')').unwrap();
+        // The comm may itself contain parentheses and spaces.
+        let (comm, text) = text.rsplit_once(')').unwrap();
         let comm = comm.to_owned();
         let text = text.trim();
 
@@ -245,7 +246,7 @@ impl ProcStat {
         let exit_signal = if exit_signal == 0 {
             None
         } else {
-            Some(sig::get_abbrev(exit_signal).unwrap().to_owned())
+            sig::get_abbrev(exit_signal).map(|s| s.to_owned())
         };
         let processor = parts.next().unwrap().parse().unwrap();
         let rt_priority = parts.next().unwrap().parse().unwrap();
@@ -319,8 +320,9 @@ impl ProcStat {
     /// Loads process status from /proc/{pid}/stat.
     pub fn load(pid: pid_t) -> Result<Self, std::io::Error> {
         let path = format!("/proc/{}/stat", pid);
-        let text = std::fs::read_to_string(path)?;
-        Ok(Self::parse(&text))
+        // The comm is not necessarily UTF-8.
+        let text = std::fs::read(path)?;
+        Ok(Self::parse(&String::from_utf8_lossy(&text)))
     }
 
     pub fn load_or_log(pid: pid_t) -> Option<Self> {
-- 
2.43.0


From 7bf56d252afa5483d4510942fa78fdbbb17b3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 02/52] fix: report processes ended by signals that have no
 name

Generating the result of a process killed by signal 16 or a real-time signal
panicked.
---
 src/res.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/res.rs b/src/res.rs
index ac283a9..37ee3ad 100644
--- a/src/res.rs
+++ b/src/res.rs
@@ -183,7 +183,9 @@ impl Status {
                 (None, Some(libc::WTERMSIG(status)), libc::WCOREDUMP(status))
             }
         };
-        let signal = signum.map(|s| sig::get_abbrev(s).unwrap().to_owned());
+        let signal = signum
+            .and_then(sig::get_abbrev)
+            .map(|s| s.to_owned());
         Self {
             status,
             exit_code,
-- 
2.43.0


From 63f6dd43da62854d66df5e24bda82df8837a1a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 03/52] fix: keep serving HTTP when accepting a connection
 fails

A connection aborted before it was accepted, or running out of descriptors for
a moment, ended the HTTP service and with it the whole program.
---
 src/http.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 9bed9fc..9beff76 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -230,6 +230,9 @@ impl Router {
 
 //------------------------------------------------------------------------------
 
+/// Pause after failing to accept a connection.
+const ACCEPT_ERROR_INTERVAL: std::time::Duration = std::time::Duration::from_millis(100);
+
 /// Runs the HTTP service.
 pub async fn run_http(procs: SharedProcs, port: u16) -> Result<(), Box<dyn std::error::Error>> {
     let addr: std::net::SocketAddr = ([127, 0, 0, 1], port).into();
@@ -243,7 +246,16 @@ pub async fn run_http(procs: SharedProcs, port: u16) -> Result<(), Box<dyn std::
     let router = Rc::new(Router::new());
 
     loop {
-        let (stream, _) = listener.accept().await?;
+        let (stream, _) = match listener.accept().await {
+            Ok(conn) => conn,
+            Err(err) => {
+                // The connection may be gone already, or we may be short of
+                // resources for now; either way, keep serving.
+                warn!("failed to accept connection: {}", err);
+                tokio::time::sleep(ACCEPT_ERROR_INTERVAL).await;
+                continue;
+            }
+        };
         let procs = procs.clone();
         let router = router.clone();
 
-- 
2.43.0


From bf40db6c6aeca792c5f83b50b81b24a4f5ffcd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:43 +0000
Subject: [PATCH 04/52] fix: read captured output without moving or closing its
 file

The position of a capture file is shared with the process writing it: reading
output while the process ran made it overwrite or skip output.  A failed read
closed the descriptor, and a range ending beyond the output was an error.
---
 src/sys.rs | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index b2a3883..3d7436e 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -4,9 +4,9 @@ use libc::{c_int, gid_t, pid_t, rusage, ssize_t, uid_t};
 use std::ffi::CString;
 use std::fs;
 use std::io;
-use std::io::{Read, Seek};
-use std::mem::MaybeUninit;
-use std::os::fd::{FromRawFd, IntoRawFd, RawFd};
+use std::mem::{ManuallyDrop, MaybeUninit};
+use std::os::fd::{FromRawFd, RawFd};
+use std::os::unix::fs::FileExt;
 use std::path::{Path, PathBuf};
 use std::string::String;
 use std::vec::Vec;
@@ -205,24 +205,27 @@ pub fn read(fd: fd_t, buf: &mut [u8]) -> io::Result<usize> {
 /// Reads the contents of a file, starting from position `start`, until position
 /// `stop` or the end.
 pub fn read_from_file(fd: RawFd, start: u64, stop: Option<u64>) -> io::Result<Vec<u8>> {
-    // Wrap the fd in a file object, for convenience.  This takes ownership of the fd.
-    let mut file = unsafe { fs::File::from_raw_fd(fd) };
-    // Seek to front.
-    file.seek(std::io::SeekFrom::Start(start))?;
-    let buf = if let Some(stop) = stop {
-        // Read to indicated stop position.
-        let mut buf = vec![0; if start < stop { stop - start } else { 0 } as usize];
-        file.read_exact(&mut buf)?;
-        buf
-    } else {
-        // Read entire contents.
-        let mut buf = Vec::<u8>::new();
-        file.read_to_end(&mut buf)?;
-        buf
-    };
-
-    // Take back ownership of the fd.
-    assert!(file.into_raw_fd() == fd);
+    // Wrap the fd in a file object, for convenience.  This doesn't take
+    // ownership of the fd.
+    let file = ManuallyDrop::new(unsafe { fs::File::from_raw_fd(fd) });
+    // Read at explicit positions.  The file position may be shared with the
+    // process that is writing the file, so don't move it.
+    let mut buf = Vec::<u8>::new();
+    let mut chunk = vec![0; 65536];
+    let mut pos = start;
+    let stop = stop.unwrap_or(i64::MAX as u64);
+    while pos < stop {
+        let len = std::cmp::min(stop - pos, chunk.len() as u64) as usize;
+        match file.read_at(&mut chunk[..len], pos) {
+            Ok(0) => break,
+            Ok(n) => {
+                buf.extend_from_slice(&chunk[..n]);
+                pos += n as u64;
+            }
+            Err(ref err) if err.kind() == io::ErrorKind::Interrupted => {}
+            Err(err) => return Err(err),
+        }
+    }
     Ok(buf)
 }
 
-- 
2.43.0


From 816e5f17477c55f2fcdf28a2871eee2c1fac3dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 05/52] fix: return the part of an output range that exists

Requesting a range beyond the output captured in memory panicked, and the
answer claimed to reach the end that was requested.  A negative range is an
error.
---
 src/fd.rs    | 4 +++-
 src/proto.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index 8abb461..229b47c 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -480,7 +480,9 @@ impl SharedFdHandler {
             }),
 
             FdHandler::CaptureMemory { buf, encoding, .. } => {
-                let stop = stop.unwrap_or_else(|| buf.len());
+                // Return the part of the range that exists.
+                let stop = stop.unwrap_or(buf.len()).min(buf.len());
+                let start = start.min(stop);
                 Some(FdData {
                     data: buf[start..stop].to_vec(),
                     encoding: *encoding,
diff --git a/src/proto.rs b/src/proto.rs
index 8e7a107..e9df65a 100644
--- a/src/proto.rs
+++ b/src/proto.rs
@@ -240,6 +240,9 @@ pub async fn handle_incoming(procs: &SharedProcs, msg: IncomingMessage) -> Optio
             start,
             stop,
         } => match parse_fd(fd_name) {
+            Ok(_) if start < 0 || stop.map_or(false, |s| s < 0) => {
+                Some(incoming_error(msg, "invalid fd data range"))
+            }
             Ok(fd) => {
                 if let Some(proc) = procs.get(proc_id) {
                     match proc
@@ -250,7 +253,7 @@ pub async fn handle_incoming(procs: &SharedProcs, msg: IncomingMessage) -> Optio
                             proc_id: proc_id.clone(),
                             fd: fd_name.clone(),
                             start,
-                            stop: stop.unwrap_or_else(|| start + (data.len() as i64)),
+                            stop: start.saturating_add(data.len() as i64),
                             encoding,
                             data,
                         }),
-- 
2.43.0


From 66a78310517ab548d059e88e3288c2bc0b7b00ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 06/52] fix: don't signal the pid of a process that has been
 collected

The operating system may have given it to another process.
---
 src/procs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/procs.rs b/src/procs.rs
index d8eb0de..a61863e 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -67,6 +67,11 @@ impl Proc {
     }
 
     pub fn send_signal(&self, signum: Signum) -> Result<(), Error> {
+        if self.pid <= 0 || self.wait_info.is_some() {
+            // Not started or already collected; the pid isn't (or is no longer)
+            // this process.
+            return Err(Error::NoProc);
+        }
         match kill(self.pid, signum) {
             Ok(()) => Ok(()),
             Err(err) if err.kind() == std::io::ErrorKind::NotFound => Err(Error::NoProc),
-- 
2.43.0


From 9c4bbab677f2f9759d48620e2bfcf940cd95bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:11 +0000
Subject: [PATCH 07/52] fix: don't panic when many things happen at once

A subscriber to notifications, such as the agent connection while its server
stalls, panicked once it was 1024 notifications behind.
---
 src/procs.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index a61863e..29aa953 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -8,8 +8,7 @@ use std::os::fd::RawFd;
 use std::rc::Rc;
 use std::sync::RwLock;
 use std::time::{Duration, Instant};
-use tokio::sync::broadcast;
-use tokio::sync::broadcast::error::RecvError;
+use tokio::sync::mpsc;
 use tokio::sync::watch;
 
 use crate::environ;
@@ -209,8 +208,8 @@ pub enum Notification {
     ShutDown(shutdown::State),
 }
 
-type NotificationSender = broadcast::Sender<Notification>;
-type NotificationReceiver = broadcast::Receiver<Notification>;
+type NotificationSender = mpsc::UnboundedSender<Notification>;
+type NotificationReceiver = mpsc::UnboundedReceiver<Notification>;
 
 pub struct NotificationSub {
     receiver: NotificationReceiver,
@@ -218,11 +217,7 @@ pub struct NotificationSub {
 
 impl NotificationSub {
     pub async fn recv(&mut self) -> Option<Notification> {
-        match self.receiver.recv().await {
-            Ok(noti) => Some(noti),
-            Err(RecvError::Closed) => None,
-            Err(RecvError::Lagged(i)) => panic!("notification subscriber lagging: {}", i),
-        }
+        self.receiver.recv().await
     }
 }
 
@@ -233,7 +228,7 @@ pub struct Procs {
     procs: BTreeMap<ProcId, SharedProc>,
 
     /// Notification subscriptions.
-    subs: NotificationSender,
+    subs: Vec<NotificationSender>,
 
     /// Shutdown notification channel.
     // FIXME: Use CancellationToken instead?
@@ -248,10 +243,9 @@ pub struct SharedProcs(Rc<RefCell<Procs>>);
 
 impl SharedProcs {
     pub fn new() -> SharedProcs {
-        let (sender, _receiver) = broadcast::channel(1024);
         SharedProcs(Rc::new(RefCell::new(Procs {
             procs: BTreeMap::new(),
-            subs: sender,
+            subs: Vec::new(),
             shutdown: watch::channel(shutdown::State::Active),
         })))
     }
@@ -365,16 +359,17 @@ impl SharedProcs {
     }
 
     pub fn subscribe(&self) -> NotificationSub {
-        NotificationSub {
-            receiver: self.0.borrow().subs.subscribe(),
-        }
+        let (sender, receiver) = mpsc::unbounded_channel();
+        self.0.borrow_mut().subs.push(sender);
+        NotificationSub { receiver }
     }
 
     fn notify(&self, noti: Notification) {
-        let s = self.0.borrow();
-        if s.subs.receiver_count() > 0 {
-            s.subs.send(noti).unwrap();
-        }
+        // Send to all subscribers, and drop those that are gone.
+        self.0
+            .borrow_mut()
+            .subs
+            .retain(|sub| sub.send(noti.clone()).is_ok());
     }
 
     /// Sends a signal to all running procs.
-- 
2.43.0


From 0568e4a26059fa09829d388a78c170b90942dbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 08/52] fix: refuse to start a process with neither executable
 nor arguments

It panicked, after other processes in the same request had been started.
---
 src/procs.rs |  1 +
 src/spec.rs  | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/procs.rs b/src/procs.rs
index 29aa953..091ed10 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -539,6 +539,7 @@ pub fn start_procs(
         Err(spec::Error::DuplicateProcId(proc_id))?;
     }
 
+    spec::validate_procs_exes(&specs)?;
     spec::validate_procs_fds(&specs)?;
 
     // Check that we're not shutting down.
diff --git a/src/spec.rs b/src/spec.rs
index 155b3b8..95043f4 100644
--- a/src/spec.rs
+++ b/src/spec.rs
@@ -22,6 +22,7 @@ pub enum Error {
     DuplicateProcId(ProcId),
     Io(std::io::Error),
     Json(serde_json::error::Error),
+    NoExe(ProcId),
     UnmatchedReadFd(ProcId, FdName),
     UnmatchedWriteFd(ProcId, FdName),
 }
@@ -33,6 +34,9 @@ impl fmt::Display for Error {
             Error::DuplicateFd(fd) => f.write_str(&format!("duplicate fd: {}", fd)),
             Error::Io(err) => err.fmt(f),
             Error::Json(err) => err.fmt(f),
+            Error::NoExe(proc_id) => {
+                f.write_str(&format!("no executable or arguments: {}", proc_id))
+            }
             Error::DuplicateProcId(proc_id) => {
                 f.write_str(&format!("duplicate proc id: {}", proc_id))
             }
@@ -267,6 +271,16 @@ pub fn parse_fd(fd: &str) -> std::result::Result<RawFd, Error> {
 /// Set of proc fds that are connected to the ends of pipes.
 pub type PipeFds = HashSet<(ProcId, RawFd)>;
 
+/// Validates that each proc specifies an executable, at least as argv[0].
+pub fn validate_procs_exes(procs: &Procs) -> std::result::Result<(), Error> {
+    for (proc_id, proc) in procs.iter() {
+        if proc.exe.is_none() && proc.argv.is_empty() {
+            return Err(Error::NoExe(proc_id.clone()));
+        }
+    }
+    Ok(())
+}
+
 /// Validates fd descriptors in procs.
 ///
 /// Checks for:
-- 
2.43.0


From 0c641845b44b4d00bd526a5c5fddc1e905ccddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 09/52] fix: report strings containing nul instead of panicking
 in the child

A nul in an executable, argument, environment variable or file path panicked
in the forked child process.  The panic was caught further up, and the child
carried on as a second supervisor.
---
 src/sys.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index 3d7436e..445cb88 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -6,6 +6,7 @@ use std::fs;
 use std::io;
 use std::mem::{ManuallyDrop, MaybeUninit};
 use std::os::fd::{FromRawFd, RawFd};
+use std::os::unix::ffi::OsStrExt;
 use std::os::unix::fs::FileExt;
 use std::path::{Path, PathBuf};
 use std::string::String;
@@ -38,16 +39,17 @@ impl CStringVec {
     }
 }
 
-impl<T> From<T> for CStringVec
-where
-    T: IntoIterator<Item = String>,
-{
-    fn from(strings: T) -> Self {
+impl CStringVec {
+    /// Fails if a string contains a nul.
+    fn new<T>(strings: T) -> io::Result<Self>
+    where
+        T: IntoIterator<Item = String>,
+    {
         // Build nul-terminated strings.
         let strs = strings
             .into_iter()
-            .map(|s| CString::new(s).unwrap())
-            .collect::<Vec<_>>();
+            .map(|s| CString::new(s))
+            .collect::<Result<Vec<_>, _>>()?;
 
         // Grab their pointers into an array.
         let mut ptrs = strs
@@ -57,7 +59,7 @@ where
         // NULL-terminate the pointer array.
         ptrs.push(std::ptr::null());
 
-        Self { strs, ptrs }
+        Ok(Self { strs, ptrs })
     }
 }
 
@@ -82,7 +84,9 @@ pub fn dup2(fd: fd_t, fd2: fd_t) -> io::Result<()> {
 }
 
 pub fn execv(exe: String, args: Vec<String>) -> io::Result<()> {
-    let res = unsafe { libc::execv(exe.as_ptr() as *const i8, CStringVec::from(args).as_ptr()) };
+    let exe = CString::new(exe)?;
+    let args = CStringVec::new(args)?;
+    let res = unsafe { libc::execv(exe.as_ptr() as *const i8, args.as_ptr()) };
     // execv only returns on failure, with result -1.
     assert!(res == -1);
     Err(io::Error::last_os_error())
@@ -95,14 +99,10 @@ pub fn execve(exe: String, args: Vec<String>, env: Env) -> io::Result<()> {
         .map(|(n, v)| format!("{}={}", n, v))
         .collect();
 
-    let exe = CString::new(exe).unwrap();
-    let res = unsafe {
-        libc::execve(
-            exe.as_ptr() as *const i8,
-            CStringVec::from(args).as_ptr(),
-            CStringVec::from(env).as_ptr(),
-        )
-    };
+    let exe = CString::new(exe)?;
+    let args = CStringVec::new(args)?;
+    let env = CStringVec::new(env)?;
+    let res = unsafe { libc::execve(exe.as_ptr() as *const i8, args.as_ptr(), env.as_ptr()) };
     // execve only returns on failure, with result -1.
     assert!(res == -1);
     Err(io::Error::last_os_error())
@@ -163,10 +163,8 @@ pub fn mkstemp(template: &str) -> io::Result<(PathBuf, fd_t)> {
 }
 
 pub fn open(path: &Path, oflag: c_int, mode: c_int) -> io::Result<fd_t> {
-    let fd = unsafe {
-        let path = CString::new(path.to_str().unwrap()).unwrap();
-        libc::open(path.as_ptr() as *const i8, oflag, mode)
-    };
+    let path = CString::new(path.as_os_str().as_bytes())?;
+    let fd = unsafe { libc::open(path.as_ptr() as *const i8, oflag, mode) };
     match fd {
         -1 => Err(io::Error::last_os_error()),
         _ if fd >= 0 => Ok(fd),
-- 
2.43.0


From 35dd0ed236d3ea53715b1ef47662e47168fec7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 10/52] fix: truncate long startup errors instead of panicking
 in the child

An error message longer than 64 KiB, for instance because it names a long
executable path, panicked in the forked child process, which then carried on
as a second supervisor.
---
 src/err_pipe.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 0cdcce9..336f0fc 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -37,8 +37,8 @@ pub struct ErrorWriter {
 impl ErrorWriter {
     pub fn write(&self, error: String) -> Result<()> {
         let bytes = error.as_bytes();
-        // Encode the message len, which cannot be more than 64.
-        assert!(bytes.len() <= u16::MAX as usize);
+        // Truncate the message, if necessary, so we can encode its len.
+        let bytes = &bytes[..bytes.len().min(u16::MAX as usize)];
         let mut len = BytesMut::with_capacity(2);
         len.put_u16_le(bytes.len() as u16);
 
-- 
2.43.0


From 8d18078e2456750fe8f92fcbf3d5ffb807f5974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 11/52] fix: report processes that could not be forked as
 errors

Failing to create a pipe or to fork, when short of descriptors, memory or
processes, ended the supervisor, or broke off a start request half way.
---
 src/err_pipe.rs |  7 +++++++
 src/procs.rs    | 43 ++++++++++++++++++++++++++++++++-----------
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 336f0fc..629dd2c 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -114,6 +114,13 @@ impl ErrorPipe {
         ErrorPipe::get_errors(read_pipe).await
     }
 
+    /// Discards the pipe, if there was no fork.
+    pub fn close(self) {
+        let ErrorPipe { read_fd, write_fd } = self;
+        _ = sys::close(read_fd);
+        _ = sys::close(write_fd);
+    }
+
     /// To be called immediatley after `fork()` in the child process.  This is
     /// intentionally not `async`; we do not ever return control to the reactor
     /// in the child process.
diff --git a/src/procs.rs b/src/procs.rs
index 091ed10..fb67c25 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -566,19 +566,21 @@ pub fn start_procs(
         let exe = get_exe(exe, &argv);
         let env = environ::build(std::env::vars(), &env);
 
-        let error_pipe = ErrorPipe::new().unwrap_or_else(|err| {
-            error!("failed to create pipe: {}", err);
-            std::process::exit(1);
-        });
-
         let fd_handlers = fds
             .into_iter()
             .map(|(fd_str, fd_spec)| fd::make_fd_handler(&proc_id, fd_str, fd_spec, &mut pipes))
             .collect::<Vec<_>>();
 
         // Fork the child process.
-        match fork() {
-            Ok(0) => {
+        let forked = ErrorPipe::new().and_then(|error_pipe| match fork() {
+            Ok(pid) => Ok((pid, error_pipe)),
+            Err(err) => {
+                error_pipe.close();
+                Err(Error::from(err))
+            }
+        });
+        match forked {
+            Ok((0, error_pipe)) => {
                 // In the child process.
 
                 // Set up to write errors, if any, back to the parent.
@@ -621,7 +623,7 @@ pub fn start_procs(
                 std::process::exit(63);
             }
 
-            Ok(child_pid) => {
+            Ok((child_pid, error_pipe)) => {
                 // Parent process.
 
                 let start_time = Utc::now();
@@ -665,12 +667,31 @@ pub fn start_procs(
                 info!("proc started: {}", child_pid);
             }
 
-            Err(err) => panic!("failed to fork: {}", err),
+            Err(err) => {
+                // There is no child process.
+                error!("failed to create process: {}", err);
+                for (_, fd_handler) in fd_handlers.iter() {
+                    _ = fd_handler.in_parent();
+                }
+
+                // Register the proc, with the error.
+                let start_time = Utc::now();
+                let mut proc = Proc::new(0, start_time, Instant::now(), fd_handlers);
+                proc.errors
+                    .push(format!("failed to create process: {}", err));
+                proc.stop_time = Some(start_time);
+                proc.elapsed = Some(Duration::ZERO);
+                procs.insert(proc_id.clone(), Rc::new(RefCell::new(proc)));
+                procs.notify(Notification::NotRunning(proc_id));
+            }
         }
     }
 
-    // Both ends of all pipes should have been used.
-    assert!(pipes.close().unwrap() == 0);
+    // Both ends of all pipes have been used, except those to a proc that could
+    // not be set up.
+    if let Err(err) = pipes.close() {
+        error!("failed to close pipes: {}", err);
+    }
 
     Ok(tasks)
 }
-- 
2.43.0


From c5f86ff50ba07533a035455b3d5708fb80b0d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:36 +0000
Subject: [PATCH 12/52] fix: never report a process that failed to start as
 terminated

Errors from the child were recorded separately from its termination, possibly
later, so that it could be reported first as having run and exited with status
63.  The write end of the error pipe stayed open in the supervisor until its
task ran, and so also in processes forked meanwhile, delaying errors until
those processes executed their programs.
---
 src/err_pipe.rs | 14 +++++++++-----
 src/procs.rs    | 36 +++++++++++++++++++-----------------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 629dd2c..49fcd47 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -1,4 +1,5 @@
 use bytes::{BufMut, BytesMut};
+use std::future::Future;
 use std::io;
 use std::os::fd::RawFd;
 use tokio::io::AsyncReadExt;
@@ -101,17 +102,20 @@ impl ErrorPipe {
         errors
     }
 
-    pub async fn in_parent(self) -> Vec<String> {
+    pub fn in_parent(self) -> impl Future<Output = Vec<String>> {
         let ErrorPipe { read_fd, write_fd } = self;
 
         // Close the write pipe.  This is necessary so that we see EOF on the
         // read pipe once the child process closes the other open read fd,
-        // usually when it exec's.
+        // usually when it exec's.  Do this right away, so that no child process
+        // forked later inherits it.
         sys::close(write_fd).unwrap();
 
-        // Wrap the read pipe for async.
-        let read_pipe = PipeRead::from_raw_fd_checked(read_fd).unwrap();
-        ErrorPipe::get_errors(read_pipe).await
+        async move {
+            // Wrap the read pipe for async.
+            let read_pipe = PipeRead::from_raw_fd_checked(read_fd).unwrap();
+            ErrorPipe::get_errors(read_pipe).await
+        }
     }
 
     /// Discards the pipe, if there was no fork.
diff --git a/src/procs.rs b/src/procs.rs
index fb67c25..6aaf7f8 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -4,6 +4,7 @@ use libc::pid_t;
 use log::*;
 use std::cell::RefCell;
 use std::collections::{BTreeMap, HashSet};
+use std::future::Future;
 use std::os::fd::RawFd;
 use std::rc::Rc;
 use std::sync::RwLock;
@@ -447,7 +448,11 @@ impl SharedProcs {
     }
 }
 
-async fn wait_for_proc(proc: SharedProc, mut sigchld_receiver: SignalReceiver) {
+async fn wait_for_proc(
+    proc: SharedProc,
+    mut sigchld_receiver: SignalReceiver,
+    mut errors: Vec<String>,
+) {
     let pid = proc.borrow().pid;
 
     loop {
@@ -470,6 +475,8 @@ async fn wait_for_proc(proc: SharedProc, mut sigchld_receiver: SignalReceiver) {
             let mut proc = proc.borrow_mut();
             assert!(proc.wait_info.is_none());
             proc.wait_info = Some(wait_info);
+            // If it failed to start, say so from now on.
+            proc.errors.append(&mut errors);
             proc.proc_stat = proc_stat;
             proc.stop_time = Some(stop_time);
             proc.elapsed = Some(stop_instant.duration_since(proc.start_instant));
@@ -479,21 +486,15 @@ async fn wait_for_proc(proc: SharedProc, mut sigchld_receiver: SignalReceiver) {
 }
 
 /// Runs a recently-forked/execed process.
-async fn run_proc(proc: SharedProc, sigchld_receiver: SignalReceiver, error_pipe: ErrorPipe) {
-    // FIXME: Error pipe should append directly to errors, so that they are
-    // available earlier.
-    let error_task = {
-        let proc = Rc::clone(&proc);
-        tokio::task::spawn_local(async move {
-            let mut errors = error_pipe.in_parent().await;
-            proc.borrow_mut().errors.append(&mut errors);
-        })
-    };
-
-    let wait_task = tokio::task::spawn_local(wait_for_proc(proc, sigchld_receiver));
-
-    _ = error_task.await;
-    _ = wait_task.await;
+async fn run_proc(
+    proc: SharedProc,
+    sigchld_receiver: SignalReceiver,
+    errors: impl Future<Output = Vec<String>>,
+) {
+    // Collect errors until the child execs or exits.  We have to know about
+    // these before we report that the process isn't running.
+    let errors = errors.await;
+    wait_for_proc(proc, sigchld_receiver, errors).await;
 }
 
 //------------------------------------------------------------------------------
@@ -654,7 +655,8 @@ pub fn start_procs(
                 procs.insert(proc_id.clone(), proc.clone());
 
                 // Build the task that awaits the process.
-                let fut = run_proc(proc, sigchld_receiver.clone(), error_pipe);
+                let errors = error_pipe.in_parent();
+                let fut = run_proc(proc, sigchld_receiver.clone(), errors);
                 // Let subscribers know when it terminates.
                 let fut = {
                     let procs = procs.clone();
-- 
2.43.0


From 2b2c4999274ac2aa816881ce8fcbf83bd3073aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 13/52] fix: report all output of a terminated process captured
 in memory

Output still in the pipe when the process was collected was missing from
results reported, printed or written at that moment.
---
 src/fd.rs    | 69 +++++++++++++++++++++++++++++++++++++++++++++-------
 src/procs.rs |  3 +++
 src/sys.rs   |  9 +++++++
 3 files changed, 72 insertions(+), 9 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index 229b47c..aa32d1f 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -116,8 +116,8 @@ pub enum FdHandler {
     CaptureMemory {
         /// Proc-visible fd.
         fd: RawFd,
-        /// Read end of the pipe.
-        read_fd: RawFd,
+        /// Read end of the pipe, until EOF.
+        read_fd: Option<RawFd>,
         /// Write end of the pipe.
         write_fd: RawFd,
         /// Format for output.
@@ -317,7 +317,7 @@ impl SharedFdHandler {
                 let pipe_fds = sys::pipe()?;
                 FdHandler::CaptureMemory {
                     fd,
-                    read_fd: pipe_fds.read,
+                    read_fd: Some(pipe_fds.read),
                     write_fd: pipe_fds.write,
                     encoding,
                     buf: Vec::new(),
@@ -343,19 +343,26 @@ impl SharedFdHandler {
 
     /// Reads from the pipe read fd, appending data to `buf`, until EOF.
     async fn run_capture_memory(rc: Rc<RefCell<FdHandler>>) -> Result<()> {
-        let mut read_pipe = if let FdHandler::CaptureMemory { read_fd, .. } = *rc.borrow() {
+        let mut read_pipe = if let FdHandler::CaptureMemory {
+            read_fd: Some(read_fd),
+            ..
+        } = *rc.borrow()
+        {
             PipeRead::from_raw_fd_checked(read_fd)?
         } else {
             panic!();
         };
 
         let mut read_buf = [0 as u8; 65536]; // FIXME: What's the right size?
-        loop {
+        let res = loop {
             // Don't hold a ref to the handler object across await, so `buf` is
             // accessible elsewhere.
-            let len = read_pipe.read(&mut read_buf).await?;
+            let len = match read_pipe.read(&mut read_buf).await {
+                Ok(len) => len,
+                Err(err) => break Err(Error::from(err)),
+            };
             if len == 0 {
-                break;
+                break Ok(());
             } else {
                 if let &mut FdHandler::CaptureMemory { ref mut buf, .. } = &mut *rc.borrow_mut() {
                     buf.extend_from_slice(&read_buf[..len]);
@@ -363,8 +370,50 @@ impl SharedFdHandler {
                     panic!();
                 };
             }
+        };
+
+        // Done reading; the fd is closed along with `read_pipe`.
+        if let &mut FdHandler::CaptureMemory {
+            ref mut read_fd, ..
+        } = &mut *rc.borrow_mut()
+        {
+            *read_fd = None;
+        }
+        res
+    }
+
+    /// Collects output that the process has already written, without blocking.
+    ///
+    /// Called when the process has terminated, so that the output it wrote is
+    /// complete.  Another process may still hold the write end of the pipe, so
+    /// this doesn't wait for EOF.
+    pub fn drain(&self) {
+        if let &mut FdHandler::CaptureMemory {
+            read_fd: Some(read_fd),
+            ref mut buf,
+            ..
+        } = &mut *self.0.borrow_mut()
+        {
+            let mut read_buf = [0 as u8; 65536];
+            // In case another process keeps writing, read no more than what was
+            // in the pipe to start with.
+            let mut remaining = sys::get_readable_length(read_fd).unwrap_or(0);
+            while remaining > 0 {
+                let len = remaining.min(read_buf.len());
+                match sys::read(read_fd, &mut read_buf[..len]) {
+                    Ok(0) => break,
+                    Ok(len) => {
+                        buf.extend_from_slice(&read_buf[..len]);
+                        remaining -= len;
+                    }
+                    Err(ref err) if err.kind() == std::io::ErrorKind::Interrupted => {}
+                    Err(err) => {
+                        error!("failed to read output: {}", err);
+                        break;
+                    }
+                }
+            }
         }
-        Ok(())
     }
 
     pub fn in_parent(&self) -> Result<Option<JoinHandle<Result<()>>>> {
@@ -447,7 +496,9 @@ impl SharedFdHandler {
                 ..
             } => {
                 // In the child, don't read from the pipe.
-                sys::close(read_fd)?;
+                if let Some(read_fd) = read_fd {
+                    sys::close(read_fd)?;
+                }
                 // Attach the write pipe to the target fd.
                 sys::dup2(write_fd, fd)?;
                 sys::close(write_fd)?;
diff --git a/src/procs.rs b/src/procs.rs
index 6aaf7f8..e2005d4 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -474,6 +474,9 @@ async fn wait_for_proc(
             // Process terminated; update its stuff.
             let mut proc = proc.borrow_mut();
             assert!(proc.wait_info.is_none());
+            for (_, fd_handler) in proc.fd_handlers.iter() {
+                fd_handler.drain();
+            }
             proc.wait_info = Some(wait_info);
             // If it failed to start, say so from now on.
             proc.errors.append(&mut errors);
diff --git a/src/sys.rs b/src/sys.rs
index 445cb88..4d1b785 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -231,6 +231,15 @@ pub fn get_file_length(fd: RawFd) -> io::Result<i64> {
     Ok(fstat(fd)?.st_size)
 }
 
+/// Returns the number of bytes that may be read from a pipe without blocking.
+pub fn get_readable_length(fd: RawFd) -> io::Result<usize> {
+    let mut len: c_int = 0;
+    match unsafe { libc::ioctl(fd, libc::FIONREAD, &mut len) } {
+        -1 => Err(io::Error::last_os_error()),
+        _ => Ok(len as usize),
+    }
+}
+
 //------------------------------------------------------------------------------
 
 pub type WaitInfo = (pid_t, c_int, rusage);
-- 
2.43.0


From acff7c5c0de7a4aae3848bb9e211fd3e5eceea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 14/52] fix: don't leak capture files and pipes into other
 processes

Processes started while another was running inherited the supervisor's
descriptors of its capture file or the read end of its capture pipe.
---
 src/sys.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index 4d1b785..0923fea 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -149,16 +149,20 @@ pub fn setsid() -> io::Result<pid_t> {
     }
 }
 
+/// Creates and opens a temporary file; the fd is close-on-exec.
 pub fn mkstemp(template: &str) -> io::Result<(PathBuf, fd_t)> {
     let path = CString::new(template)?;
     let (fd, path) = unsafe {
         let ptr = path.into_raw();
-        (libc::mkstemp(ptr), CString::from_raw(ptr))
+        (
+            libc::mkostemp(ptr, libc::O_CLOEXEC),
+            CString::from_raw(ptr),
+        )
     };
     match fd {
         -1 => Err(io::Error::last_os_error()),
         _ if fd >= 0 => Ok((PathBuf::from(path.into_string().unwrap()), fd)),
-        _ => panic!("mkstemp returned {}", fd),
+        _ => panic!("mkostemp returned {}", fd),
     }
 }
 
@@ -179,10 +183,11 @@ pub struct RWPair<T> {
 
 /// Creates an anonymous pipe.
 ///
-/// Returns the read and write file descriptors of the ends of the pipe.
+/// Returns the read and write file descriptors of the ends of the pipe.  Both
+/// are close-on-exec.
 pub fn pipe() -> io::Result<RWPair<RawFd>> {
     let mut fildes: Vec<fd_t> = vec![-1, 2];
-    match unsafe { libc::pipe(fildes.as_mut_ptr()) } {
+    match unsafe { libc::pipe2(fildes.as_mut_ptr(), libc::O_CLOEXEC) } {
         -1 => Err(io::Error::last_os_error()),
         0 => Ok(RWPair {
             read: fildes[0],
-- 
2.43.0


From 20dd0609bef3831c7d4bd8334e21708a398a5825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 15/52] fix: wire up a process's fds whatever numbers the
 supervisor uses

Setting up a fd whose number happened to be one the supervisor uses for
another fd's capture or pipe, or for reporting errors, broke that other fd; a
fd could be duplicated from one of the supervisor's own; and closing a fd that
wasn't open was an error.
---
 src/err_pipe.rs |  7 ++++++
 src/fd.rs       | 64 +++++++++++++++++++++++++++++++++++++++----------
 src/procs.rs    | 26 ++++++++++++++++----
 src/sys.rs      | 19 +++++++++++++++
 4 files changed, 99 insertions(+), 17 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 49fcd47..e4b7c50 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -1,4 +1,5 @@
 use bytes::{BufMut, BytesMut};
+use std::collections::HashSet;
 use std::future::Future;
 use std::io;
 use std::os::fd::RawFd;
@@ -48,6 +49,12 @@ impl ErrorWriter {
         fdio::write(self.write_fd, &bytes)
     }
 
+    /// Moves the pipe out of the way of the `reserved` fds.
+    pub fn move_fd(&mut self, reserved: &HashSet<RawFd>) -> Result<()> {
+        self.write_fd = sys::move_fd(self.write_fd, reserved)?;
+        Ok(())
+    }
+
     /// Like [`write`], but ignores errors.
     pub fn try_write(&self, error: String) {
         _ = self.write(error);
diff --git a/src/fd.rs b/src/fd.rs
index aa32d1f..911b613 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -1,7 +1,7 @@
 use libc::c_int;
 use log::*;
 use std::cell::RefCell;
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, HashSet};
 use std::os::fd::RawFd;
 use std::path::PathBuf;
 use std::rc::Rc;
@@ -279,7 +279,11 @@ pub struct SharedFdHandler(Rc<RefCell<FdHandler>>);
 ///   the proc.  This method allocates any resources that must be accessible
 ///   both to Procstar and the proc.
 ///
-/// - Procstar calls `in_child()` in the child process after forking but before
+/// - Procstar calls `prepare_in_child()` for all fds in the child process after
+///   forking.  This method moves the fds used internally out of the way of the
+///   proc's own.
+///
+/// - Procstar then calls `in_child()` in the child process after forking but before
 ///   execing.  This method performs any additional allocations or cleanup
 ///   required in the child process.
 ///
@@ -453,17 +457,58 @@ impl SharedFdHandler {
         })
     }
 
+    /// Moves the fds we use internally out of the way of the proc-visible
+    /// `reserved` fds, in the child process, before `in_child()`.
+    pub fn prepare_in_child(&self, reserved: &HashSet<RawFd>) -> Result<()> {
+        match &mut *self.0.borrow_mut() {
+            FdHandler::UnlinkedFile { file_fd, .. } => {
+                *file_fd = sys::move_fd(*file_fd, reserved)?;
+            }
+
+            FdHandler::CaptureMemory {
+                read_fd, write_fd, ..
+            } => {
+                // In the child, don't read from the pipe.
+                if let Some(read_fd) = read_fd.take() {
+                    sys::close(read_fd)?;
+                }
+                *write_fd = sys::move_fd(*write_fd, reserved)?;
+            }
+
+            FdHandler::PipeWrite { pipe_write_fd, .. } => {
+                *pipe_write_fd = sys::move_fd(*pipe_write_fd, reserved)?;
+            }
+
+            FdHandler::PipeRead { pipe_read_fd, .. } => {
+                *pipe_read_fd = sys::move_fd(*pipe_read_fd, reserved)?;
+            }
+
+            FdHandler::Inherit
+            | FdHandler::Error { .. }
+            | FdHandler::Close { .. }
+            | FdHandler::Dup { .. }
+            | FdHandler::UnmanagedFile { .. } => {}
+        }
+        Ok(())
+    }
+
     pub fn in_child(self) -> Result<()> {
         match Rc::into_inner(self.0).unwrap().into_inner() {
             FdHandler::Inherit => {}
 
             FdHandler::Error { ref mut err } => return Err(std::mem::replace(err, Error::None)),
 
-            FdHandler::Close { fd } => {
-                sys::close(fd)?;
-            }
+            FdHandler::Close { fd } => match sys::close(fd) {
+                // It may not be open.
+                Err(err) if err.raw_os_error() != Some(libc::EBADF) => return Err(err.into()),
+                _ => {}
+            },
 
             FdHandler::Dup { fd, dup_fd } => {
+                // A fd that isn't for the proc may still be open here.
+                if sys::fcntl_getfd(dup_fd)? & libc::FD_CLOEXEC != 0 {
+                    return Err(std::io::Error::from_raw_os_error(libc::EBADF).into());
+                }
                 if dup_fd != fd {
                     sys::dup2(dup_fd, fd)?;
                 }
@@ -490,15 +535,8 @@ impl SharedFdHandler {
             }
 
             FdHandler::CaptureMemory {
-                fd,
-                read_fd,
-                write_fd,
-                ..
+                fd, write_fd, ..
             } => {
-                // In the child, don't read from the pipe.
-                if let Some(read_fd) = read_fd {
-                    sys::close(read_fd)?;
-                }
                 // Attach the write pipe to the target fd.
                 sys::dup2(write_fd, fd)?;
                 sys::close(write_fd)?;
diff --git a/src/procs.rs b/src/procs.rs
index e2005d4..7630726 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -588,7 +588,7 @@ pub fn start_procs(
                 // In the child process.
 
                 // Set up to write errors, if any, back to the parent.
-                let error_writer = error_pipe.in_child().unwrap();
+                let mut error_writer = error_pipe.in_child().unwrap();
                 // True if we should finally exec.
                 let mut ok_to_exec = true;
 
@@ -601,15 +601,33 @@ pub fn start_procs(
                     }
                 }
 
+                // Close pipes between other processes.
+                if let Err(err) = pipes.close() {
+                    error_writer.try_write(format!("failed to close pipes: {}", err));
+                    ok_to_exec = false;
+                }
+
+                // Make way for the process's fds.
+                let reserved = fd_handlers.iter().map(|(fd, _)| *fd).collect::<HashSet<_>>();
+                if let Err(err) = error_writer.move_fd(&reserved) {
+                    error_writer.try_write(format!("failed to set up error pipe: {}", err));
+                    std::process::exit(63);
+                }
+                for (fd, fd_handler) in fd_handlers.iter() {
+                    fd_handler
+                        .prepare_in_child(&reserved)
+                        .unwrap_or_else(|err| {
+                            error_writer.try_write(format!("failed to set up fd {}: {}", fd, err));
+                            ok_to_exec = false;
+                        });
+                }
+
                 for (fd, fd_handler) in fd_handlers.into_iter() {
                     fd_handler.in_child().unwrap_or_else(|err| {
                         error_writer.try_write(format!("failed to set up fd {}: {}", fd, err));
                         ok_to_exec = false;
                     });
                 }
-                // Close remaining pipes, having dup'ed those we connect to.
-                pipes.close().unwrap();
-
                 // Put the child process into a new session, to avoid
                 // getting signals from the parent process group.
                 if let Err(err) = setsid() {
diff --git a/src/sys.rs b/src/sys.rs
index 0923fea..fff16ab 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -1,6 +1,7 @@
 extern crate libc;
 
 use libc::{c_int, gid_t, pid_t, rusage, ssize_t, uid_t};
+use std::collections::HashSet;
 use std::ffi::CString;
 use std::fs;
 use std::io;
@@ -332,6 +333,24 @@ pub fn fcntl_setfd(fd: RawFd, flags: i32) -> io::Result<()> {
     }
 }
 
+/// Duplicates `fd`, close-on-exec, to a fd that is not in `reserved`, if `fd`
+/// is; otherwise returns `fd` itself.
+pub fn move_fd(fd: RawFd, reserved: &HashSet<RawFd>) -> io::Result<RawFd> {
+    let mut new_fd = fd;
+    let mut min_fd = 3;
+    while reserved.contains(&new_fd) {
+        new_fd = match unsafe { libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, min_fd) } {
+            -1 => return Err(io::Error::last_os_error()),
+            new_fd => new_fd,
+        };
+        if reserved.contains(&new_fd) {
+            close(new_fd)?;
+            min_fd = new_fd + 1;
+        }
+    }
+    Ok(new_fd)
+}
+
 pub fn set_cloexec(fd: RawFd) -> io::Result<()> {
     let flags = fcntl_getfd(fd)?;
     return if flags & libc::FD_CLOEXEC == 0 {
-- 
2.43.0


From 9b5b2b022f224db1e1964b297a6bbc2ead608d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:17 +0000
Subject: [PATCH 16/52] fix: start processes with default signal handling

Processes ignored SIGPIPE, because the Rust runtime does, so that a writer did
not end with its reader.  A signal sent to a process before it had executed
its program was handled by the supervisor's handlers, and lost.
---
 src/procs.rs | 15 +++++++++++++--
 src/sys.rs   | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index 7630726..6f3cbf0 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -24,7 +24,10 @@ use crate::sig::{SignalReceiver, SignalWatcher, Signum};
 use crate::spec;
 use crate::spec::ProcId;
 use crate::state::State;
-use crate::sys::{execve, fork, kill, setsid, wait, WaitInfo};
+use crate::sys::{
+    block_signals, execve, fork, kill, reset_signal_handlers, restore_signals, setsid, wait,
+    WaitInfo,
+};
 
 //------------------------------------------------------------------------------
 
@@ -575,7 +578,9 @@ pub fn start_procs(
             .map(|(fd_str, fd_spec)| fd::make_fd_handler(&proc_id, fd_str, fd_spec, &mut pipes))
             .collect::<Vec<_>>();
 
-        // Fork the child process.
+        // Fork the child process.  Block signals meanwhile, so that the child
+        // doesn't handle (and lose) signals sent to it with our handlers.
+        let sigmask = block_signals();
         let forked = ErrorPipe::new().and_then(|error_pipe| match fork() {
             Ok(pid) => Ok((pid, error_pipe)),
             Err(err) => {
@@ -583,10 +588,16 @@ pub fn start_procs(
                 Err(Error::from(err))
             }
         });
+        if !matches!(forked, Ok((0, _))) {
+            restore_signals(&sigmask);
+        }
         match forked {
             Ok((0, error_pipe)) => {
                 // In the child process.
 
+                reset_signal_handlers();
+                restore_signals(&sigmask);
+
                 // Set up to write errors, if any, back to the parent.
                 let mut error_writer = error_pipe.in_child().unwrap();
                 // True if we should finally exec.
diff --git a/src/sys.rs b/src/sys.rs
index fff16ab..c1ea294 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -109,6 +109,43 @@ pub fn execve(exe: String, args: Vec<String>, env: Env) -> io::Result<()> {
     Err(io::Error::last_os_error())
 }
 
+/// Blocks all signals, and returns the previous signal mask.
+pub fn block_signals() -> libc::sigset_t {
+    unsafe {
+        let mut all = MaybeUninit::<libc::sigset_t>::uninit();
+        let mut old = MaybeUninit::<libc::sigset_t>::uninit();
+        libc::sigfillset(all.as_mut_ptr());
+        libc::pthread_sigmask(libc::SIG_SETMASK, all.as_ptr(), old.as_mut_ptr());
+        old.assume_init()
+    }
+}
+
+/// Restores a signal mask.
+pub fn restore_signals(mask: &libc::sigset_t) {
+    unsafe {
+        libc::pthread_sigmask(libc::SIG_SETMASK, mask, std::ptr::null_mut());
+    }
+}
+
+/// Restores the default action of each signal we handle, as well as of SIGPIPE,
+/// which the Rust runtime ignores.
+pub fn reset_signal_handlers() {
+    for signum in 1..=libc::SIGRTMAX() {
+        unsafe {
+            let mut action = MaybeUninit::<libc::sigaction>::uninit();
+            if libc::sigaction(signum, std::ptr::null(), action.as_mut_ptr()) != 0 {
+                continue;
+            }
+            let handler = action.assume_init().sa_sigaction;
+            if signum == libc::SIGPIPE
+                || (handler != libc::SIG_DFL && handler != libc::SIG_IGN)
+            {
+                libc::signal(signum, libc::SIG_DFL);
+            }
+        }
+    }
+}
+
 pub fn fork() -> io::Result<pid_t> {
     let child_pid = unsafe { libc::fork() };
     assert!(child_pid >= -1);
-- 
2.43.0


From 6322cb73741a49437a593cf1310d010030876c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 17/52] fix: don't fail all process queries when the boot time
 can't be read

---
 src/sys.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index c1ea294..cf64f87 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -484,19 +484,11 @@ pub fn get_clk_tck() -> io::Result<i64> {
 
 lazy_static! {
     pub static ref BOOT_TIME: std::time::SystemTime = {
-        let uptime = std::fs::read_to_string("/proc/uptime");
+        // The same clock as /proc/uptime, but reading it doesn't require a fd.
+        let mut uptime: libc::timespec = unsafe { std::mem::zeroed() };
+        unsafe { libc::clock_gettime(libc::CLOCK_BOOTTIME, &mut uptime) };
         std::time::SystemTime::now()
-            - std::time::Duration::from_secs_f64(
-                uptime
-                    .unwrap()
-                    .trim()
-                    .split(' ')
-                    .into_iter()
-                    .next()
-                    .unwrap()
-                    .parse::<f64>()
-                    .unwrap(),
-            )
+            - std::time::Duration::new(uptime.tv_sec as u64, uptime.tv_nsec as u32)
     };
     pub static ref PAGE_SIZE: u64 = (unsafe { libc::sysconf(libc::_SC_PAGESIZE) }) as u64;
 }
-- 
2.43.0


From f64245e0dc02e4850debb149f9b64b8b65fdd379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 18/52] fix: don't panic on an executable without arguments

---
 src/procs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index 6f3cbf0..869c187 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -521,7 +521,7 @@ pub fn get_restricted_exe() -> Option<String> {
 /// Returns the path to the executable to exec for the process.
 fn get_exe(exe: Option<String>, argv: &Vec<String>) -> String {
     // Use the explicit exe, if given, else argv[0] per convention.
-    exe.unwrap_or(argv[0].clone())
+    exe.unwrap_or_else(|| argv[0].clone())
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From be36106047296dd149659b4354c21225199d95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:53 +0000
Subject: [PATCH 19/52] fix: don't panic on environment variables that aren't
 UTF-8

---
 src/environ.rs | 24 ++++++++++++++++--------
 src/net.rs     | 16 +++-------------
 src/procs.rs   |  2 +-
 src/sys.rs     | 12 +++++-------
 4 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/src/environ.rs b/src/environ.rs
index 31c11f6..d5de572 100644
--- a/src/environ.rs
+++ b/src/environ.rs
@@ -1,11 +1,13 @@
 use std::collections::BTreeMap;
+use std::ffi::OsString;
 use std::vec::Vec;
 
 use crate::spec;
 
 //------------------------------------------------------------------------------
 
-pub type Env = BTreeMap<String, String>;
+/// Inherited env vars aren't necessarily UTF-8.
+pub type Env = BTreeMap<OsString, OsString>;
 
 lazy_static! {
     /// Env vars that are not inherited.
@@ -18,20 +20,26 @@ lazy_static! {
     };
 }
 
-pub fn build<I: Iterator<Item = (String, String)>>(start_env: I, spec: &spec::Env) -> Env {
-    let mut env: Env = match &spec.inherit {
-        spec::EnvInherit::None => Env::new(),
+pub fn build<S, I>(start_env: I, spec: &spec::Env) -> BTreeMap<S, S>
+where
+    S: Ord + for<'a> From<&'a str>,
+    I: Iterator<Item = (S, S)>,
+{
+    let mut env: BTreeMap<S, S> = match &spec.inherit {
+        spec::EnvInherit::None => BTreeMap::new(),
         spec::EnvInherit::All => start_env.collect(),
-        spec::EnvInherit::Vars(vars) => start_env.filter(|(v, _)| vars.contains(v)).collect(),
+        spec::EnvInherit::Vars(vars) => start_env
+            .filter(|(n, _)| vars.iter().any(|v| *n == S::from(v)))
+            .collect(),
     };
     for k in EXCLUSIONS.iter() {
-        _ = env.remove(*k);
+        _ = env.remove(&S::from(k));
     }
     for (k, v) in spec.vars.iter() {
         if let Some(v) = v {
-            env.insert(k.to_owned(), v.to_owned());
+            env.insert(S::from(k), S::from(v));
         } else {
-            _ = env.remove(k);
+            _ = env.remove(&S::from(k));
         }
     }
     env
diff --git a/src/net.rs b/src/net.rs
index 63a6d12..1323c6d 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -7,10 +7,7 @@ use crate::err::Error;
 pub fn get_tls_connector() -> Result<TlsConnector, Error> {
     let mut builder = native_tls::TlsConnector::builder();
 
-    if let Some((_, cert_path)) = std::env::vars()
-        .filter(|(n, _)| n == "PROCSTAR_AGENT_CERT")
-        .next()
-    {
+    if let Some(cert_path) = std::env::var_os("PROCSTAR_AGENT_CERT") {
         let cert = std::fs::read_to_string(cert_path)?;
         let cert = native_tls::Certificate::from_pem(&cert.as_bytes())?;
         builder.add_root_certificate(cert);
@@ -20,13 +17,6 @@ pub fn get_tls_connector() -> Result<TlsConnector, Error> {
 }
 
 pub fn get_access_token() -> String {
-    if let Some((_, token)) = std::env::vars()
-        .filter(|(n, _)| n == "PROCSTAR_AGENT_TOKEN")
-        .next()
-    {
-        token
-    } else {
-        // No token is equivalent to the empty string.
-        String::new()
-    }
+    // No token is equivalent to the empty string.
+    std::env::var("PROCSTAR_AGENT_TOKEN").unwrap_or_default()
 }
diff --git a/src/procs.rs b/src/procs.rs
index 869c187..b5309b7 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -571,7 +571,7 @@ pub fn start_procs(
             ..
         } = spec;
         let exe = get_exe(exe, &argv);
-        let env = environ::build(std::env::vars(), &env);
+        let env = environ::build(std::env::vars_os(), &env);
 
         let fd_handlers = fds
             .into_iter()
diff --git a/src/sys.rs b/src/sys.rs
index cf64f87..3f09a97 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -44,7 +44,8 @@ impl CStringVec {
     /// Fails if a string contains a nul.
     fn new<T>(strings: T) -> io::Result<Self>
     where
-        T: IntoIterator<Item = String>,
+        T: IntoIterator,
+        T::Item: Into<Vec<u8>>,
     {
         // Build nul-terminated strings.
         let strs = strings
@@ -95,9 +96,9 @@ pub fn execv(exe: String, args: Vec<String>) -> io::Result<()> {
 
 pub fn execve(exe: String, args: Vec<String>, env: Env) -> io::Result<()> {
     // Construct NAME=val strings for env vars.
-    let env: Vec<String> = env
+    let env: Vec<Vec<u8>> = env
         .into_iter()
-        .map(|(n, v)| format!("{}={}", n, v))
+        .map(|(n, v)| [n.as_bytes(), b"=", v.as_bytes()].concat())
         .collect();
 
     let exe = CString::new(exe)?;
@@ -497,8 +498,5 @@ lazy_static! {
 
 /// Returns the value of an environment variable.
 pub fn getenv(name: &str) -> Option<String> {
-    std::env::vars()
-        .filter(|(n, _)| n == name)
-        .next()
-        .map(|(_, v)| v)
+    std::env::var(name).ok()
 }
-- 
2.43.0


From 1fc0ad82dd7ccefd0ccb3916e20534dc87b6909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:02 +0000
Subject: [PATCH 20/52] fix: close the capture file that can't be unlinked

---
 src/fd.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fd.rs b/src/fd.rs
index 911b613..d27f35e 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -180,7 +180,10 @@ fn open_unlinked_temp_file(
     // Open a temp file.
     let (tmp_path, tmp_fd) = sys::mkstemp(PATH_TMP_TEMPLATE)?;
     // Unlink it.
-    std::fs::remove_file(tmp_path)?;
+    if let Err(err) = std::fs::remove_file(tmp_path) {
+        _ = sys::close(tmp_fd);
+        return Err(err.into());
+    }
     // Since it's unlinked, we don't have to deal with it later.
     Ok(FdHandler::UnlinkedFile {
         fd,
-- 
2.43.0


From 53fbb96920d8116e01b90886a1ae53b9c7a9f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 21/52] fix: don't write connection errors into printed results

---
 src/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 9beff76..768b07d 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -274,7 +274,7 @@ pub async fn run_http(procs: SharedProcs, port: u16) -> Result<(), Box<dyn std::
                 .serve_connection(stream, service)
                 .await
             {
-                println!("Error serving connection: {:?}", err);
+                warn!("error serving connection: {:?}", err);
             }
         });
     }
-- 
2.43.0


From e46e7831a63345b1e464f9e6fe80b3b07022b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 22/52] fix: don't panic when results can't be printed

---
 src/main.rs | 1 -
 src/res.rs  | 6 ++++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index fdfa3e7..c6174d7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -74,7 +74,6 @@ async fn maybe_run_until_exit(args: &argv::Args, procs: &SharedProcs) {
                 error!("failed to print output: {}", err);
                 std::process::exit(exitcode::OSFILE);
             });
-            println!("");
         }
         if let Some(ref path) = args.output {
             // Write them to a file.
diff --git a/src/res.rs b/src/res.rs
index 37ee3ad..db2173d 100644
--- a/src/res.rs
+++ b/src/res.rs
@@ -3,6 +3,7 @@ use base64::Engine;
 use libc::{c_int, pid_t, rusage};
 use serde::{Deserialize, Serialize};
 use std::collections::BTreeMap;
+use std::io::Write;
 use std::path::{Path, PathBuf};
 
 use crate::procinfo::{ProcStat, ProcStatm};
@@ -267,8 +268,9 @@ pub type Res = BTreeMap<ProcId, ProcRes>;
 //------------------------------------------------------------------------------
 
 pub fn print(result: &Res) -> std::io::Result<()> {
-    serde_json::to_writer(std::io::stdout(), result).unwrap();
-    Ok(())
+    let mut out = std::io::stdout().lock();
+    serde_json::to_writer(&mut out, result)?;
+    writeln!(out)
 }
 
 pub fn dump_file<P: AsRef<Path>>(result: &Res, path: P) -> std::io::Result<()> {
-- 
2.43.0


From 2d3604a471222bcaaa8e9759f726720e892a18c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 23/52] fix: don't go back to idling once shutdown is done

---
 src/procs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/procs.rs b/src/procs.rs
index b5309b7..05d131b 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -425,6 +425,10 @@ impl SharedProcs {
 
     /// Requests shutdown.
     pub fn set_shutdown(&self, state: shutdown::State) {
+        if matches!(self.get_shutdown(), shutdown::State::Done) {
+            // Already shutting down for good; don't go back.
+            return;
+        }
         self.0.borrow_mut().shutdown.0.send(state.clone()).unwrap();
         self.notify(Notification::ShutDown(state));
         self.check_idling();
-- 
2.43.0


From 32174b384257aba1edf1ee3b5f8f5c225885ad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 24/52] fix: don't drop the agent connection on an unsolicited
 pong

---
 src/agent.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/agent.rs b/src/agent.rs
index c5c3699..13b5183 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -81,6 +81,8 @@ async fn handle(procs: &SharedProcs, msg: Message) -> Result<Option<Message>, Er
             }
         }
         Message::Ping(payload) => Ok(Some(Message::Pong(payload))),
+        // Pongs may be sent unsolicited; see RFC 6455.
+        Message::Pong(_) => Ok(None),
         Message::Close(_) => Err(Error::from(proto::Error::Close)),
         _ => Err(Error::from(proto::Error::WrongMessageType(format!(
             "unexpected ws msg: {:?}",
-- 
2.43.0


From 97c1b20029063bb8cc96454ce373826c7d0a3a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 25/52] fix: don't panic when the reconnect interval overflows

---
 src/agent.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/agent.rs b/src/agent.rs
index 13b5183..62d8cd2 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -230,7 +230,9 @@ pub async fn run(
                 sleep(interval).await;
 
                 // Exponential backoff in interval.
-                interval = interval.mul_f64(cfg.interval_mult);
+                interval =
+                    Duration::try_from_secs_f64(interval.as_secs_f64() * cfg.interval_mult)
+                        .unwrap_or(cfg.interval_max);
                 if cfg.interval_max < interval {
                     interval = cfg.interval_max;
                 }
-- 
2.43.0


From 16ba5dbe0ad09fcac28e6151d613ae4416b5f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 26/52] fix: send the agent server what happens while it
 registers us

---
 src/agent.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index 62d8cd2..2831074 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -13,7 +13,7 @@ use url::Url;
 use crate::err::Error;
 use crate::net::{get_access_token, get_tls_connector};
 use crate::procinfo::ProcessInfo;
-use crate::procs::{get_restricted_exe, Notification, SharedProcs};
+use crate::procs::{get_restricted_exe, Notification, NotificationSub, SharedProcs};
 use crate::proto;
 use crate::proto::{ConnectionInfo, IncomingMessage, OutgoingMessage};
 use crate::shutdown;
@@ -101,12 +101,16 @@ async fn send(sender: &mut SocketSender, msg: OutgoingMessage) -> Result<(), Err
 async fn connect(
     connection: &mut Connection,
     procs: &SharedProcs,
-) -> Result<(SocketSender, SocketReceiver), Error> {
+) -> Result<(SocketSender, SocketReceiver, NotificationSub), Error> {
     let connector = Connector::NativeTls(get_tls_connector()?);
     let (ws_stream, _) =
         connect_async_tls_with_config(&connection.url, None, false, Some(connector)).await?;
     let (mut sender, mut receiver) = ws_stream.split();
 
+    // Subscribe before listing procs in the register message, so that we don't
+    // miss anything that happens before the server answers.
+    let sub = procs.subscribe();
+
     // Send a register message.
     let register = OutgoingMessage::Register {
         conn: connection.conn.clone(),
@@ -121,7 +125,7 @@ async fn connect(
     let msg = receiver.next().await;
     match msg {
         Some(Ok(Message::Binary(ref data))) => match deserialize(data)? {
-            IncomingMessage::Registered => Ok((sender, receiver)),
+            IncomingMessage::Registered => Ok((sender, receiver, sub)),
             _msg => Err(proto::Error::UnexpectedMessage(_msg))?,
         },
         Some(Ok(Message::Close(_))) => Err(proto::Error::WrongMessageType(
@@ -212,11 +216,11 @@ pub async fn run(
 
         // (Re)connect to the service.
         info!("agent connecting: {}", connection.url);
-        let (mut sender, mut receiver) = match connect(&mut connection, &procs).await
+        let (mut sender, mut receiver, mut sub) = match connect(&mut connection, &procs).await
         {
-            Ok(pair) => {
+            Ok(connected) => {
                 info!("agent connected: {}", connection.url);
-                pair
+                connected
             }
             Err(err) => {
                 warn!("agent connection failed: {}: {}", connection.url, err);
@@ -247,8 +251,6 @@ pub async fn run(
         interval = cfg.interval_start;
         count = 0;
 
-        let mut sub = procs.subscribe();
-
         // Simultaneously wait for an incoming websocket message or a
         // notification, dispatching either.  Also watch for shutdown.
         while !done {
-- 
2.43.0


From 04e7e129263e99b4065bfc23c0b1474778697e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 27/52] fix: don't wait for ever for an agent server that
 doesn't respond

---
 src/agent.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index 2831074..34aeb63 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -3,7 +3,7 @@ use futures_util::{SinkExt, StreamExt};
 use log::*;
 use std::time::Duration;
 use tokio::net::TcpStream;
-use tokio::time::sleep;
+use tokio::time::{sleep, timeout};
 use tokio_tungstenite::tungstenite::protocol::Message;
 use tokio_tungstenite::{
     connect_async_tls_with_config, Connector, MaybeTlsStream, WebSocketStream,
@@ -20,6 +20,9 @@ use crate::shutdown;
 
 //------------------------------------------------------------------------------
 
+/// How long to wait for the server to accept and register a connection.
+const CONNECT_TIMEOUT: Duration = Duration::from_secs(30);
+
 /// The read end of a split websocket.
 pub type SocketReceiver = SplitStream<WebSocketStream<MaybeTlsStream<TcpStream>>>;
 
@@ -216,8 +219,10 @@ pub async fn run(
 
         // (Re)connect to the service.
         info!("agent connecting: {}", connection.url);
-        let (mut sender, mut receiver, mut sub) = match connect(&mut connection, &procs).await
-        {
+        let res = timeout(CONNECT_TIMEOUT, connect(&mut connection, &procs))
+            .await
+            .unwrap_or_else(|_| Err(std::io::Error::from(std::io::ErrorKind::TimedOut).into()));
+        let (mut sender, mut receiver, mut sub) = match res {
             Ok(connected) => {
                 info!("agent connected: {}", connection.url);
                 connected
-- 
2.43.0


From ca8d88af8be8fce2661c43b7aa1fd370d0802824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 28/52] fix: don't wait for an unresponsive agent server when
 shutting down

---
 src/agent.rs | 14 ++++++++++----
 src/main.rs  | 12 ++++++++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index 34aeb63..17ffaae 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -219,9 +219,12 @@ pub async fn run(
 
         // (Re)connect to the service.
         info!("agent connecting: {}", connection.url);
-        let res = timeout(CONNECT_TIMEOUT, connect(&mut connection, &procs))
-            .await
-            .unwrap_or_else(|_| Err(std::io::Error::from(std::io::ErrorKind::TimedOut).into()));
+        let res = tokio::select! {
+            res = timeout(CONNECT_TIMEOUT, connect(&mut connection, &procs)) => res,
+            _ = procs.wait_for_shutdown() => break,
+        };
+        let res =
+            res.unwrap_or_else(|_| Err(std::io::Error::from(std::io::ErrorKind::TimedOut).into()));
         let (mut sender, mut receiver, mut sub) = match res {
             Ok(connected) => {
                 info!("agent connected: {}", connection.url);
@@ -236,7 +239,10 @@ pub async fn run(
                 }
 
                 // Take a break.
-                sleep(interval).await;
+                tokio::select! {
+                    _ = sleep(interval) => {},
+                    _ = procs.wait_for_shutdown() => break,
+                }
 
                 // Exponential backoff in interval.
                 interval =
diff --git a/src/main.rs b/src/main.rs
index c6174d7..793a160 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -13,9 +13,14 @@ use procstar::shutdown;
 use procstar::shutdown::{install_signal_handler, SignalStyle};
 use procstar::sig::{SIGINT, SIGQUIT, SIGTERM, SIGUSR1};
 use procstar::spec;
+use std::time::Duration;
+use tokio::time::timeout;
 
 //------------------------------------------------------------------------------
 
+/// How long the agent connection may take to complete when shutting down.
+const AGENT_TIMEOUT: Duration = Duration::from_secs(3);
+
 async fn maybe_run_http(args: &argv::Args, procs: &SharedProcs) {
     if args.serve {
         // Run the HTTP server until we receive a shutdown signal.
@@ -49,8 +54,11 @@ async fn maybe_run_agent(args: &argv::Args, procs: &SharedProcs) {
         tokio::select! {
             _ = &mut run => {},
             _ = procs.wait_for_shutdown() => {
-                // Make sure the connection loop completes too.
-                run.await;
+                // Make sure the connection loop completes too, unless the
+                // server is not responding.
+                if timeout(AGENT_TIMEOUT, run).await.is_err() {
+                    warn!("agent connection remains");
+                }
             },
         }
     }
-- 
2.43.0


From 396bbb2c6b4ec029f91c14723dd1cf1fb1b02882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 29/52] fix: make the Python client importable with Python 3.11
 and later

A dataclass default may not be an unhashable dataclass instance.
---
 python/procstar/agent/proc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index b804db5..a8e1a5e 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -4,7 +4,7 @@ Processes on connected procstar instances.
 
 import asyncio
 from   collections.abc import Mapping
-from   dataclasses import dataclass
+from   dataclasses import dataclass, field
 from   functools import cached_property
 import logging
 
@@ -70,7 +70,7 @@ class FdData:
     """
     The interval of output bytes contained in this update.
     """
-    interval: Interval = Interval(0, 0)
+    interval: Interval = field(default_factory=lambda: Interval(0, 0))
 
     """
     The output encoding.
-- 
2.43.0


From 3bc65036c0d4590a6a97b0d589820b65c3019a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 30/52] fix: don't drop a reconnected agent when its old
 connection ends

The end of a replaced connection set a reconnect timeout on, or removed, the
agent that is served on a newer connection.
---
 python/procstar/agent/server.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index 0af9046..6e6c5ec 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -241,9 +241,10 @@ class Server:
                             done = True
                         self.connections._publish((conn_id, conn))
 
-            # Update stats.
-            conn.info.stats.connected = False
-            conn.info.stats.last_disconnect_time = now()
+            if conn.ws is ws:
+                # Update stats.
+                conn.info.stats.connected = False
+                conn.info.stats.last_disconnect_time = now()
 
             await ws.close()
 
@@ -254,7 +255,11 @@ class Server:
             self.connections._publish((conn_id, conn))
 
         finally:
-            if done:
+            if conn.ws is not ws:
+                # The agent has reconnected; the new connection takes over.
+                pass
+
+            elif done:
                 assert self.connections._pop(conn_id) is conn
 
             # Else don't drop the connection yet; the agent may reconnect.  But
-- 
2.43.0


From bc395aaa8b62b7b8232e29087656f9673b70e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 31/52] fix: ignore messages from a replaced agent connection

They are older than what the new connection brought.
---
 python/procstar/agent/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index 6e6c5ec..2175110 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -227,6 +227,10 @@ class Server:
                 except ConnectionClosedError as err:
                     logger.warning(f"closed: {conn_id}: {err}")
                     break
+                if conn.ws is not ws:
+                    # The agent has reconnected since it sent this.
+                    logger.warning(f"replaced: {conn_id}")
+                    break
                 type, msg = proto.deserialize_message(msg)
                 # Process the message.
                 conn.info.stats.num_received += 1
-- 
2.43.0


From 886db1097aa6a23c25a12d901ea68423c9251323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 32/52] fix: don't drop an agent over the deletion of an
 unknown process

The KeyError ended the connection.
---
 python/procstar/agent/proc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index a8e1a5e..47e03fc 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -272,7 +272,12 @@ class Processes(Mapping):
                 get_proc(proc_id)._on_message(msg)
 
             case proto.ProcDelete(proc_id) | proto.ProcUnknown(proc_id):
-                self.__procs.pop(proc_id)._on_message(msg)
+                try:
+                    proc = self.__procs.pop(proc_id)
+                except KeyError:
+                    logger.warning(f"unknown proc on {conn_id}: {msg}")
+                else:
+                    proc._on_message(msg)
 
             case proto.Register:
                 # We should receive this only immediately after connection.
-- 
2.43.0


From 970cf93a6047975d9c13b11abf75b8c3da047dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 33/52] fix: don't lose the first updates of a started process

The agent's response may arrive before sending the request completes, in which
case it was either lost or its process was replaced by a new one.
---
 python/procstar/agent/proc.py   |  8 ++++++++
 python/procstar/agent/server.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index 47e03fc..3e60368 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -230,6 +230,14 @@ class Processes(Mapping):
         return proc
 
 
+    def discard(self, proc):
+        """
+        Forgets `proc`.
+        """
+        if self.__procs.get(proc.proc_id) is proc:
+            del self.__procs[proc.proc_id]
+
+
     def on_message(self, conn, msg):
         """
         Processes `msg` to the corresponding process.
diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index 2175110..a194383 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -311,8 +311,14 @@ class Server:
             timeout=conn_timeout,
         )
 
-        await conn.send(proto.ProcStartRequest(specs={proc_id: spec}))
-        return self.processes.create(conn, proc_id)
+        # Add the process first, as the agent may respond before `send()` returns.
+        proc = self.processes.create(conn, proc_id)
+        try:
+            await conn.send(proto.ProcStartRequest(specs={proc_id: spec}))
+        except Exception:
+            self.processes.discard(proc)
+            raise
+        return proc
 
 
     async def start(self, *args, **kw_args) -> (Process, Result):
-- 
2.43.0


From d126108de6385c39efbf06976aae9ae9d42a51ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 34/52] fix: reconnect to a process on an open connection
 without a timeout

`wait_for()` with a timeout of 0, the default, always timed out.
---
 python/procstar/agent/server.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index a194383..e18d3ec 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -345,13 +345,15 @@ class Server:
         :raise NoConnectionError:
           Timeout waiting for connection.
         """
-        try:
-            conn = await asyncio.wait_for(
-                wait_for_connection(self.connections, conn_id),
-                timeout=conn_timeout
-            )
-        except asyncio.TimeoutError:
-            raise NoConnectionError(conn_id)
+        conn = self.connections.get(conn_id)
+        if conn is None or not conn.open:
+            try:
+                conn = await asyncio.wait_for(
+                    wait_for_connection(self.connections, conn_id),
+                    timeout=conn_timeout
+                )
+            except asyncio.TimeoutError:
+                raise NoConnectionError(conn_id)
 
         try:
             return self.processes[proc_id]
-- 
2.43.0


From a2cc9a66d86d0c14035bf1b1cb09b7629487d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 35/52] fix: forget the processes of an agent that is given up

If the agent returns after all, its processes could not be followed, as their
updates had ended.
---
 python/procstar/agent/proc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index 3e60368..ed926ee 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -257,12 +257,14 @@ class Processes(Mapping):
                 logger.info(f"new proc on {conn_id}: {proc_id}")
                 return self.create(conn, proc_id)
 
-        def send_by_conn():
+        def pop_by_conn():
             """
-            Dispatches the current msg to all processes on this connection.
+            Removes and dispatches the current msg to all processes on this
+            connection.
             """
-            for proc in self.__procs.values():
+            for proc in tuple(self.__procs.values()):
                 if proc.conn_id == conn_id:
+                    del self.__procs[proc.proc_id]
                     proc._on_message(msg)
 
         match msg:
@@ -308,7 +310,7 @@ class Processes(Mapping):
 
             case proto.ConnectionTimeout():
                 logger.warning(f"agent connection timeout: {conn_id}")
-                send_by_conn()
+                pop_by_conn()
 
             case proto.ShutDown(shutdown_state):
                 logger.info(f"agent shut down: {conn_id}: {shutdown_state}")
-- 
2.43.0


From 26b01dbe6b38166734413e3f9d49e6de38201021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 36/52] fix: report sending on a cleanly closed connection as
 not open

As documented, and as for a connection closed with an error.
---
 python/procstar/agent/conn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/procstar/agent/conn.py b/python/procstar/agent/conn.py
index b15dfe7..1280d96 100644
--- a/python/procstar/agent/conn.py
+++ b/python/procstar/agent/conn.py
@@ -10,7 +10,7 @@ import ipaddress
 import logging
 import random
 import time
-from   websockets.exceptions import ConnectionClosedError
+from   websockets.exceptions import ConnectionClosed
 
 from   .exc import NoOpenConnectionInGroup, NotConnectedError, WebSocketNotOpen
 from   procstar.lib.asyn import Subscribeable
@@ -168,7 +168,7 @@ class Connection:
         data = serialize_message(msg)
         try:
             await self.ws.send(data)
-        except ConnectionClosedError:
+        except ConnectionClosed:
             assert self.ws.closed
             # Connection closed.  Don't forget about it; it may reconnect.
             logger.warning(f"{self.info.socket}: connection closed")
-- 
2.43.0


From 37063d124d121be2631c1026b171a5ae112bd2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 37/52] fix: end the updates of processes of an agent that has
 shut down

Anyone following a process of an agent that shut down waited forever.
---
 python/procstar/agent/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index e18d3ec..b526a29 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -265,6 +265,8 @@ class Server:
 
             elif done:
                 assert self.connections._pop(conn_id) is conn
+                # The agent is gone; don't leave anyone waiting for it.
+                self.processes.on_message(conn, proto.ConnectionTimeout())
 
             # Else don't drop the connection yet; the agent may reconnect.  But
             # we may add a timeout to do this.
-- 
2.43.0


From c5d39355e0a42f0738aed077d839f7f4d92a243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 38/52] fix: tell of a process's deletion before shutting down
 idle

---
 src/procs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index 05d131b..8fe8d4b 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -311,8 +311,8 @@ impl SharedProcs {
         // OK, we can proceed with removing.
         let proc = procs.procs.remove(proc_id).unwrap();
         drop(procs);
-        self.check_idling();
         self.notify(Notification::Delete(proc_id.clone()));
+        self.check_idling();
         Ok(proc)
     }
 
-- 
2.43.0


From 974885abf056bf492ed9ffe09b4a2007352c972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 39/52] fix: decode process IDs in HTTP paths

---
 src/http.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index 768b07d..1c6875c 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -155,6 +155,28 @@ async fn procs_output_data_get(procs: SharedProcs, proc_id: &str, fd: &str) -> R
 
 //------------------------------------------------------------------------------
 
+/// Decodes percent-encoded bytes in a path component.  Leaves it alone if it
+/// isn't properly encoded.
+fn percent_decode(component: &str) -> String {
+    let bytes = component.as_bytes();
+    let mut decoded = Vec::with_capacity(bytes.len());
+    let mut i = 0;
+    while i < bytes.len() {
+        let hex = |b: Option<&u8>| b.and_then(|&b| (b as char).to_digit(16));
+        match (bytes[i], hex(bytes.get(i + 1)), hex(bytes.get(i + 2))) {
+            (b'%', Some(hi), Some(lo)) => {
+                decoded.push((hi * 16 + lo) as u8);
+                i += 3;
+            }
+            (b, _, _) => {
+                decoded.push(b);
+                i += 1;
+            }
+        }
+    }
+    String::from_utf8(decoded).unwrap_or_else(|_| component.to_string())
+}
+
 struct Router {
     router: matchit::Router<i32>,
 }
@@ -195,7 +217,7 @@ impl Router {
         let (parts, body) = req.into_parts();
         match self.router.at(parts.uri.path()) {
             Ok(m) => {
-                let param = |p| m.params.get(p).unwrap();
+                let param = |p| percent_decode(m.params.get(p).unwrap());
                 match (m.value, parts.method.clone()) {
                     // Match route numbers obtained from the matchit router, and
                     // methods.
@@ -207,15 +229,15 @@ impl Router {
                         };
                         json_response(procs_post(procs, input).await)
                     }
-                    (1, Method::GET) => json_response(procs_id_get(procs, param("id")).await),
-                    (1, Method::DELETE) => json_response(procs_id_delete(procs, param("id")).await),
+                    (1, Method::GET) => json_response(procs_id_get(procs, &param("id")).await),
+                    (1, Method::DELETE) => json_response(procs_id_delete(procs, &param("id")).await),
 
                     (2, Method::POST) => json_response(
-                        procs_signal_signum_post(procs, param("id"), param("signum")).await,
+                        procs_signal_signum_post(procs, &param("id"), &param("signum")).await,
                     ),
 
                     (3, Method::GET) => {
-                        procs_output_data_get(procs, param("id"), param("fd")).await
+                        procs_output_data_get(procs, &param("id"), &param("fd")).await
                     }
                     // Route number (i.e. path match) but no method match.
                     (_, _) => json_response(Err(RspError(StatusCode::METHOD_NOT_ALLOWED, None))),
-- 
2.43.0


From ab6a6cc622c356b8e38c195f09ff1ed9c5fc261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 40/52] fix: keep a process's updates going when a wait is
 cancelled or a request refused

---
 python/procstar/agent/proc.py | 101 +++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 33 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index ed926ee..9c4be24 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -10,7 +10,6 @@ import logging
 
 from   .exc import ProcessUnknownError
 from   procstar import proto
-from   procstar.lib.asyn import iter_queue
 from   procstar.lib.py import Interval
 import procstar.lib.json
 
@@ -86,6 +85,68 @@ class FdData:
 
 #-------------------------------------------------------------------------------
 
+class _Updates:
+    """
+    Async iterator over updates for a process.
+
+    See `Process.updates`.
+    """
+
+    def __init__(self, proc, msgs):
+        self.__proc = proc
+        self.__msgs = msgs
+
+
+    def __aiter__(self):
+        return self
+
+
+    async def __anext__(self):
+        msg = await self.__msgs.get()
+        proc_id = self.__proc.proc_id
+        conn_id = self.__proc.conn_id
+
+        def end():
+            # This is the last message; leave it for others waiting too.
+            self.__msgs.put_nowait(msg)
+
+        match msg:
+            case proto.ProcResult(_, result):
+                return Result(result)
+
+            case proto.ProcFdData(_, fd, start, stop, encoding, data):
+                # FIXME: Process data.
+                return FdData(
+                    fd      =fd,
+                    interval=Interval(start, stop),
+                    encoding=encoding,
+                    data    =data,
+                )
+
+            case proto.ProcDelete(_):
+                end()
+                raise StopAsyncIteration
+
+            case proto.ProcUnknown(_):
+                end()
+                raise ProcessUnknownError(proc_id)
+
+            case proto.RequestError(req, err):
+                logger.error(f"agent error: {err}")
+                if req.get("type") == "ProcStartRequest":
+                    end()
+                raise AgentMessageError(req, err)
+
+            case proto.ConnectionTimeout():
+                logger.warning(f"proc {proc_id}: agent connection timeout: {conn_id}")
+                end()
+                raise ConnectionTimeoutError(conn_id)
+
+            case _:
+                assert False, f"unexpected msg: {msg!r}"
+
+
+
 class Process:
     """
     A process running under a connected procstar instance.
@@ -117,49 +178,23 @@ class Process:
 
 
     @cached_property
-    async def updates(self):
+    def updates(self):
         """
         A singleton async iterator over updates for this process.
 
         The iterator may:
         - yield a `Result` instance
         - yield a `FdData` instance
+        - raise `AgentMessageError` if the agent refused a request
         - terminate if the process is deleted
         - raise `ProcessUnknownError` if the proc ID is unknown
         - raise `ConnectionTimeoutError` if the connection timed out
 
+        An `AgentMessageError` is final only if the agent refused to start the
+        process; otherwise, updates continue.  Waiting for the next update may
+        be cancelled and resumed.
         """
-        async for msg in iter_queue(self.__msgs):
-            match msg:
-                case proto.ProcResult(_, result):
-                    yield Result(result)
-
-                case proto.ProcFdData(_, fd, start, stop, encoding, data):
-                    # FIXME: Process data.
-                    yield FdData(
-                        fd      =fd,
-                        interval=Interval(start, stop),
-                        encoding=encoding,
-                        data    =data,
-                    )
-
-                case proto.ProcDelete(_):
-                    # Done.
-                    break
-
-                case proto.ProcUnknown(_):
-                    raise ProcessUnknownError(self.proc_id)
-
-                case proto.RequestError(msg, err):
-                    logger.error(f"agent error: {err}")
-                    raise AgentMessageError(msg, err)
-
-                case proto.ConnectionTimeout():
-                    logger.warning(f"proc {self.proc_id}: agent connection timeout: {self.conn_id}")
-                    raise ConnectionTimeoutError(self.conn_id)
-
-                case _:
-                    assert False, f"unexpected msg: {msg!r}"
+        return _Updates(self, self.__msgs)
 
 
     def request_result(self):
-- 
2.43.0


From 780527261fbf9e8317f5dd125f79254d8ba19721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 41/52] fix: forget a process the agent refused to start

---
 python/procstar/agent/proc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index 9c4be24..8a85dcd 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -334,8 +334,14 @@ class Processes(Mapping):
                 except KeyError:
                     # An error in response to ProcStartRequest may pertain to multiple proc IDs.
                     if msg.msg["type"] == "ProcStartRequest":
+                        # The procs weren't started.
                         for proc_id in msg.msg["specs"].keys():
-                            get_proc(proc_id)._on_message(msg)
+                            try:
+                                proc = self.__procs.pop(proc_id)
+                            except KeyError:
+                                logger.warning(f"unknown proc on {conn_id}: {msg}")
+                            else:
+                                proc._on_message(msg)
                     else:
                         # No associated proc ID, or we can't figure it out.
                         logger.error(f"agent error: {msg.err}: {msg.msg}")
-- 
2.43.0


From ae5dd39b5816646d221a12b48627e06dc4531807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 42/52] fix: tell apart processes of one ID on different agents

---
 python/procstar/agent/proc.py   | 47 ++++++++++++++++++++++-----------
 python/procstar/agent/server.py | 17 +++++++++---
 2 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index 8a85dcd..f070144 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -285,12 +285,37 @@ class Processes(Mapping):
         def get_proc(proc_id):
             """
             Looks up or creates, if necessary, the `Process` object.
+
+            Returns none if `proc_id` is a process on another connection.
             """
             try:
-                return self.__procs[proc_id]
+                proc = self.__procs[proc_id]
             except KeyError:
                 logger.info(f"new proc on {conn_id}: {proc_id}")
                 return self.create(conn, proc_id)
+            if proc.conn_id != conn_id:
+                logger.warning(f"proc on {proc.conn_id}, not {conn_id}: {proc_id}")
+                return None
+            return proc
+
+        def dispatch(proc_id):
+            """
+            Dispatches the current msg to a process.
+            """
+            proc = get_proc(proc_id)
+            if proc is not None:
+                proc._on_message(msg)
+
+        def pop(proc_id):
+            """
+            Removes and dispatches the current msg to a process.
+            """
+            proc = self.__procs.get(proc_id)
+            if proc is None or proc.conn_id != conn_id:
+                logger.warning(f"unknown proc on {conn_id}: {msg}")
+            else:
+                del self.__procs[proc_id]
+                proc._on_message(msg)
 
         def pop_by_conn():
             """
@@ -311,18 +336,13 @@ class Processes(Mapping):
             case proto.ProcResult(proc_id):
                 # Attach Procstar server and connection info to the result.
                 msg.res["procstar"] = conn.info
-                get_proc(proc_id)._on_message(msg)
+                dispatch(proc_id)
 
             case proto.ProcFdData(proc_id):
-                get_proc(proc_id)._on_message(msg)
+                dispatch(proc_id)
 
             case proto.ProcDelete(proc_id) | proto.ProcUnknown(proc_id):
-                try:
-                    proc = self.__procs.pop(proc_id)
-                except KeyError:
-                    logger.warning(f"unknown proc on {conn_id}: {msg}")
-                else:
-                    proc._on_message(msg)
+                pop(proc_id)
 
             case proto.Register:
                 # We should receive this only immediately after connection.
@@ -336,18 +356,13 @@ class Processes(Mapping):
                     if msg.msg["type"] == "ProcStartRequest":
                         # The procs weren't started.
                         for proc_id in msg.msg["specs"].keys():
-                            try:
-                                proc = self.__procs.pop(proc_id)
-                            except KeyError:
-                                logger.warning(f"unknown proc on {conn_id}: {msg}")
-                            else:
-                                proc._on_message(msg)
+                            pop(proc_id)
                     else:
                         # No associated proc ID, or we can't figure it out.
                         logger.error(f"agent error: {msg.err}: {msg.msg}")
                 else:
                     # Forward to the proc the original message was related to.
-                    get_proc(proc_id)._on_message(msg)
+                    dispatch(proc_id)
 
             case proto.ConnectionTimeout():
                 logger.warning(f"agent connection timeout: {conn_id}")
diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index b526a29..075b607 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -14,7 +14,7 @@ from   websockets.exceptions import ConnectionClosedOK, ConnectionClosedError
 from   . import DEFAULT_PORT
 from   .conn import Connections
 from   .conn import choose_connection, wait_for_connection
-from   .exc import NoConnectionError
+from   .exc import NoConnectionError, ProcessUnknownError
 from   .proc import Processes, Process, Result
 from   procstar import proto
 from   procstar.lib.time import now
@@ -207,8 +207,11 @@ class Server:
                     if p.conn_id == conn_id
                 }
                 for proc_id in conn_proc_ids - our_proc_ids:
-                    # New proc ID.
-                    self.processes.create(conn, proc_id)
+                    if proc_id in self.processes:
+                        logger.warning(f"proc ID of another conn: {conn_id}: {proc_id}")
+                    else:
+                        # New proc ID.
+                        self.processes.create(conn, proc_id)
                 for proc_id in our_proc_ids - conn_proc_ids:
                     # The agent doesn't know of this proc ID.
                     logging.warning(f"unknown proc {proc_id} on conn {conn_id}")
@@ -346,6 +349,8 @@ class Server:
 
         :raise NoConnectionError:
           Timeout waiting for connection.
+        :raise ProcessUnknownError:
+          The process is on a different connection.
         """
         conn = self.connections.get(conn_id)
         if conn is None or not conn.open:
@@ -358,9 +363,13 @@ class Server:
                 raise NoConnectionError(conn_id)
 
         try:
-            return self.processes[proc_id]
+            proc = self.processes[proc_id]
         except KeyError:
             return self.processes.create(conn, proc_id)
+        if proc.conn_id != conn_id:
+            # It's a process on another connection.
+            raise ProcessUnknownError(proc_id)
+        return proc
 
 
 
-- 
2.43.0


From 4821e4feaf10e00b1d532fae1b39b721d841ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 43/52] fix: return binary output from the HTTP client
 unaltered

---
 python/procstar/http/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/procstar/http/client.py b/python/procstar/http/client.py
index d28ddc9..5e78cc4 100644
--- a/python/procstar/http/client.py
+++ b/python/procstar/http/client.py
@@ -81,7 +81,8 @@ class AsyncClient:
                 "GET", "procs", proc_id, "output", fd, "data"
         ) as rsp:
             rsp.raise_for_status()
-            return rsp.content if rsp.encoding is None else rsp.text
+            # Without a charset, the data is not text.
+            return rsp.content if rsp.charset_encoding is None else rsp.text
 
 
     async def delete_proc(self, proc_id):
-- 
2.43.0


From 8edb1ff0db7d182887378378f9a7b0e7cce2942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 44/52] fix: accept a signal number in the HTTP client

---
 python/procstar/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/procstar/http/client.py b/python/procstar/http/client.py
index 5e78cc4..678c47f 100644
--- a/python/procstar/http/client.py
+++ b/python/procstar/http/client.py
@@ -92,7 +92,7 @@ class AsyncClient:
 
     async def send_signal(self, proc_id, signum):
         async with self.__request(
-                "POST", "procs", proc_id, "signals", signum
+                "POST", "procs", proc_id, "signals", str(signum)
         ) as rsp:
             rsp.raise_for_status()
 
-- 
2.43.0


From 558ff1debe027476510d3e457c28458d32cc8732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 45/52] fix: write inherit, close and pipe descriptors as the
 agent reads them

---
 python/procstar/spec.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/procstar/spec.py b/python/procstar/spec.py
index d6911f3..0854384 100644
--- a/python/procstar/spec.py
+++ b/python/procstar/spec.py
@@ -86,14 +86,14 @@ class Proc:
         class Inherit:
 
             def to_jso(self):
-                return {}
+                return "inherit"
 
 
 
         class Close:
 
             def to_jso(self):
-                return {}
+                return "close"
 
 
 
@@ -184,21 +184,23 @@ class Proc:
         class PipeWrite:
 
             def to_jso(self):
-                return {}
+                return "pipe-write"
 
 
 
         class PipeRead:
 
             def __init__(self, proc_id, fd):
-                self.__proc_id = proc_id
-                self.__fd = fd
+                self.__proc_id = str(proc_id)
+                self.__fd = Proc.Fd.normalize(fd)
 
 
             def to_jso(self):
                 return {
-                    "proc_id": self.__proc_id,
-                    "fd": self.__fd,
+                    "pipe-read": {
+                        "proc_id"   : self.__proc_id,
+                        "fd"        : self.__fd,
+                    }
                 }
 
 
-- 
2.43.0


From ce687132ec5c5db6e3e2b7ff1ec3b1419181b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 46/52] fix: inherit the environment variables given as True

---
 python/procstar/spec.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/procstar/spec.py b/python/procstar/spec.py
index 0854384..0d4e6fd 100644
--- a/python/procstar/spec.py
+++ b/python/procstar/spec.py
@@ -252,7 +252,13 @@ def make_proc(what, /, *, env_vars={}, fds={}):
         fds["stderr"] = Proc.Fd.Capture("memory", "utf-8")
     # FIXME: Close the rest.
 
-    env = Proc.Env(inherit=Proc.Env.MINIMUM_ENV_VARS, vars=env_vars)
+    env = Proc.Env(
+        inherit=(
+            *Proc.Env.MINIMUM_ENV_VARS,
+            *( n for n, v in env_vars.items() if v is True ),
+        ),
+        vars={ n: v for n, v in env_vars.items() if v is not True },
+    )
 
     return Proc(argv, fds=fds, env=env)
 
-- 
2.43.0


From 603e469cad92779be4583423320a96d9f7751b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 47/52] fix: name the signals of a process rightly, off by one

---
 src/procinfo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 5a99f77..f24b461 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -172,7 +172,8 @@ pub struct ProcStat {
 fn expand_sig_bitmap(bits: i32) -> Vec<String> {
     let mut abbrevs = Vec::new();
     for s in 1..sig::NSIG {
-        if bits & (1 << s) != 0 {
+        // Bit 0 stands for signal 1.
+        if bits & (1 << (s - 1)) != 0 {
             abbrevs.push(sig::get_abbrev(s).unwrap_or("???"));
         }
     }
-- 
2.43.0


From 34f62d0cff0eb04267ad9857b09d134631a83777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 48/52] fix: tell the terminal of a process rightly

---
 src/procinfo.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index f24b461..9a78bc1 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -200,8 +200,9 @@ impl ProcStat {
         let session = parts.next().unwrap().parse().unwrap();
         let tty_nr = parts.next().unwrap().parse::<u32>().unwrap();
         let tty_nr = (
-            ((tty_nr >> 8) & 0xff) as u16,
-            ((tty_nr >> 16) | (tty_nr & 0xff)) as u16,
+            // Major number in bits 8-19; minor in bits 0-7 and 20-31.
+            ((tty_nr >> 8) & 0xfff) as u16,
+            ((tty_nr & 0xff) | ((tty_nr >> 12) & 0xfff00)) as u16,
         );
         let tpgid = parts.next().unwrap();
         let tpgid = if tpgid == "-1" {
-- 
2.43.0


From 00eb880eb8a7fdc0ba0e0251ad899fc23f350c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 49/52] fix: never take a process's information from another
 that has its pid

---
 src/procs.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index 8fe8d4b..8f72885 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -142,11 +142,15 @@ impl Proc {
         };
 
         // Use termination proc stat on the process object, if available;
-        // otherwise, snapshot current.
-        let proc_stat = self
-            .proc_stat
-            .clone()
-            .or_else(|| ProcStat::load_or_log(self.pid));
+        // otherwise, snapshot current.  Once the process has been waited for,
+        // its pid may be another process's.
+        let proc_stat = self.proc_stat.clone().or_else(|| {
+            if self.wait_info.is_none() {
+                ProcStat::load_or_log(self.pid)
+            } else {
+                None
+            }
+        });
 
         res::ProcRes {
             state: self.get_state(),
-- 
2.43.0


From af38cbdec2fcec3ca2d427395b25f06a87bc38bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:40 +0000
Subject: [PATCH 50/52] fix: drop the notification subscriptions of lost
 connections

---
 src/procs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index 8f72885..267e97f 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -368,7 +368,10 @@ impl SharedProcs {
 
     pub fn subscribe(&self) -> NotificationSub {
         let (sender, receiver) = mpsc::unbounded_channel();
-        self.0.borrow_mut().subs.push(sender);
+        let subs = &mut self.0.borrow_mut().subs;
+        // Drop those that are gone, as there may be no notification for long.
+        subs.retain(|sub| !sub.is_closed());
+        subs.push(sender);
         NotificationSub { receiver }
     }
 
-- 
2.43.0


From e4046a4b752db5fda5e97cc7959be4c80c5f08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:40 +0000
Subject: [PATCH 51/52] fix: end the signal watcher of a start request that
 started nothing

---
 src/sig.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sig.rs b/src/sig.rs
index 9035714..97bec83 100644
--- a/src/sig.rs
+++ b/src/sig.rs
@@ -109,10 +109,10 @@ impl SignalWatcher {
         // Transmit all incoming signal events to the watch channel, until all
         // channel receivers are closed.
         loop {
-            self.stream
-                .recv()
-                .await
-                .expect("signal watcher stream recv");
+            tokio::select! {
+                event = self.stream.recv() => event.expect("signal watcher stream recv"),
+                _ = self.sender.closed() => break,
+            }
             match self.sender.send(()) {
                 Ok(()) => {}
                 Err(SendError(())) => break,
-- 
2.43.0


From 10a95530044032283ebc971f8b178095d869349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:40 +0000
Subject: [PATCH 52/52] fix: report a send overtaken by a reconnection as not
 open

---
 python/procstar/agent/conn.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/procstar/agent/conn.py b/python/procstar/agent/conn.py
index 1280d96..54f9cbe 100644
--- a/python/procstar/agent/conn.py
+++ b/python/procstar/agent/conn.py
@@ -160,16 +160,18 @@ class Connection:
 
 
     async def send(self, msg):
-        if self.ws is None:
+        # The agent may reconnect, with a new websocket, while we send.
+        ws = self.ws
+        if ws is None:
             raise NotConnectedError(self.conn_id)
-        if not self.ws.open:
+        if not ws.open:
             raise WebSocketNotOpen(self.conn_id)
 
         data = serialize_message(msg)
         try:
-            await self.ws.send(data)
+            await ws.send(data)
         except ConnectionClosed:
-            assert self.ws.closed
+            assert ws.closed
             # Connection closed.  Don't forget about it; it may reconnect.
             logger.warning(f"{self.info.socket}: connection closed")
             # FIXME: Think carefully the temporarily dropped connection logic.
-- 
2.43.0

