//! File operations of this process on a watched directory: recorded in order, so that the state of the
//! directory at any moment can be rebuilt elsewhere, or failed on request.
//!
//! The libc entry points that std uses are defined here; they make the system call themselves. Nothing
//! outside a watched directory is touched or slowed down.

use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, off_t, size_t, ssize_t};
use std::ffi::CStr;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, RwLock};

#[derive(Clone, Debug)]
pub enum Op {
    Create(PathBuf),
    Write { path: PathBuf, off: u64, data: Vec<u8> },
    Truncate { path: PathBuf, len: u64 },
    Rename { from: PathBuf, to: PathBuf },
    Unlink(PathBuf),
    Mkdir(PathBuf),
    Rmdir(PathBuf),
    Sync(PathBuf),
    /// a point marked by the check
    Mark(u64),
}

impl Op {
    pub fn changes(&self) -> bool {
        !matches!(self, Op::Sync(_) | Op::Mark(_))
    }
    pub fn brief(&self) -> String {
        let n = |p: &Path| p.display().to_string();
        match self {
            Op::Create(p) => format!("create {}", n(p)),
            Op::Write { path, off, data } => format!("write {} @{off}+{}", n(path), data.len()),
            Op::Truncate { path, len } => format!("truncate {} to {len}", n(path)),
            Op::Rename { from, to } => format!("rename {} to {}", n(from), n(to)),
            Op::Unlink(p) => format!("unlink {}", n(p)),
            Op::Mkdir(p) => format!("mkdir {}", n(p)),
            Op::Rmdir(p) => format!("rmdir {}", n(p)),
            Op::Sync(p) => format!("sync {}", n(p)),
            Op::Mark(m) => format!("mark {m}"),
        }
    }
}

struct State {
    ops: Vec<Op>,
    /// changing operations let through before all further ones fail
    fail_after: Option<u64>,
    failed: u64,
}

struct Watch {
    dir: PathBuf,
    state: Mutex<State>,
}

static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static WATCHES: RwLock<Vec<Arc<Watch>>> = RwLock::new(Vec::new());

/// A directory being watched (paths in operations are relative to it).
pub struct Recorder(Arc<Watch>);

impl Recorder {
    pub fn start(dir: &Path) -> Self {
        keep();
        let dir = dir.canonicalize().expect("watched directory");
        let w = Arc::new(Watch { dir, state: Mutex::new(State { ops: vec![], fail_after: None, failed: 0 }) });
        WATCHES.write().unwrap().push(w.clone());
        ACTIVE.fetch_add(1, Ordering::SeqCst);
        Recorder(w)
    }
    pub fn mark(&self, m: u64) {
        self.0.state.lock().unwrap().ops.push(Op::Mark(m));
    }
    pub fn ops(&self) -> Vec<Op> {
        self.0.state.lock().unwrap().ops.clone()
    }
    pub fn len(&self) -> usize {
        self.0.state.lock().unwrap().ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    /// Let `n` more changing operations through, fail the rest with ENOSPC (or none of them).
    pub fn fail_after(&self, n: Option<u64>) {
        self.0.state.lock().unwrap().fail_after = n;
    }
    pub fn failed(&self) -> u64 {
        self.0.state.lock().unwrap().failed
    }
}

impl Drop for Recorder {
    fn drop(&mut self) {
        ACTIVE.fetch_sub(1, Ordering::SeqCst);
        WATCHES.write().unwrap().retain(|w| !Arc::ptr_eq(w, &self.0));
    }
}

/// Rebuild in `dst` the directory as a power cut after the operations may have left it: names and sizes of
/// files are as they were; of the writes to each file since it was last synchronised `keep` says how many
/// remain (the first ones). Returns the number of writes lost.
pub fn apply_power_cut(ops: &[Op], mut keep: impl FnMut(usize) -> usize, dst: &Path) -> usize {
    use std::collections::BTreeMap;
    // renamed files keep their history under the last name
    let mut pending: BTreeMap<PathBuf, Vec<usize>> = BTreeMap::new();
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Write { path, .. } | Op::Truncate { path, .. } => pending.entry(path.clone()).or_default().push(i),
            Op::Sync(p) => {
                pending.remove(p);
            }
            Op::Unlink(p) => {
                pending.remove(p);
            }
            Op::Rename { from, to } => {
                let moved: Vec<_> = pending.keys().filter(|k| k.starts_with(from)).cloned().collect();
                for k in moved {
                    let v = pending.remove(&k).unwrap_or_default();
                    let name = match k.strip_prefix(from) {
                        Ok(r) if !r.as_os_str().is_empty() => to.join(r),
                        _ => to.clone(),
                    };
                    pending.insert(name, v);
                }
            }
            _ => {}
        }
    }
    let mut dropped = std::collections::BTreeSet::new();
    for v in pending.values() {
        let k = keep(v.len()).min(v.len());
        dropped.extend(v[k..].iter().copied());
    }
    let kept: Vec<Op> = ops.iter().enumerate().filter(|(i, _)| !dropped.contains(i)).map(|(_, o)| o.clone()).collect();
    apply(&kept, None, dst);
    dropped.len()
}

/// Rebuild in `dst` the directory as the operations left it. The last operation may be applied in part:
/// `torn` is the number of bytes of a final write that reached the file.
pub fn apply(ops: &[Op], torn: Option<usize>, dst: &Path) {
    use std::os::unix::fs::FileExt;
    for (i, op) in ops.iter().enumerate() {
        let last = i + 1 == ops.len();
        match op {
            Op::Create(p) => {
                if let Some(d) = dst.join(p).parent() {
                    std::fs::create_dir_all(d).expect("dir");
                }
                std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(dst.join(p)).expect("create");
            }
            Op::Write { path, off, data } => {
                let n = match torn {
                    Some(t) if last => t.min(data.len()),
                    _ => data.len(),
                };
                let f = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(dst.join(path)).expect("open");
                f.write_all_at(&data[..n], *off).expect("write");
            }
            Op::Truncate { path, len } => {
                let f = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(dst.join(path)).expect("open");
                f.set_len(*len).expect("truncate");
            }
            Op::Rename { from, to } => std::fs::rename(dst.join(from), dst.join(to)).expect("rename"),
            Op::Unlink(p) => {
                let _ = std::fs::remove_file(dst.join(p));
            }
            Op::Mkdir(p) => {
                let _ = std::fs::create_dir_all(dst.join(p));
            }
            Op::Rmdir(p) => {
                let _ = std::fs::remove_dir(dst.join(p));
            }
            Op::Sync(_) | Op::Mark(_) => {}
        }
    }
}

fn find(path: &Path) -> Option<(Arc<Watch>, PathBuf)> {
    let ws = WATCHES.read().ok()?;
    for w in ws.iter() {
        if let Ok(rel) = path.strip_prefix(&w.dir) {
            return Some((w.clone(), rel.to_owned()));
        }
    }
    None
}

fn fd_path(fd: c_int) -> Option<PathBuf> {
    let mut link = [0u8; 64];
    let s = b"/proc/self/fd/";
    link[..s.len()].copy_from_slice(s);
    let n = fd.to_string();
    link[s.len()..s.len() + n.len()].copy_from_slice(n.as_bytes());
    let mut buf = [0u8; 1024];
    let r = unsafe { libc::syscall(libc::SYS_readlink, link.as_ptr(), buf.as_mut_ptr(), buf.len()) };
    if r <= 0 {
        return None;
    }
    use std::os::unix::ffi::OsStrExt;
    let p = std::ffi::OsStr::from_bytes(&buf[..r as usize]);
    (p.as_bytes().starts_with(b"/") && !p.as_bytes().ends_with(b" (deleted)")).then(|| PathBuf::from(p))
}

fn of_fd(fd: c_int) -> Option<(Arc<Watch>, PathBuf)> {
    if ACTIVE.load(Ordering::Relaxed) == 0 || fd < 3 {
        return None;
    }
    find(&fd_path(fd)?)
}

unsafe fn of_path(p: *const c_char) -> Option<(Arc<Watch>, PathBuf)> {
    if ACTIVE.load(Ordering::Relaxed) == 0 || p.is_null() {
        return None;
    }
    use std::os::unix::ffi::OsStrExt;
    let path = Path::new(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes()));
    path.is_absolute().then(|| find(path)).flatten()
}

/// Run a changing operation under the watch's lock: refused when told to fail, logged when it succeeded.
unsafe fn guarded(w: &Watch, call: impl FnOnce() -> i64, log: impl FnOnce(i64) -> Option<Op>) -> i64 {
    let mut st = w.state.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(n) = st.fail_after {
        if n == 0 {
            st.failed += 1;
            *libc::__errno_location() = libc::ENOSPC;
            return -1;
        }
        st.fail_after = Some(n - 1);
    }
    let r = call();
    if r >= 0 {
        let e = *libc::__errno_location();
        if let Some(op) = log(r) {
            st.ops.push(op);
        }
        *libc::__errno_location() = e;
    }
    r
}

unsafe fn position(fd: c_int) -> u64 {
    let flags = libc::syscall(libc::SYS_fcntl, fd, libc::F_GETFL) as c_int;
    if flags & libc::O_APPEND != 0 {
        let mut st: libc::stat64 = std::mem::zeroed();
        libc::fstat64(fd, &mut st);
        st.st_size as u64
    } else {
        libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR) as u64
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let call = || libc::syscall(libc::SYS_write, fd, buf, n);
    match of_fd(fd) {
        None => call() as ssize_t,
        Some((w, path)) => {
            let off = position(fd);
            guarded(&w, call, |r| {
                Some(Op::Write { path, off, data: std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec() })
            }) as ssize_t
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    let call = || libc::syscall(libc::SYS_writev, fd, iov, cnt);
    match of_fd(fd) {
        None => call() as ssize_t,
        Some((w, path)) => {
            let off = position(fd);
            guarded(&w, call, |r| {
                let mut data = vec![];
                for i in 0..cnt as usize {
                    let v = &*iov.add(i);
                    data.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
                }
                data.truncate(r as usize);
                Some(Op::Write { path, off, data })
            }) as ssize_t
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    let call = || libc::syscall(libc::SYS_pwrite64, fd, buf, n, off);
    match of_fd(fd) {
        None => call() as ssize_t,
        Some((w, path)) => guarded(&w, call, |r| {
            Some(Op::Write { path, off: off as u64, data: std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec() })
        }) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let call = || libc::syscall(libc::SYS_ftruncate, fd, len);
    match of_fd(fd) {
        None => call() as c_int,
        Some((w, path)) => guarded(&w, call, |_| Some(Op::Truncate { path, len: len as u64 })) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    ftruncate64(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let r = match of_fd(fd) {
        None => libc::syscall(libc::SYS_fsync, fd),
        // scratch directories are in memory: the call itself is only recorded
        Some((w, path)) => {
            w.state.lock().unwrap_or_else(|e| e.into_inner()).ops.push(Op::Sync(path));
            0
        }
    };
    r as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}

unsafe fn open_at(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let call = || libc::syscall(libc::SYS_openat, dir, path, flags, mode as c_uint);
    if flags & (libc::O_CREAT | libc::O_TRUNC) == 0 {
        return call() as c_int;
    }
    match of_path(path) {
        None => call() as c_int,
        Some((w, rel)) => {
            let full = w.dir.join(&rel);
            let existed = full.exists();
            if existed && flags & libc::O_TRUNC == 0 {
                return call() as c_int;
            }
            guarded(&w, call, |_| {
                Some(if existed { Op::Truncate { path: rel, len: 0 } } else { Op::Create(rel) })
            }) as c_int
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_at(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_at(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    let call = || libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, from, libc::AT_FDCWD, to, 0);
    match (of_path(from), of_path(to)) {
        (Some((w, a)), Some((w2, b))) if Arc::ptr_eq(&w, &w2) => {
            guarded(&w, call, |_| Some(Op::Rename { from: a, to: b })) as c_int
        }
        _ => call() as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let call = || libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, path, 0);
    match of_path(path) {
        None => call() as c_int,
        Some((w, rel)) => guarded(&w, call, |_| Some(Op::Unlink(rel))) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    let call = || libc::syscall(libc::SYS_unlinkat, dir, path, flags);
    if ACTIVE.load(Ordering::Relaxed) == 0 {
        return call() as c_int;
    }
    use std::os::unix::ffi::OsStrExt;
    let name = std::ffi::OsStr::from_bytes(CStr::from_ptr(path).to_bytes());
    let full = if name.as_bytes().starts_with(b"/") {
        Some(PathBuf::from(name))
    } else if dir != libc::AT_FDCWD {
        fd_path(dir).map(|d| d.join(name))
    } else {
        None
    };
    match full.and_then(|p| find(&p)) {
        None => call() as c_int,
        Some((w, rel)) => guarded(&w, call, |_| {
            Some(if flags & libc::AT_REMOVEDIR != 0 { Op::Rmdir(rel) } else { Op::Unlink(rel) })
        }) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    let call = || libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, path, mode as c_uint);
    match of_path(path) {
        None => call() as c_int,
        Some((w, rel)) => guarded(&w, call, |_| Some(Op::Mkdir(rel))) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    let call = || libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, path, libc::AT_REMOVEDIR);
    match of_path(path) {
        None => call() as c_int,
        Some((w, rel)) => guarded(&w, call, |_| Some(Op::Rmdir(rel))) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_: c_int, _: *mut off64_t, _: c_int, _: *mut off64_t, _: size_t, _: c_uint) -> ssize_t {
    // std falls back to read and write
    *libc::__errno_location() = libc::ENOSYS;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut off64_t, _: size_t) -> ssize_t {
    *libc::__errno_location() = libc::ENOSYS;
    -1
}

/// Keeps the definitions above in the program.
#[inline(never)]
fn keep() {
    let f: [*const (); 15] = [
        write as *const (), writev as *const (), pwrite64 as *const (), pwrite as *const (), ftruncate64 as *const (),
        ftruncate as *const (), fsync as *const (), fdatasync as *const (), open64 as *const (), open as *const (),
        rename as *const (), unlink as *const (), unlinkat as *const (), mkdir as *const (), rmdir as *const (),
    ];
    std::hint::black_box(f);
    std::hint::black_box([copy_file_range as *const (), sendfile64 as *const ()]);
}
