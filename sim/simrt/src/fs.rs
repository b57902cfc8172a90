//! Simulated files and child processes. Inside a run, every path except the system's own (`/dev`,
//! `/proc`, ...) names a file that exists only here; a child process is a stand-in that the workload
//! provides. Each call is a scheduling point and can fail, be short or be interrupted; a process crash
//! makes every later call of that task have no effect.
use crate::engine::*;
use crate::interpose::{real, ret, set_errno};
use std::sync::atomic::{AtomicUsize, Ordering};
use crate::raw::{self, sys6};
use libc::{c_char, c_int, c_long};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CStr;

pub const FIRST_FS_FD: i32 = 200_000;
const FIRST_PID: i32 = 50_000_000;

#[derive(Clone, Default)]
pub struct FsCfg {
    /// Probability (ppm) that a call fails for good: open, read, write, unlink, spawn.
    pub open_ppm: u64,
    pub read_ppm: u64,
    pub write_ppm: u64,
    pub unlink_ppm: u64,
    pub spawn_ppm: u64,
    /// Probability that a call moves fewer bytes than it could.
    pub short_ppm: u64,
    /// Probability that a call is interrupted by a signal.
    pub eintr_ppm: u64,
    /// Bytes that still fit on the disk.
    pub room: Option<u64>,
    /// Answers for a child process: (standard output, standard error, exit status, or minus the signal).
    pub child: Option<fn(&[String]) -> (Vec<u8>, Vec<u8>, i32)>,
}

#[derive(Clone)]
struct Handle {
    inode: usize,
    pos: usize,
    append: bool,
    rd: bool,
    wr: bool,
}

#[derive(Default)]
pub struct Fs {
    pub cfg: FsCfg,
    names: BTreeMap<String, usize>,
    inodes: Vec<Vec<u8>>,
    /// When each inode was last written (simulated time).
    times: BTreeMap<usize, u64>,
    /// Folders that exist besides `/`, `/work` and `/tmp`.
    dirs: BTreeSet<String>,
    handles: BTreeMap<i32, Handle>,
    next_fd: i32,
    dups: BTreeMap<usize, Vec<(c_int, c_int)>>,
    children: BTreeMap<i32, c_int>,
    /// Calls so far, by task.
    calls: BTreeMap<u32, u64>,
    /// Hard failures so far, by task.
    failed: BTreeMap<u32, u64>,
    /// The task's process crashes at this call.
    crash_at: BTreeMap<u32, u64>,
    pub spawned: u64,
}

pub fn fs() -> &'static mut Fs {
    &mut sim().fs
}
pub fn cfg() -> &'static mut FsCfg {
    &mut fs().cfg
}

// ------------------------------------------------------------------ for workloads

fn norm(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("/work/{}", p) };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
pub fn put(path: &str, data: &[u8]) {
    let p = norm(path);
    make_dir(&parent(&p));
    let f = fs();
    f.inodes.push(data.to_vec());
    touch(f.inodes.len() - 1);
    f.names.insert(p, f.inodes.len() - 1);
}
fn touch(inode: usize) {
    let t = now();
    fs().times.insert(inode, t);
}
fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(k) => p[..k].into(),
    }
}
fn is_dir(p: &str) -> bool {
    matches!(p, "/" | "/work" | "/tmp") || fs().dirs.contains(p)
}
/// The folder and all folders above it exist from now on.
pub fn make_dir(path: &str) {
    let mut p = norm(path);
    while !is_dir(&p) {
        fs().dirs.insert(p.clone());
        p = parent(&p);
    }
}
pub fn get(path: &str) -> Option<Vec<u8>> {
    let f = fs();
    f.names.get(&norm(path)).map(|i| f.inodes[*i].clone())
}
pub fn remove(path: &str) {
    fs().names.remove(&norm(path));
}
pub fn list() -> Vec<String> {
    fs().names.keys().cloned().collect()
}
pub fn failures(task: u32) -> u64 {
    fs().failed.get(&task).copied().unwrap_or(0)
}
pub fn calls(task: u32) -> u64 {
    fs().calls.get(&task).copied().unwrap_or(0)
}
/// The process of this task dies at its `n`-th call from now.
pub fn crash_in(task: u32, n: u64) {
    let c = calls(task);
    fs().crash_at.insert(task, c + n);
}
pub fn revive(task: u32) {
    fs().crash_at.remove(&task);
}
pub fn crashed(task: u32) -> bool {
    let f = fs();
    f.crash_at.get(&task).is_some_and(|n| f.calls.get(&task).copied().unwrap_or(0) >= *n)
}
pub fn open_handles() -> usize {
    fs().handles.len()
}

// ------------------------------------------------------------------ interception

pub fn is_fs(fd: c_int) -> bool {
    fd >= FIRST_FS_FD
}
fn err(e: c_int) -> i64 {
    unsafe { set_errno(e) };
    -1
}
fn hard(kind: &str, e: c_int) -> i64 {
    let m = me();
    let f = fs();
    *f.failed.entry(m).or_default() += 1;
    fault(kind);
    note(|| format!("{}: errno {}", kind, e));
    err(e)
}
/// Entry of every call: true if the task's process is dead.
fn enter() -> bool {
    point(K_FS);
    let m = me();
    let f = fs();
    let n = f.calls.entry(m).or_default();
    *n += 1;
    if let Some(c) = f.crash_at.get(&m) {
        if *n == *c {
            fault("process-crash");
            note(|| "the process crashes here".into());
        }
        return *n >= *c;
    }
    false
}
fn dead() -> i64 {
    let m = me();
    *fs().failed.entry(m).or_default() += 1;
    err(libc::EIO)
}
fn hit(ppm: u64) -> bool {
    ppm > 0 && sim().active && draw_env(ppm, 2) == 1
}
fn pick(v: &[c_int]) -> c_int {
    v[draw_env(1_000_000, v.len() as u64 + 1) as usize % v.len()]
}

fn system(p: &str) -> bool {
    ["/dev/", "/proc/", "/sys/", "/etc/", "/lib", "/usr/", "/verif/", "/repo/", "/root/"].iter().any(|x| p.starts_with(x))
}

unsafe fn open_any(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if in_sim() {
        if let Ok(p) = CStr::from_ptr(path).to_str() {
            if !system(p) {
                return sim_open(p, flags) as c_int;
            }
            if flags & libc::O_ACCMODE != libc::O_RDONLY && !p.starts_with("/dev/") {
                return err(libc::EROFS) as c_int;
            }
        }
    }
    ret(sys6(libc::SYS_openat, dir as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
}

fn sim_open(p: &str, flags: c_int) -> i64 {
    if enter() {
        return dead();
    }
    if hit(cfg().eintr_ppm) {
        fault("interrupted-call");
        return err(libc::EINTR);
    }
    let create = flags & libc::O_CREAT != 0;
    if hit(cfg().open_ppm) {
        let e = if create { pick(&[libc::ENOSPC, libc::EMFILE, libc::EACCES, libc::EROFS]) } else { pick(&[libc::EIO, libc::EMFILE, libc::EACCES]) };
        return hard("open-fails", e);
    }
    let acc = flags & libc::O_ACCMODE;
    let f = fs();
    let p = norm(p);
    if is_dir(&p) {
        return err(libc::EISDIR);
    }
    let i = match f.names.get(&p) {
        Some(_) if create && flags & libc::O_EXCL != 0 => return err(libc::EEXIST),
        Some(i) => *i,
        None if create && is_dir(&parent(&p)) => {
            f.inodes.push(vec![]);
            touch(f.inodes.len() - 1);
            f.names.insert(p.clone(), f.inodes.len() - 1);
            f.inodes.len() - 1
        }
        None => return err(libc::ENOENT),
    };
    if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
        f.inodes[i].clear();
        touch(i);
    }
    note(|| format!("open {}{}", p, if create { " for writing" } else { "" }));
    f.next_fd += 1;
    let fd = FIRST_FS_FD + f.next_fd;
    f.handles.insert(fd, Handle { inode: i, pos: 0, append: flags & libc::O_APPEND != 0, rd: acc != libc::O_WRONLY, wr: acc != libc::O_RDONLY });
    fd as i64
}

pub fn fs_close(fd: c_int) -> i64 {
    if !in_sim() {
        return 0;
    }
    enter();
    if fs().handles.remove(&fd).is_none() {
        violate("descriptor", format!("descriptor {} is closed twice", fd));
    }
    0
}

pub fn fs_fcntl(fd: c_int, cmd: c_int) -> i64 {
    let f = fs();
    let Some(h) = f.handles.get(&fd).cloned() else {
        return err(libc::EBADF);
    };
    if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC {
        f.next_fd += 1;
        f.handles.insert(FIRST_FS_FD + f.next_fd, h);
        return (FIRST_FS_FD + f.next_fd) as i64;
    }
    0
}

unsafe fn at<F: FnOnce() -> i64>(fd: c_int, off: i64, f: F) -> i64 {
    let Some(h) = fs().handles.get_mut(&fd) else {
        return err(libc::EBADF);
    };
    let old = std::mem::replace(&mut h.pos, off as usize);
    let r = f();
    if let Some(h) = fs().handles.get_mut(&fd) {
        h.pos = old;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut u8, len: usize, off: i64) -> isize {
    if is_fs(fd) && in_sim() {
        return at(fd, off, || fs_read(fd, buf, len)) as isize;
    }
    ret(sys6(libc::SYS_pread64, fd as i64, buf as i64, len as i64, off, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const u8, len: usize, off: i64) -> isize {
    if is_fs(fd) && in_sim() {
        return at(fd, off, || fs_write(fd, buf, len)) as isize;
    }
    ret(sys6(libc::SYS_pwrite64, fd as i64, buf as i64, len as i64, off, 0, 0)) as isize
}
/// No fast path between files: callers fall back to reading and writing.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, n: usize, flags: libc::c_uint) -> isize {
    if (is_fs(a) || is_fs(b)) && in_sim() {
        return err(libc::ENOSYS) as isize;
    }
    ret(sys6(libc::SYS_copy_file_range, a as i64, oa as i64, b as i64, ob as i64, n as i64, flags as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, off: *mut i64, n: usize) -> isize {
    if (is_fs(a) || is_fs(b)) && in_sim() {
        return err(libc::EINVAL) as isize;
    }
    ret(sys6(libc::SYS_sendfile, a as i64, b as i64, off as i64, n as i64, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: libc::mode_t) -> c_int {
    if is_fs(fd) && in_sim() {
        return 0;
    }
    ret(sys6(libc::SYS_fchmod, fd as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if is_fs(fd) && in_sim() {
        return 0;
    }
    ret(sys6(libc::SYS_flock, fd as i64, op as i64, 0, 0, 0, 0)) as c_int
}

/// What a name or a descriptor stands for: (mode, size, inode).
fn look(path: Option<&str>, fd: c_int) -> Result<(u32, u64, u64), c_int> {
    let f = fs();
    let i = match path {
        Some(p) => {
            let p = norm(p);
            if is_dir(&p) {
                return Ok((libc::S_IFDIR | 0o755, 4096, 1));
            }
            *f.names.get(&p).ok_or(libc::ENOENT)?
        }
        None => f.handles.get(&fd).ok_or(libc::EBADF)?.inode,
    };
    Ok((libc::S_IFREG | 0o644, f.inodes[i].len() as u64, i as u64 + 2))
}
/// Some(path) for a name that only exists here, None for a descriptor of ours.
unsafe fn ours<'a>(dir: c_int, path: *const c_char) -> Option<Option<&'a str>> {
    if !in_sim() {
        return None;
    }
    if path.is_null() || *path == 0 {
        return if is_fs(dir) { Some(None) } else { None };
    }
    let p = CStr::from_ptr(path).to_str().ok()?;
    if system(p) || (dir != libc::AT_FDCWD && !p.starts_with('/')) {
        return None;
    }
    Some(Some(p))
}
unsafe fn stat_into(dir: c_int, path: *const c_char, st: *mut libc::stat64) -> Option<i64> {
    let o = ours(dir, path)?;
    if enter() {
        return Some(dead());
    }
    Some(match look(o, dir) {
        Ok((mode, size, ino)) => {
            std::ptr::write_bytes(st, 0, 1);
            (*st).st_mode = mode;
            (*st).st_size = size as i64;
            (*st).st_ino = ino;
            (*st).st_nlink = 1;
            let t = fs().times.get(&(ino as usize).wrapping_sub(2)).copied().unwrap_or(0) as i64;
            (*st).st_mtime = t / 1_000_000_000;
            (*st).st_mtime_nsec = t % 1_000_000_000;
            0
        }
        Err(e) => err(e),
    })
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    let mut st: libc::stat64 = std::mem::zeroed();
    if let Some(r) = stat_into(dir, path, &mut st) {
        if r == 0 {
            std::ptr::write_bytes(buf, 0, 1);
            (*buf).stx_mask = libc::STATX_BASIC_STATS;
            (*buf).stx_mode = st.st_mode as u16;
            (*buf).stx_size = st.st_size as u64;
            (*buf).stx_ino = st.st_ino;
            (*buf).stx_nlink = 1;
            (*buf).stx_mtime.tv_sec = st.st_mtime;
            (*buf).stx_mtime.tv_nsec = st.st_mtime_nsec as u32;
        }
        return r as c_int;
    }
    ret(sys6(libc::SYS_statx, dir as i64, path as i64, flags as i64, mask as i64, buf as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match stat_into(libc::AT_FDCWD, path, st) {
        Some(r) => r as c_int,
        None => ret(sys6(libc::SYS_newfstatat, libc::AT_FDCWD as i64, path as i64, st as i64, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match stat_into(libc::AT_FDCWD, path, st) {
        Some(r) => r as c_int,
        None => ret(sys6(libc::SYS_newfstatat, libc::AT_FDCWD as i64, path as i64, st as i64, libc::AT_SYMLINK_NOFOLLOW as i64, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    match stat_into(fd, std::ptr::null(), st) {
        Some(r) => r as c_int,
        None => ret(sys6(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if let Some(o) = ours(libc::AT_FDCWD, path) {
        if enter() {
            return dead() as c_int;
        }
        return match look(o, -1) {
            Ok(_) => 0,
            Err(e) => err(e) as c_int,
        };
    }
    ret(sys6(libc::SYS_access, path as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, buf: *mut c_char) -> *mut c_char {
    if let Some(Some(p)) = ours(libc::AT_FDCWD, path) {
        if enter() {
            dead();
            return std::ptr::null_mut();
        }
        if let Err(e) = look(Some(p), -1) {
            err(e);
            return std::ptr::null_mut();
        }
        let n = norm(p);
        let out = if buf.is_null() { libc::malloc(n.len() + 1) as *mut c_char } else { buf };
        std::ptr::copy_nonoverlapping(n.as_ptr() as *const c_char, out, n.len());
        *out.add(n.len()) = 0;
        return out;
    }
    real!(RP, "realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(path, buf)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if let Some(Some(p)) = ours(libc::AT_FDCWD, path) {
        if enter() {
            return dead() as c_int;
        }
        let p = norm(p);
        let inside = format!("{}/", p);
        let f = fs();
        return if !f.dirs.contains(&p) {
            err(libc::ENOENT) as c_int
        } else if f.names.keys().chain(f.dirs.iter()).any(|x| x.starts_with(&inside)) {
            err(libc::ENOTEMPTY) as c_int
        } else {
            f.dirs.remove(&p);
            0
        };
    }
    ret(sys6(libc::SYS_rmdir, path as i64, 0, 0, 0, 0, 0)) as c_int
}

pub unsafe fn fs_read(fd: c_int, buf: *mut u8, len: usize) -> i64 {
    if enter() {
        return dead();
    }
    let Some(h) = fs().handles.get_mut(&fd) else {
        return err(libc::EBADF);
    };
    if !h.rd {
        return err(libc::EBADF);
    }
    if hit(cfg().eintr_ppm) {
        fault("interrupted-call");
        return err(libc::EINTR);
    }
    if hit(cfg().read_ppm) {
        return hard("read-fails", libc::EIO);
    }
    let d = &fs().inodes[h.inode];
    let mut n = d.len().saturating_sub(h.pos).min(len);
    if n > 1 && hit(cfg().short_ppm) {
        fault("short-read");
        n = 1 + draw_env(1_000_000, n as u64) as usize % (n - 1);
    }
    std::ptr::copy_nonoverlapping(d[h.pos..].as_ptr(), buf, n);
    h.pos += n;
    n as i64
}

pub unsafe fn fs_write(fd: c_int, buf: *const u8, len: usize) -> i64 {
    if enter() {
        return dead();
    }
    let Some(h) = fs().handles.get_mut(&fd) else {
        return err(libc::EBADF);
    };
    if !h.wr {
        return err(libc::EBADF);
    }
    if hit(cfg().eintr_ppm) {
        fault("interrupted-call");
        return err(libc::EINTR);
    }
    if len > 0 && hit(cfg().write_ppm) {
        return hard("write-fails", pick(&[libc::EIO, libc::ENOSPC]));
    }
    let mut n = len;
    if n > 1 && hit(cfg().short_ppm) {
        fault("short-write");
        n = 1 + draw_env(1_000_000, n as u64) as usize % (n - 1);
    }
    if let Some(r) = cfg().room {
        if len > 0 && r == 0 {
            return hard("disk-full", libc::ENOSPC);
        }
        n = n.min(r as usize);
        cfg().room = Some(r - n as u64);
    }
    let d = &mut fs().inodes[h.inode];
    if h.append {
        h.pos = d.len();
    }
    if d.len() < h.pos + n {
        d.resize(h.pos + n, 0);
    }
    std::ptr::copy_nonoverlapping(buf, d[h.pos..].as_mut_ptr(), n);
    h.pos += n;
    touch(h.inode);
    n as i64
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_any(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_any(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
#[allow(invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_any(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if is_fs(fd) && in_sim() {
        let f = fs();
        let Some(h) = f.handles.get_mut(&fd) else {
            return err(libc::EBADF);
        };
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => h.pos as i64,
            _ => f.inodes[h.inode].len() as i64,
        };
        if base + off < 0 {
            return err(libc::EINVAL);
        }
        h.pos = (base + off) as usize;
        return h.pos as i64;
    }
    ret(sys6(libc::SYS_lseek, fd as i64, off, whence as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if is_fs(fd) && in_sim() {
        if enter() {
            return dead() as c_int;
        }
        let f = fs();
        let Some(h) = f.handles.get(&fd) else {
            return err(libc::EBADF) as c_int;
        };
        f.inodes[h.inode].resize(len as usize, 0);
        touch(h.inode);
        return 0;
    }
    ret(sys6(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as c_int
}
unsafe fn sync(fd: c_int, n: c_long) -> c_int {
    if is_fs(fd) && in_sim() {
        if enter() {
            return dead() as c_int;
        }
        return 0;
    }
    ret(sys6(n, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if in_sim() {
        if let Ok(p) = CStr::from_ptr(path).to_str() {
            if enter() {
                return dead() as c_int;
            }
            if hit(cfg().unlink_ppm) {
                return hard("unlink-fails", pick(&[libc::EIO, libc::EACCES])) as c_int;
            }
            note(|| format!("unlink {}", p));
            return match fs().names.remove(&norm(p)) {
                Some(_) => 0,
                None => err(libc::ENOENT) as c_int,
            };
        }
    }
    ret(sys6(libc::SYS_unlink, path as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: libc::mode_t) -> c_int {
    if let Some(Some(p)) = ours(libc::AT_FDCWD, path) {
        if enter() {
            return dead() as c_int;
        }
        let p = norm(p);
        if look(Some(&p), -1).is_ok() {
            return err(libc::EEXIST) as c_int;
        }
        if hit(cfg().open_ppm) {
            return hard("mkdir-fails", pick(&[libc::ENOSPC, libc::EACCES, libc::EROFS])) as c_int;
        }
        if !is_dir(&parent(&p)) {
            return err(libc::ENOENT) as c_int;
        }
        note(|| format!("mkdir {}", p));
        fs().dirs.insert(p);
        return 0;
    }
    if in_sim() {
        return err(libc::EROFS) as c_int;
    }
    ret(sys6(libc::SYS_mkdir, path as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if in_sim() {
        if let (Ok(p), Ok(q)) = (CStr::from_ptr(a).to_str(), CStr::from_ptr(b).to_str()) {
            if enter() {
                return dead() as c_int;
            }
            if hit(cfg().write_ppm) {
                return hard("rename-fails", pick(&[libc::EIO, libc::ENOSPC])) as c_int;
            }
            if fs().names.contains_key(&norm(p)) && (is_dir(&norm(q)) || !is_dir(&parent(&norm(q)))) {
                return err(if is_dir(&norm(q)) { libc::EISDIR } else { libc::ENOENT }) as c_int;
            }
            note(|| format!("rename {} to {}", p, q));
            return match fs().names.remove(&norm(p)) {
                Some(i) => {
                    fs().names.insert(norm(q), i);
                    0
                }
                None => err(libc::ENOENT) as c_int,
            };
        }
    }
    ret(sys6(libc::SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}

// ------------------------------------------------------------------ child processes

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(acts: *mut libc::posix_spawn_file_actions_t, fd: c_int, newfd: c_int) -> c_int {
    if in_sim() {
        fs().dups.entry(acts as usize).or_default().push((fd, newfd));
        return 0;
    }
    real!(AD, "posix_spawn_file_actions_adddup2", unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t, c_int, c_int) -> c_int)(acts, fd, newfd)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut libc::pid_t, file: *const c_char, acts: *const libc::posix_spawn_file_actions_t, attr: *const libc::posix_spawnattr_t, argv: *const *mut c_char, envp: *const *mut c_char) -> c_int {
    if !in_sim() {
        return real!(
            SP,
            "posix_spawnp",
            unsafe extern "C" fn(*mut libc::pid_t, *const c_char, *const libc::posix_spawn_file_actions_t, *const libc::posix_spawnattr_t, *const *mut c_char, *const *mut c_char) -> c_int
        )(pid, file, acts, attr, argv, envp);
    }
    let dups = fs().dups.remove(&(acts as usize)).unwrap_or_default();
    if enter() {
        dead();
        return libc::EIO;
    }
    if hit(cfg().spawn_ppm) {
        let e = pick(&[libc::EAGAIN, libc::ENOMEM, libc::ENOENT]);
        hard("spawn-fails", e);
        return e;
    }
    let mut args = vec![];
    let mut k = 0;
    while !(*argv.add(k)).is_null() {
        args.push(CStr::from_ptr(*argv.add(k)).to_string_lossy().into_owned());
        k += 1;
    }
    note(|| format!("child process {:?}", args));
    let Some(child) = cfg().child else {
        return libc::ENOENT;
    };
    let (out, e, status) = child(&args);
    for (fd, to) in dups {
        if to == 1 {
            raw::write_all(fd, &out);
        } else if to == 2 {
            raw::write_all(fd, &e);
        }
    }
    fs().spawned += 1;
    let p = FIRST_PID + fs().spawned as i32;
    fs().children.insert(p, if status < 0 { -status } else { status << 8 });
    *pid = p;
    0
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: libc::pid_t, status: *mut c_int, opts: c_int) -> libc::pid_t {
    if in_sim() && pid >= FIRST_PID {
        point(K_FS);
        return match fs().children.remove(&pid) {
            Some(s) => {
                if !status.is_null() {
                    *status = s;
                }
                pid
            }
            None => err(libc::ECHILD) as libc::pid_t,
        };
    }
    ret(sys6(libc::SYS_wait4, pid as i64, status as i64, opts as i64, 0, 0, 0)) as libc::pid_t
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> libc::pid_t {
    if in_sim() {
        return err(libc::ENOSYS) as libc::pid_t;
    }
    real!(FK, "fork", unsafe extern "C" fn() -> libc::pid_t)()
}
