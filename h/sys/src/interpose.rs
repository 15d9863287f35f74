//! In-process interposition of the file syscalls used by the code under test. The definitions
//! below shadow libc's, record what happens under one scratch prefix, then do the real call.
use libc::{c_char, c_int, c_void, off64_t, size_t, ssize_t};
use std::collections::HashMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub enum Ev {
    /// bytes appended/written to inode `ino` at `off`
    Write { ino: u64, off: u64, data: Vec<u8> },
    Fsync { ino: u64 },
    Trunc { ino: u64, len: u64 },
    /// name now refers to inode (creation or rename target)
    Link { name: String, ino: u64 },
    Unlink { name: String },
    Mark(String),
}

static ON: AtomicBool = AtomicBool::new(false);
static STATE: Mutex<Option<(String, Vec<Ev>)>> = Mutex::new(None);

pub fn start(prefix: &str) {
    *STATE.lock().unwrap() = Some((prefix.to_string(), vec![]));
    ON.store(true, Ordering::SeqCst);
}
pub fn mark(s: String) {
    if let Some((_, log)) = STATE.lock().unwrap().as_mut() {
        log.push(Ev::Mark(s));
    }
}
pub fn stop() -> Vec<Ev> {
    ON.store(false, Ordering::SeqCst);
    STATE.lock().unwrap().take().map(|s| s.1).unwrap_or_default()
}

unsafe fn ino_of(fd: c_int) -> Option<(u64, u64, u64)> {
    let mut st: libc::stat64 = std::mem::zeroed();
    if libc::syscall(libc::SYS_fstat, fd, &mut st as *mut _) != 0 {
        return None;
    }
    if st.st_mode & libc::S_IFMT != libc::S_IFREG {
        return None;
    }
    Some((st.st_ino, st.st_dev, st.st_size as u64))
}
unsafe fn fd_path(fd: c_int) -> Option<String> {
    let link = format!("/proc/self/fd/{fd}\0");
    let mut buf = [0u8; 4096];
    let n = libc::syscall(libc::SYS_readlink, link.as_ptr(), buf.as_mut_ptr(), buf.len());
    (n > 0).then(|| String::from_utf8_lossy(&buf[..n as usize]).into_owned())
}
fn under(p: &str) -> bool {
    STATE.lock().unwrap().as_ref().map_or(false, |s| p.starts_with(&s.0))
}
fn push(e: Ev) {
    if let Some((_, log)) = STATE.lock().unwrap().as_mut() {
        log.push(e);
    }
}
unsafe fn tracked(fd: c_int) -> Option<(u64, u64)> {
    if !ON.load(Ordering::Relaxed) {
        return None;
    }
    let (ino, _, size) = ino_of(fd)?;
    let p = fd_path(fd)?;
    under(&p).then_some((ino, size))
}
unsafe fn set_errno_ret(r: libc::c_long) -> libc::c_long {
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if let Some((ino, size)) = tracked(fd) {
        let flags = libc::fcntl(fd, libc::F_GETFL);
        let off = if flags & libc::O_APPEND != 0 { size } else { libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR) as u64 };
        // the event is recorded while no other tracked write can interleave with it
        let r = libc::syscall(libc::SYS_write, fd, buf, n);
        if r > 0 {
            push(Ev::Write { ino, off, data: std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec() });
        }
        return r as ssize_t;
    }
    set_errno_ret(libc::syscall(libc::SYS_write, fd, buf, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    let r = libc::syscall(libc::SYS_pwrite64, fd, buf, n, off);
    if let (Some((ino, _)), true) = (tracked(fd), r > 0) {
        push(Ev::Write { ino, off: off as u64, data: std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec() });
    }
    r as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let t = tracked(fd);
    let r = libc::syscall(libc::SYS_fsync, fd);
    if let (Some((ino, _)), 0) = (t, r) {
        push(Ev::Fsync { ino });
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let t = tracked(fd);
    let r = libc::syscall(libc::SYS_fdatasync, fd);
    if let (Some((ino, _)), 0) = (t, r) {
        push(Ev::Fsync { ino });
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let t = tracked(fd);
    let r = libc::syscall(libc::SYS_ftruncate, fd, len);
    if let (Some((ino, _)), 0) = (t, r) {
        push(Ev::Trunc { ino, len: len as u64 });
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let track = ON.load(Ordering::Relaxed) && flags & (libc::O_CREAT | libc::O_TRUNC) != 0 && under(&CStr::from_ptr(path).to_string_lossy());
    let existed = track && libc::syscall(libc::SYS_access, path, 0) == 0;
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode) as c_int;
    if track && fd >= 0 {
        if let Some((ino, _, _)) = ino_of(fd) {
            if !existed {
                push(Ev::Link { name: CStr::from_ptr(path).to_string_lossy().into_owned(), ino });
            } else if flags & libc::O_TRUNC != 0 {
                push(Ev::Trunc { ino, len: 0 });
            }
        }
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (pa, pb) = (CStr::from_ptr(a).to_string_lossy().into_owned(), CStr::from_ptr(b).to_string_lossy().into_owned());
    let track = ON.load(Ordering::Relaxed) && under(&pb);
    let mut st: libc::stat64 = std::mem::zeroed();
    let known = track && libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, a, &mut st as *mut _, 0) == 0;
    let r = libc::syscall(libc::SYS_renameat, libc::AT_FDCWD, a, libc::AT_FDCWD, b) as c_int;
    if known && r == 0 {
        push(Ev::Link { name: pb, ino: st.st_ino });
        push(Ev::Unlink { name: pa });
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let name = CStr::from_ptr(p).to_string_lossy().into_owned();
    let r = libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, p, 0) as c_int;
    if r == 0 && ON.load(Ordering::Relaxed) && under(&name) {
        push(Ev::Unlink { name });
    }
    r
}

/// The disk as the recorded events describe it: what programs see, and what is known durable.
#[derive(Clone, Default)]
pub struct Disk {
    pub names: HashMap<String, u64>,
    /// per inode: content seen, durable content, writes since the last flush
    pub seen: HashMap<u64, Vec<u8>>,
    pub durable: HashMap<u64, Vec<u8>>,
    pub pending: HashMap<u64, Vec<(u64, Vec<u8>)>>,
}

fn put(v: &mut Vec<u8>, off: u64, d: &[u8]) {
    let end = off as usize + d.len();
    if v.len() < end {
        v.resize(end, 0);
    }
    v[off as usize..end].copy_from_slice(d);
}

impl Disk {
    /// An inode number can be reused once its last name is gone.
    fn forget(&mut self, ino: u64) {
        if !self.names.values().any(|i| *i == ino) {
            self.seen.remove(&ino);
            self.durable.remove(&ino);
            self.pending.remove(&ino);
        }
    }
    pub fn apply(&mut self, e: &Ev) {
        match e {
            Ev::Write { ino, off, data } => {
                put(self.seen.entry(*ino).or_default(), *off, data);
                self.pending.entry(*ino).or_default().push((*off, data.clone()));
            }
            Ev::Fsync { ino } => {
                let c = self.seen.entry(*ino).or_default().clone();
                self.durable.insert(*ino, c);
                self.pending.remove(ino);
            }
            Ev::Trunc { ino, len } => {
                self.seen.entry(*ino).or_default().resize(*len as usize, 0);
                self.durable.entry(*ino).or_default().resize(*len as usize, 0);
                self.pending.remove(ino);
            }
            Ev::Link { name, ino } => {
                if let Some(old) = self.names.insert(name.clone(), *ino) {
                    self.forget(old);
                }
                self.seen.entry(*ino).or_default();
            }
            Ev::Unlink { name } => {
                if let Some(ino) = self.names.remove(name) {
                    self.forget(ino);
                }
            }
            Ev::Mark(_) => {}
        }
    }
    /// Content of `ino` after power loss: everything flushed, plus the first `keep` bytes of
    /// what was written since.
    pub fn after_loss(&self, ino: u64, mut keep: usize) -> Vec<u8> {
        let mut v = self.durable.get(&ino).cloned().unwrap_or_default();
        for (off, d) in self.pending.get(&ino).into_iter().flatten() {
            let n = keep.min(d.len());
            if n > 0 {
                put(&mut v, *off, &d[..n]);
            }
            keep -= n;
        }
        v
    }
    pub fn unflushed(&self, ino: u64) -> usize {
        self.pending.get(&ino).into_iter().flatten().map(|p| p.1.len()).sum()
    }
}
