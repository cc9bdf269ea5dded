//! Interposed file-system calls: effect log below a root, crash images, fault
//! injection.  Also routes futex waits of controlled threads to the scheduler.
use libc::{c_char, c_int, c_long, c_uint, c_void, off64_t, size_t, ssize_t};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::CStr;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Create { path: String, obj: usize },
    Write { obj: usize, off: u64, data: Vec<u8> },
    Trunc { obj: usize, len: u64 },
    Sync { obj: usize },
    Rename { from: String, to: String },
    Unlink { path: String },
    Mkdir { path: String },
    Rmdir { path: String },
}

impl Op {
    pub fn name(&self) -> String {
        match self {
            Op::Create { path, .. } => format!("create {path}"),
            Op::Write { obj, off, data } => format!("write #{obj} @{off}+{}", data.len()),
            Op::Trunc { obj, len } => format!("truncate #{obj} to {len}"),
            Op::Sync { obj } => format!("sync #{obj}"),
            Op::Rename { from, to } => format!("rename {from} {to}"),
            Op::Unlink { path } => format!("unlink {path}"),
            Op::Mkdir { path } => format!("mkdir {path}"),
            Op::Rmdir { path } => format!("rmdir {path}"),
        }
    }
}

#[derive(Clone, Default)]
pub struct Image {
    pub dirs: BTreeSet<String>,
    pub names: BTreeMap<String, usize>,
    pub objs: HashMap<usize, Vec<u8>>,
}

#[derive(Default)]
struct Rec {
    root: String,
    base: Image,
    log: Vec<Op>,
    cur: BTreeMap<String, usize>,
    next: usize,
}

static BUSY: AtomicBool = AtomicBool::new(false);
static ON: AtomicBool = AtomicBool::new(false);
static mut REC: Option<Rec> = None;
static mut FDS: Option<HashMap<c_int, FdInfo>> = None;
static NOSYNC: AtomicBool = AtomicBool::new(true);

#[derive(Clone)]
struct FdInfo {
    path: String,
    obj: usize,
    append: bool,
}

// fault injection on file-system calls
static F_ON: AtomicBool = AtomicBool::new(false);
static F_SEEN: AtomicI64 = AtomicI64::new(0);
static F_AT: AtomicI64 = AtomicI64::new(-1);
static F_STICKY: AtomicBool = AtomicBool::new(false);
static F_HIT: AtomicI64 = AtomicI64::new(0);
static mut F_ROOT: String = String::new();
static mut F_NAMES: Vec<String> = Vec::new();

// a gate: one call below the root, made by another thread than the arming one, is held
static G_ON: AtomicBool = AtomicBool::new(false);
static G_AT: AtomicI64 = AtomicI64::new(-1);
static G_SEEN: AtomicI64 = AtomicI64::new(0);
/// 0 not reached, 1 held, 2 let through
static G_STATE: AtomicI64 = AtomicI64::new(0);
static G_UNTIL: AtomicI64 = AtomicI64::new(0);
static G_TID: AtomicI64 = AtomicI64::new(0);
static mut G_ROOT: String = String::new();
static mut G_NAME: String = String::new();

fn gettid() -> i64 {
    unsafe { sys(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) }
}
/// Holds the `at`-th call (from 0) made below `root` by another thread than this one, until
/// `gate_release` or until `gate_limit` has passed.
pub fn gate_arm(root: &Path, at: usize) {
    G_ON.store(false, SeqCst);
    let _l = lk();
    unsafe {
        G_ROOT = norm(root.to_str().unwrap());
        G_NAME = String::new();
    }
    G_TID.store(gettid(), SeqCst);
    G_SEEN.store(0, SeqCst);
    G_STATE.store(0, SeqCst);
    G_AT.store(at as i64, SeqCst);
    G_UNTIL.store(i64::MAX, SeqCst);
    G_ON.store(true, SeqCst);
}
/// the held call goes on after `ms` at the latest
pub fn gate_limit(ms: u64) {
    G_UNTIL.store(crate::rt::now_ms() as i64 + ms as i64, SeqCst);
}
pub fn gate_held() -> bool {
    G_STATE.load(SeqCst) == 1
}
/// whether the call was reached at all, and its name
pub fn gate_reached() -> Option<String> {
    let _l = lk();
    #[allow(static_mut_refs)]
    (G_STATE.load(SeqCst) != 0).then(|| unsafe { G_NAME.clone() })
}
pub fn gate_release() {
    G_UNTIL.store(0, SeqCst);
}
/// lets the held call through and waits until no other thread makes calls below the root
pub fn gate_settle() {
    gate_release();
    let mut last = (-1, crate::rt::now_ms());
    loop {
        let k = G_SEEN.load(SeqCst);
        if k != last.0 || gate_held() {
            last = (k, crate::rt::now_ms());
        }
        if crate::rt::now_ms() - last.1 >= 20 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    G_ON.store(false, SeqCst);
}
fn gate(kind: &str, path: &str) {
    if !G_ON.load(SeqCst) || gettid() == G_TID.load(SeqCst) {
        return;
    }
    {
        let _l = lk();
        #[allow(static_mut_refs)]
        let Some(p) = rel(unsafe { &G_ROOT }, path) else { return };
        let k = G_SEEN.fetch_add(1, SeqCst);
        if k != G_AT.load(SeqCst) {
            return;
        }
        unsafe { G_NAME = format!("{kind} {p}") };
        G_STATE.store(1, SeqCst);
    }
    while (crate::rt::now_ms() as i64) < G_UNTIL.load(SeqCst) {
        std::thread::sleep(std::time::Duration::from_micros(200));
    }
    G_STATE.store(2, SeqCst);
}
unsafe fn fd_gate(kind: &str, fd: c_int) {
    if G_ON.load(SeqCst) {
        if let Some(p) = fdpath(fd) {
            gate(kind, &p);
        }
    }
}

struct Lk;
fn lk() -> Lk {
    while BUSY.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
    Lk
}
impl Drop for Lk {
    fn drop(&mut self) {
        BUSY.store(false, SeqCst);
    }
}

#[inline(always)]
unsafe fn sys(n: c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = (-r) as i32 };
        -1
    } else {
        r
    }
}

#[allow(static_mut_refs)]
fn rec() -> Option<&'static mut Rec> {
    unsafe { REC.as_mut() }
}
#[allow(static_mut_refs)]
fn fds() -> &'static mut HashMap<c_int, FdInfo> {
    unsafe { FDS.get_or_insert_with(HashMap::new) }
}

fn norm(p: &str) -> String {
    let mut s = String::with_capacity(p.len());
    let mut last = ' ';
    for c in p.chars() {
        if c == '/' && last == '/' {
            continue;
        }
        s.push(c);
        last = c;
    }
    while s.len() > 1 && s.ends_with('/') {
        s.pop();
    }
    s.replace("/./", "/")
}

fn rel(root: &str, p: &str) -> Option<String> {
    let n = norm(p);
    n.strip_prefix(root).and_then(|r| if r.is_empty() { Some(String::new()) } else { r.strip_prefix('/').map(|x| x.to_string()) })
}

unsafe fn cpath(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().to_string()
}

unsafe fn at_path(dirfd: c_int, p: *const c_char) -> String {
    let s = cpath(p);
    if s.starts_with('/') || dirfd == libc::AT_FDCWD {
        if !s.starts_with('/') {
            return format!("{}/{}", cwd(), s);
        }
        return s;
    }
    let link = format!("/proc/self/fd/{dirfd}\0");
    let mut buf = [0u8; 4096];
    let n = sys(libc::SYS_readlink, link.as_ptr() as u64, buf.as_mut_ptr() as u64, 4096, 0, 0, 0);
    if n <= 0 {
        return s;
    }
    format!("{}/{}", String::from_utf8_lossy(&buf[..n as usize]), s)
}

fn cwd() -> String {
    let mut buf = [0u8; 4096];
    let n = unsafe { sys(libc::SYS_getcwd, buf.as_mut_ptr() as u64, 4096, 0, 0, 0, 0) };
    String::from_utf8_lossy(&buf[..(n.max(1) - 1) as usize]).to_string()
}

/// true: fail this call with EIO
fn fault(kind: &str, path: &str) -> bool {
    if !F_ON.load(SeqCst) {
        return false;
    }
    #[allow(static_mut_refs)]
    let root = unsafe { F_ROOT.clone() };
    if rel(&root, path).is_none() {
        return false;
    }
    // a failed write or sync of an open data file makes the storage library abort or hang by itself
    if path.ends_with("/db") && matches!(kind, "write" | "sync" | "truncate") {
        return false;
    }
    let _l = lk();
    let k = F_SEEN.fetch_add(1, SeqCst);
    #[allow(static_mut_refs)]
    unsafe {
        F_NAMES.push(format!("{kind} {}", rel(&root, path).unwrap()));
    }
    let at = F_AT.load(SeqCst);
    let hit = at >= 0 && (k == at || (k > at && F_STICKY.load(SeqCst)));
    if hit {
        F_HIT.fetch_add(1, SeqCst);
    }
    hit
}

pub fn arm_fs_faults(root: &Path, at: i64, sticky: bool) {
    unsafe {
        F_ROOT = norm(root.to_str().unwrap());
        F_NAMES = Vec::new();
    }
    F_SEEN.store(0, SeqCst);
    F_HIT.store(0, SeqCst);
    F_AT.store(at, SeqCst);
    F_STICKY.store(sticky, SeqCst);
    F_ON.store(true, SeqCst);
}
/// (calls seen, faults delivered, names)
pub fn disarm_fs_faults() -> (usize, usize, Vec<String>) {
    F_ON.store(false, SeqCst);
    let _l = lk();
    #[allow(static_mut_refs)]
    let names = unsafe { std::mem::take(&mut F_NAMES) };
    (F_SEEN.load(SeqCst) as usize, F_HIT.load(SeqCst) as usize, names)
}

fn note_open(fd: i64, path: &str, flags: c_int, existed: bool) {
    if fd < 0 || !ON.load(SeqCst) {
        return;
    }
    let _l = lk();
    let Some(r) = rec() else { return };
    let Some(p) = rel(&r.root, path) else { return };
    if flags & libc::O_DIRECTORY != 0 {
        return;
    }
    // directories opened read-only without O_DIRECTORY are not files
    let acc = flags & libc::O_ACCMODE;
    let known = r.cur.get(&p).copied();
    let obj = match known {
        Some(o) => o,
        None => {
            if existed || (acc == libc::O_RDONLY && flags & libc::O_CREAT == 0) {
                return;
            }
            let o = r.next;
            r.next += 1;
            r.cur.insert(p.clone(), o);
            r.log.push(Op::Create { path: p.clone(), obj: o });
            o
        }
    };
    if flags & libc::O_TRUNC != 0 && known.is_some() {
        r.log.push(Op::Trunc { obj, len: 0 });
    }
    fds().insert(fd as c_int, FdInfo { path: path.to_string(), obj, append: flags & libc::O_APPEND != 0 });
}

unsafe fn do_open(path: String, cp: *const c_char, dirfd: c_int, flags: c_int, mode: c_uint) -> c_int {
    let writing = flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    if F_ON.load(SeqCst) && fault(if writing { "open-write" } else { "open-read" }, &path) {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    if writing && G_ON.load(SeqCst) {
        gate("open", &path);
    }
    let fd = sys(libc::SYS_openat, dirfd as u64, cp as u64, flags as u64 as u32 as u64, mode as u64, 0, 0);
    if ON.load(SeqCst) {
        note_open(fd, &path, flags, false);
    }
    ret(fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let path = if ON.load(SeqCst) || F_ON.load(SeqCst) || G_ON.load(SeqCst) { at_path(libc::AT_FDCWD, p) } else { String::new() };
    do_open(path, p, libc::AT_FDCWD, flags | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let path = if ON.load(SeqCst) || F_ON.load(SeqCst) || G_ON.load(SeqCst) { at_path(d, p) } else { String::new() };
    do_open(path, p, d, flags | libc::O_LARGEFILE, mode)
}

fn fdpath(fd: c_int) -> Option<String> {
    let mut buf = [0u8; 4096];
    let link = format!("/proc/self/fd/{fd}\0");
    let n = unsafe { sys(libc::SYS_readlink, link.as_ptr() as u64, buf.as_mut_ptr() as u64, 4096, 0, 0, 0) };
    (n > 0).then(|| String::from_utf8_lossy(&buf[..n as usize]).to_string())
}
unsafe fn fd_fault(kind: &str, fd: c_int) -> bool {
    if !F_ON.load(SeqCst) {
        return false;
    }
    match fdpath(fd) {
        Some(p) => fault(kind, &p),
        None => false,
    }
}

unsafe fn log_write(fd: c_int, off: Option<u64>, buf: *const c_void, n: i64) {
    if n <= 0 || !ON.load(SeqCst) {
        return;
    }
    let _l = lk();
    let Some(i) = fds().get(&fd).cloned() else { return };
    let Some(r) = rec() else { return };
    let off = match off {
        Some(o) => o,
        None => (sys(libc::SYS_lseek, fd as u64, 0, libc::SEEK_CUR as u64, 0, 0, 0) - n) as u64,
    };
    let _ = i.append;
    r.log.push(Op::Write { obj: i.obj, off, data: std::slice::from_raw_parts(buf as *const u8, n as usize).to_vec() });
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    fd_gate("write", fd);
    if fd_fault("write", fd) {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    let r = sys(libc::SYS_write, fd as u64, buf as u64, n as u64, 0, 0, 0);
    log_write(fd, None, buf, r);
    ret(r) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    fd_gate("write", fd);
    if fd_fault("write", fd) {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    let r = sys(libc::SYS_pwrite64, fd as u64, buf as u64, n as u64, off as u64, 0, 0);
    log_write(fd, Some(off as u64), buf, r);
    ret(r) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    // one vector at a time keeps the log simple (callers handle short writes)
    for i in 0..cnt {
        let v = &*iov.add(i as usize);
        if v.iov_len > 0 {
            return write(fd, v.iov_base, v.iov_len);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd_fault("read", fd) {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    ret(sys(libc::SYS_read, fd as u64, buf as u64, n as u64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    fd_gate("truncate", fd);
    if fd_fault("truncate", fd) {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    let r = sys(libc::SYS_ftruncate, fd as u64, len as u64, 0, 0, 0, 0);
    if r == 0 && ON.load(SeqCst) {
        let _l = lk();
        if let (Some(i), Some(rc)) = (fds().get(&fd).cloned(), rec()) {
            rc.log.push(Op::Trunc { obj: i.obj, len: len as u64 });
        }
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
unsafe fn log_sync(fd: c_int) -> c_int {
    fd_gate("sync", fd);
    if fd_fault("sync", fd) {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    if ON.load(SeqCst) {
        let _l = lk();
        if let (Some(i), Some(rc)) = (fds().get(&fd).cloned(), rec()) {
            rc.log.push(Op::Sync { obj: i.obj });
        }
    }
    if !NOSYNC.load(SeqCst) {
        return ret(sys(libc::SYS_fsync, fd as u64, 0, 0, 0, 0, 0)) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    log_sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    log_sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, _o: off64_t, _n: off64_t, _f: c_uint) -> c_int {
    // sync_file_range gives no durability guarantee by itself (metadata), but
    // sled relies on it for already allocated ranges: treated as a sync.
    log_sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut off64_t, _c: c_int, _d: *mut off64_t, _n: size_t, _f: c_uint) -> ssize_t {
    *libc::__errno_location() = libc::ENOSYS;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_o: c_int, _i: c_int, _f: *mut off64_t, _n: size_t) -> ssize_t {
    *libc::__errno_location() = libc::ENOSYS;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(_o: c_int, _i: c_int, _f: *mut off64_t, _n: size_t) -> ssize_t {
    *libc::__errno_location() = libc::ENOSYS;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn splice(_a: c_int, _b: *mut off64_t, _c: c_int, _d: *mut off64_t, _n: size_t, _f: c_uint) -> ssize_t {
    *libc::__errno_location() = libc::EINVAL;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ON.load(SeqCst) {
        let _l = lk();
        fds().remove(&fd);
    }
    ret(sys(libc::SYS_close, fd as u64, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (pa, pb) = (at_path(libc::AT_FDCWD, a), at_path(libc::AT_FDCWD, b));
    gate("rename", &pb);
    if F_ON.load(SeqCst) && fault("rename", &pb) {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    let r = sys(libc::SYS_rename, a as u64, b as u64, 0, 0, 0, 0);
    if r == 0 && ON.load(SeqCst) {
        let _l = lk();
        if let Some(rc) = rec() {
            if let (Some(x), Some(y)) = (rel(&rc.root, &pa), rel(&rc.root, &pb)) {
                rename_map(&mut rc.cur, &x, &y);
                rc.log.push(Op::Rename { from: x, to: y });
            }
        }
    }
    ret(r) as c_int
}

fn rename_map(m: &mut BTreeMap<String, usize>, x: &str, y: &str) {
    if let Some(o) = m.remove(x) {
        m.insert(y.to_string(), o);
        return;
    }
    let pre = format!("{x}/");
    let ks: Vec<String> = m.keys().filter(|k| k.starts_with(&pre)).cloned().collect();
    for k in ks {
        let o = m.remove(&k).unwrap();
        m.insert(format!("{y}/{}", &k[pre.len()..]), o);
    }
}

unsafe fn do_unlink(path: &str, r: i64, dir: bool) -> c_int {
    if r == 0 && ON.load(SeqCst) {
        let _l = lk();
        if let Some(rc) = rec() {
            if let Some(x) = rel(&rc.root, path) {
                if dir {
                    rc.log.push(Op::Rmdir { path: x });
                } else {
                    rc.cur.remove(&x);
                    rc.log.push(Op::Unlink { path: x });
                }
            }
        }
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let path = at_path(libc::AT_FDCWD, p);
    gate("unlink", &path);
    if F_ON.load(SeqCst) && fault("unlink", &path) {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    do_unlink(&path, sys(libc::SYS_unlink, p as u64, 0, 0, 0, 0, 0), false)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    let path = at_path(d, p);
    gate("unlink", &path);
    if F_ON.load(SeqCst) && fault(if flags & libc::AT_REMOVEDIR != 0 { "rmdir" } else { "unlink" }, &path) {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    do_unlink(&path, sys(libc::SYS_unlinkat, d as u64, p as u64, flags as u64, 0, 0, 0), flags & libc::AT_REMOVEDIR != 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    let path = at_path(libc::AT_FDCWD, p);
    gate("rmdir", &path);
    if F_ON.load(SeqCst) && fault("rmdir", &path) {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    do_unlink(&path, sys(libc::SYS_rmdir, p as u64, 0, 0, 0, 0, 0), true)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: c_uint) -> c_int {
    let path = at_path(libc::AT_FDCWD, p);
    gate("mkdir", &path);
    if F_ON.load(SeqCst) && fault("mkdir", &path) {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    let r = sys(libc::SYS_mkdir, p as u64, mode as u64, 0, 0, 0, 0);
    if r == 0 && ON.load(SeqCst) {
        let _l = lk();
        if let Some(rc) = rec() {
            if let Some(x) = rel(&rc.root, &path) {
                rc.log.push(Op::Mkdir { path: x });
            }
        }
    }
    ret(r) as c_int
}

/// futex waits of controlled threads become scheduler states.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> c_long {
    if n == libc::SYS_futex {
        let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            if vsched::futex_wait(a as usize, c as u32) {
                return 0;
            }
        } else if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            vsched::futex_wake(a as usize);
        }
    }
    ret(sys(n, a, b, c, d, e, f))
}

// ------------------------------------------------------------------ images

pub fn snapshot(root: &Path) -> Image {
    fn walk(root: &Path, d: &Path, im: &mut Image) {
        let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap()).collect();
        es.sort_by_key(|e| e.file_name());
        for e in es {
            let p = e.path();
            let r = p.strip_prefix(root).unwrap().to_str().unwrap().to_string();
            if e.file_type().unwrap().is_dir() {
                im.dirs.insert(r);
                walk(root, &p, im);
            } else {
                let o = im.objs.len();
                im.names.insert(r, o);
                im.objs.insert(o, std::fs::read(&p).unwrap());
            }
        }
    }
    let mut im = Image::default();
    walk(root, root, &mut im);
    im
}

/// Starts logging effects below `root` (existing contents become the base).
pub fn start(root: &Path) {
    let base = snapshot(root);
    let _l = lk();
    unsafe {
        FDS = Some(HashMap::new());
        REC = Some(Rec { root: norm(root.to_str().unwrap()), cur: base.names.clone(), next: base.objs.len(), base, log: vec![] });
    }
    ON.store(true, SeqCst);
}
pub fn mark() -> usize {
    let _l = lk();
    rec().map(|r| r.log.len()).unwrap_or(0)
}
/// waits until nothing has been logged for a while
pub fn settle() {
    let mut last = mark();
    let mut quiet = 0;
    while quiet < 5 {
        std::thread::sleep(std::time::Duration::from_millis(2));
        let m = mark();
        quiet = if m == last { quiet + 1 } else { 0 };
        last = m;
    }
}
pub fn stop() -> (Image, Vec<Op>) {
    ON.store(false, SeqCst);
    let _l = lk();
    #[allow(static_mut_refs)]
    let r = unsafe { REC.take() }.unwrap();
    (r.base, r.log)
}

impl Image {
    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Create { path, obj } => {
                self.names.insert(path.clone(), *obj);
                self.objs.insert(*obj, vec![]);
            }
            Op::Write { obj, off, data } => {
                let o = self.objs.entry(*obj).or_default();
                let end = *off as usize + data.len();
                if o.len() < end {
                    o.resize(end, 0);
                }
                o[*off as usize..end].copy_from_slice(data);
            }
            Op::Trunc { obj, len } => self.objs.entry(*obj).or_default().resize(*len as usize, 0),
            Op::Sync { .. } => {}
            Op::Rename { from, to } => {
                if self.dirs.contains(from) {
                    let pre = format!("{from}/");
                    let ds: Vec<String> = self.dirs.iter().filter(|d| *d == from || d.starts_with(&pre)).cloned().collect();
                    for d in ds {
                        self.dirs.remove(&d);
                        self.dirs.insert(format!("{to}{}", &d[from.len()..]));
                    }
                }
                rename_map(&mut self.names, from, to)
            }
            Op::Unlink { path } => {
                self.names.remove(path);
            }
            Op::Mkdir { path } => {
                self.dirs.insert(path.clone());
            }
            Op::Rmdir { path } => {
                self.dirs.remove(path);
            }
        }
    }
    pub fn write_to(&self, root: &Path) {
        let _ = std::fs::remove_dir_all(root);
        std::fs::create_dir_all(root).unwrap();
        for d in &self.dirs {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        for (n, o) in &self.names {
            use std::io::{Seek, Write};
            let p = root.join(n);
            if let Some(d) = p.parent() {
                std::fs::create_dir_all(d).unwrap();
            }
            let data = self.objs.get(o).map(|v| v.as_slice()).unwrap_or(&[]);
            let mut f = std::fs::File::create(p).unwrap();
            // keep zero pages sparse
            for (i, ch) in data.chunks(4096).enumerate() {
                if ch.iter().any(|b| *b != 0) {
                    f.seek(std::io::SeekFrom::Start(i as u64 * 4096)).unwrap();
                    f.write_all(ch).unwrap();
                }
            }
            f.set_len(data.len() as u64).unwrap();
        }
    }
    pub fn same_tree(&self, other: &Image) -> Result<(), String> {
        if self.dirs != other.dirs {
            return Err(format!("directories differ: {:?} / {:?}", self.dirs, other.dirs));
        }
        let (a, b): (Vec<_>, Vec<_>) = (self.names.keys().collect(), other.names.keys().collect());
        if a != b {
            return Err(format!("files differ: {a:?} / {b:?}"));
        }
        for k in self.names.keys() {
            if self.objs[&self.names[k]] != other.objs[&other.names[k]] {
                return Err(format!("content of {k} differs"));
            }
        }
        Ok(())
    }
    /// content fingerprint (to skip identical crash images)
    pub fn print(&self) -> u64 {
        let mut v: Vec<(&String, &[u8])> = self.names.iter().map(|(k, o)| (k, self.objs.get(o).map(|x| x.as_slice()).unwrap_or(&[]))).collect();
        v.sort();
        crate::rt::h64(&(v, &self.dirs))
    }
}

/// Joins runs of writes that append zeros to one file (the empty tail of a copied database) into
/// one write each; such a write is still cut at several lengths.
pub fn join_zeros(log: Vec<Op>) -> Vec<Op> {
    let zero = |d: &[u8]| d.iter().all(|b| *b == 0);
    let mut out: Vec<Op> = vec![];
    for op in log {
        if let (Some(Op::Write { obj: o0, off: f0, data: d0 }), Op::Write { obj, off, data }) = (out.last_mut(), &op) {
            if *o0 == *obj && *f0 + d0.len() as u64 == *off as u64 && zero(d0) && zero(data) {
                d0.extend_from_slice(data);
                continue;
            }
        }
        out.push(op);
    }
    out
}

/// Crash images at a point: everything completed, un-synced data lost
/// (all files / one file), last write torn.
pub struct Crash<'a> {
    base: &'a Image,
    log: &'a [Op],
}
impl<'a> Crash<'a> {
    pub fn new(base: &'a Image, log: &'a [Op]) -> Self {
        Crash { base, log }
    }
    /// image after the first k calls
    pub fn killed(&self, k: usize) -> Image {
        let mut im = self.base.clone();
        for op in &self.log[..k] {
            im.apply(op);
        }
        im
    }
    /// k calls done, call k (a write) only with its first n bytes
    pub fn torn(&self, k: usize, n: usize) -> Option<Image> {
        if let Some(Op::Write { obj, off, data }) = self.log.get(k) {
            if n < data.len() {
                let mut im = self.killed(k);
                im.apply(&Op::Write { obj: *obj, off: *off, data: data[..n].to_vec() });
                return Some(im);
            }
        }
        None
    }
    /// objects with un-synced effects after k calls
    pub fn unsynced(&self, k: usize) -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        for op in &self.log[..k] {
            match op {
                Op::Write { obj, .. } | Op::Trunc { obj, .. } => {
                    s.insert(*obj);
                }
                Op::Sync { obj } => {
                    s.remove(obj);
                }
                _ => {}
            }
        }
        s
    }
    /// k calls done, then power loss: the named objects lose all data written
    /// since their last sync (name-space operations are kept in order)
    pub fn power(&self, k: usize, lose: &BTreeSet<usize>) -> Image {
        let mut im = self.base.clone();
        let mut last: HashMap<usize, usize> = HashMap::new();
        for (i, op) in self.log[..k].iter().enumerate() {
            if let Op::Sync { obj } = op {
                last.insert(*obj, i);
            }
        }
        for (i, op) in self.log[..k].iter().enumerate() {
            match op {
                Op::Write { obj, .. } | Op::Trunc { obj, .. } if lose.contains(obj) && last.get(obj).map_or(true, |l| i > *l) => {}
                _ => im.apply(op),
            }
        }
        im
    }
}

pub fn path_of(d: &Path, s: &str) -> PathBuf {
    d.join(s)
}

/// Follows the logged effects and keeps what is on disk for certain: names as they are, contents
/// as of each file's last sync.
#[derive(Default)]
pub struct Live {
    cur: Image,
    synced: HashMap<usize, Vec<u8>>,
    at: usize,
    /// the state when `keep` was called, and the calls followed since
    kept: Option<(Image, HashMap<usize, Vec<u8>>, Vec<Op>)>,
}
impl Live {
    /// after `start`
    pub fn new() -> Live {
        let _l = lk();
        let r = rec().unwrap();
        Live { cur: r.base.clone(), synced: r.base.objs.clone(), at: 0, kept: None }
    }
    pub fn catch_up(&mut self) {
        let _l = lk();
        let r = rec().unwrap();
        for op in &r.log[self.at..] {
            self.cur.apply(op);
            if let Op::Sync { obj } = op {
                self.synced.insert(*obj, self.cur.objs.get(obj).cloned().unwrap_or_default());
            }
        }
        // what has been followed is not needed again
        let done = std::mem::take(&mut r.log);
        if let Some(k) = &mut self.kept {
            k.2.extend(done);
        }
        self.at = 0;
    }
    /// keeps the calls from here on
    pub fn keep(&mut self) {
        self.catch_up();
        self.kept = Some((self.cur.clone(), self.synced.clone(), vec![]));
    }
    /// calls kept so far
    pub fn kept(&self) -> usize {
        self.kept.as_ref().map_or(0, |k| k.2.len())
    }
    /// the images after each of the kept calls from `from` on, and within the writes: where the
    /// process is killed, and where power fails too
    pub fn images(&mut self, from: usize) -> Vec<(usize, String, Image)> {
        let Some((cur, synced, log)) = self.kept.take() else { return vec![] };
        let mut l = Live { cur, synced, at: 0, kept: None };
        let mut v = vec![];
        for k in 0..=log.len() {
            if k >= from {
                let next = log.get(k).map_or("nothing".into(), |o| o.name());
                v.push((k, format!("the process ending before {next}"), l.killed()));
                v.push((k, format!("power failing before {next}"), l.power()));
                if let Some(Op::Write { obj, off, data }) = log.get(k) {
                    let mut t = l.killed();
                    t.apply(&Op::Write { obj: *obj, off: *off, data: data[..data.len() / 2].to_vec() });
                    v.push((k, format!("the process ending within {next}"), t));
                }
            }
            if let Some(op) = log.get(k) {
                l.cur.apply(op);
                if let Op::Sync { obj } = op {
                    l.synced.insert(*obj, l.cur.objs.get(obj).cloned().unwrap_or_default());
                }
            }
        }
        v
    }
    /// the process ends here
    pub fn killed(&self) -> Image {
        self.cur.clone()
    }
    /// power fails here
    pub fn power(&self) -> Image {
        Image { dirs: self.cur.dirs.clone(), names: self.cur.names.clone(), objs: self.cur.names.values().map(|o| (*o, self.synced.get(o).cloned().unwrap_or_default())).collect() }
    }
}
