//! Interposed libc symbols. A thread without a simulation context goes straight to the real
//! kernel; a thread with one has its file, lock, clock, sleep, futex and entropy calls answered by
//! the simulator: in remote mode by the coordinator process that schedules all simulated
//! processes, in local mode by a context owned by the thread itself.
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU32, Ordering};

use crate::choices::Rng;
use crate::fs::{self, SimFs, Stat, FD_BASE};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u32)]
pub enum Op {
  Hello = 0, Open, Close, Read, Write, Lseek, Ftruncate, Fstat, Stat, Flock, Mkdir, Unlink, Rename,
  Fsync, Dup, List, Sleep, FutexWait, FutexWake, OpBegin, OpEnd, Exit, Yield, TruncatePath,
}
impl Op {
  pub fn from_u32(v: u32) -> Op { unsafe { std::mem::transmute(v.min(Op::TruncatePath as u32)) } }
}

#[derive(Clone, Debug)]
pub struct Req { pub op: Op, pub a: [i64; 4], pub data: Vec<u8> }
impl Req {
  pub fn path(&self) -> String { String::from_utf8_lossy(&self.data).into_owned() }
}
pub type Reply = Result<(i64, Vec<u8>), i32>;

/// Executes a file system request without faults or scheduling.
pub fn fs_exec(f: &mut SimFs, p: u32, r: &Req) -> Reply {
  let fd = r.a[0] as i32;
  match r.op {
    Op::Open => f.open(p, &r.path(), r.a[0] as i32).map(|x| (x as i64, vec![])),
    Op::Close => f.close(p, fd).map(|_| (0, vec![])),
    Op::Read => f.read(p, fd, r.a[1] as usize).map(|d| (d.len() as i64, d)),
    Op::Write => f.write(p, fd, &r.data).map(|n| (n as i64, vec![])),
    Op::Lseek => f.lseek(p, fd, r.a[1], r.a[2] as i32).map(|n| (n, vec![])),
    Op::Ftruncate => f.ftruncate(p, fd, r.a[1]).map(|_| (0, vec![])),
    Op::TruncatePath => { let h = f.open(p, &r.path(), libc::O_WRONLY)?; let x = f.ftruncate(p, h, r.a[1]); let _ = f.close(p, h); x.map(|_| (0, vec![])) }
    Op::Fstat => f.fstat(p, fd).map(|s| (0, enc_stat(&s))),
    Op::Stat => f.stat(&r.path()).map(|s| (0, enc_stat(&s))),
    Op::Flock => f.flock(p, fd, r.a[1] as i32).map(|_| (0, vec![])),
    Op::Mkdir => f.mkdir(&r.path()).map(|_| (0, vec![])),
    Op::Unlink => f.unlink(&r.path(), r.a[0] != 0).map(|_| (0, vec![])),
    Op::Rename => { let s = r.path(); let mut i = s.splitn(2, '\0'); let a = i.next().unwrap_or("").to_string(); let b = i.next().unwrap_or("").to_string(); f.rename(&a, &b).map(|_| (0, vec![])) }
    Op::Fsync => f.fstat(p, fd).map(|_| (0, vec![])),
    Op::Dup => f.dup(p, fd).map(|x| (x as i64, vec![])),
    Op::List => f.list(&r.path()).map(|l| {
      let mut d = vec![];
      for (n, dir) in l { d.push(dir as u8); d.extend_from_slice(n.as_bytes()); d.push(0); }
      (0, d)
    }),
    _ => Err(fs::ENOSYS),
  }
}
fn enc_stat(s: &Stat) -> Vec<u8> {
  let mut v = vec![]; v.extend(s.ino.to_le_bytes()); v.extend(s.size.to_le_bytes()); v.push(s.dir as u8); v
}

pub const SLOT_DATA: usize = 1 << 20;
#[repr(C)]
pub struct Slot {
  pub state: AtomicU32,
  pub op: u32,
  pub a: [i64; 4],
  pub ret: i64,
  pub err: i32,
  pub len: u32,
  pub now: i64,
  pub wall: i64,
  pub data: [u8; SLOT_DATA],
}

pub struct Local {
  pub fs: SimFs,
  pub mono_ns: i64,
  pub wall_ns: i64,
  /// jumps (ns) applied to the wall clock after each read, in turn
  pub jumps: Vec<i64>,
  pub jump_at: usize,
  pub rng: Rng,
  /// per mille of requests for entropy that are interrupted or answered in part
  pub entropy_flaky: u64,
  pub fault: Option<Box<dyn FnMut(&Req) -> Option<FaultKind>>>,
  pub clock_reads: u64,
  pub entropy_reads: u64,
  pub syscalls: u64,
  pub faults_fired: Vec<&'static str>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultKind { Errno(i32), Short(usize) }
impl Local {
  pub fn new(seed: u64) -> Local {
    Local { fs: SimFs::new(), mono_ns: 1_000_000_000_000, wall_ns: 1_735_689_600_000_000_000, jumps: vec![], jump_at: 0,
      rng: Rng::new(seed), entropy_flaky: 0, fault: None, clock_reads: 0, entropy_reads: 0, syscalls: 0, faults_fired: vec![] }
  }
  fn exec(&mut self, r: &Req) -> Reply {
    self.syscalls += 1;
    if r.op == Op::Sleep { self.mono_ns += r.a[0]; self.wall_ns += r.a[0]; return Ok((0, vec![])); }
    let f = match &mut self.fault { Some(f) => f(r), None => None };
    match f {
      Some(FaultKind::Errno(e)) => { self.faults_fired.push("errno"); Err(e) }
      Some(FaultKind::Short(n)) => {
        self.faults_fired.push("short");
        let mut q = r.clone();
        match q.op { Op::Read => q.a[1] = q.a[1].min(n.max(1) as i64), Op::Write => q.data.truncate(n.max(1)), _ => () }
        fs_exec(&mut self.fs, 0, &q)
      }
      None => fs_exec(&mut self.fs, 0, r)
    }
  }
}

pub enum Ctx { Remote { slot: *mut Slot, rng: Rng }, Local(Box<Local>) }

thread_local! { static CTX: Cell<*mut Ctx> = const { Cell::new(null_mut()) }; }

#[inline] fn ctx() -> Option<&'static mut Ctx> {
  let p = CTX.try_with(|c| c.get()).unwrap_or(null_mut());
  if p.is_null() { None } else { Some(unsafe { &mut *p }) }
}

/// Installs a local context on this thread for the duration of `f`.
pub fn with_local<T>(l: Local, f: impl FnOnce() -> T) -> (T, Local) {
  let p = Box::into_raw(Box::new(Ctx::Local(Box::new(l))));
  let old = CTX.with(|c| c.replace(p));
  struct G(*mut Ctx);
  impl Drop for G { fn drop(&mut self) { CTX.with(|c| c.set(self.0)); } }
  let g = G(old);
  let t = f();
  drop(g);
  match *unsafe { Box::from_raw(p) } { Ctx::Local(l) => (t, *l), _ => unreachable!() }
}
/// Access to the current local context (None outside of one).
pub fn local() -> Option<&'static mut Local> {
  match ctx() { Some(Ctx::Local(l)) => Some(l), _ => None }
}
/// Runs `f` with the simulation context switched off.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
  let old = CTX.with(|c| c.replace(null_mut()));
  let r = f();
  CTX.with(|c| c.set(old));
  r
}
pub fn attach_remote(slot: *mut Slot, seed: u64) {
  let p = Box::into_raw(Box::new(Ctx::Remote { slot, rng: Rng::new(seed) }));
  CTX.with(|c| c.set(p));
}
pub fn detach() { CTX.with(|c| c.set(null_mut())); }

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  let r: i64;
  std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
    lateout("rcx") _, lateout("r11") _, options(nostack));
  r
}
unsafe fn ret(r: i64) -> i64 { if r < 0 && r > -4096 { *libc::__errno_location() = (-r) as i32; -1 } else { r } }
unsafe fn fail(e: i32) -> i64 { *libc::__errno_location() = e; -1 }

pub fn raw_futex_wait(a: &AtomicU32, val: u32, timeout_ms: i64) {
  let ts = libc::timespec { tv_sec: timeout_ms / 1000, tv_nsec: (timeout_ms % 1000) * 1_000_000 };
  let tp = if timeout_ms < 0 { 0 } else { &ts as *const _ as i64 };
  unsafe { raw(libc::SYS_futex, a as *const _ as i64, 0, val as i64, tp, 0, 0); }
}
pub fn raw_futex_wake(a: &AtomicU32) { unsafe { raw(libc::SYS_futex, a as *const _ as i64, 1, i32::MAX as i64, 0, 0, 0); } }

/// Sends a request to whoever simulates this thread.
pub fn call(r: Req) -> Reply {
  match ctx() {
    None => Err(fs::ENOSYS),
    Some(Ctx::Local(l)) => l.exec(&r),
    Some(Ctx::Remote { slot, .. }) => unsafe {
      let s = &mut **slot;
      s.op = r.op as u32;
      s.a = r.a;
      let n = r.data.len().min(SLOT_DATA);
      s.data[..n].copy_from_slice(&r.data[..n]);
      s.len = n as u32;
      s.state.store(1, Ordering::SeqCst);
      raw_futex_wake(&s.state);
      while s.state.load(Ordering::SeqCst) != 2 { raw_futex_wait(&s.state, 1, -1); }
      s.state.store(0, Ordering::SeqCst);
      if s.err != 0 { Err(s.err) } else { Ok((s.ret, s.data[..s.len as usize].to_vec())) }
    }
  }
}
fn rq(op: Op, a: [i64; 4], data: &[u8]) -> Req { Req { op, a, data: data.to_vec() } }
unsafe fn done(r: Reply) -> i64 { match r { Ok((n, _)) => n, Err(e) => fail(e) } }
unsafe fn simpath<'a>(p: *const c_char) -> Option<&'a [u8]> {
  if p.is_null() { return None; }
  if CTX.try_with(|c| c.get()).unwrap_or(null_mut()).is_null() { return None; }
  let b = CStr::from_ptr(p).to_bytes();
  if b == b"/sim" || b == b"/etc/localtime" || b.starts_with(b"/sim/") { Some(b) } else { None }
}
fn simfd(fd: c_int) -> bool { fd >= FD_BASE && !CTX.try_with(|c| c.get()).unwrap_or(null_mut()).is_null() }

macro_rules! open_fn { ($name:ident) => {
  #[no_mangle] pub unsafe extern "C" fn $name(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    match simpath(p) { Some(b) => done(call(rq(Op::Open, [flags as i64, 0, 0, 0], b))) as c_int,
      None => ret(raw(libc::SYS_openat, libc::AT_FDCWD as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int }
  } } }
open_fn!(open); open_fn!(open64);
macro_rules! openat_fn { ($name:ident) => {
  #[no_mangle] pub unsafe extern "C" fn $name(dir: c_int, p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    match simpath(p) { Some(b) => done(call(rq(Op::Open, [flags as i64, 0, 0, 0], b))) as c_int,
      None => ret(raw(libc::SYS_openat, dir as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int }
  } } }
openat_fn!(openat); openat_fn!(openat64);

#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
  if simfd(fd) { done(call(rq(Op::Close, [fd as i64, 0, 0, 0], b""))) as c_int }
  else if fd >= FD_BASE { 0 }
  else { ret(raw(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int }
}
unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize) -> isize {
  match call(rq(Op::Read, [fd as i64, n.min(SLOT_DATA) as i64, 0, 0], b"")) {
    Ok((_, d)) => { std::ptr::copy_nonoverlapping(d.as_ptr(), buf, d.len()); d.len() as isize }
    Err(e) => fail(e) as isize
  }
}
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
  if simfd(fd) { do_read(fd, buf as *mut u8, n) } else { ret(raw(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize }
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
  // what simulated code prints goes nowhere
  if fd == 1 && matches!(ctx(), Some(Ctx::Local(_))) { return n as isize; }
  if simfd(fd) { done(call(rq(Op::Write, [fd as i64, 0, 0, 0], std::slice::from_raw_parts(buf as *const u8, n.min(SLOT_DATA))))) as isize }
  else { ret(raw(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize }
}
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
  if simfd(fd) { let v = std::slice::from_raw_parts(iov, n as usize); match v.iter().find(|i| i.iov_len > 0) { Some(i) => do_read(fd, i.iov_base as *mut u8, i.iov_len), None => 0 } }
  else { ret(raw(libc::SYS_readv, fd as i64, iov as i64, n as i64, 0, 0, 0)) as isize }
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
  if simfd(fd) {
    let v = std::slice::from_raw_parts(iov, n as usize);
    let mut all = vec![];
    for i in v { all.extend_from_slice(std::slice::from_raw_parts(i.iov_base as *const u8, i.iov_len)); }
    all.truncate(SLOT_DATA);
    done(call(rq(Op::Write, [fd as i64, 0, 0, 0], &all))) as isize
  } else { ret(raw(libc::SYS_writev, fd as i64, iov as i64, n as i64, 0, 0, 0)) as isize }
}
unsafe fn do_pread(fd: c_int, buf: *mut u8, n: usize, off: i64) -> isize {
  let cur = match call(rq(Op::Lseek, [fd as i64, 0, 1, 0], b"")) { Ok((c, _)) => c, Err(e) => return fail(e) as isize };
  let _ = call(rq(Op::Lseek, [fd as i64, off, 0, 0], b""));
  let r = do_read(fd, buf, n);
  let _ = call(rq(Op::Lseek, [fd as i64, cur, 0, 0], b""));
  r
}
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
  if simfd(fd) { do_pread(fd, buf as *mut u8, n, off) } else { ret(raw(libc::SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize }
}
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
  if simfd(fd) {
    let cur = match call(rq(Op::Lseek, [fd as i64, 0, 1, 0], b"")) { Ok((c, _)) => c, Err(e) => return fail(e) as isize };
    let _ = call(rq(Op::Lseek, [fd as i64, off, 0, 0], b""));
    let r = done(call(rq(Op::Write, [fd as i64, 0, 0, 0], std::slice::from_raw_parts(buf as *const u8, n.min(SLOT_DATA))))) as isize;
    let _ = call(rq(Op::Lseek, [fd as i64, cur, 0, 0], b""));
    r
  } else { ret(raw(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize }
}
macro_rules! lseek_fn { ($name:ident) => {
  #[no_mangle] pub unsafe extern "C" fn $name(fd: c_int, off: i64, wh: c_int) -> i64 {
    if simfd(fd) { done(call(rq(Op::Lseek, [fd as i64, off, wh as i64, 0], b""))) } else { ret(raw(libc::SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0)) }
  } } }
lseek_fn!(lseek); lseek_fn!(lseek64);
macro_rules! ftruncate_fn { ($name:ident) => {
  #[no_mangle] pub unsafe extern "C" fn $name(fd: c_int, len: i64) -> c_int {
    if simfd(fd) { done(call(rq(Op::Ftruncate, [fd as i64, len, 0, 0], b""))) as c_int } else { ret(raw(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as c_int }
  } } }
ftruncate_fn!(ftruncate); ftruncate_fn!(ftruncate64);
macro_rules! fsync_fn { ($name:ident, $n:expr) => {
  #[no_mangle] pub unsafe extern "C" fn $name(fd: c_int) -> c_int {
    if simfd(fd) { done(call(rq(Op::Fsync, [fd as i64, 0, 0, 0], b""))) as c_int } else { ret(raw($n, fd as i64, 0, 0, 0, 0, 0)) as c_int }
  } } }
fsync_fn!(fsync, libc::SYS_fsync); fsync_fn!(fdatasync, libc::SYS_fdatasync);
#[no_mangle] pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
  if simfd(fd) { done(call(rq(Op::Flock, [fd as i64, op as i64, 0, 0], b""))) as c_int } else { ret(raw(libc::SYS_flock, fd as i64, op as i64, 0, 0, 0, 0)) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, mode: libc::mode_t) -> c_int {
  match simpath(p) { Some(b) => done(call(rq(Op::Mkdir, [0; 4], b))) as c_int, None => ret(raw(libc::SYS_mkdir, p as i64, mode as i64, 0, 0, 0, 0)) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
  match simpath(p) { Some(b) => done(call(rq(Op::Unlink, [0; 4], b))) as c_int, None => ret(raw(libc::SYS_unlink, p as i64, 0, 0, 0, 0, 0)) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
  match simpath(p) { Some(b) => done(call(rq(Op::Unlink, [1, 0, 0, 0], b))) as c_int, None => ret(raw(libc::SYS_rmdir, p as i64, 0, 0, 0, 0, 0)) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
  match (simpath(a), simpath(b)) {
    (Some(x), Some(y)) => { let mut d = x.to_vec(); d.push(0); d.extend_from_slice(y); done(call(rq(Op::Rename, [0; 4], &d))) as c_int }
    (None, None) => ret(raw(libc::SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int,
    _ => fail(libc::EXDEV) as c_int
  }
}
#[no_mangle] pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
  match simpath(p) { Some(b) => done(call(rq(Op::Stat, [0; 4], b))) as c_int, None => ret(raw(libc::SYS_access, p as i64, mode as i64, 0, 0, 0, 0)) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn fchmod(fd: c_int, mode: libc::mode_t) -> c_int {
  if simfd(fd) { 0 } else { ret(raw(libc::SYS_fchmod, fd as i64, mode as i64, 0, 0, 0, 0)) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, f: u32) -> isize {
  if simfd(a) || simfd(b) { fail(libc::ENOSYS) as isize } else { ret(raw(libc::SYS_copy_file_range, a as i64, ao as i64, b as i64, bo as i64, n as i64, f as i64)) as isize }
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
  if simfd(fd) {
    match cmd {
      libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => done(call(rq(Op::Dup, [fd as i64, 0, 0, 0], b""))) as c_int,
      libc::F_GETFD | libc::F_SETFD | libc::F_GETFL | libc::F_SETFL => 0,
      _ => fail(fs::EINVAL) as c_int
    }
  } else { ret(raw(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int }
}
fn dec_stat(d: &[u8]) -> Stat {
  Stat { ino: u64::from_le_bytes(d[0..8].try_into().unwrap()), size: u64::from_le_bytes(d[8..16].try_into().unwrap()), dir: d[16] != 0 }
}
unsafe fn fill64(st: *mut libc::stat64, s: &Stat) {
  std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
  (*st).st_ino = s.ino; (*st).st_size = s.size as i64; (*st).st_nlink = 1;
  (*st).st_mode = if s.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
  (*st).st_blksize = 4096; (*st).st_blocks = (s.size as i64 + 511) / 512;
}
macro_rules! fstat_fn { ($name:ident) => {
  #[no_mangle] pub unsafe extern "C" fn $name(fd: c_int, st: *mut libc::stat64) -> c_int {
    if simfd(fd) { match call(rq(Op::Fstat, [fd as i64, 0, 0, 0], b"")) { Ok((_, d)) => { fill64(st, &dec_stat(&d)); 0 } Err(e) => fail(e) as c_int } }
    else { ret(raw(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as c_int }
  } } }
fstat_fn!(fstat); fstat_fn!(fstat64);
macro_rules! stat_fn { ($name:ident, $n:expr) => {
  #[no_mangle] pub unsafe extern "C" fn $name(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match simpath(p) {
      Some(b) => match call(rq(Op::Stat, [0; 4], b)) { Ok((_, d)) => { fill64(st, &dec_stat(&d)); 0 } Err(e) => fail(e) as c_int },
      None => ret(raw($n, p as i64, st as i64, 0, 0, 0, 0)) as c_int
    }
  } } }
stat_fn!(stat, libc::SYS_stat); stat_fn!(stat64, libc::SYS_stat); stat_fn!(lstat, libc::SYS_lstat); stat_fn!(lstat64, libc::SYS_lstat);
unsafe fn fillx(x: *mut libc::statx, s: &Stat) {
  std::ptr::write_bytes(x as *mut u8, 0, std::mem::size_of::<libc::statx>());
  (*x).stx_mask = libc::STATX_BASIC_STATS;
  (*x).stx_ino = s.ino; (*x).stx_size = s.size; (*x).stx_nlink = 1; (*x).stx_blksize = 4096;
  (*x).stx_mode = (if s.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 }) as u16;
}
#[no_mangle] pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, mask: u32, x: *mut libc::statx) -> c_int {
  if let Some(b) = simpath(p) {
    return match call(rq(Op::Stat, [0; 4], b)) { Ok((_, d)) => { fillx(x, &dec_stat(&d)); 0 } Err(e) => fail(e) as c_int };
  }
  if simfd(dir) {
    return match call(rq(Op::Fstat, [dir as i64, 0, 0, 0], b"")) { Ok((_, d)) => { fillx(x, &dec_stat(&d)); 0 } Err(e) => fail(e) as c_int };
  }
  ret(raw(libc::SYS_statx, dir as i64, p as i64, flags as i64, mask as i64, x as i64, 0)) as c_int
}

// directories ---------------------------------------------------------------------------------
struct SimDir { entries: Vec<(Vec<u8>, bool)>, at: usize, buf: libc::dirent64 }
thread_local! { static DIRS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) }; }
unsafe fn next_sym(name: &CStr) -> *mut c_void { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) }
#[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
  match simpath(p) {
    Some(b) => match call(rq(Op::List, [0; 4], b)) {
      Ok((_, d)) => {
        let mut entries = vec![];
        let mut it = &d[..];
        while !it.is_empty() { let e = it[1..].iter().position(|c| *c == 0).unwrap(); entries.push((it[1..1 + e].to_vec(), it[0] != 0)); it = &it[e + 2..]; }
        let b = Box::into_raw(Box::new(SimDir { entries, at: 0, buf: std::mem::zeroed() }));
        DIRS.with(|d| d.borrow_mut().push(b as usize));
        b as *mut libc::DIR
      }
      Err(e) => { fail(e); null_mut() }
    },
    None => { let f: extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(next_sym(c"opendir")); f(p) }
  }
}
fn is_simdir(d: *mut libc::DIR) -> bool { DIRS.try_with(|v| v.borrow().contains(&(d as usize))).unwrap_or(false) }
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
  if is_simdir(d) {
    let s = &mut *(d as *mut SimDir);
    if s.at >= s.entries.len() { return null_mut(); }
    let (n, dir) = &s.entries[s.at];
    s.at += 1;
    s.buf = std::mem::zeroed();
    s.buf.d_ino = s.at as u64; s.buf.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    s.buf.d_type = if *dir { libc::DT_DIR } else { libc::DT_REG };
    for (i, c) in n.iter().take(255).enumerate() { s.buf.d_name[i] = *c as c_char; }
    &mut s.buf
  } else { let f: extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next_sym(c"readdir64")); f(d) }
}
#[no_mangle] pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
  if is_simdir(d) { DIRS.with(|v| v.borrow_mut().retain(|x| *x != d as usize)); drop(Box::from_raw(d as *mut SimDir)); 0 }
  else { let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next_sym(c"closedir")); f(d) }
}
#[no_mangle] pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
  if is_simdir(d) { i32::MAX } else { let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next_sym(c"dirfd")); f(d) }
}

// clock, sleep, entropy, futex ------------------------------------------------------------------
unsafe fn put_ts(ts: *mut libc::timespec, ns: i64) {
  (*ts).tv_sec = ns.div_euclid(1_000_000_000); (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
}
#[no_mangle] pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
  match ctx() {
    None => ret(raw(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as c_int,
    Some(Ctx::Remote { slot, .. }) => {
      let s = &**slot;
      put_ts(ts, if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE { s.wall } else { s.now });
      0
    }
    Some(Ctx::Local(l)) => {
      if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        put_ts(ts, l.wall_ns);
        l.clock_reads += 1;
        if !l.jumps.is_empty() { let j = l.jumps[l.jump_at % l.jumps.len()]; l.jump_at += 1; l.wall_ns += j; if j != 0 { l.faults_fired.push("clock-jump"); } }
      } else { put_ts(ts, l.mono_ns); }
      0
    }
  }
}
#[no_mangle] pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
  let mut ts: libc::timespec = std::mem::zeroed();
  clock_gettime(libc::CLOCK_REALTIME, &mut ts);
  (*tv).tv_sec = ts.tv_sec; (*tv).tv_usec = ts.tv_nsec / 1000; 0
}
#[no_mangle] pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
  let mut ts: libc::timespec = std::mem::zeroed();
  clock_gettime(libc::CLOCK_REALTIME, &mut ts);
  if !t.is_null() { *t = ts.tv_sec; }
  ts.tv_sec
}
#[no_mangle] pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
  if ctx().is_none() { return ret(raw(libc::SYS_nanosleep, t as i64, rem as i64, 0, 0, 0, 0)) as c_int; }
  done(call(rq(Op::Sleep, [(*t).tv_sec * 1_000_000_000 + (*t).tv_nsec, 0, 0, 0], b""))) as c_int
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
  if ctx().is_none() { return -(raw(libc::SYS_clock_nanosleep, clk as i64, flags as i64, t as i64, rem as i64, 0, 0)) as c_int; }
  let mut ns = (*t).tv_sec.saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec);
  if flags & libc::TIMER_ABSTIME != 0 {
    let mut now: libc::timespec = std::mem::zeroed();
    clock_gettime(clk, &mut now);
    ns = (ns - (now.tv_sec * 1_000_000_000 + now.tv_nsec)).max(0);
  }
  match call(rq(Op::Sleep, [ns, 0, 0, 0], b"")) { Ok(_) => 0, Err(e) => e }
}
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int {
  match ctx() { Some(Ctx::Remote { .. }) => done(call(rq(Op::Yield, [0; 4], b""))) as c_int, _ => ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: u32) -> isize {
  match ctx() {
    None => ret(raw(libc::SYS_getrandom, buf as i64, n as i64, flags as i64, 0, 0, 0)) as isize,
    Some(Ctx::Remote { rng, .. }) => { rng.fill(std::slice::from_raw_parts_mut(buf as *mut u8, n)); n as isize
    }
    Some(Ctx::Local(l)) => {
      l.entropy_reads += 1;
      if l.entropy_flaky > 0 && l.rng.below(1000) < l.entropy_flaky {
        if n < 2 || l.rng.below(2) == 0 { l.faults_fired.push("entropy-EINTR"); *libc::__errno_location() = libc::EINTR; return -1 }
        let k = 1 + l.rng.below(n as u64 - 1) as usize;
        l.faults_fired.push("entropy-short");
        l.rng.fill(std::slice::from_raw_parts_mut(buf as *mut u8, k));
        return k as isize
      }
      l.rng.fill(std::slice::from_raw_parts_mut(buf as *mut u8, n)); n as isize
    }
  }
}
#[no_mangle] pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  if let Some(cx) = ctx() {
    match n {
      libc::SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as u32) as i64,
      libc::SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as i64,
      libc::SYS_copy_file_range if simfd(a as c_int) || simfd(c as c_int) => return fail(libc::ENOSYS),
      libc::SYS_futex => if let Ctx::Remote { slot, .. } = cx {
        match (b & 0x7f) as i32 {
          libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let _ = call(rq(Op::Yield, [0; 4], b""));
            if (*(a as *const AtomicU32)).load(Ordering::SeqCst) != c as u32 { return fail(fs::EAGAIN); }
            let tmo = if d == 0 { -1 } else {
              let t = &*(d as *const libc::timespec);
              let v = t.tv_sec * 1_000_000_000 + t.tv_nsec;
              if (b & 0x7f) as i32 == libc::FUTEX_WAIT { (**slot).now + v }
              else if b as i32 & libc::FUTEX_CLOCK_REALTIME != 0 { v - (**slot).wall + (**slot).now }
              else { v }
            };
            return done(call(rq(Op::FutexWait, [a, tmo, 0, 0], b"")));
          }
          libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => return done(call(rq(Op::FutexWake, [a, c & 0x7fff_ffff, 0, 0], b""))),
          _ => ()
        }
      },
      _ => ()
    }
  }
  ret(raw(n, a, b, c, d, e, f))
}

/// Referenced from the driver so that the linker keeps every symbol of this object.
pub fn keep() -> usize { open as *const () as usize ^ syscall as *const () as usize ^ statx as *const () as usize ^ readdir64 as *const () as usize }
