//! Offline stand-in for the fs2 crate (0.4.3): the same API, implemented with the same system
//! calls as the original unix implementation. The simulator intercepts the system calls.
use std::fs::File;
use std::io::{Error, Result};
use std::os::unix::io::AsRawFd;

pub trait FileExt {
  fn duplicate(&self) -> Result<File>;
  fn allocated_size(&self) -> Result<u64>;
  fn allocate(&self, len: u64) -> Result<()>;
  fn lock_shared(&self) -> Result<()>;
  fn lock_exclusive(&self) -> Result<()>;
  fn try_lock_shared(&self) -> Result<()>;
  fn try_lock_exclusive(&self) -> Result<()>;
  fn unlock(&self) -> Result<()>;
}

fn flock(file: &File, flag: libc::c_int) -> Result<()> {
  let ret = unsafe { libc::flock(file.as_raw_fd(), flag) };
  if ret < 0 { Err(Error::last_os_error()) } else { Ok(()) }
}

impl FileExt for File {
  fn duplicate(&self) -> Result<File> { self.try_clone() }
  fn allocated_size(&self) -> Result<u64> {
    use std::os::unix::fs::MetadataExt;
    self.metadata().map(|m| m.blocks() * 512)
  }
  fn allocate(&self, len: u64) -> Result<()> {
    if self.metadata()?.len() < len { self.set_len(len) } else { Ok(()) }
  }
  fn lock_shared(&self) -> Result<()> { flock(self, libc::LOCK_SH) }
  fn lock_exclusive(&self) -> Result<()> { flock(self, libc::LOCK_EX) }
  fn try_lock_shared(&self) -> Result<()> { flock(self, libc::LOCK_SH | libc::LOCK_NB) }
  fn try_lock_exclusive(&self) -> Result<()> { flock(self, libc::LOCK_EX | libc::LOCK_NB) }
  fn unlock(&self) -> Result<()> { flock(self, libc::LOCK_UN) }
}

/// Error returned when a lock is contended.
pub fn lock_contended_error() -> Error { Error::from_raw_os_error(libc::EWOULDBLOCK) }
