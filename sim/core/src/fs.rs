//! In-memory file system with descriptors, flock locks, a capacity limit and directory listing.
use std::collections::BTreeMap;

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENOSPC: i32 = 28;
pub const ENOTEMPTY: i32 = 39;
pub const ENOSYS: i32 = 38;

pub const FD_BASE: i32 = 0x4000_0000;

#[derive(Clone, Debug, Default)]
pub struct Inode { pub data: Vec<u8>, pub dir: bool }

#[derive(Clone, Debug)]
pub struct Ofd { pub ino: u64, pub pos: u64, pub flags: i32, pub proc_id: u32, pub path: String, pub refs: u32 }

#[derive(Clone, Debug)]
pub struct Stat { pub ino: u64, pub size: u64, pub dir: bool }

#[derive(Clone, Debug, Default)]
pub struct SimFs {
  pub inodes: BTreeMap<u64, Inode>,
  pub names: BTreeMap<String, u64>,
  pub ofds: BTreeMap<u64, Ofd>,
  /// (process, fd) -> open file description
  pub fds: BTreeMap<(u32, i32), u64>,
  /// inode -> holders (ofd, exclusive)
  pub locks: BTreeMap<u64, Vec<(u64, bool)>>,
  pub capacity: u64,
  next: u64,
  next_fd: i32,
}

type R<T> = Result<T, i32>;

pub fn norm(path: &str) -> String {
  let mut parts: Vec<&str> = vec![];
  for p in path.split('/') {
    match p { "" | "." => (), ".." => { parts.pop(); } _ => parts.push(p) }
  }
  format!("/{}", parts.join("/"))
}
fn parent(path: &str) -> String {
  match path.rfind('/') { Some(0) | None => "/".into(), Some(i) => path[..i].to_string() }
}

impl SimFs {
  pub fn new() -> SimFs {
    let mut fs = SimFs { capacity: u64::MAX, next: 1, next_fd: FD_BASE, ..Default::default() };
    fs.inodes.insert(0, Inode { data: vec![], dir: true });
    fs.names.insert("/sim".into(), 0);
    fs
  }
  fn id(&mut self) -> u64 { self.next += 1; self.next }
  pub fn used(&self) -> u64 { self.inodes.values().map(|i| i.data.len() as u64).sum() }
  pub fn put(&mut self, path: &str, data: &[u8]) {
    let path = norm(path);
    let mut p = parent(&path);
    let mut todo = vec![];
    while p != "/" && !self.names.contains_key(&p) { todo.push(p.clone()); p = parent(&p); }
    for d in todo.into_iter().rev() { let i = self.id(); self.inodes.insert(i, Inode { data: vec![], dir: true }); self.names.insert(d, i); }
    if let Some(i) = self.names.get(&path) { self.inodes.get_mut(i).unwrap().data = data.to_vec(); }
    else { let i = self.id(); self.inodes.insert(i, Inode { data: data.to_vec(), dir: false }); self.names.insert(path, i); }
  }
  pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
    self.names.get(&norm(path)).map(|i| &self.inodes[i].data)
  }
  fn ofd(&self, p: u32, fd: i32) -> R<u64> { self.fds.get(&(p, fd)).copied().ok_or(EBADF) }
  pub fn path_of(&self, p: u32, fd: i32) -> String {
    self.ofd(p, fd).map(|o| self.ofds[&o].path.clone()).unwrap_or_default()
  }
  pub fn ino_of(&self, p: u32, fd: i32) -> Option<u64> { self.ofd(p, fd).ok().map(|o| self.ofds[&o].ino) }

  pub fn open(&mut self, p: u32, path: &str, flags: i32) -> R<i32> {
    let path = norm(path);
    let ino = match self.names.get(&path) {
      Some(i) => {
        if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 { return Err(EEXIST); }
        let i = *i;
        let acc = flags & libc::O_ACCMODE;
        if self.inodes[&i].dir && acc != libc::O_RDONLY { return Err(EISDIR); }
        if flags & libc::O_DIRECTORY != 0 && !self.inodes[&i].dir { return Err(ENOTDIR); }
        if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY { self.inodes.get_mut(&i).unwrap().data.clear(); }
        i
      }
      None => {
        if flags & libc::O_CREAT == 0 { return Err(ENOENT); }
        match self.names.get(&parent(&path)) { None => return Err(ENOENT), Some(d) if !self.inodes[d].dir => return Err(ENOTDIR), _ => () }
        let i = self.id();
        self.inodes.insert(i, Inode::default());
        self.names.insert(path.clone(), i);
        i
      }
    };
    let o = self.id();
    self.ofds.insert(o, Ofd { ino, pos: 0, flags, proc_id: p, path, refs: 1 });
    self.next_fd += 1;
    let fd = self.next_fd;
    self.fds.insert((p, fd), o);
    Ok(fd)
  }
  pub fn dup(&mut self, p: u32, fd: i32) -> R<i32> {
    let o = self.ofd(p, fd)?;
    self.ofds.get_mut(&o).unwrap().refs += 1;
    self.next_fd += 1;
    let fd = self.next_fd;
    self.fds.insert((p, fd), o);
    Ok(fd)
  }
  pub fn close(&mut self, p: u32, fd: i32) -> R<()> {
    let o = self.fds.remove(&(p, fd)).ok_or(EBADF)?;
    let d = self.ofds.get_mut(&o).unwrap();
    d.refs -= 1;
    if d.refs == 0 {
      let ino = d.ino;
      self.ofds.remove(&o);
      if let Some(l) = self.locks.get_mut(&ino) { l.retain(|(x, _)| *x != o); if l.is_empty() { self.locks.remove(&ino); } }
      if !self.names.values().any(|i| *i == ino) && !self.ofds.values().any(|x| x.ino == ino) { self.inodes.remove(&ino); }
    }
    Ok(())
  }
  pub fn kill(&mut self, p: u32) {
    let fds: Vec<i32> = self.fds.keys().filter(|(q, _)| *q == p).map(|(_, f)| *f).collect();
    for fd in fds { let _ = self.close(p, fd); }
  }
  pub fn read(&mut self, p: u32, fd: i32, max: usize) -> R<Vec<u8>> {
    let o = self.ofd(p, fd)?;
    let d = self.ofds.get_mut(&o).unwrap();
    if d.flags & libc::O_ACCMODE == libc::O_WRONLY { return Err(EBADF); }
    let data = &self.inodes[&d.ino];
    if data.dir { return Err(EISDIR); }
    let data = &data.data;
    let pos = (d.pos as usize).min(data.len());
    let n = max.min(data.len() - pos);
    d.pos = (pos + n) as u64;
    Ok(data[pos..pos + n].to_vec())
  }
  pub fn write(&mut self, p: u32, fd: i32, buf: &[u8]) -> R<usize> {
    let o = self.ofd(p, fd)?;
    let used = self.used();
    let d = self.ofds.get_mut(&o).unwrap();
    if d.flags & libc::O_ACCMODE == libc::O_RDONLY { return Err(EBADF); }
    let ino = self.inodes.get_mut(&d.ino).unwrap();
    let pos = if d.flags & libc::O_APPEND != 0 { ino.data.len() } else { d.pos as usize };
    let grow = (pos + buf.len()).saturating_sub(ino.data.len()) as u64;
    let mut n = buf.len();
    if used + grow > self.capacity {
      let room = self.capacity.saturating_sub(used) as usize + ino.data.len().saturating_sub(pos);
      n = n.min(room);
      if n == 0 && !buf.is_empty() { return Err(ENOSPC); }
    }
    if ino.data.len() < pos + n { ino.data.resize(pos + n, 0); }
    ino.data[pos..pos + n].copy_from_slice(&buf[..n]);
    d.pos = (pos + n) as u64;
    Ok(n)
  }
  pub fn lseek(&mut self, p: u32, fd: i32, off: i64, whence: i32) -> R<i64> {
    let o = self.ofd(p, fd)?;
    let d = self.ofds.get_mut(&o).unwrap();
    let base = match whence { 0 => 0, 1 => d.pos as i64, 2 => self.inodes[&d.ino].data.len() as i64, _ => return Err(EINVAL) };
    let n = base + off;
    if n < 0 { return Err(EINVAL); }
    d.pos = n as u64;
    Ok(n)
  }
  pub fn ftruncate(&mut self, p: u32, fd: i32, len: i64) -> R<()> {
    let o = self.ofd(p, fd)?;
    let d = &self.ofds[&o];
    if d.flags & libc::O_ACCMODE == libc::O_RDONLY { return Err(EINVAL); }
    if len < 0 { return Err(EINVAL); }
    self.inodes.get_mut(&d.ino).unwrap().data.resize(len as usize, 0);
    Ok(())
  }
  pub fn fstat(&self, p: u32, fd: i32) -> R<Stat> {
    let o = self.ofd(p, fd)?;
    let ino = self.ofds[&o].ino;
    let i = &self.inodes[&ino];
    Ok(Stat { ino, size: i.data.len() as u64, dir: i.dir })
  }
  pub fn stat(&self, path: &str) -> R<Stat> {
    let ino = *self.names.get(&norm(path)).ok_or(ENOENT)?;
    let i = &self.inodes[&ino];
    Ok(Stat { ino, size: i.data.len() as u64, dir: i.dir })
  }
  /// Number of locks held through descriptors of process p.
  pub fn locks_of(&self, p: u32) -> usize {
    self.locks.values().flatten().filter(|(o, _)| self.fds.iter().any(|((q, _), x)| *q == p && x == o)).count()
  }
  /// Non-blocking attempt; EAGAIN if another open file description holds a conflicting lock.
  pub fn flock(&mut self, p: u32, fd: i32, op: i32) -> R<()> {
    let o = self.ofd(p, fd)?;
    let ino = self.ofds[&o].ino;
    let holders = self.locks.entry(ino).or_default();
    if op & libc::LOCK_UN != 0 {
      holders.retain(|(x, _)| *x != o);
      if holders.is_empty() { self.locks.remove(&ino); }
      return Ok(());
    }
    let ex = op & libc::LOCK_EX != 0;
    if holders.iter().any(|(x, e)| *x != o && (ex || *e)) {
      if holders.is_empty() { self.locks.remove(&ino); }
      return Err(EAGAIN);
    }
    holders.retain(|(x, _)| *x != o);
    holders.push((o, ex));
    Ok(())
  }
  pub fn mkdir(&mut self, path: &str) -> R<()> {
    let path = norm(path);
    if self.names.contains_key(&path) { return Err(EEXIST); }
    if !self.names.contains_key(&parent(&path)) { return Err(ENOENT); }
    let i = self.id();
    self.inodes.insert(i, Inode { data: vec![], dir: true });
    self.names.insert(path, i);
    Ok(())
  }
  pub fn unlink(&mut self, path: &str, dir: bool) -> R<()> {
    let path = norm(path);
    let ino = *self.names.get(&path).ok_or(ENOENT)?;
    if dir {
      if !self.inodes[&ino].dir { return Err(ENOTDIR); }
      let pre = format!("{}/", path);
      if self.names.keys().any(|k| k.starts_with(&pre)) { return Err(ENOTEMPTY); }
    } else if self.inodes[&ino].dir { return Err(EISDIR); }
    self.names.remove(&path);
    if !self.ofds.values().any(|x| x.ino == ino) { self.inodes.remove(&ino); }
    Ok(())
  }
  pub fn rename(&mut self, from: &str, to: &str) -> R<()> {
    let (from, to) = (norm(from), norm(to));
    let ino = *self.names.get(&from).ok_or(ENOENT)?;
    if !self.names.contains_key(&parent(&to)) { return Err(ENOENT); }
    if self.inodes[&ino].dir { return Err(EPERM); }
    if let Some(old) = self.names.get(&to).copied() {
      if old == ino { return Ok(()); }
      if self.inodes[&old].dir { return Err(EISDIR); }
      self.names.remove(&to);
      if !self.ofds.values().any(|x| x.ino == old) { self.inodes.remove(&old); }
    }
    self.names.remove(&from);
    self.names.insert(to, ino);
    Ok(())
  }
  pub fn list(&self, path: &str) -> R<Vec<(String, bool)>> {
    let path = norm(path);
    let ino = *self.names.get(&path).ok_or(ENOENT)?;
    if !self.inodes[&ino].dir { return Err(ENOTDIR); }
    let pre = format!("{}/", path);
    Ok(self.names.iter().filter(|(k, _)| k.starts_with(&pre) && !k[pre.len()..].contains('/'))
      .map(|(k, i)| (k[pre.len()..].to_string(), self.inodes[i].dir)).collect())
  }
}
