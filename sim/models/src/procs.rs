//! Histories of processes that run one after the other and share nothing but the simulated disk.
use simcore::choices::{mix, Choices, Rng};
use simcore::driver::last_panic;
use simcore::fs::SimFs;
use simcore::sys::{with_local, FaultKind, Local, Op};

pub struct Host {
  pub fs: SimFs,
  pub wall_ns: i64,
  pub entropy: u64,
  pub started: u64,
  pub trace: Vec<String>,
  pub faults: Vec<&'static str>,
  pub syscalls: u64,
  pub sim_ns: i64,
  /// per mille of reads and writes that are interrupted or short
  pub flaky: u64,
  pub entropy_flaky: u64,
  /// steps of the wall clock after its readings, for the next process only
  pub jumps: Vec<i64>,
}

impl Host {
  pub fn new(ch: &mut Choices) -> Host {
    Host { fs: SimFs::new(), wall_ns: 1_735_689_600_000_000_000, entropy: ch.u64(), started: 0, trace: vec![], faults: vec![], syscalls: 0, sim_ns: 0, flaky: *ch.pick(&[0, 0, 100]), entropy_flaky: *ch.pick(&[0, 0, 300]), jumps: vec![] }
  }
  /// Runs `f` as a new process: fresh thread-locals and hash seeds, its own entropy, the shared disk.
  pub fn proc<T: Send>(&mut self, name: &str, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    self.started += 1;
    let mut l = Local::new(mix(self.entropy, self.started));
    l.wall_ns = self.wall_ns;
    l.entropy_flaky = self.entropy_flaky;
    l.jumps = std::mem::take(&mut self.jumps);
    let fs = std::mem::replace(&mut self.fs, SimFs::new());
    l.fs = fs;
    let (flaky, mut rng) = (self.flaky, Rng::new(mix(self.entropy ^ 0xFA17, self.started)));
    struct S(Local);
    unsafe impl Send for S {}
    let s = S(l);
    let (r, l) = std::thread::scope(|sc| {
      let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
        let s = s;
        let mut l = s.0;
        if flaky > 0 {
          l.fault = Some(Box::new(move |r| match r.op {
            Op::Read | Op::Write if rng.below(1000) < flaky => Some(if rng.below(2) == 0 { FaultKind::Errno(libc::EINTR) } else { FaultKind::Short(1 + rng.below(600) as usize) }),
            _ => None
          }));
        }
        let (r, mut l) = with_local(l, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic()));
        l.fault = None;
        (r, S(l))
      }).unwrap();
      h.join().unwrap()
    });
    let mut l = l.0;
    self.fs = std::mem::replace(&mut l.fs, SimFs::new());
    self.fs.kill(0);
    self.faults.extend(l.faults_fired.iter());
    self.syscalls += l.syscalls;
    self.sim_ns += l.mono_ns - 1_000_000_000_000 + l.syscalls as i64 * 20_000;
    self.wall_ns += 1_000_000_000;
    self.trace.push(match &r { Ok(_) => format!("process {}: {}", self.started, name), Err(p) => format!("process {}: {} PANIC {}", self.started, name, p) });
    r
  }
}
