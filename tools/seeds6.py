M='pact_models/src/'
LOCKS='''
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicUsize, Ordering};
static FAIL: AtomicUsize = AtomicUsize::new(0);
'''
SEEDS=[
dict(id='c01-no-locks-here', property='C01', needs='a lock call that fails for another reason than contention (interrupted, lock table full) while another writer holds the lock',
 breaks='the writer takes the failure for a file system without locks and goes ahead unlocked: two writers merge at the same time and one interaction is lost',
 edits=[(M+'file_utils.rs','''        return result;
      }
      Err(err) => {
        attempt += 1;''','''        return result;
      }
      Err(err) if err.raw_os_error() != fs2::lock_contended_error().raw_os_error() => {
        warn!("File locks are not supported for '{}' - {}", path.to_string_lossy(), err);
        return cl(file);
      }
      Err(err) => {
        attempt += 1;''')],
 main='''
// Another open file holds the lock; the first attempt of the writer to get it fails with ENOLCK.
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicUsize, Ordering};
static FAIL: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
  if FAIL.load(Ordering::SeqCst) > 0 && op & libc::LOCK_UN == 0 { FAIL.fetch_sub(1, Ordering::SeqCst); *libc::__errno_location() = libc::ENOLCK; return -1 }
  libc::syscall(libc::SYS_flock, fd, op) as i32
}
fn main() {
  let p = std::env::current_dir().unwrap().join("c-p.json");
  let pact = || Box::new(pact_models::sync_pact::RequestResponsePact::default());
  pact_models::pact::write_pact(pact(), &p, pact_models::PactSpecification::V3, false).unwrap();
  let other = std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap();
  assert_eq!(unsafe { flock(other.as_raw_fd(), libc::LOCK_EX) }, 0);
  FAIL.store(1, Ordering::SeqCst);
  let r = pact_models::pact::write_pact(pact(), &p, pact_models::PactSpecification::V3, false);
  println!("write_pact while another writer holds the lock: {:?}", r);
  assert!(r.is_err(), "the writer went ahead without the lock");
}
'''),
dict(id='c02-retry-write', property='C02', needs='a disk error in the middle of writing the merged pact that is over when the write is tried again',
 breaks='the second try reads the file from where the first one stopped, takes it for empty and replaces the stored interactions by the new ones',
 edits=[(M+'file_utils.rs','''          warn!("Failed to release exclusive lock on '{}' - {}", path.to_string_lossy(), err);
        }
        return result;''','''          warn!("Failed to release exclusive lock on '{}' - {}", path.to_string_lossy(), err);
        }
        if let (Err(err), true) = (&result, attempt + 1 < attempts) {
          warn!("Failed to write to '{}', trying again - {}", path.to_string_lossy(), err);
          attempt += 1;
          continue;
        }
        return result;''')],
 main='''
// The first write to the pact file fails with EIO, everything after it works.
use std::sync::atomic::{AtomicUsize, Ordering};
static FAIL: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
  if fd > 2 && FAIL.load(Ordering::SeqCst) > 0 { FAIL.fetch_sub(1, Ordering::SeqCst); *libc::__errno_location() = libc::EIO; return -1 }
  libc::syscall(libc::SYS_write, fd, buf, n) as isize
}
fn main() {
  use pact_models::sync_interaction::RequestResponseInteraction;
  let p = std::env::current_dir().unwrap().join("c-p.json");
  let pact = |d: &str| Box::new(pact_models::sync_pact::RequestResponsePact { interactions: vec![RequestResponseInteraction { description: d.to_string(), .. Default::default() }], .. Default::default() });
  pact_models::pact::write_pact(pact("first"), &p, pact_models::PactSpecification::V3, false).unwrap();
  FAIL.store(1, Ordering::SeqCst);
  let r = pact_models::pact::write_pact(pact("second"), &p, pact_models::PactSpecification::V3, false);
  let have = pact_models::pact::read_pact(&p).unwrap().interactions().iter().map(|i| i.description()).collect::<Vec<_>>();
  println!("write_pact with a failing disk: {:?}, stored: {:?}", r, have);
  assert!(have.contains(&"first".to_string()), "the interaction stored before is gone");
  assert!(r.is_err() || have.len() == 2);
}
'''),
dict(id='c05-combine-case', property='C05', needs='a pact file in which the combination of rules is written in lower case',
 breaks='rules of header, query and body paths combined with "or" are combined with AND once the file is rewritten',
 edits=[(M+'matchingrules/mod.rs','''  fn add_rule_list(&mut self, k: DocPath, v: &Value) -> anyhow::Result<()> {
    let rule_logic = match v.get("combine") {
      Some(val) => if json_to_string(val).to_uppercase() == "OR" {
        RuleLogic::Or
      } else {
        RuleLogic::And
      },
      None => RuleLogic::And
    };''','''  fn add_rule_list(&mut self, k: DocPath, v: &Value) -> anyhow::Result<()> {
    let rule_logic = match v.get("combine").and_then(|val| val.as_str()) {
      Some("OR") => RuleLogic::Or,
      _ => RuleLogic::And
    };''')],
 main='''
use serde_json::json;
fn main() {
  for c in ["OR", "or", "AND", "and"] {
    let doc = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "3.0.0"}},
      "interactions": [{"description": "a", "request": {"method": "GET", "path": "/"}, "response": {"status": 200, "body": {"a": 1},
        "matchingRules": {"body": {"$.a": {"combine": c, "matchers": [{"match": "integer"}, {"match": "null"}]}}}}}]});
    let p = pact_models::pact::load_pact_from_json("demo", &doc).unwrap();
    let out = p.to_json(pact_models::PactSpecification::V3).unwrap();
    let got = out["interactions"][0]["response"]["matchingRules"]["body"]["$.a"]["combine"].clone();
    println!("{} is written as {}", c, got);
    assert_eq!(got, json!(c.to_uppercase()));
  }
}
'''),
dict(id='c06-minmax-equal', property='C06', needs='two rules with different minimum and maximum whose sum is the same',
 breaks='they are equal although they are configured differently',
 edits=[(M+'matchingrules/mod.rs','(MatchingRule::MinMaxType(min1, max1), MatchingRule::MinMaxType(min2, max2)) => min1 == min2 && max1 == max2,',
  '(MatchingRule::MinMaxType(min1, max1), MatchingRule::MinMaxType(min2, max2)) => min1 + max1 == min2 + max2,')],
 main='''
use pact_models::matchingrules::MatchingRule::MinMaxType;
fn main() {
  assert_eq!(MinMaxType(1, 4), MinMaxType(1, 4));
  assert_ne!(MinMaxType(1, 4), MinMaxType(1, 5));
  assert_ne!(MinMaxType(1, 4), MinMaxType(2, 3), "rules with other limits are equal");
}
'''),
dict(id='c19-state-places', property='C19', needs='a departure in a provider state that is not the first one of an interaction that is not the first one',
 breaks='the format check reports it at the place of another provider state',
 edits=[(M+'sync_interaction.rs','''              .flat_map(|(index, state)| {
                ProviderState::verify_json(&*format!("{}/providerStates/{}", path, index), state, strict, spec_version)
              }))''','''              .filter(|(_, state)| !state.is_string())
              .enumerate()
              .flat_map(|(index, (_, state))| {
                ProviderState::verify_json(&*format!("{}/providerStates/{}", path, index), state, strict, spec_version)
              }))''')],
 main='''
use serde_json::json;
use pact_models::verify_json::PactJsonVerifier;
fn main() {
  let doc = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "3.0.0"}},
    "interactions": [{"description": "a", "providerStates": [{"name": "x"}, "y", {"name": 1}], "request": {"method": "GET", "path": "/"}, "response": {"status": 200}}]});
  let r = pact_models::sync_pact::RequestResponsePact::verify_json("/", &doc, true, pact_models::PactSpecification::V3);
  println!("{:?}", r);
  assert_eq!(r.len(), 1);
  assert_eq!(r[0].path, "/interactions/0/providerStates/2");
}
'''),
dict(id='c19-strict-first', property='C19', needs='an unknown attribute in an interaction that has a deprecated provider state attribute, in strict mode',
 breaks='the format check reports the unknown attribute as a warning only, so a strict check passes',
 edits=[(M+'sync_interaction.rs','''            results.push(PactFileVerificationResult::new(path,
                                                         if strict { ResultLevel::ERROR } else { ResultLevel::WARNING },
                                                         &format!("Unexpected attribute '{}'", key)));''','''            let lenient = !strict || results.iter().any(|r: &PactFileVerificationResult| r.level == ResultLevel::WARNING);
            results.push(PactFileVerificationResult::new(path,
                                                         if lenient { ResultLevel::WARNING } else { ResultLevel::ERROR },
                                                         &format!("Unexpected attribute '{}'", key)));''')],
 main='''
use serde_json::json;
use pact_models::verify_json::{PactJsonVerifier, ResultLevel};
fn main() {
  for (old, want) in [(false, 1), (true, 1)] {
    let mut i = json!({"description": "a", "colour": "red", "request": {"method": "GET", "path": "/"}, "response": {"status": 200}});
    if old { i["provider_state"] = json!("x"); }
    let doc = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "3.0.0"}}, "interactions": [i]});
    let r = pact_models::sync_pact::RequestResponsePact::verify_json("/", &doc, true, pact_models::PactSpecification::V3);
    println!("{:?}", r);
    assert_eq!(r.iter().filter(|r| r.level == ResultLevel::ERROR).count(), want);
  }
}
'''),
]
