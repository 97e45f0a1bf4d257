mod docs;
mod fetch;
mod hosts;
mod net;
mod verify;
mod walk;
use simcore::driver::Check;

const REAL: &[&str] = &["pact_verifier (verification, broker client, publication, provider and state change clients)", "pact_matching", "pact_models (pact loading, http_utils)", "tokio (current-thread runtime, paused clock)"];
const STUB: &[&str] = &["network and peers: provider, state change handler, pact broker, web servers (the harness)", "reqwest: same client API over the simulated network; TLS, HTTP framing and connection pools are not simulated", "kernel: file system, clocks, entropy (simcore)", "third-party crates not available offline: onig, difference, infer, md5, snailquote, tree_magic_mini, serde_with, multer, async-trait", "pact-plugin-driver"];

fn main() {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  simcore::driver::main_warm(48, &[
    Check { id: "C12", run: fetch::c12, quick_runs: 300_000, thorough_runs: 2_000_000, rule: "distinct hash of the conversation and the pact", assumptions: &["the servers behave as HTTP servers do; TLS and HTTP framing are not simulated", "a body that cannot be read to its end is a failed transfer"], real: REAL, stub: STUB },
    Check { id: "C13", run: fetch::c13, quick_runs: 150_000, thorough_runs: 2_000_000, rule: "distinct hash of the conversation", assumptions: &["the broker serves HAL documents at its root or under a path of its own", "links are absolute or relative to the host"], real: REAL, stub: STUB },
    Check { id: "C14", run: verify::c14, quick_runs: 100_000, thorough_runs: 1_000_000, rule: "distinct hash of the conversation and the filter", assumptions: &["the selectors and filters are the ones given in the options, not environment variables"], real: REAL, stub: STUB },
    Check { id: "C15", run: verify::c15, quick_runs: 120_000, thorough_runs: 1_000_000, rule: "distinct hash of the conversation and the filter", assumptions: &["an answer that does not arrive in full is no answer", "matching itself is decided by C17; here the provider answers with the example or with answers that break it obviously"], real: REAL, stub: STUB },
    Check { id: "C16", run: verify::c16, quick_runs: 120_000, thorough_runs: 1_000_000, rule: "distinct hash of the conversation and the filter", assumptions: &["the state change handler speaks the documented JSON protocol"], real: REAL, stub: STUB },
    Check { id: "C18", run: verify::c18, quick_runs: 60_000, thorough_runs: 1_000_000, rule: "distinct hash of the conversation and the filter", assumptions: &["a step is one request; the time-outs of the options are the bounds"], real: REAL, stub: STUB },
  ])
}
