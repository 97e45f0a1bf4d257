mod api;
mod convert;
mod apply;
mod cal;
mod damage;
mod dates;
mod files;
mod fcheck;
mod forms;
mod formats;
mod gen;
mod keep;
mod matching;
mod merges;
mod procs;
mod rands;
mod same;
mod select;
mod xmls;
use simcore::driver::Check;

const REAL: &[&str] = &["pact_models (all of it: models, merge, file_utils, write_pact/read_pact, parsing, generators)", "std::fs, std::thread and std::sync as compiled, down to their libc calls"];
const STUB: &[&str] = &["kernel: file system, flock, clocks, sleeping, futex, entropy (simcore)", "third-party crates not available offline: onig (backed by fancy-regex or regex), fs2 (flock), reqwest"];

fn main() {
  simcore::driver::main(&[
    Check { id: "C01", run: files::c01, quick_runs: 40_000, thorough_runs: 2_000_000, rule: "distinct hash of the executed interleaving (thread, call and result at every step)", assumptions: &["flock is advisory and honoured by all writers", "one host"], real: REAL, stub: STUB },
    Check { id: "C02", run: files::c02, quick_runs: 40_000, thorough_runs: 2_000_000, rule: "distinct hash of the executed interleaving including faults", assumptions: &["the page cache survives the death of a process (no machine crash)"], real: REAL, stub: STUB },
    Check { id: "C03", run: files::c03, quick_runs: 40_000, thorough_runs: 2_000_000, rule: "distinct hash of the executed interleaving", assumptions: &["flock is advisory and honoured by all"], real: REAL, stub: STUB },
    Check { id: "C04", run: merges::c04, quick_runs: 120_000, thorough_runs: 2_000_000, rule: "distinct hash of the resulting files", assumptions: &[], real: REAL, stub: STUB },
    Check { id: "C05", run: keep::c05, quick_runs: 160_000, thorough_runs: 2_000_000, rule: "distinct hash of the successive file contents", assumptions: &[], real: REAL, stub: STUB },
    Check { id: "C06", run: same::c06, quick_runs: 30_000, thorough_runs: 1_000_000, rule: "distinct hash of the results of the first process", assumptions: &[], real: REAL, stub: STUB },
    Check { id: "C07", run: rands::c07, quick_runs: 300_000, thorough_runs: 3_000_000, rule: "distinct hash of the generator configurations and the values drawn", assumptions: &[], real: REAL, stub: STUB },
    Check { id: "C08", run: dates::c08, quick_runs: 300_000, thorough_runs: 3_000_000, rule: "distinct hash of the expressions, base instants, time zones and results", assumptions: &["the POSIX footer of the zone file describes the zone for all years"], real: REAL, stub: STUB },
    Check { id: "C09", run: formats::c09, quick_runs: 200_000, thorough_runs: 3_000_000, rule: "distinct hash of the formats, expressions, instants, time zones and texts", assumptions: &["the POSIX footer of the zone file describes the zone for all years"], real: REAL, stub: STUB },
    Check { id: "C10", run: damage::c10, quick_runs: 50_000, thorough_runs: 3_000_000, rule: "distinct hash of the damage, the answers of the readers and the file written afterwards", assumptions: &[], real: REAL, stub: STUB },
    Check { id: "C11", run: apply::c11, quick_runs: 300_000, thorough_runs: 3_000_000, rule: "distinct hash of the interactions, their generators and the results", assumptions: &[], real: &["pact_matching (generate_request, generate_response, generate_message, apply_generators_to_*_message, generators_process_body)", "pact_models (generators, JSON and form handlers, path resolution)"], stub: STUB },
    Check { id: "C17", run: matching::c17, quick_runs: 200_000, thorough_runs: 3_000_000, rule: "distinct hash of the pacts, what arrived and the verdicts", assumptions: &[], real: &["pact_matching (match_response, match_request, match_message, JSON/text/form/binary bodies, headers, query, metadata, status)", "pact_models (pact loading, matching rules, rule selection, content types, paths)"], stub: STUB },
    Check { id: "C19", run: fcheck::c19, quick_runs: 300_000, thorough_runs: 2_000_000, rule: "distinct hash of the document and the results of the check", assumptions: &[], real: REAL, stub: STUB },
    Check { id: "C20", run: convert::c20, quick_runs: 40_000, thorough_runs: 2_000_000, rule: "distinct hash of the successive file contents", assumptions: &[], real: REAL, stub: STUB },
  ])
}
