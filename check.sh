#!/bin/bash
# check.sh ID [--thorough] : builds the simulator from /repo's working tree and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$here" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
id=$1; shift
case "$id" in
  C12|C13|C14|C15|C16|C18) bin=verifier-sim ;;
  *) bin=models-sim ;;
esac
log=$(mktemp)
if ! (cd "$here/sim" && cargo build --offline -q -p "$bin") >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "the simulator does not build against this tree: no verdict"
  exit 3
fi
rm -f "$log"
exec "$here/sim/target/debug/$bin" check "$id" "$@"
