#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property from /repo's current source
# exit 0: holds on everything analysed; exit 1 with a VIOLATION line: broken
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
repo="${REPO:-/repo}"
export VERIF_TIER="$tier"
mkdir -p "$here/evidence"
if [ ! -x "$here/driver/target/release/mirdump" ] || [ ! -x "$here/engine/target/release/engine" ]; then
  bash "$here/setup.sh" >&2 || exit 2
fi
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
sys="$(rustc +nightly --print sysroot)"
# dump the type-checked program: every run compiles the current working tree afresh
(cd "$repo" && LD_LIBRARY_PATH="$sys/lib" MIRDUMP_OUT="$tmp/mir.json" MIRDUMP_CRATE=dumb_crypto \
  RUSTC_WORKSPACE_WRAPPER="$here/driver/target/release/mirdump" CARGO_TARGET_DIR="$tmp/target" \
  RUSTFLAGS="-Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off -Zalways-encode-mir" \
  cargo +nightly check --offline --locked --lib) >"$tmp/log" 2>&1
if [ ! -s "$tmp/mir.json" ]; then
  cat "$tmp/log" >&2
  echo "$id: the program could not be loaded" >&2
  exit 2
fi
rm -rf "$tmp/target"
rep="$here/evidence/$id.report.txt"
"$here/engine/target/release/engine" check "$tmp/mir.json" "$id" "$tier" "${VERIF_SEED:-1}" \
  "$here/evidence/$id.json" "$rep" "$here/known-findings.txt" "bash check.sh $id $tier"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || { echo "$id: analyser ended with $rc" >&2; exit 2; }
exit $rc
