#!/bin/bash
# check.sh ID [quick|thorough]: rebuild the monitors and the formatter from /repo's working tree and run one property's check.
# exit 0: held; 1: violation (a VIOLATION line names the replay file); anything else: no verdict.
set -u
cd "$(dirname "$0")" || exit 5
export VERIF_ROOT=$PWD
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
REPO=${REPO:-/repo}
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/harness/target CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER
mkdir -p work evidence harness/target
exec 9>work/build.lock
flock 9
# cargo judges staleness by mtimes, which a restored file may not change: judge by content instead
stamp=$(cd "$REPO" && { cat Cargo.toml; find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum)
if [ "$(cat harness/target/stamp 2>/dev/null)" != "$stamp" ]; then
  (cd harness && cargo clean --offline -p markdown-fmt >/dev/null 2>&1)
  rm -f "$PWD/harness/target/stamp"
fi
(cd harness && cargo build --offline --locked --bin mdmon) >work/build.log 2>&1 || { tail -40 work/build.log >&2; echo "the harness does not build" >&2; exit 3; }
echo "$stamp" >harness/target/stamp
if [ "$1" = C19 ] || [ "$1" = setup ]; then
  if [ "$(cat harness/target/stamp.cli 2>/dev/null)" != "$stamp" ]; then
    rm -rf "$PWD/harness/target/cli"
  fi
  cargo build --offline --locked --features build-binary --manifest-path "$REPO/Cargo.toml" --target-dir "$PWD/harness/target/cli" >work/build.log 2>&1 || { tail -40 work/build.log >&2; echo "the program does not build" >&2; exit 3; }
  export MDFMT_BIN=$PWD/harness/target/cli/debug/markdown-fmt
  echo "$stamp" >harness/target/stamp.cli
fi
flock -u 9
[ "$1" = setup ] && exit 0
./harness/target/debug/mdmon check "$1" || exit $?
[ "$VERIF_TIER" = thorough ] || exit 0

# The same workload in an instrumented build: AddressSanitizer for C01, ThreadSanitizer (with an instrumented std) for C10
case $1 in
  C01) san=address std= scale=0.5 ;;
  C10) san=thread std=-Zbuild-std scale=0.3 ;;
  *) exit 0 ;;
esac
dir=$PWD/work/$san
rm -rf "$PWD/work/$san"
mkdir -p "$dir"
cp -r corpus known-findings.txt "$dir/"
if (cd harness && RUSTFLAGS="-Zsanitizer=$san -Cunsafe-allow-abi-mismatch=sanitizer" CARGO_TARGET_DIR=$PWD/target/$san cargo +nightly build $std --offline --locked --target x86_64-unknown-linux-gnu --bin mdmon) >"$dir/build.log" 2>&1; then
  ASAN_OPTIONS=detect_leaks=0 TSAN_OPTIONS="halt_on_error=1 exitcode=66" VERIF_ROOT=$dir VERIF_TIER=quick SCALE=$scale ./harness/target/$san/x86_64-unknown-linux-gnu/debug/mdmon check "$1" >"$dir/log" 2>&1
  rc=$?
  grep -E '^(VIOLATION|held|inconcl)' "$dir/log" | sed "s/^held/held under the $san sanitizer/"
  result="$(tail -1 "$dir/log")"
else
  rc=0
  echo "no instrumented build ($san): $(tail -1 "$dir/build.log")"
  result="not built"
fi
python3 - "evidence/$1.json" "$san" "$result" <<'EOF'
import json, sys
p, san, result = sys.argv[1:]
e = json.load(open(p))
e["coverage"]["under the %s sanitizer" % san] = result
json.dump(e, open(p, "w"), ensure_ascii=False, indent=1)
EOF
exit $rc
