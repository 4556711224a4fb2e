#!/bin/bash
# check.sh ID [quick|thorough]   builds the harness from /repo's working tree and runs one check
# check.sh one ID CASE_SEED      runs one case again
# check.sh build                 only builds
set -u
cd "$(dirname "$0")" || exit 2
verif=$PWD
export CARGO_NET_OFFLINE=true
unset KV_FAKE_DIR
kv=$verif/harness/target/release/kv
compile() {
  local log
  if ! log=$(cargo build --offline --release --manifest-path "$verif/harness/Cargo.toml" \
      --target-dir "$verif/harness/target" "$@" 2>&1); then
    printf '%s\n' "$log" | tail -40
    echo "error: the harness does not build"
    exit 2
  fi
}
# build ID
build() {
  # one build at a time, should checks run at the same time
  exec 9>"$verif/harness/.lock"
  flock 9
  if [ "$1" = C06 ]; then
    # without the feature `targets` of krates, which is off by default
    compile --no-default-features --features serialize
    mv "$kv" "$kv-plain"
  fi
  compile
  exec 9>&-
}
case "${1:-}" in
  build) build ""; exit 0 ;;
  one) build "$2"
    [ "$2" != C06 ] || "$kv-plain" one "$2" "$3" || exit
    exec "$kv" one "$2" "$3" ;;
  C[0-9]*) build "$1"
    exec "$kv" check "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" "$verif" ;;
  *) sed -n 2,4p "$0"; exit 2 ;;
esac
