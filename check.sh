#!/bin/bash
# ./check.sh <property>                      run the check (VERIF_SEED, VERIF_TIER)
# ./check.sh <property> --replay PART INDEX  replay one case
# ./check.sh --build                         build everything (setup)
# Builds the harness against /repo's working tree, then runs it.
cd "$(dirname "$0")" || exit 2
DIR=$PWD
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
ID=$1
log=$(mktemp) || exit 2
trap 'rm -f "$log"' EXIT
HOOKED="F07 F08 F09 F10 F12 F23 F25 F26 F28 F30"
build() { # name, command...
  local what=$1; shift
  if ! "$@" >"$log" 2>&1; then
    cat "$log"; echo "$ID: ERROR the $what build failed"; exit 2
  fi
}
plain() { build plain cargo build --release --offline --locked --manifest-path "$DIR/harness/Cargo.toml" --target-dir "$DIR/harness/target"; }
hooked() { build hooked env RUSTFLAGS="--cfg findex_verif" cargo build --release --offline --locked --manifest-path "$DIR/harness/Cargo.toml" --target-dir "$DIR/harness/target-hook"; }
tsan() { build tsan env RUSTFLAGS="-Zsanitizer=thread" cargo +nightly build --release --offline --locked -Zbuild-std --target x86_64-unknown-linux-gnu --manifest-path "$DIR/conc/Cargo.toml" --target-dir "$DIR/conc/target-tsan"; }
if [ "$ID" = --build ]; then
  plain; hooked
  [ -d conc ] && tsan
  exit 0
fi
plain
export VH_DIR=$DIR
case " $HOOKED " in *" $ID "*) hooked; export VH_HOOKED_BIN=$DIR/harness/target-hook/release/vh;; esac
if [ "$ID" = F20 ]; then
  cargo +nightly miri setup >/dev/null 2>&1
  tsan; export VH_TSAN_BIN=$DIR/conc/target-tsan/x86_64-unknown-linux-gnu/release/conc
fi
if [ "$2" = --replay ]; then
  BIN=$DIR/harness/target/release/vh
  [ "$5" = hooked ] && BIN=$VH_HOOKED_BIN
  exec "$BIN" replay "$ID" "$3" "$4"
fi
rm -f "evidence/$ID.json"
"$DIR/harness/target/release/vh" run "$ID"
