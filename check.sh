#!/bin/bash
# check.sh build            build the simulator against /repo's working tree
# check.sh ID quick|thorough  decide property ID (exit 0 held, 1 violation, 3 no answer)
# check.sh replay FILE      re-run a replay file
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT" CARGO_TARGET_DIR="$ROOT/sim/target" RUSTC_WRAPPER="$ROOT/sim/wrap.sh" RUSTUP_TOOLCHAIN="${SIM_TOOLCHAIN:-stable}" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR"
# Where atomic operations decide, the crate under test is compiled without optimisation: they are calls then, with scheduling points around them.
profile() { case "$1" in C06|C11|C12|C16|C17|C18) echo fine;; *) echo dev;; esac; }
build() {
  local p="$1"
  exec 9>"$CARGO_TARGET_DIR/.lock"; flock 9
  local h; h=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  if [ "$(cat "$CARGO_TARGET_DIR/.stamp-$p" 2>/dev/null)" != "$h" ]; then
    rm -f "$CARGO_TARGET_DIR/.stamp-$p"
    (cd "$ROOT/sim" && cargo clean --offline -q --profile "$p" -p mortal) >/dev/null 2>&1
  fi
  if ! (cd "$ROOT/sim" && cargo build --offline --locked -q --profile "$p") >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    grep -E '^(error|warning: unused)' -A 12 "$CARGO_TARGET_DIR/build.log" | head -60; tail -5 "$CARGO_TARGET_DIR/build.log"
    echo "the simulator did not build"; exit 3
  fi
  echo "$h" >"$CARGO_TARGET_DIR/.stamp-$p"
  flock -u 9; exec 9>&-
}
case "$1" in
  build) build dev; build fine; exit 0;;
  replay) p=$(profile "$(grep -o '"prop": *"C[0-9]*"' "$2" | head -1 | grep -o 'C[0-9]*')");;
  *) p=$(profile "$1");;
esac
build "$p"
[ "$p" = dev ] && BIN="$CARGO_TARGET_DIR/debug/mortalsim" || BIN="$CARGO_TARGET_DIR/$p/mortalsim"
case "$1" in
  replay) exec "$BIN" replay "$2";;
  *) exec "$BIN" check "$1" "${2:-quick}";;
esac
