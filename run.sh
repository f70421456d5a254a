#!/bin/bash
# usage: run.sh PROP [quick|thorough] | run.sh replay FILE | run.sh build | run.sh selftest [args] | run.sh pyselftest | run.sh one PROP --run I
# Builds the simulator together with forust from /repo's working tree, then runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
export PATH=/root/.cargo/bin:$PATH
PY=/opt/pyenv/bin/python
unset CARGO_TARGET_DIR RUSTFLAGS RUSTUP_TOOLCHAIN
B="$here/.build"
mkdir -p "$B"
fail() { tail -40 "$1" >&2; echo "build failed" >&2; exit 2; }
build() {
  ( flock 9
    cd "$here/sim" &&
    export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer" CARGO_TARGET_DIR="$B/sim" &&
    { cargo +nightly build --offline --locked --release --target x86_64-unknown-linux-gnu >"$B/sim.log" 2>&1 || cargo +nightly build --offline --release --target x86_64-unknown-linux-gnu >"$B/sim.log" 2>&1; }
  ) 9>"$B/lock" || fail "$B/sim.log"
}
buildpy() {
  ( flock 9
    cd "$here/pysim/ext" &&
    export PYO3_PYTHON=$PY CARGO_TARGET_DIR="$B/py" &&
    { cargo +stable build --offline --locked --release >"$B/py.log" 2>&1 || cargo +stable build --offline --release >"$B/py.log" 2>&1; } &&
    rm -rf "$B/pkg" && mkdir -p "$B/pkg" && cp -r /repo/py-forust/forust "$B/pkg/forust" &&
    rm -f "$B"/pkg/forust/*.so && cp "$B/py/release/libforust.so" "$B/pkg/forust/forust.so" &&
    gcc -O2 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fPIC -shared -DSIM_PRELOAD -o "$B/sim_fs.so" "$here/sim/csrc/sim_fs.c" >>"$B/py.log" 2>&1
  ) 9>"$B/pylock" || fail "$B/py.log"
}
bin="$B/sim/x86_64-unknown-linux-gnu/release/forust-sim"
pyargs=(--preload "$B/sim_fs.so" --pkg "$B/pkg")
case "${1:-}" in
  build) build; buildpy ;;
  replay)
    if grep -qE '"property": "C(1[679]|2[03])"' "$2"; then buildpy; exec $PY -s "$here/pysim/driver.py" replay "$2" "${pyargs[@]}"; fi
    build; exec "$bin" replay "$2" ;;
  selftest|one) build; exec "$bin" "$@" ;;
  pyselftest) buildpy; shift; exec $PY -s "$here/pysim/driver.py" selftest "${pyargs[@]}" "$@" ;;
  C16|C17|C19|C20|C23) buildpy
      exec $PY -s "$here/pysim/driver.py" "$1" "${pyargs[@]}" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" --out "$here" "${@:3}" ;;
  C*) build
      exec "$bin" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" --out "$here" "${@:3}" ;;
  *) sed -n 2p "$0"; exit 2 ;;
esac
