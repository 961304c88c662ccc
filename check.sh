#!/bin/bash
# check.sh PROP quick|thorough   decide one property
# check.sh replay FILE [-v]      run a replay file again
# check.sh selftest [N]          determinism of the simulator
# check.sh setup                 build only
# Builds the simulator, the preload shim and the shell (from /repo's working tree) under .build,
# then searches.  Exit 0 held, 1 violated, 2 no answer.
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
REPO=${DST_REPO:-/repo}
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS LD_PRELOAD
B=$ROOT/.build
mkdir -p "$B"
LOG=$B/build.log

mirror() {
  mkdir -p "$B/src" "$B/lockdir" || return 1
  cmp -s "$ROOT/rsh.Cargo.lock" "$B/lockdir/Cargo.lock.orig" || {
    cp "$ROOT/rsh.Cargo.lock" "$B/lockdir/Cargo.lock" && cp "$ROOT/rsh.Cargo.lock" "$B/lockdir/Cargo.lock.orig"; } || return 1
  (cd "$REPO" && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | sort -z) >"$B/list.new" || return 1
  (cd "$B/src" && find . -type f -print0 | sort -z) >"$B/list.old" || return 1
  comm -z -13 "$B/list.new" "$B/list.old" | while IFS= read -r -d '' f; do rm -f "$B/src/$f"; done
  while IFS= read -r -d '' f; do
    cmp -s "$REPO/$f" "$B/src/$f" && continue
    mkdir -p "$B/src/$(dirname "$f")" && cp --no-preserve=timestamps "$REPO/$f" "$B/src/$f" || return 1
  done <"$B/list.new"
}

build() {
  exec 9>"$B/lock"; flock 9
  : > "$LOG"
  if ! gcc -O2 -fPIC -shared -fno-builtin-malloc -o "$B/shim.so.new" shim/shim.c -ldl >>"$LOG" 2>&1; then
    tail -20 "$LOG"; echo "error: the shim does not build"; return 1
  fi
  cmp -s "$B/shim.so.new" "$B/shim.so" || mv "$B/shim.so.new" "$B/shim.so"
  (cd dst && cargo build --offline --release --target-dir "$B/dst") >>"$LOG" 2>&1 || { tail -30 "$LOG"; echo "error: the simulator does not build"; return 1; }
  # the shell: mirrored by content (file times of /repo do not matter), with the versions of its
  # dependencies pinned by a lock file kept here; nothing is written to /repo
  mirror || { echo "error: cannot copy $REPO"; return 1; }
  (cd "$B/src" && CARGO_TARGET_DIR="$B/rsh" CARGO_RESOLVER_LOCKFILE_PATH="$B/lockdir/Cargo.lock" cargo build --offline --bin rsh) >>"$LOG" 2>&1 || { tail -30 "$LOG"; echo "error: rsh does not build"; return 1; }
  flock -u 9
}

case "${1:-}" in
  "") sed -n 2,8p "$0"; exit 2 ;;
esac
build || exit 2
export DST_RSH=$B/rsh/debug/rsh DST_SHIM=$B/shim.so DST_ROOT=$ROOT
D=$B/dst/release/dst
case "$1" in
  setup) exit 0 ;;
  replay) exec "$D" "$@" ;;
  selftest)
    for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C21 C22 C23 C24; do echo $p; done |
      xargs -P 8 -I{} "$D" selftest {} "${2:-100}" ;;
  *) exec "$D" check "$1" "${2:-quick}" ;;
esac
