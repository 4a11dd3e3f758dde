# Sourced by check.sh and setup.sh: the toolchain of the sandbox, offline, with build output in /verif/target (ignored by git).
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= 
export CARGO_TARGET_DIR="$VERIF/target"
export FEM2D_VERIF="$VERIF"
unset GEP_SOLVE_DIR CARGO_INCREMENTAL RUSTFLAGS

# build_crate <crate dir> <target dir> [cargo options] : builds the harness against the current tree of /repo
build_crate() {
  local dir="$1" tgt="$2" stamp hash
  shift 2
  mkdir -p "$tgt"
  # never trust file times alone: rebuild the library whenever the content of the tree differs from the last build
  hash="$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)"
  stamp="$tgt/.fem2d_hash"
  (
    flock 9
    if [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ]; then
      CARGO_TARGET_DIR="$tgt" cargo clean --offline --release -p fem_2d --manifest-path "$dir/Cargo.toml" >/dev/null 2>&1
    fi
    CARGO_TARGET_DIR="$tgt" cargo build --offline --release --manifest-path "$dir/Cargo.toml" "$@" >"$tgt/build.log" 2>&1
    rc=$?
    if [ $rc -ne 0 ]; then tail -n 60 "$tgt/build.log" >&2; exit $rc; fi
    echo "$hash" > "$stamp"
  ) 9>"$tgt/.lock"
}

# build_c13 : the instrumented copy of the library and its explorer; sets C13_MODE
build_c13() {
  local dst="$VERIF/target/c13" inst rc=1
  mkdir -p "$dst"
  exec 8>"$dst/.lock"; flock 8
  for inst in 1 0; do
    python3 "$VERIF/prep13.py" "$dst/fem_2d" $inst || { rc=1; continue; }
    hash="$( (cd "$dst/fem_2d" && find . -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)"
    if [ "$(cat "$dst/.hash" 2>/dev/null)" != "$hash" ]; then
      CARGO_TARGET_DIR="$dst/target" cargo clean --offline --release -p fem_2d --manifest-path "$VERIF/mc13/Cargo.toml" >/dev/null 2>&1
    fi
    CARGO_TARGET_DIR="$dst/target" cargo build --offline --release --manifest-path "$VERIF/mc13/Cargo.toml" >"$dst/build.log" 2>&1
    rc=$?
    if [ $rc -eq 0 ]; then
      echo "$hash" > "$dst/.hash"
      [ $inst = 1 ] && C13_MODE=controlled || C13_MODE="pool only (the sources do not build with std routed through the scheduler)"
      break
    fi
    tail -n 40 "$dst/build.log" >&2
  done
  exec 8>&-
  return $rc
}
