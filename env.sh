export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$ROOT/target"
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
MON="$CARGO_TARGET_DIR/release/mon"
build() {
  local log="$CARGO_TARGET_DIR/build.log" stamp="$CARGO_TARGET_DIR/repo.stamp" now
  mkdir -p "$CARGO_TARGET_DIR"
  # cargo decides by mtime; a restored file can be older than the last build, so compare contents too
  now=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/fluffy_tribble-* "$CARGO_TARGET_DIR"/release/.fingerprint/mon-*
  fi
  (
    flock 9
    cargo build --release --offline --manifest-path "$ROOT/harness/Cargo.toml" > "$log" 2>&1
  ) 9> "$CARGO_TARGET_DIR/build.lock" || { tail -40 "$log"; return 1; }
  echo "$now" > "$stamp"
}
