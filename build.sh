# Sourced by check.sh, and run by setup: builds the simulator against /repo's working tree.
verif=${verif:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$verif/target" CARGO_TERM_COLOR=never
if rustc +1.78.0-x86_64-unknown-linux-gnu --version >/dev/null 2>&1; then
  export RUSTUP_TOOLCHAIN=1.78.0-x86_64-unknown-linux-gnu
fi
build_inksim() {
  local stamp now log
  mkdir -p "$CARGO_TARGET_DIR"
  stamp="$CARGO_TARGET_DIR/repo.stamp"
  # Content, not timestamps, decides whether the code under test is rebuilt.
  now=$(cd /repo && find crates Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ -e "$stamp" ] && [ "$(cat "$stamp")" != "$now" ]; then
    (cd "$verif/sim" && cargo clean --release --offline -p ink-analyzer-macro -p ink-analyzer-ir -p ink-analyzer -p ink-lsp-server -p inksim) >/dev/null 2>&1
  fi
  log="$CARGO_TARGET_DIR/build.log"
  if ! (cd "$verif/sim" && cargo build --release --offline) >"$log" 2>&1; then
    echo "build failed:" >&2
    tail -40 "$log" >&2
    return 2
  fi
  echo "$now" >"$stamp"
}
build_inksim
