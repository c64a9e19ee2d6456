# Common environment of the checks: offline builds, everything into /verif/target.
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="${MC_TARGET:-$VERIF_DIR/target}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER

# Cargo goes by the time of a file: where the contents of /repo differ from what this target
# directory was last built from and a changed file is not newer than that build, the crates of
# /repo are built anew.
fresh() {
  local stamp="$CARGO_TARGET_DIR/repo.sha256" f wipe=
  mkdir -p "$CARGO_TARGET_DIR"
  (cd /repo && find . \( -path ./target -o -path ./.git -o -path ./test_vectors -o -name node_modules \) -prune -o -type f -print0 |
    sort -z | xargs -0 sha256sum) >"$stamp.new"
  if [ -f "$stamp" ]; then
    while read -r _ f; do
      [ "/repo/$f" -nt "$stamp" ] || wipe=1
    done < <(comm -3 <(sort "$stamp") <(sort "$stamp.new") | tr -d '\t')
  fi
  if [ -n "$wipe" ]; then
    find "$CARGO_TARGET_DIR"/release/.fingerprint "$CARGO_TARGET_DIR"/release/build -maxdepth 1 \
      \( -name 'crate_crypto*' -o -name '*eth_kzg*' -o -name '*eth-kzg*' \) -exec rm -rf {} + 2>/dev/null
  fi
  mv "$stamp.new" "$stamp"
}
# After the build.
built() {
  touch "$CARGO_TARGET_DIR/repo.sha256"
}
