# build VARIANT CRATE LOG : builds a harness variant against /repo's working tree, prints the binary path
# variants: plain | asan | tsan
vbuild() {
  local v="$1" h="$2" log="$3"
  case "$v" in
    plain) CARGO_TARGET_DIR="$HERE/target/$h" cargo build --release --offline --manifest-path "$HERE/$h/Cargo.toml" >"$log" 2>&1 || return 1
           echo "$HERE/target/$h/release/$h" ;;
    asan) RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" CARGO_TARGET_DIR="$HERE/target/$h-asan" \
           cargo build --release --offline --target x86_64-unknown-linux-gnu --manifest-path "$HERE/$h/Cargo.toml" >"$log" 2>&1 || return 1
           echo "$HERE/target/$h-asan/x86_64-unknown-linux-gnu/release/$h" ;;
    tsan) RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-Zsanitizer=thread -Cforce-frame-pointers=yes" CARGO_TARGET_DIR="$HERE/target/$h-tsan" \
           cargo build -Zbuild-std --release --offline --target x86_64-unknown-linux-gnu --manifest-path "$HERE/$h/Cargo.toml" >"$log" 2>&1 || return 1
           echo "$HERE/target/$h-tsan/x86_64-unknown-linux-gnu/release/$h" ;;
  esac
}
