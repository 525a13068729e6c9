# Sourced: builds the harness from /repo's current working tree into /verif's own target folder
# (and, for the property that runs them, the command-line tools).
vp_here="${OXY_VERIF:-/verif}"
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_AUTO_INSTALL=0 CARGO_INCREMENTAL=1
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
export CARGO_TARGET_DIR="${OXY_TARGET:-$vp_here/harness/target}"
# The content of the sources decides about a rebuild, not their time stamps.
vp_hash="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -path '*/tests_data' -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
# vp_build MANIFEST_DIR TARGET_DIR "PACKAGE..." [CARGO ARGUMENT...]
# When the sources changed, the named packages are built again (whatever their time stamps say),
# with what the incremental compiler knows about them.
vp_build() {
  local dir="$1" target="$2" stamp="$2/.repo-sources" packages="$3"
  shift 3
  mkdir -p "$target"
  cd "$dir" || return 1
  if [ "$(cat "$stamp" 2>/dev/null)" != "$vp_hash" ]; then
    rm -f "$stamp"
    for p in $packages; do
      find "$target/debug/.fingerprint" -maxdepth 1 -name "$p-*" -exec rm -rf {} + 2>/dev/null
    done
  fi
  CARGO_TARGET_DIR="$target" cargo build --offline --locked "$@" >"$target/build.log" 2>&1 || { tail -40 "$target/build.log"; return 1; }
  echo "$vp_hash" >"$stamp"
}
# The family of properties (a feature of the harness) one property belongs to.
vp_family() {
  case "$1" in
    C01 | C02 | C03 | C04 | C05) echo write ;;
    C06 | C07 | C20 | C23) echo layout ;;
    C08 | C09 | C24 | C25) echo foreign ;;
    C10 | C11) echo cont ;;
    C12 | C15) echo buffer ;;
    C13 | C14) echo derive ;;
    C16) echo again ;;
    C17) echo show ;;
    C18) echo tools ;;
    C19) echo bad ;;
    C21) echo big ;;
    C22) echo user ;;
    all) echo write layout foreign cont buffer derive again show tools bad big user ;;
    *) echo "no property $1" >&2; return 1 ;;
  esac
}
vp_families="$(vp_family "${OXY_PROP:-all}")" || return 1
mkdir -p "$CARGO_TARGET_DIR/bin"
(
  exec 9>"$CARGO_TARGET_DIR.lock"
  flock 9
  for f in $vp_families; do
    vp_build "$vp_here/harness" "$CARGO_TARGET_DIR" "oxyroot oxyroot_derive" --no-default-features --features "$f" || exit 1
    cp -f "$CARGO_TARGET_DIR/debug/oxyverif" "$CARGO_TARGET_DIR/bin/.new.$f" && mv -f "$CARGO_TARGET_DIR/bin/.new.$f" "$CARGO_TARGET_DIR/bin/$f" || exit 1
    case "$f" in
      tools) vp_build "$vp_here/harness/tools" "$CARGO_TARGET_DIR/tools" "oxyroot oxyroot_derive oxytools" || exit 1 ;;
      derive) vp_build "$vp_here/harness/derive" "$CARGO_TARGET_DIR/derive" "oxyroot oxyroot_derive oxyderive" || exit 1 ;;
    esac
  done
)
