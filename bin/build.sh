#!/bin/bash
# Builds the harness and, from /repo's working tree, the bulloak binary.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export PATH="/usr/local/cargo/bin:$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTC_WRAPPER
mkdir -p "$here/target"
exec 9>"$here/target/.lock"
flock 9

(cd "$here/harness" && cargo build -q --release --offline --locked) >&2

# cargo decides by modification times; make sure that changed contents count.
stamp=$(cd /repo && find Cargo.toml Cargo.lock crates -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
if [ "$(cat "$here/target/.stamp" 2>/dev/null)" != "$stamp" ]; then
  rm -f "$here/target/.stamp"
  rm -rf "$here"/target/debug/.fingerprint/bulloak* "$here"/target/probe/debug/.fingerprint/bulloak*
fi
export RUSTC_WRAPPER="$here/bin/rustc-wrapper.sh"
cd /repo
CARGO_TARGET_DIR="$here/target" cargo build -q --offline --locked -p bulloak \
  --config 'profile.dev.opt-level=1' --config 'profile.dev.debug=false' --config 'profile.dev.incremental=false' >"$here/target/build.log" 2>&1 \
  || { tail -n 40 "$here/target/build.log" >&2; echo "error: /repo does not build" >&2; exit 2; }

# The probe of the library; without it only C24 cannot answer.
(cd "$here/probe" && CARGO_TARGET_DIR="$here/target/probe" cargo build -q --offline --locked >"$here/target/probe.log" 2>&1) \
  || { rm -f "$here/target/probe/debug/bvprobe"; tail -n 20 "$here/target/probe.log" >&2; echo "warning: the probe does not build" >&2; }
echo "$stamp" > "$here/target/.stamp"
