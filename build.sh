#!/bin/bash
# Builds the simulator with the crate as it's in /repo's working tree now.
# Cargo goes by modification times, which copies don't have to keep. So the crate is built anew whenever its content differs.
here=$(cd "$(dirname "$0")" && pwd)
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TERM_COLOR=never
cd "$here/sim" || exit 3
mkdir -p target || exit 3
exec 9> target/.lock
flock 9
digest=$( (cd "$here/../repo" && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum; cd "$here/sim" && find Cargo.toml Cargo.lock src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.digest 2>/dev/null)" = "$digest" ] && [ -x target/release/sim ]; then exit 0; fi
rm -f target/.digest
cargo clean --release --offline -p fluffy_tribble -p sim > target/.log 2>&1
if ! cargo build --release --offline >> target/.log 2>&1; then
    grep -A 12 -E "^error" target/.log | head -n 60 >&2
    echo "the simulator can't be built against /repo" >&2
    exit 3
fi
echo "$digest" > target/.digest
