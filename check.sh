#!/bin/bash
# check.sh build            build everything from the working trees
# check.sh PROP [TIER]      decide one property (TIER defaults to $VERIF_TIER, then quick)
# check.sh replay FILE      repeat a recorded violation exactly
set -u
V=$(cd "$(dirname "$0")" && pwd)
B=$V/.build
export KSIM_HOME=$V
export PATH=$PATH:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
mkdir -p "$B" "$V/evidence"

build() {
    exec 9>"$B/lock"; flock 9
    (cd "$V/ksim" && CARGO_TARGET_DIR=$V/ksim/target cargo build --release --offline --locked 2>&1) > "$B/ksim.log" || { cat "$B/ksim.log"; echo "check.sh: ksim does not build"; exit 3; }
    gcc -O2 -shared -fPIC -fno-builtin -fno-delete-null-pointer-checks -o "$B/shim.so.new" "$V/ksim/shim/shim.c" -ldl && mv "$B/shim.so.new" "$B/shim.so" || exit 3
    # The program under test, from /repo's working tree: whatever its files'
    # times say, built again if their contents differ from last time.
    local sum
    sum=$(cd /repo && find Cargo.toml Cargo.lock build.rs src -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)
    if [ "$(cat "$B/source.sum" 2>/dev/null)" != "$sum" ]; then
        rm -rf "$B"/target/debug/.fingerprint/procstar-* "$B/target/debug/procstar"
    fi
    (cd /repo && CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=$B/target cargo build --offline --locked 2>&1) > "$B/repo.log" || { tail -40 "$B/repo.log"; echo "check.sh: /repo does not build"; exit 3; }
    echo "$sum" > "$B/source.sum"
    exec 9>&-
}

PY=/opt/vp/venv/bin/python
[ -x $PY ] || PY=python3
psim() { exec env PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 $PY "$V/psim/check.py" "$@" --src /repo/python; }

runs() {  # simulated runs in the quick tier, about half a minute of them
    case $1 in
        C01) echo 2400;; C02) echo 2200;; C03) echo 2600;; C04) echo 2600;; C05) echo 2000;; C06) echo 2600;;
        C07) echo 3000;; C08) echo 3000;; C09) echo 4000;; C10) echo 2600;; C11) echo 3000;; C12) echo 4000;; C13) echo 1500;; C14) echo 1600;; C15) echo 2000;; C16) echo 2400;; C17) echo 1600;; C21) echo 2600;; C23) echo 2600;; C24) echo 2600;;
        C18|C19|C20) echo 9000;;
        *) echo 1500;;
    esac
}

case ${1:-} in
    build) build; exit 0;;
    replay) if grep -q '"psim": true' "$2"; then psim replay "$2"; fi; build; exec "$V/ksim/target/release/ksim" replay "$2" --bin "$B/target/debug/procstar" --shim "$B/shim.so";;
esac
P=$1
T=${2:-${VERIF_TIER:-quick}}
N=$(runs "$P"); S=240
if [ "$T" = thorough ]; then N=$((N * 60)); S=${THOROUGH_SECS:-3600}; fi
case $P in C18|C19|C20)
    psim check "$P" --runs "$N" --secs "$S" --seed "${VERIF_SEED:-1}" --jobs "${JOBS:-8}" --tier "$T" --mix 20 \
        --known "$V/known_findings" --evidence "$V/evidence/$P.json" --replays "$V/replays";;
esac
build
exec "$V/ksim/target/release/ksim" check "$P" --bin "$B/target/debug/procstar" --shim "$B/shim.so" \
    --runs "$N" --secs "$S" --seed "${VERIF_SEED:-1}" --jobs "${JOBS:-8}" --tier "$T" --mix 15 \
    --known "$V/known_findings" --evidence "$V/evidence/$P.json" --replays "$V/replays"
