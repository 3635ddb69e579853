#!/bin/bash
# usage: demo.sh ; builds the command line tool from /repo and runs demo.py with its path
set -eu
D=$(cd "$(dirname "$0")" && pwd)
SRC=$(pwd)/src/rust
W=$(mktemp -d /tmp/fcbdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never CARGO_TARGET_DIR=$W/target CARGO_PROFILE_DEV_DEBUG=0
unset RUSTC_WRAPPER || true
python3 - "$SRC" "$W" <<'P'
import re,sys
s,w=sys.argv[1:]
t=open(s+"/Cargo.toml").read()
for x in ("package","dependencies"):
    t=re.sub(r"(?ms)^\[%s\].*?(?=^\[|\Z)"%x,"",t)
t=re.sub(r"(?ms)^members\s*=\s*\[.*?\]",'members = ["fcb_core","cli"]',t)
open(w+"/Cargo.toml","w").write(t)
P
ln -s "$SRC/fcb_core" "$W/fcb_core"
ln -s "$SRC/cli" "$W/cli"
[ -f /opt/vp/ws/Cargo.lock ] && cp /opt/vp/ws/Cargo.lock "$W/Cargo.lock"
cd "$W"
cargo build --offline -q -p fcb_cli 2>"$W/log" || { tail -40 "$W/log"; exit 3; }
mkdir "$W/run" && cd "$W/run"
timeout 100 python3 "$D/demo.py" "$W/target/debug/fcb"
