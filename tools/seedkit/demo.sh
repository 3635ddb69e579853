#!/bin/bash
# usage: demo.sh ; builds a small program (demo.rs) against /repo's fcb_core and runs it
set -eu
D=$(cd "$(dirname "$0")" && pwd)
SRC=$(pwd)/src/rust
W=$(mktemp -d /tmp/fcbdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never CARGO_TARGET_DIR=$W/target CARGO_PROFILE_DEV_DEBUG=0
unset RUSTC_WRAPPER || true
mkdir -p "$W/demo/src"
python3 - "$SRC" "$W" <<'P'
import re,sys
s,w=sys.argv[1:]
t=open(s+"/Cargo.toml").read()
for x in ("package","dependencies"):
    t=re.sub(r"(?ms)^\[%s\].*?(?=^\[|\Z)"%x,"",t)
t=re.sub(r"(?ms)^members\s*=\s*\[.*?\]",'members = ["fcb_core","demo"]',t)
open(w+"/Cargo.toml","w").write(t)
open(w+"/demo/Cargo.toml","w").write('''[package]
name="demo"
version="0.0.0"
edition="2021"
[dependencies]
fcb_core={workspace=true}
cjseq={workspace=true}
serde_json={workspace=true}
anyhow={workspace=true}
tokio={workspace=true}
bytes={workspace=true}
async-trait={workspace=true}
http-range-client={workspace=true}
chrono={workspace=true}
fallible-streaming-iterator={workspace=true}
ordered-float={workspace=true}
''')
P
ln -s "$SRC/fcb_core" "$W/fcb_core"
cp "$D/demo.rs" "$W/demo/src/main.rs"; cp "$D/util.rs" "$W/demo/src/util.rs"
[ -f /opt/vp/ws/Cargo.lock ] && cp /opt/vp/ws/Cargo.lock "$W/Cargo.lock"
cd "$W"
cargo build --offline -q -p demo 2>"$W/log" || { tail -40 "$W/log"; exit 3; }
cd "$W"
timeout 100 "$W/target/debug/demo"
