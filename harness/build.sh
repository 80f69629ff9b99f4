#!/bin/bash
# build the explorer from /repo's working tree into /verif/build
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$out/vshim"
if [ ! -f "$out/vshim/libvshim.rlib" ] || [ "$here/vshim/vshim.rs" -nt "$out/vshim/libvshim.rlib" ]; then
  rustc --edition 2021 --crate-type rlib --crate-name vshim -O "$here/vshim/vshim.rs" -o "$out/vshim/libvshim.rlib" || exit 1
  # crates compiled against another stand-in do not fit
  /bin/rm -rf "$out/target"
fi
export VSHIM_DIR=$(cd "$out/vshim" && pwd) RUSTC_WRAPPER="$here/rustc_wrap.sh" CARGO_TARGET_DIR="$out/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS
cd "$here" && exec cargo build --release --offline --locked --quiet
