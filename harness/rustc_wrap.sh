#!/bin/bash
# RUSTC_WRAPPER: compile the orx-* crates (the code under test and its storage crates) against the `core` stand-in.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  orx_*) exec "$rustc" "$@" --extern core="$VSHIM_DIR/libvshim.rlib" -L dependency="$VSHIM_DIR" ;;
  explore) exec "$rustc" "$@" -L dependency="$VSHIM_DIR" ;;
  *) exec "$rustc" "$@" ;;
esac
