#!/bin/bash
# rustc stand-in for cargo: hides "-nightly" from build scripts (they would switch on unstable
# features) and records the command line of the roots crate for the MIR server.
R=$MIRV_RUSTC
for a in "$@"; do case "$a" in -vV|--version|-V|-Vv) "$R" "$@" | sed 's/-nightly//'; exit ${PIPESTATUS[0]};; esac; done
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ] && [ "$a" = mirroots ]; then printf '%s\0' "$@" > "$MIRV_ARGS"; fi
  prev=$a
done
exec "$R" "$@"
