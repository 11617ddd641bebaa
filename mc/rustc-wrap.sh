#!/bin/bash
# compiles /repo's crate `tailcall`, and only that one, with the hooks on;
# with VP_WHOLE, everything as a whole instead of incrementally
rustc="$1"; shift
hooks=() args=() prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && [ "$a" = tailcall ] && hooks=(--cfg vp_mc --check-cfg 'cfg(vp_mc)')
  if [ "$VP_WHOLE" ] && [ "$prev" = -C ] && [[ "$a" = incremental=* ]]; then
    unset 'args[-1]'
  else
    args+=("$a")
  fi
  prev="$a"
done
exec "$rustc" "${args[@]}" "${hooks[@]}"
