#!/bin/bash
# RUSTC_WRAPPER: instruments the crate under test (and the harness crate, where
# its generic functions are monomorphised) with edge callbacks, which are the
# simulator's preemption points and step clock.
rustc="$1"; shift
crate=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && crate="$a"
  prev="$a"
done
link=
if [ "$crate" = sim ]; then
  # work done by these counts, too
  for f in memcpy memmove memset memcmp bcmp; do link="$link -Clink-arg=-Wl,--wrap=$f"; done
fi
case "$crate" in
  json|sim)
    exec "$rustc" "$@" $link -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  simcore)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" ;;
  *)
    exec "$rustc" "$@" ;;
esac
