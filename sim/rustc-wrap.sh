#!/bin/bash
# cargo's RUSTC_WRAPPER: in the crates under test (and the harness, where their generic code is compiled) every atomic
# operation and plain memory access becomes a call of a __tsan_* function, which the simulator defines
# (simcore/src/atomics.rs, race.rs). The thread sanitizer's own run-time library is not linked.
for ((i = 2; i < $#; i++)); do
  if [ "${!i}" = --crate-name ]; then
    i=$((i + 1))
    case "${!i}" in
      rstsr_*_ffi) exec "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
      rstsr*|rsim) exec "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
    esac
    break
  fi
done
exec "$@"
