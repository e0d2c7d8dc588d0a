#!/bin/bash
# cargo's RUSTC_WRAPPER: adds the scheduling-point instrumentation to the crates under simulation.
# usage (by cargo): rustc-wrap.sh <rustc> <args...>
rustc="$1"; shift
name=; prev=
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
cov=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3
     -Cllvm-args=-sanitizer-coverage-trace-pc
     -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores)
case "$name" in
  householder|hsim) exec "$rustc" "$@" "${cov[@]}" ;;
  simrt) RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" ;;
  matrixmultiply)
    if [ "$HSIM_PORTABLE_KERNELS" = 1 ]; then
      # Portable kernels (no run-time CPU detection), instrumented like the library itself.
      args=(); skip=0; n=("$@"); i=0
      while [ $i -lt ${#n[@]} ]; do
        if [ "${n[$i]}" = "--cfg" ] && [ "${n[$((i+1))]}" = 'feature="std"' ]; then i=$((i+2)); continue; fi
        if [ "${n[$i]}" = "--cfg" ] && [ "${n[$((i+1))]}" = 'has_avx512' ]; then i=$((i+2)); continue; fi
        args+=("${n[$i]}"); i=$((i+1))
      done
      exec "$rustc" "${args[@]}" "${cov[@]}"
    fi
    exec "$rustc" "$@" ;;
  *) exec "$rustc" "$@" ;;
esac
