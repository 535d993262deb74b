#!/bin/bash
# RUSTC_WRAPPER: record the compiler command line of the harness library.
# proc-macro2's and ahash's build scripts guess nightly features that are gone; drop them.
rustc="$1"; shift
for ((i=1;i<=$#;i++)); do
  if [ "${!i}" = "--crate-name" ]; then j=$((i+1)); name="${!j}"; fi
done
if [ "$name" = "harness" ]; then
  printf '%s\0' "$@" > "$MIRSYM_ARGS"
  pwd > "$MIRSYM_ARGS.cwd"
fi
if [ "$name" = "proc_macro2" ] || [ "$name" = "ahash" ]; then
  args=()
  while [ $# -gt 0 ]; do
    if [ "$1" = "--cfg" ]; then
      case "$2" in
        proc_macro_span*|super_unstable|use_proc_macro_span|'feature="stdsimd"') shift 2; continue;;
      esac
    fi
    args+=("$1"); shift
  done
  exec "$rustc" "${args[@]}"
fi
exec "$rustc" "$@"
