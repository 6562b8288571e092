#!/bin/bash
# Adds edge counters (read by src/cover.rs) to the code under test and to the checks, whose
# instances of its generic code are part of it. Everything else is compiled as it is.
R=$1; shift
for ((i = 1; i <= $#; i++)); do
  if [ "${!i}" = --crate-name ]; then
    j=$((i + 1))
    case "${!j}" in pbrtrs | c1[1-9] | c2[0-3])
      exec "$R" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters ;;
    esac
    break
  fi
done
exec "$R" "$@"
