#!/bin/bash
# Builds every check in both float widths (the checks rebuild what /repo changes).
set -e
cd "$(dirname "$0")"
B=$(cd harness/src/bin && ls c*.rs | sed 's/\.rs$//')
bash harness/build.sh f32 $B
bash harness/build.sh f64 $B
