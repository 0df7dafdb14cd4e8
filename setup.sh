#!/bin/bash
# Builds every monitor once (offline) so that the first check does not pay for it.
cd "$(dirname "$0")" || exit 1
for d in harness/cmd/c*; do
  ./run.sh "$(basename "$d")" build || exit 1
done
