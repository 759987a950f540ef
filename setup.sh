#!/bin/bash
# Builds everything once, so that the checks find a warm build cache.
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence
harness/build.sh "$PWD/.build/check" && harness/build.sh "$PWD/.build/check-race" -race
