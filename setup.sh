#!/bin/bash
# Builds the verifier from the committed files and warms the build cache (offline).
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p .cache/go-build evidence
go build -o .cache/gv.new ./cmd/gv && mv .cache/gv.new .cache/gv || exit 1
# export data of the standard packages the contracts are type-checked against, and test binaries
.cache/gv warm || true
