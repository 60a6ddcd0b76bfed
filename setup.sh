#!/bin/bash
# Builds the checker once (fills the Go build cache); every check rebuilds what changed.
cd "$(dirname "$(realpath "$0")")" || exit 1
. tools/env.sh
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
(cd mc && go vet . && go build -o "$tmp/mc" .)
