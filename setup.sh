#!/bin/bash
# Builds everything once and warms the build cache.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. harness/env.sh
./build.sh || exit 2
cd harness && go build ./h/... && go vet -tags realdb -modfile go.real.mod ./h/stores >/dev/null 2>&1
exit 0
