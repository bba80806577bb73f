#!/bin/bash
# Builds the symbolic executor into bin/ (a no-op when it is up to date).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. harness/env.sh
mkdir -p bin evidence replay
(cd engine && go build -o ../bin/symgo .) || { echo "ERROR the engine does not build"; exit 2; }
