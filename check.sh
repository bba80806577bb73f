#!/bin/bash
# check.sh ID : decides one property on /repo's current tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. harness/env.sh
./build.sh || exit 2
exec bin/symgo check "$@"
