#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 3
tier=${2:-${VERIF_TIER:-quick}}
new=0
[ -x bin/vpengine ] || new=1
for f in engine/*.go engine/go.mod harness/tok.go; do [ "$f" -nt bin/vpengine ] && new=1; done
if [ $new = 1 ]; then ./build.sh || exit 3; fi
mkdir -p evidence
exec bin/vpengine -repo /repo -verif "$here" -prop "$1" -tier "$tier"
