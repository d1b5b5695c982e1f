#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")/.."
if [ ! -x bin/wwrstatic ] || [ -n "$(find tool -name '*.go' -newer bin/wwrstatic -print -quit)" ]; then
	bash scripts/build.sh || exit 2
fi
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
WWR_VERIF="$PWD" exec ./bin/wwrstatic "$1" "$2"
