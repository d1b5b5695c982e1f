#!/bin/bash
# Applies a large behaviour-preserving rewrite (scripts/trees/NAME.patch) to a
# scratch copy of the repository and runs checks on it, which must stay quiet.
# usage: trees.sh NAME [CHECK...]
here=$(cd "$(dirname "$0")/.." && pwd)
name=$1; shift
d=$(mktemp -d) && trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo" && patch -s -d "$d/repo" -p1 < "$here/scripts/trees/$name.patch" || exit 2
mkdir "$d/v"
for i in ${@:-$(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('$here/MANIFEST.json'))['checks']])")}; do
	WWR_REPO="$d/repo" WWR_VERIF="$d/v" timeout 900 "$here/bin/wwrstatic" "$i" | tail -1
done
