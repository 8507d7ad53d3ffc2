#!/bin/bash
# run.sh ID: decides the property ID on /repo's current working tree.
#   VERIF_SEED, VERIF_TIER=quick|thorough
# run.sh replay FILE: runs the case of a replay file again.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export VERIF_DIR=${VERIF_DIR:-$here}
id=$1
if [ "$id" = replay ]; then
	file=$(realpath "$2") || exit 2
	id=$(basename "$file" | cut -d- -f1)
fi
tmp=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
flags=
[ "$id" = C10 ] && flags=-race
(cd "$here/harness" && go build $flags -o "$tmp/harness" .) || exit 2
if [ "$id" = C23 ]; then
	export VERIF_DUMP=$tmp/dump
	(cd /repo && go build -o "$tmp/dump" ./_example/dump) || exit 2
fi
export TMPDIR=$tmp
if [ "$1" = replay ]; then
	"$tmp/harness" replay "$file"
else
	"$tmp/harness" run "$id"
fi
