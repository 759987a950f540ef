#!/bin/bash
# bugrun.sh [-R] PATCH PROP...: runs the checks of the properties against a
# scratch copy of /repo with the patch applied (-R: reversed). With the
# environment BASE=1 it also runs the stable tests on that copy.
rev=
[ "$1" = -R ] && { rev=-R; shift; }
patch=$(realpath "$1"); shift
w=$(mktemp -d /tmp/bugrun.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir $w/repo $w/verif
git -C /repo archive HEAD | tar -x -C $w/repo
(cd $w/repo && git init -q . && git apply $rev "$patch") || { echo "patch does not apply"; exit 3; }
cp -a /verif/harness /verif/check.sh $w/verif/
sed -i "s,=> /repo,=> $w/repo," $w/verif/harness/go.mod
if [ -n "$BASE" ]; then
	. /opt/vp/env.sh
	(cd $w/repo && go build ./... && go test ./... 2>&1 | tail -4)
fi
for p in "$@"; do
	out=$(VERIF_DIR=$w/verif timeout 900 $w/verif/check.sh $p 2>&1)
	rc=$?
	echo "== $(basename $(dirname "$patch"))/$(basename "$patch") $p rc=$rc"
	[ $rc = 0 ] || echo "$out" | cut -c1-400 | head -${LINES_MAX:-4}
done
