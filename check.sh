#!/bin/bash
# check.sh PROP: rebuilds the check program from /repo's working tree and runs
# the check of one property. VERIF_SEED and VERIF_TIER (quick, thorough)
# select the cases.
cd "$(dirname "$0")" || exit 2
prop=$1
mkdir -p .build evidence || exit 2
bin=$PWD/.build/check
flags=
case $prop in
C20) bin=$PWD/.build/check-race; flags=-race ;;
esac
(
	flock 9 || exit 2
	harness/build.sh "$bin.new" $flags && mv "$bin.new" "$bin"
) 9>.build/lock >&2 || { echo "check.sh: the harness does not build" >&2; exit 2; }
# A thorough check runs the quick cases on a 32-bit build first: the library
# has int and shift counts of another size there. (The race detector is for
# 64 bits only, C25 compares times.)
case $VERIF_TIER-$prop in
thorough-C20|thorough-C25) ;;
thorough-*)
	bin32=$PWD/.build/check32
	(
		flock 9 || exit 2
		GOARCH=386 harness/build.sh "$bin32.new" && mv "$bin32.new" "$bin32"
	) 9>.build/lock >&2 || { echo "check.sh: the harness does not build for 32 bits" >&2; exit 2; }
	d=$PWD/.build/dir32
	mkdir -p "$d/evidence"
	echo "32 bits:"
	"$bin32" >/dev/null 2>&1
	if [ $? = 126 ]; then
		echo "32-bit programs do not run here"
	else
		VERIF_DIR=$d VERIF_TIER=quick "$bin32" run "$prop" || exit
	fi
	;;
esac
exec "$bin" run "$prop"
