#!/bin/bash
# check.sh ID TIER: decide one property from /repo's current source.
# exit 0: holds; exit 1 and a VIOLATION line: broken or undecided.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
rep="$here/evidence/$id.report.txt"
mkdir -p "$here/evidence"
fail() {
	echo "$1" | tee "$rep"
	echo "VIOLATION property=$id replay=$rep"
	exit 1
}
bin=$("$here/build.sh") || fail "the analyser could not be built"
. /opt/vp/env.sh || fail "no build environment"
cd "$here" || exit 2
out=$(mktemp)
timeout 600 "$bin" check "$id" "$tier" "$here/evidence/$id.json" "$rep" "$here/known_findings.txt" >"$out" 2>&1
rc=$?
cat "$out"
rm -f "$out"
case $rc in
0 | 1) exit $rc ;;
*) fail "the analyser ended with status $rc" ;;
esac
