#!/bin/bash
# Runs checks on behaviour-preserving variants of the repository's files:
#   tools/variants.sh [NAME-PREFIX [CHECK...]]
# Each folder variants/NAME holds the files it replaces, and "checks", the
# checks that concern it. Every check has to stay quiet.
here=$(cd "$(dirname "$0")/.." && pwd)
. <(grep ^export /opt/vp/build.sh)
bin=${HG:-$here/bin/hgverify}
pre=$1; shift
one() {
	v=$1; shift
	n=$(basename "$v")
	d=$(mktemp -d /tmp/variant.XXXXXX)
	cp -a /repo/. "$d/r"
	cp -r "$v"/. "$d/r/"; rm -f "$d/r/checks"
	if ! (cd "$d/r" && go vet ./... && go test ./... ) >"$d/log" 2>&1; then
		echo "$n: does not build or pass the tests"; tail -5 "$d/log"
	fi
	cs="$*"; [ -z "$cs" ] && cs=$(cat "$v/checks")
	for c in $cs; do
		mkdir -p "$d/$c"
		HG_REPO=$d/r HG_VERIF=$d/$c timeout 900 "$bin" check "$c" >"$d/out" 2>&1
		rc=$?
		if [ $rc = 0 ]; then echo "$n $c: quiet ($(grep -o '([0-9.]*s)' "$d/out"))"; else echo "$n $c: ALARM rc=$rc"; cut -c1-500 "$d/out" | head -4; fi
	done
	rm -rf "$d"
}
export -f one; export bin
ls -d "$here"/variants/"$pre"* | xargs -P "${J:-6}" -I{} bash -c 'one "$@"' _ {} "$@"
