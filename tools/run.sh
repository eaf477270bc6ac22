#!/bin/sh
# Builds the analyser and runs one check: tools/run.sh <property>
# With --build it only builds.
cd "$(dirname "$0")/.." || exit 3
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
mkdir -p bin
(cd analyzer && go build -o ../bin/hgverify .) || exit 3
[ "$1" = --build ] && exit 0
exec bin/hgverify check "$1"
