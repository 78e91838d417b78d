#!/bin/bash
# Builds and runs main.go, which lies beside this script, against the tree in the current
# directory. A fastrand.go beside it stands in for the random source.
d=$(cd "$(dirname "$0")" && pwd) || exit 2
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
cp "$d/main.go" "$w/" || exit 2
{
	echo "module demo"
	echo "go 1.22"
	echo "require github.com/zhangyunhao116/skipmap v0.0.0"
	echo "require github.com/zhangyunhao116/fastrand v0.3.0"
	echo "replace github.com/zhangyunhao116/skipmap => $PWD"
} >"$w/go.mod"
cp "$PWD/go.sum" "$w/"
if [ -f "$d/fastrand.go" ]; then
	mkdir "$w/fastrand"
	cp "$d/fastrand.go" "$w/fastrand/"
	echo "module github.com/zhangyunhao116/fastrand" >"$w/fastrand/go.mod"
	echo "replace github.com/zhangyunhao116/fastrand => $w/fastrand" >>"$w/go.mod"
fi
cd "$w" || exit 2
flags=
[ -f "$d/race" ] && flags=-race && export GORACE=halt_on_error=1
[ -f "$d/386" ] && export GOARCH=386 CGO_ENABLED=0
timeout 250 go run $flags .
