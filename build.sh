#!/bin/bash
# Builds the analyser (if its sources changed since the last build) and prints
# the path of the binary. Never touches /repo.
here=$(cd "$(dirname "$0")" && pwd)
sum=$(cat "$here"/dexlint/*.go "$here"/dexlint/go.mod "$here"/dexlint/go.sum "$here"/dexlint/meta.json | sha256sum | cut -c1-16)
bin="$here/bin/dexlint-$sum"
if [ ! -x "$bin" ]; then
	mkdir -p "$here/bin"
	(
		cd "$here/dexlint" || exit 1
		export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
		export GOROOT=/opt/veriftools/go1.26.10 GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
		/opt/veriftools/go1.26.10/bin/go build -o "$bin.$$" . && mv "$bin.$$" "$bin"
	) >&2 || exit 1
	for f in "$here"/bin/dexlint-*; do
		[ "$f" = "$bin" ] || rm -f "$f"
	done
fi
echo "$bin"
