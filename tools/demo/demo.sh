#!/bin/bash
# Runs the demonstration in this folder against the package in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
pkg=$(cat "$here/pkg" 2>/dev/null || echo memcache)
ov=$(mktemp)
{
	echo '{"Replace":{'
	sep=
	for f in "$here"/*_test.go; do
		echo "$sep\"$PWD/$pkg/$(basename "$f")\":\"$f\""
		sep=,
	done
	echo '}}'
} > "$ov"
go test $(cat "$here/flags" 2>/dev/null) -vet=off -count=1 -timeout 120s -overlay "$ov" -run '^TestZZ' "./$pkg"
