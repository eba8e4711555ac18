#!/bin/bash
# usage: check.sh quick|thorough ID...
# Builds the analyser from /verif/analyzer and analyses the current source in /repo.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
tier=$1; shift
mkdir -p bin evidence
bin="bin/analyzer.$$"
trap 'rm -f "$PWD/$bin"' EXIT
(cd analyzer && go build -o "../$bin" .) || { echo "analyser does not build"; exit 2; }
"./$bin" -repo /repo -out "$PWD" -tier "$tier" "$@"
