#!/bin/bash
# bash run.sh [repo] [go test args]: runs the demonstrations against repo (default /repo)
D=$(cd "$(dirname "$0")" && pwd); R=${1:-/repo}; shift
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
O=$(mktemp)
echo "{\"Replace\":{\"$R/memcache/defects_verif_test.go\":\"$D/defects_verif_test.go\",\"$R/memcache/stats/stats_defects_verif_test.go\":\"$D/stats_defects_verif_test.go\"}}" > $O
cd $R && go test -vet=off -overlay $O -run 'TestDefect' "$@" ./memcache ./memcache/stats
rc=$?; rm -f "$O"; exit $rc
