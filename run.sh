#!/bin/bash
# run.sh <property> [quick|thorough]: build the analyzer if needed, then decide
# the property on /repo's current source.
cd "$(dirname "$0")" || exit 1
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local
repo=${VERIF_REPO:-/repo}
if [ "$id" = build ]; then
	cd analyzer && exec go build -o ../bin/sqlvet .
fi
stale=1
if [ -x bin/sqlvet ] && [ -z "$(find analyzer -newer bin/sqlvet -name '*.go' -print -quit)" ]; then
	stale=0
fi
if [ $stale = 1 ]; then
	mkdir -p bin
	if ! (cd analyzer && go build -o ../bin/sqlvet.$$ .) || ! mv bin/sqlvet.$$ bin/sqlvet; then
		echo "the analyzer does not build"
		echo "VIOLATION property=$id replay=none"
		exit 1
	fi
fi
unset GOFLAGS
export GOMEMLIMIT=${GOMEMLIMIT:-12GiB}
timeout -k 5 840 bin/sqlvet -repo "$repo" -verif "$PWD" -check "$id" -tier "$tier"
rc=$?
if [ $rc != 0 ] && [ $rc != 1 ]; then
	echo "the analyzer ended with status $rc"
	echo "VIOLATION property=$id replay=none"
	rc=1
fi
exit $rc
