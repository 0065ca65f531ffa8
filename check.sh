#!/bin/bash
# check.sh ID...: decide properties on /repo's current source
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
if [ "$1" = build ] || [ ! -x bin/sa ] || [ -n "$(find sa -newer bin/sa -print -quit)" ]; then
	mkdir -p bin && (cd sa && go build -o ../bin/sa.$$ . ) && mv -f bin/sa.$$ bin/sa || exit 2
fi
[ "$1" = build ] && exit 0
exec bin/sa check "$@"
