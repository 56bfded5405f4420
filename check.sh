#!/bin/bash
# usage: check.sh <property>...
# Builds the analyser from /verif/checker and decides the properties from the
# current source in /repo.
home=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$home/bin"
(cd "$home/checker" && go build -o "$home/bin/chk.$$" . && mv "$home/bin/chk.$$" "$home/bin/chk") || { echo "the analyser does not build"; exit 2; }
VERIF_HOME="$home" exec "$home/bin/chk" "$@"
