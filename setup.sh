#!/bin/bash
# Checks that the checker builds offline (each check builds its own copy).
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
work="$(mktemp -d /tmp/verif-setup.XXXXXX)"
trap 'rm -rf "$work"' EXIT
cp -r "$here/engine" "$work/engine"
(cd "$work/engine" && go build -o "$work/gosym" .)
z3 --version
