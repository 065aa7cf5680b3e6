#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# Builds the checker and runs it for one property against /repo's working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="$PATH:/usr/local/go/bin"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
work="$(mktemp -d /tmp/verif-check.XXXXXX)"
trap 'rm -rf "$work"' EXIT
cp -r "$here/engine" "$work/engine" || exit 2
(cd "$work/engine" && go build -o "$work/gosym" .) || { echo "cannot build the checker" >&2; exit 2; }
TMPDIR="$work" "$work/gosym" -repo "${VERIF_REPO:-/repo}" -verif "$here" -property "$1" -tier "${2:-quick}"
