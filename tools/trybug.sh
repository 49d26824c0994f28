#!/bin/bash
# trybug.sh PATCH PROP [check options]: run a check against a scratch copy of /repo with PATCH applied ("-R PATCH" reverts)
V=$(dirname "$(dirname "$(readlink -f "$0")")")
R=""; if [ "$1" = -R ]; then R=-R; shift; fi
P=$(readlink -f "$1"); shift
D=$(mktemp -d /tmp/bug.XXXXXX)
mkdir "$D/repo" && cp -a "${TRYBUG_BASE:-/repo}/gym_anm" "$D/repo/" && cd "$D/repo" && git init -q . && git apply $R "$P" || { echo "patch failed"; exit 3; }
cd "$V" && for prop in $1; do GYM_ANM_REPO="$D/repo" ./check $prop "${@:2}" | cut -c1-${COLS:-600}; done
[ -n "$D" ] && [ "${D#/tmp/bug.}" != "$D" ] && rm -rf "$D"
