#!/bin/bash
# run.sh ID [race]: builds the monitors against /repo's working tree in a scratch directory and runs the check of property ID.
# run.sh replay FILE: repeats the failing case recorded in FILE.
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
ID=$1
if [ "$ID" = replay ]; then
	FILE=$(realpath "$2") || exit 2
	ID=$(sed -n 's/^ *"property": "\(.*\)",$/\1/p' "$FILE" | head -1)
fi
SCRATCH=$(mktemp -d /tmp/vmon.XXXXXXXX) || exit 2
trap 'chmod -R u+w "$SCRATCH" 2>/dev/null; rm -rf "$SCRATCH"' EXIT
RACE=
case "$ID" in C18|C19|C20) RACE=-race ;; esac
mkdir "$SCRATCH/harness" "$SCRATCH/run"
cp "$VERIF"/harness/*.go "$VERIF/harness/go.mod" "$VERIF/harness/go.sum" "$SCRATCH/harness/" || exit 2
if ! (cd "$SCRATCH/harness" && go build $RACE -o "$SCRATCH/vmon" .) >"$SCRATCH/build.log" 2>&1; then
	echo "$ID: no answer: the monitors do not build against /repo" >&2
	cat "$SCRATCH/build.log" >&2
	exit 2
fi
export VMON_VERIF="$VERIF" VMON_REPO=/repo VMON_SCRATCH="$SCRATCH/run" VMON_HARNESS="$SCRATCH/harness"
if [ "$1" = replay ]; then
	"$SCRATCH/vmon" replay "$FILE"
else
	"$SCRATCH/vmon" check -prop "$ID" -scratch "$SCRATCH/run"
fi
