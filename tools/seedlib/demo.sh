#!/bin/bash
# run with cwd = the repository; exit 0: behaves as it should, 1: broken
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
{
	printf '{"Replace":{'
	S=
	for f in "$D"/*.go; do
		printf '%s"%s/zzdemo/%s":"%s"' "$S" "$R" "$(basename "$f")" "$f"
		S=,
	done
	printf '}}'
} >"$T/overlay.json"
go build $DEMO_FLAGS -buildvcs=false -overlay "$T/overlay.json" -o "$T/demo" ./zzdemo || exit 3
cd "$T" && REPO=$R DEMO=$D timeout 120 ./demo
