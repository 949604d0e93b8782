#!/bin/bash
# usage: run.sh [repository]   runs the demonstrations of the repaired defects
here="$(cd "$(dirname "$0")" && pwd)"; repo="${1:-/repo}"
. /opt/vp/env.sh
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_findings_test.go":"%s/findings_test.go.txt"}}' "$repo" "$here" > "$tmp/o.json"
cd "$repo" && go test -overlay "$tmp/o.json" -run '^TestF[0-9]' -count=1 -timeout 60s .
