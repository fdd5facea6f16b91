#!/bin/bash
# exit 0: the property holds; run with the repository as working directory
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
t="$(mktemp -d)" || exit 3
trap '/bin/rm -rf "$t"' EXIT
{
  printf '{"Replace": {'
  sep=
  for f in "$here"/*.go; do
    printf '%s"%s": "%s"' "$sep" "$PWD/zzdemo/$(basename "$f")" "$f"
    sep=', '
  done
  printf '}}'
} > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./zzdemo || exit 3
mkdir "$t/work" && cd "$t/work" && DEMO_DIR="$t/work" timeout 120 "$t/demo"
