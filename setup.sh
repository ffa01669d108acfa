#!/bin/bash
# Warms the build cache; every check builds the harness from /repo's working tree itself.
set -e
here=$(cd "$(dirname "$0")" && pwd)
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
bin=$(mktemp -d); trap 'rm -rf "$bin"' EXIT
cp "$here/harness/go.mod" "$bin/x.mod"; cp "$here/harness/go.sum" "$bin/x.sum"
cd "$here/harness"
go build -modfile="$bin/x.mod" -o "$bin/xcheck" .
"$bin/xcheck" -list
