#!/bin/bash
# check.sh <ID> quick|thorough          decide one property on /repo's working tree
# check.sh <ID> replay <file>           run one recorded case again
# exit 0: held, 1: violated (with a VIOLATION line), 2: no answer (build or machinery failure)
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property}; tier=${2:-quick}; file=${3:-}
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
if [ ! -w "${GOCACHE:-/root/.cache/go-build}" ]; then export GOCACHE=$(mktemp -d); fi
bin=$(mktemp -d "${TMPDIR:-/tmp}/xcheck-build-XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
race=
[ "$id" = C23 ] && race=-race
# the go.mod of the harness is copied, so that a build never changes committed files
cp "$here/harness/go.mod" "$bin/x.mod" && cp "$here/harness/go.sum" "$bin/x.sum" || exit 2
cd "$here/harness" || exit 2
if ! go build $race -modfile="$bin/x.mod" -o "$bin/xcheck" . >"$bin/build.log" 2>&1; then
	echo "ERROR: build failed" >&2; head -50 "$bin/build.log" >&2; exit 2
fi
if [ "$id" = C29 ]; then
	mkdir "$bin/cmd"
	for c in xpdf describe image; do
		if ! (cd /repo && go build -o "$bin/cmd/$c" ./cmd/$c) >"$bin/build.log" 2>&1; then
			echo "ERROR: build of cmd/$c failed" >&2; head -50 "$bin/build.log" >&2; exit 2
		fi
	done
	export XPDF_CMDS="$bin/cmd"
fi
seed=${VERIF_SEED:-1}
case "$seed" in ''|*[!0-9-]*) seed=1;; esac
if [ "$tier" = replay ]; then
	case "$file" in /*) ;; *) file="$OLDPWD/$file";; esac
	"$bin/xcheck" -prop "$id" -verif "$here" -replay "$file"
else
	"$bin/xcheck" -prop "$id" -tier "$tier" -seed "$seed" -verif "$here" ${XCHECK_FLAGS:-}
fi
rc=$?
exit $rc
