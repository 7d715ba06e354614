#!/bin/bash
# bash check.sh <id> : builds the check of the property against /repo's
# working tree and runs it
set -u
ID=$1
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT
: "${VERIF_SEED:=1}" "${VERIF_TIER:=quick}"
export VERIF_SEED VERIF_TIER
cd "$ROOT/harness" || exit 7
. ./env.sh
D=$(echo "$ID" | tr A-Z a-z)
OUT=$ROOT/.build
mkdir -p "$OUT"
ARGS=()
if [ ! -e /repo/go.mod ]; then # git ignores it there
	printf 'module github.com/skycoin/cxo\n\ngo 1.23\n' > "$OUT/repo.mod"
	printf '{"Replace":{"/repo/go.mod":"%s/repo.mod"}}' "$OUT" > "$OUT/overlay.json"
	ARGS+=(-overlay "$OUT/overlay.json")
fi
if [ -e "cmd/$D/RACE" ]; then
	export CGO_ENABLED=1
	# boltdb 1.3.1 predates checkptr
	ARGS+=(-race -gcflags=all=-d=checkptr=0)
else
	export CGO_ENABLED=0
fi
# the build must not touch the committed files
cp go.mod "$OUT/$D.mod"; cp go.sum "$OUT/$D.sum"
sed -i "s#\.\./shims#$ROOT/shims#" "$OUT/$D.mod"
if ! go build "${ARGS[@]}" -modfile "$OUT/$D.mod" -o "$OUT/$D" "./cmd/$D" 2> "$OUT/$D.err"; then
	cat "$OUT/$D.err" >&2
	echo "$ID: the harness does not build against /repo" >&2
	exit 8
fi
if [ -e "cmd/$D/TOOLS" ]; then # programs that the check runs
	while read -r P; do
		if ! go build "${ARGS[@]}" -modfile "$OUT/$D.mod" -o "$OUT/${P##*/}" "$P" 2> "$OUT/$D.err"; then
			cat "$OUT/$D.err" >&2
			echo "$ID: $P does not build" >&2
			exit 8
		fi
	done < "cmd/$D/TOOLS"
fi
if [ -e "cmd/$D/RACETOOLS" ]; then # the same, with the race detector
	while read -r P; do
		if ! CGO_ENABLED=1 go build "${ARGS[@]}" -race -gcflags=all=-d=checkptr=0 -modfile "$OUT/$D.mod" -o "$OUT/race-${P##*/}" "$P" 2> "$OUT/$D.err"; then
			cat "$OUT/$D.err" >&2
			echo "$ID: $P does not build" >&2
			exit 8
		fi
	done < "cmd/$D/RACETOOLS"
fi
[ -n "${BUILD_ONLY:-}" ] && exit 0
exec "$OUT/$D"
