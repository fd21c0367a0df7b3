#!/bin/bash
# check.sh ID [quick|thorough] [harness flags]: builds the harness with /repo's
# current working tree (tag verif) and decides property ID.
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
V=$(cd "$(dirname "$0")" && pwd)
. "$V/harness/env.sh"
SEED=${VERIF_SEED:-1}
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE=$(mktemp -d /tmp/verif-gocache.XXXXXX)
WORK=$(mktemp -d /tmp/verif-$ID.XXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
trap 'exit 2' INT TERM
mkdir -p "$V/evidence/replays"
# the module file is copied so that a build never rewrites committed files
cp "$V/harness/go.mod" "$WORK/go.mod"; cp "$V/harness/go.sum" "$WORK/go.sum"
FLAGS="-tags verif -modfile=$WORK/go.mod"
case $ID in
C22)	# the data base of onet (bbolt) does not pass the pointer checks that come with -race
	FLAGS="$FLAGS -race -gcflags=all=-d=checkptr=0" ;;
C17)	# differential privacy is a constant: build with it switched on
	F=$(grep -rlE '^(const|var)?[[:space:]]*DIFFPRI[[:space:]]*(bool)?[[:space:]]*=[[:space:]]*false' /repo/lib --include=*.go | head -1)
	if [ -n "$F" ]; then
		sed -E 's/^((const|var)?[[:space:]]*DIFFPRI[[:space:]]*(bool)?[[:space:]]*=[[:space:]]*)false/\1true/' "$F" > "$WORK/diffpri.go"
		echo "{\"Replace\": {\"$F\": \"$WORK/diffpri.go\"}}" > "$WORK/overlay.json"
		FLAGS="$FLAGS -overlay $WORK/overlay.json"
	fi ;;
esac
cd "$V/harness" || exit 2
if ! go build $FLAGS -o "$WORK/harness" . > "$WORK/build.log" 2>&1; then
	cat "$WORK/build.log"; echo "build failed"; exit 2
fi
case $ID in
C19) (cd /repo && go build -o "$WORK/unlynx" ./cmd/unlynx) || { echo "build failed"; exit 2; }
	export UNLYNX_BIN=$WORK/unlynx ;;
esac
mkdir -p "$WORK/scratch"; export TMPDIR=$WORK/scratch
cd "$WORK/scratch" || exit 2
"$WORK/harness" run "$ID" -tier "$TIER" -seed "$SEED" -evidence "$V/evidence/$ID.json" -replays "$V/evidence/replays" -known "$V/KNOWN_FINDINGS" -dir "$WORK/scratch" "$@" 2> "$WORK/err.log"
RC=$?
[ $RC -gt 1 ] && tail -20 "$WORK/err.log"
exit $RC
