#!/bin/bash
# mkseed.sh ID PROPERTY PKG NEEDS BREAKS: stores /repo's uncommitted change as a planted bug (and undoes it);
# the demonstration is read from stdin.
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$1; mkdir -p "$S"
git -C /repo diff > "$S/patch.diff"; git -C /repo checkout -q -- .
[ -s "$S/patch.diff" ] || { echo "no change"; exit 1; }
sed "s#@PKG@#$3#" "$V/tools/demo.sh.in" > "$S/demo.sh"; chmod +x "$S/demo.sh"
cat > "$S/demo_test.go"
python3 - "$S/meta.json" "$2" "$4" "$5" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
PY
