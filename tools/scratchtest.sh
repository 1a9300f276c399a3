#!/bin/bash
# scratchtest.sh DIR OUT.json : builds and tests a scratch copy of the repository,
# exactly as /opt/vp/test.sh does for /repo.
. /opt/vp/env.sh
DIR=$(realpath "$1"); OUT=$(realpath -m "$2")
REP=$DIR/.reports; rm -rf "$REP"; mkdir -p "$REP"
(cd "$DIR" && pnpm --filter '!./docs' -r --workspace-concurrency=8 run build) >"$REP/build.log" 2>&1 || { echo "build failed"; tail -20 "$REP/build.log"; exit 1; }
run() {
  (cd "$2" && timeout -k 10 400 node --import=/opt/vp/fc-seed.mjs --test \
    --test-reporter=/opt/vp/reporter.mjs --test-reporter-destination="$REP/$1.lines" \
    --test-reporter=spec --test-reporter-destination="$REP/$1.txt" "${@:3}" < /dev/null) >/dev/null 2>&1
}
for d in "$DIR"/packages/*/; do
  n=$(basename "$d")
  case $n in man) run "$n" "$d" 'src/**/*.test.ts' ;; *) run "$n" "$d" ;; esac
done
run gitique "$DIR/examples/gitique" 'src/**/*.test.ts'
run root "$DIR" readme-imports.test.ts
python3 /opt/vp/results.py "$OUT" "lines:$REP/*.lines"
find "$DIR/packages/config/src" "$DIR/packages/run/src" -maxdepth 1 -type d -name 'test-configs*' -empty -delete
python3 - "$OUT" "$REP" <<'PY'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
key='passed' if isinstance(b,dict) and 'passed' in b else None
base=set(b[key] if key else (b if isinstance(b,list) else b.get('stable',[])))
import os
p=set(x.replace(os.path.relpath(os.path.dirname(sys.argv[2]),'/repo')+'/','') for x in o['passed'])
miss=sorted(base-p)
print(f"baseline {len(base)} passed {len(p)} missing {len(miss)}")
for m in miss[:20]: print("MISSING",m)
PY
