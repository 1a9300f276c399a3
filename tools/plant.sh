#!/bin/bash
# plant.sh ID [CHECK...]: takes the change in the working tree of the scratch copy as planted bug ID: builds it there, runs the tests,
# its demonstration and the named checks (default: the property in meta.json), and keeps the patch.
S=/tmp/scratch/repo; D=/verif/seeded/$1; shift
[ -f "$D/demo.sh" ] || printf '#!/bin/bash\nexec node "$(dirname "$0")/demo.mjs"\n' > "$D/demo.sh"; chmod +x "$D/demo.sh"
git -C $S diff -U25 > "$D/patch.diff"; [ -s "$D/patch.diff" ] || { echo "no change"; exit 1; }
P=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
for c in ${@:-$P}; do (cd /verif && OPTIQUE_ROOT=$S ./check $c 2>&1 | grep -v "^case:\|^VIOL" | cut -c1-400 | grep -v KNOWN | head -6); done
/verif/tools/scratchtest.sh $S /tmp/plant.json
(cd $S && "$D/demo.sh" > /tmp/demo.out 2>&1); echo "demo with the patch: $? (wanted: not 0)"; tail -3 /tmp/demo.out
git -C $S checkout -q -- .
