#!/bin/bash
# trybug.sh ID [--full]: applies a planted bug to /repo, runs demo and its property's check, restores.
# --full also runs the repository's test suite.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
git -C /repo apply --check $d/patch.diff || exit 2
if [ "$2" = "--demo0" ] || [ "$2" = "--full" ]; then
  bash /opt/vp/build.sh >/tmp/tb.log 2>&1; (cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo0.log 2>&1); echo "$id demo unchanged: exit $?"
fi
git -C /repo apply $d/patch.diff
if bash /opt/vp/build.sh >/tmp/tb.log 2>&1; then
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo1.log 2>&1); echo "$id demo patched: exit $?"
  if [ "$2" = "--full" ]; then bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1; cmpb | tail -1; fi
else echo "$id BUILD FAILED"; tail -5 /tmp/tb.log; fi
(cd /verif && timeout 900 python3 check.py $prop 2>&1 | grep -E "VIOLATION|^OK|ERROR|^  " | cut -c1-250 | head -8)
git -C /repo checkout -- . 
