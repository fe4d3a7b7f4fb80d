#!/bin/bash
# tools_seed.sh ID [check ids...]: try a planted bug in a scratch copy of /repo; prints what build, tests, demo and checks say
id=$1; shift
S=/verif/seeded/$id
W=$(mktemp -d /tmp/seed-XXXXXX)
cp -a /repo $W/repo
cd $W/repo && git checkout -q . && git apply $S/patch.diff || { echo "$id: patch does not apply"; rm -rf "$W"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
# build a package of the patched tree outside /repo
python3 - "$W" <<'P'
import sys
sys.path.insert(0, '/verif')
from symx import build
build.wait_native(build.start_native(sys.argv[1] + '/repo', sys.argv[1] + '/pkg'))
P
[ -f $W/pkg/sacf/correlator.pypy39-pp73-x86_64-linux-gnu.so ] || echo "$id: BUILD FAILED"
for m in correlator datastructure; do cp $W/pkg/sacf/$m.pypy39-pp73-x86_64-linux-gnu.so $W/repo/sacf/; done
t=$(PYTHONPATH=$W/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv-pypy/bin/python -m pytest -q -p no:cacheprovider $W/repo/tests 2>&1 | tail -1)
mkdir $W/demo && cp $S/* $W/demo/ && rm -f $W/demo/patch.diff $W/demo/meta.json
(cd $W/repo && timeout 300 bash $W/demo/demo.sh >$W/demo.out 2>&1); d=$?
(cd /repo && timeout 300 bash $W/demo/demo.sh >$W/demo0.out 2>&1); d0=$?
echo "$id ($prop): tests: $t | demo clean $d0 patched $d"
[ $d0 = 0 ] || tail -3 $W/demo0.out
for c in ${*:-$prop}; do
  r=$(cd /verif && SACF_REPO=$W/repo SYMX_EVIDENCE=$W/ev ./check $c 2>&1); e=$?
  echo "   $c exit $e: $(echo "$r" | grep -E 'VIOLATION|ERROR|scenario|real build|^C[0-9]+ ' | cut -c1-220 | tr '\n' '|')"
done
rm -rf "$W"
