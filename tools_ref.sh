#!/bin/bash
# tools_ref.sh PATCH [check ids...]: run the checks on a behaviour-preserving edit in a scratch copy of /repo
p=$1; shift
W=$(mktemp -d /tmp/ref-XXXXXX)
cp -a /repo $W/repo
cd $W/repo && git checkout -q . && git apply $p || { echo "$p: does not apply"; rm -rf "$W"; exit 2; }
python3 - "$W" <<'P'
import sys
sys.path.insert(0, '/verif')
from symx import build
build.wait_native(build.start_native(sys.argv[1] + '/repo', sys.argv[1] + '/pkg'))
P
for m in correlator datastructure; do cp $W/pkg/sacf/$m.pypy39-pp73-x86_64-linux-gnu.so $W/repo/sacf/ || echo BUILD FAILED; done
t=$(PYTHONPATH=$W/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv-pypy/bin/python -m pytest -q -p no:cacheprovider $W/repo/tests 2>&1 | tail -1)
echo "$(basename $p): tests: $t"
for c in ${*:-$(seq -f C%02g 1 23)}; do
  s=$(date +%s); r=$(cd ${VDIR:-/verif} && SACF_REPO=$W/repo SYMX_EVIDENCE=$W/ev timeout 900 ./check $c 2>&1); e=$?
  [ $e = 0 ] && echo "   $c ok $(($(date +%s)-s)) s" || echo "   $c exit $e $(($(date +%s)-s)) s: $(echo "$r" | grep -E 'VIOLATION|ERROR|Error|scenario|real build|^C[0-9]+ ' | cut -c1-400 | tr '\n' '|')"
done
rm -rf "$W"
