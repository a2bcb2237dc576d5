#!/bin/bash
# seedtest.sh IDs... : confirm planted bugs in scratch copies (build, stable tests, demo with and without)
# NOTEST=1 skips the tests
mk() { # dir
  mkdir -p $1 && (cd /repo && git archive HEAD | tar x -C $1) && cp -an /repo/lib/SDDS/*.a $1/lib/SDDS/ 2>/dev/null
  sed "s#/repo#$1#g" /opt/vp/build.sh > $1/.b.sh
  sed "s#/repo#$1#g; s#/opt/vp/build.sh#$1/.b.sh#g" /opt/vp/test.sh > $1/.t.sh
}
one() {
  id=$1; D=/verif/seeded/$id; S=/tmp/seed.$id
  rm -rf /tmp/seed.$id; mk $S
  (cd $S && git init -q . && git apply $D/patch.diff) || { echo "$id: patch does not apply"; return; }
  (cd $S && bash .b.sh) > /tmp/seed.$id.log 2>&1 || { echo "$id: does not build"; tail -5 /tmp/seed.$id.log; return; }
  C=$(mktemp -d); cp $D/* $C/; rm -f $C/*.diff $C/meta.json
  (cd $S && timeout 300 bash $C/demo.sh) > /tmp/seed.$id.bad 2>&1; bad=$?
  (cd /tmp/seed.clean && timeout 300 bash $C/demo.sh) > /tmp/seed.$id.good 2>&1; good=$?
  rm -rf $C
  t=skipped
  if [ -z "$NOTEST" ]; then
    OMP_NUM_THREADS=2 OMP_WAIT_POLICY=passive bash $S/.t.sh /tmp/seed.$id.json > /tmp/seed.$id.tlog 2>&1
    t=$(python3 - <<PY
import json
r=json.load(open('/tmp/seed.$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(r.get('passed',[])) if isinstance(r,dict) else set()
print('tests ok' if all(x in p for x in b) else 'TESTS FAIL '+str([x for x in b if x not in p]))
PY
)
  fi
  echo "$id: demo clean=$good patched=$bad, $t"
  rm -rf /tmp/seed.$id
}
export -f mk one
rm -rf /tmp/seed.clean; mk /tmp/seed.clean; (cd /tmp/seed.clean && bash .b.sh > /tmp/seed.clean.log 2>&1)
printf '%s\n' "$@" | xargs -P ${J:-4} -I{} bash -c 'one {}'
rm -rf /tmp/seed.clean
