#!/bin/bash
# all harnesses of the given contracts in parallel, short output
cd /verif
for c in "$@"; do
  (cd engine && python3-vt -c "import extract,sys;print(extract.module(sys.argv[1])[0])" $c) > /tmp/dball.$c 2>&1 || { grep -a "error:" -A3 /tmp/dball.$c | head -30; continue; }
  grep -oP '^\s*CONTRACT\(\K\w+' contracts/$c.cpp | grep -E "${H:-.}" | xargs -P ${J:-6} -I{} sh -c "T=${T:-200} tools/dbg.sh $c {} > /tmp/dball.$c.{} 2>&1"
  for h in $(grep -oP '^\s*CONTRACT\(\K\w+' contracts/$c.cpp | grep -E "${H:-.}"); do echo "== $c $h"; cut -c1-${W:-300} /tmp/dball.$c.$h | grep -v "^notes \[\]\|^slowest\|^covers.*reachable'}\]$" | head -${L:-12}; done
done
