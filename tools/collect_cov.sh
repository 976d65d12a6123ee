#!/bin/bash
# collect_cov.sh DIR: run every quick check once, recording the package lines each executes; DIR/cov.json is the input of mutate.py
d=$(realpath -m "$1"); mkdir -p "$d/c"; cd "$(dirname "$0")/.."
for p in $(python3 -c "import json;[print(c['property']) for c in json.load(open('MANIFEST.json'))['checks']]" 2>/dev/null || ls vf/props | sed -n 's/^\([a-z][0-9][0-9]\)\.py/\U\1/p'); do
  [ $p = M01 ] && continue
  VF_COV=$d/c/$p.json ./run $p > "$d/c/$p.log" 2>&1 || echo "$p rc $?"
done
python3 -c "
import json,glob,os,sys
o={os.path.basename(f)[:-5]:json.load(open(f)) for f in glob.glob('$d/c/*.json')}
json.dump(o,open('$d/cov.json','w')); print(len(o))"
