#!/bin/bash
# Writes sim/unused.json: for each property, the translation units without any subject
# for it, that its check does not need to build; and sim/weights.json: the size of every object. Needs the objects of sim/build.sh in /tmp/ob.
here=$(cd "$(dirname "$0")/.." && pwd); t=$(mktemp -d); cd /tmp/ob
core=$(ls *.o | grep -v ^subjects_)
props=$(python3 -c "import sys; sys.path.insert(0,'$here'); from props import PROPS; print(*PROPS)")
for o in subjects_*.o; do
    g++ -no-pie $core $o -o $t/x -lpthread || exit 1
    for p in $props; do echo "$p ${o#subjects_} $($t/x list prop=$p | wc -l)"; done
done > $t/list
python3 - $t/list > $here/sim/unused.json <<'P'
import sys,json,collections
d=collections.defaultdict(list)
for l in open(sys.argv[1]):
    p,o,n=l.split()
    f=o[:-2]
    d[p]
    # their own checks explore these completely
    if n=='0' or (f.startswith(('x_cmp','x_radix')) and p not in ('C22','C23')) or (f.startswith('x_align') and p!='C28'): d[p].append(f)
print(json.dumps(d,indent=0))
P
python3 $here/tools/weights.py > $here/sim/weights.json
rm -r "$t"
