#!/bin/bash
# usage: mkseed.sh NAME FILE 'python replace old' 'new'   (reads /repo, writes patch into seeded/NAME; /repo restored)
set -e
name=$1; file=$2; old=$3; new=$4
d=/verif/seeded/$name; mkdir -p $d
python3 - "$file" "$old" "$new" <<'P'
import sys
f,o,n=sys.argv[1:4]
p='/repo/'+f
s=open(p).read()
o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
assert s.count(o)>=1,('not found',o)
if s.count(o)>1: print('warning: %d matches, first replaced'%s.count(o))
open(p,'w').write(s.replace(o,n,1))
P
git -C /repo diff > $d/patch.diff
bash /opt/vp/build.sh >/tmp/w/b.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/w/b.log; }
bash /opt/vp/test.sh /tmp/w/o.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/w/o.json'));print(json.dumps(d)[:300])"
set +e
(cd /repo; timeout 300 bash $d/demo.sh >/tmp/w/demo.log 2>&1; echo "demo with patch: exit $? (want nonzero)"; tail -3 /tmp/w/demo.log)
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/w/b.log 2>&1
(cd /repo; timeout 300 bash $d/demo.sh >/tmp/w/demo.log 2>&1; echo "demo clean: exit $? (want 0)"; tail -3 /tmp/w/demo.log)
