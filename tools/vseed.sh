#!/bin/bash
# tools/vseed.sh <seed ids>: confirm planted bugs in a scratch copy shown at /repo in a private mount namespace:
# demo passes before and fails after, repository tests still pass.
scr=/tmp/vseed_repo
for id in "$@"; do
  mkdir -p $scr
  rsync -a --delete /repo/ $scr/ 2>/dev/null || { rm -rf /tmp/vseed_repo; cp -a /repo $scr; }
  git -C $scr checkout -q -f HEAD -- .
  cp -r /verif/seeded/$id /tmp/vseed_$id.d
  unshare -Urm bash -c "mount --bind $scr /repo && cd /repo && bash /opt/vp/build.sh >/tmp/vs_b0.log 2>&1
    bash /tmp/vseed_$id.d/demo.sh >/tmp/vs_d0.log 2>&1; d0=\$?
    git apply /tmp/vseed_$id.d/patch.diff || exit 9; bash /opt/vp/build.sh >/tmp/vs_b1.log 2>&1
    bash /opt/vp/test.sh /tmp/vs_out.json >/tmp/vs_t.log 2>&1; t=\$?
    bash /tmp/vseed_$id.d/demo.sh >/tmp/vs_d1.log 2>&1; d1=\$?
    python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/vs_out.json'))
x=sorted(set(b['stable'])-set(o['passed']))
ok=\$d0==0 and \$d1!=0 and not x
print('$id', 'COUNTS' if ok else 'NO', 'demo', \$d0, \$d1, 'lost', len(x), x[:3])
P" | tee -a /tmp/vseed.log
  rm -rf /tmp/vseed_$id.d
done
