#!/bin/bash
# fx.sh "message": build, test, commit
cd /repo
bash /opt/vp/build.sh >/tmp/fx.b 2>&1 || { tail -20 /tmp/fx.b; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/fx.json >/tmp/fx.t 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/fx.json'))
def names(d):
    for k in ('passed','pass','stable','tests'):
        if isinstance(d,dict) and k in d: return d[k]
    return d
bp=set(names(b)); rp=names(r); rp=set(rp) if not isinstance(rp,dict) else {k for k,v in rp.items() if v in('pass',True,'passed')}
lost=bp-rp
print("baseline",len(bp),"now",len(rp),"lost",sorted(lost), "new", sorted(rp-bp))
sys.exit(1 if lost else 0)
P
[ $? = 0 ] || { echo TESTS LOST; exit 1; }
[ -n "$1" ] && git commit -qam "fix: $1" && git log --oneline | head -1
exit 0
