#!/bin/bash
# usage: fix.sh "message"  -- test then commit in /repo
cd /repo && gofmt -l $(git diff --name-only | grep go$) && bash /opt/vp/build.sh >/tmp/fix.log 2>&1 || { tail -20 /tmp/fix.log; exit 1; }
bash /opt/vp/test.sh /tmp/fix.json >/tmp/fix.log 2>&1
python3 - <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/fix.json'))['passed'])
m=b-o
if m: print("FAILED TESTS",sorted(m)[:20]); sys.exit(1)
P
git commit -qam "fix: $1" && git log --oneline | head -1
