#!/bin/bash
# Run the stable tests of /repo and list baseline tests that did not pass.
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/test-out.json > /tmp/test.log 2>&1
python3 - <<'P'
import json
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/test-out.json'))
stable = b.get('stable') or b.get('passed') or b
passed = set(o.get('passed') or [])
names = stable if isinstance(stable, list) else list(stable)
miss = [n for n in names if n not in passed]
print("stable", len(names), 'missing', len(miss)); print('\n'.join(miss[:20]))
P
python3 -c "
import json,sys
b=json.load(open(\"/opt/vp/BASELINE.json\")); o=json.load(open(\"/tmp/test-out.json\"))
s=b.get(\"stable\") or b.get(\"passed\") or b
sys.exit(any(n not in set(o[\"passed\"]) for n in s))"
