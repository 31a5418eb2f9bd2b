#!/bin/bash
# Run the repository's tests and list stable ones that no longer pass (development aid).
source /opt/vp/env.sh
bash /opt/vp/test.sh /tmp/rtest.json >/tmp/rtest.log 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/rtest.json'))['passed'])
print('stable', len(b), 'lost', sorted(b-p))"
