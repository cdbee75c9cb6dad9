#!/bin/bash
# ev.sh <ID>: what an experiment (tools/dev.sh) covered
python3 - "$1" <<'P'
import json,sys
c=json.load(open('/tmp/dev/v/evidence/%s.json'%sys.argv[1]))['coverage']
for k in ('probes','faults_injected','configured_but_never_fired','determinism_sample','statements_reached'): print(k,c.get(k))
print([k for k in c])
P
