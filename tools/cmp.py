import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
print("missing:",set(b['stable'])-set(t['passed']))
