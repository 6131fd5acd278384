import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('missing %d'%len(set(b['stable'])-set(o['passed'])) if set(b['stable'])-set(o['passed']) else 'ok')
