#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json,os
V=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
from manifest_data import CHECKS,NA,NOTES
checks=[]
for p in props:
    if p in CHECKS:
        tech,level,note=CHECKS[p]
        checks.append(dict(property=p,quick_cmd='python3 checks/%s.py'%p.lower(),thorough_cmd='VERIF_TIER=thorough python3 checks/%s.py'%p.lower(),evidence_file='evidence/%s.json'%p,technique=tech,level=level,level_note=note))
m=dict(version=1,setup_cmd='python3 lib/build.py plain',hooks=dict(guard='none',enable='no hooks: the checks build the unmodified sources',source_commits=[]),checks=checks,
  not_applicable=[dict(property=p,reason=NA.get(p,'check under construction')) for p in props if p not in CHECKS],notes=NOTES)
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
