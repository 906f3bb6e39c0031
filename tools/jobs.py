#!/usr/bin/env python3
import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for k,v in d['coverage']['jobs'].items(): print(k,{a:b for a,b in v.items() if a!='args'})
if len(sys.argv)>2: print(d['coverage']['reachability_witnesses'])
