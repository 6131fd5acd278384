#!/usr/bin/env python3
"""addstage.py <id> <json>: replaces the entry of a property in stages.json"""
import json,sys,os
f=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"stages.json")
d=json.load(open(f)); d[sys.argv[1]]=json.loads(sys.argv[2])
json.dump(dict(sorted(d.items())),open(f,"w"),indent=1); open(f,"a").write("\n")
