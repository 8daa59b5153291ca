#!/usr/bin/env python3
# addlevel.py Cxx "technique" "note": claim a property in notes.json
import json,os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=root+'/tools/notes.json'; d=json.load(open(p)); d['level'][sys.argv[1]]=[sys.argv[2],sys.argv[3]]
d['level']=dict(sorted(d['level'].items())); json.dump(d,open(p,'w'),indent=1)
