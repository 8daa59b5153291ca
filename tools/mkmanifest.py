#!/usr/bin/env python3
# writes MANIFEST.json: claimed = those with sim/checks/<id>.cpp
import json,os,subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes=json.load(open(root+'/tools/notes.json'))
commits=notes['hook_commits']
ids=[json.loads(l)['id'] for l in open(root+'/properties.jsonl')]
checks=[];na=[]
for i in ids:
    if i in notes['na']: na.append({"property":i,"reason":notes['na'][i]}); continue
    if not os.path.exists(f'{root}/sim/checks/{i}.cpp') or i not in notes['level']:
        na.append({"property":i,"reason":"check under construction"}); continue
    t,n=notes['level'][i]
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","level":"exploration","technique":t,"level_note":n,"evidence_file":f"evidence/{i}.json"})
m={"version":1,"setup_cmd":"true","hooks":{"guard":"SPHDE_SIM","enable":"-DSPHDE_SIM","source_commits":commits},"checks":checks,"not_applicable":na}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
