import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import sys
claimed=sys.argv[1].split(',') if len(sys.argv)>1 and sys.argv[1] else []
checks=[];na=[]
T=json.load(open('/verif/harness/techniques.json'))
for p in props:
    if p['id'] in claimed:
        t=T[p['id']]
        checks.append({"property":p['id'],"quick_cmd":f"./check.sh {p['id']}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {p['id']}","evidence_file":f"evidence/{p['id']}.json","technique":t[0],"level":"exploration","level_note":t[1]})
    else:
        na.append({"property":p['id'],"reason":"check under construction"})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,"notes":"Black-box: no hooks in /repo. See DESIGN.md."},open('/verif/MANIFEST.json','w'),indent=1)
