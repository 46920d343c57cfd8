import glob,json,re
have=re.findall(r'ID: +"(C\d+)"',''.join(open(f).read() for f in glob.glob('/verif/harness/*.go')))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
pend={}
checks=[];na=[]
NOTES=json.load(open('/verif/level_notes.json'))
for p in props:
    i=p['id']
    if i in have:
        checks.append({"property":i,"quick_cmd":f"bash /verif/check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash /verif/check.sh {i}","evidence_file":f"/verif/evidence/{i}.json",
          "technique":"property-based testing: "+NOTES[i][0],"level":"exploration","level_note":NOTES[i][1]})
    else:
        na.append({"property":i,"reason":"the check is not built yet"})
m={"version":1,"setup_cmd":"bash /verif/setup.sh","hooks":{"guard":"none","enable":"no hooks: the checks use the public API and pseudo-terminals only","source_commits":[]},"checks":checks,"not_applicable":na,
"notes":"check.sh builds harness/ against the working tree of /repo into a scratch directory; see DESIGN.md. Replay a case: bash /verif/check.sh replay FILE."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False);open('/verif/MANIFEST.json','a').write('\n')
