import json,sys
pid,commit,what=sys.argv[1:4]
with open('/verif/known-findings.jsonl','a') as f:
    f.write(json.dumps({"status":"fixed","property":pid,"commit":commit,"line":"fixed: property=%s %s %s"%(pid,commit,what),"what":what})+"\n")
