import json,sys
p="/verif/tools/claims.json"
c=json.load(open(p))
for a in sys.argv[2:]:
    c.setdefault(a,{})["note"]=sys.argv[1]
json.dump(c,open(p,"w"),indent=1)
