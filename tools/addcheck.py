import json,sys
p='/verif/harness/checks.json'; c=json.load(open(p))
i,b=sys.argv[1:3]; e={"backends":["GEN","HDR","PY"],"bounds":b}
for a in sys.argv[3:]:
    if a=="asan": e["asan"]=True
    elif a.startswith("assume:"): e.setdefault("assumptions",[]).append(a[7:])
    elif a.startswith("backends:"): e["backends"]=a[9:].split(",")
c[i]=e
json.dump(dict(sorted(c.items())),open(p,'w'),indent=1)
