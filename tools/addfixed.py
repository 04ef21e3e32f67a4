import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
L=d if isinstance(d,list) else d.get('findings')
def add(prop,h,what):
    if any(x.get("commit")==h and x["property"]==prop for x in L): return
    L.append({"property":prop,"rule":"","construct":"","status":"fixed","commit":h,"what":what,"line":f"fixed: property={prop} {h} {what}"})
a=sys.argv[1:]
add(*a)
json.dump(d,open(p,'w'),indent=1)
