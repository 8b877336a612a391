#!/usr/bin/env python3
"""Single source of properties.jsonl (run after editing; output is committed)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update({k:(v if isinstance(v,list) else [v]) for k,v in kw.items()})
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
E="libCacheSim/cache/eviction/"
exec(open(os.path.join(os.path.dirname(__file__),"properties_src.py")).read())
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
