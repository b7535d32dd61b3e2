#!/usr/bin/env python3
# gen.py FILE...: each FILE describes seeds as python dicts: name, prop, pkg, edits [(file, old, new)], demo (go source), needs, breaks
import sys,os,subprocess,json,shutil
T="/tmp/seed"
only=os.environ.get("ONLY","").split()
for f in sys.argv[1:]:
    ns={}
    exec(open(f).read(),ns)
    for s in ns["SEEDS"]:
        if only and s["name"] not in only: continue
        shutil.rmtree(T,ignore_errors=True); os.makedirs(T)
        subprocess.check_call(["cp","-a","/repo",T+"/repo"])
        for fn,old,new in s["edits"]:
            p=os.path.join(T,"repo",fn); t=open(p).read()
            if t.count(old)<1: print(s["name"],"NO MATCH",old); break
            t=t.replace(old,new,1); open(p,"w").write(t)
        subprocess.call("gofmt -l "+" ".join(os.path.join(T,"repo",e[0]) for e in s["edits"]),shell=True)
        src=s["demo"].lstrip()
        pk,rest=src.split("\n",1)
        open(T+"/demo_test.go.txt","w").write(pk+"\n// "+s["pkg"]+"\n"+rest)
        json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(T+"/meta.json","w"),indent=1)
        print("==",s["name"],flush=True)
        subprocess.call(["/verif/tools/mkseed.sh",s["name"]])
