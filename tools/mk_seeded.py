"""mk.py: build seeded/<id> from edits: mk(id, prop, edits=[(file, old, new)], demo=str, needs=, breaks=)"""
import difflib, json, os, subprocess
V="/verif/seeded"
def mk(id, prop, edits, demo, needs, breaks):
    d=os.path.join(V,id); os.makedirs(d,exist_ok=True)
    files={}
    for f,o,n in edits:
        s=files.get(f) or open("/repo/"+f).read()
        assert s.count(o)==1, (id,f,s.count(o),o)
        files[f]=s.replace(o,n)
    out=""
    for f,s in files.items():
        a=open("/repo/"+f).read()
        out+="diff --git a/%s b/%s\n"%(f,f)+"".join(difflib.unified_diff(a.splitlines(1),s.splitlines(1),"a/"+f,"b/"+f))
    open(d+"/patch.diff","w").write(out)
    open(d+"/demo.py","w").write(demo.lstrip())
    open(d+"/demo.sh","w").write('#!/bin/bash\n# exit 0: the property holds; 1: it is broken\nexport KERAS_BACKEND=torch PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=4\nexport PYTHONPATH=/repo\nexec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    r=subprocess.run(["git","-C","/repo","apply","--check",d+"/patch.diff"])
    print(id,"applies" if r.returncode==0 else "DOES NOT APPLY")
