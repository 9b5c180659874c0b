import subprocess, json, os, textwrap
R="/tmp/w/r/"
def plant(sid, prop, file, old, new, needs, breaks, demo, count=1, also=()):
    p=R+file; s=open(p).read()
    assert s.count(old)==count, (sid, s.count(old))
    open(p,"w").write(s.replace(old,new))
    d="/verif/seeded/"+sid; os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(subprocess.run(["git","-C",R,"diff"],capture_output=True,text=True).stdout)
    subprocess.run(["git","-C",R,"checkout","-q","--","."])
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks,**({"also":list(also)} if also else {})},open(d+"/meta.json","w"),indent=1)
    open(d+"/demo.py","w").write(textwrap.dedent(demo))
    open(d+"/demo.sh","w").write('#!/bin/bash\nexport PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nW=$(mktemp -d) && cp "$(dirname "$0")/demo.py" "$W/demo.py" && cd "$W" || exit 3\n/opt/venv/bin/python -W ignore "$W/demo.py"; rc=$?\ncd / && rm -rf -- "$W"\nexit $rc\n')
