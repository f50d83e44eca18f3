"""helpers: seed(id, prop, needs, breaks, [(file, old, new)...], demo_python)"""
import subprocess, os, json, tempfile, shutil
def seed(id, prop, needs, breaks, edits, demo, sh=None):
    d='/verif/seeded/'+id; os.makedirs(d, exist_ok=True)
    R=tempfile.mkdtemp(prefix='mkseed.'); subprocess.run('git -C /repo archive HEAD | tar -x -C '+R+' && cd '+R+' && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x',shell=True,check=True)
    try:
        for f,a,b in edits:
            p=R+'/'+f; s=open(p).read(); assert s.count(a)==1,(f,a,s.count(a)); open(p,'w').write(s.replace(a,b))
        diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
        assert diff
        open(d+'/patch.diff','w').write(diff)
    finally:
        shutil.rmtree(R)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write(sh or """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); cd /repo
export PYTHONPATH=/repo:/opt/minorminer-venv/lib/python3.12/site-packages PYTHONHASHSEED=0
exec timeout 250 /usr/bin/python3 "$here/demo.py"
""")
    os.chmod(d+'/demo.sh',0o755)
    if demo is not None: open(d+'/demo.py','w').write(demo)
    r=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    print(id,'clean demo rc',r.returncode, r.stderr[-300:] if r.returncode else '')
