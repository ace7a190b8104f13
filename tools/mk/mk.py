import json, os, shutil, subprocess, sys
def mk(id, prop, edits, needs, breaks, demo):
    """edits: [(file, old, new)]"""
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    w='/tmp/mkw'; shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,old,new in edits:
        p=w+'/'+f
        b=open(p,'rb').read()
        crlf=b'\r\n' in b
        t=b.replace(b'\r\n',b'\n').decode('utf-8')
        assert t.count(old)==1,(id,f,t.count(old))
        t=t.replace(old,new)
        b=t.encode('utf-8')
        if crlf: b=b.replace(b'\n',b'\r\n')
        open(p,'wb').write(b)
    diff=subprocess.check_output(['git','-C',w,'diff'])
    open(d+'/patch.diff','wb').write(diff)
    shutil.rmtree(w)
    open(d+'/demo.py','w').write('import os\nimport sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom kit import *\n\n'+demo.lstrip('\n'))
    open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    shutil.copy('/verif/tools/kit.py',d+'/kit.py')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    if len(sys.argv)<2 or id in sys.argv[1:]:
        print('==',id); sys.stdout.flush()
        r=subprocess.call(['/verif/tools/plant.sh',id]); print('OK' if r==0 else 'NOT CONFIRMED')
only=sys.argv[1:]
_mk=mk
def mk(id,*a):
    if not only or id in only: _mk(id,*a)
