import json, os, shutil, subprocess, sys, tempfile
SEEDED='/verif/seeded'
HEAD_ENV = '''#!/bin/bash
# exit 0 when the property holds on this demonstration's case, non-zero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf -- "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$scratch" SCRATCH="$scratch"
export PYTHONPATH="%s$PWD"
"%s" "$here/demo.py"
'''
PY={'venv':'/opt/venv/bin/python','vt':'/opt/veriftools/pyvenv/bin/python'}
def make(id, prop, edits, demo, needs, breaks, py='venv', doubles=()):
    d=os.path.join(SEEDED,id); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w=tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
        for f,old,new in edits:
            p=w+'/r/'+f; s=open(p).read()
            assert s.count(old)==1,(id,f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.check_output(['git','-C',w+'/r','diff'],text=True)
        open(d+'/patch.diff','w').write(diff)
    finally: shutil.rmtree(w)
    pre=''
    for x in doubles:
        shutil.copytree('/verif/stubs/'+x,d+'/doubles/'+x,ignore=shutil.ignore_patterns('__pycache__')); pre+='$here/doubles/%s:'%x
    open(d+'/demo.sh','w').write(HEAD_ENV%(pre,PY[py])); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
