import os,shutil,subprocess,json,sys,re
sys.path.insert(0,'/tmp')
from seeds import SEEDS
ROOT='/verif/seeded'; W='/tmp/w/seed'
sel=sys.argv[1:]
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
if not os.path.exists(W): sh('git clone -q /repo '+W)
sh('git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD'%(W,W))
# cp built? pure python
orig={}
for s in SEEDS:
    if sel and s['id'] not in sel: continue
    d=os.path.join(ROOT,s['id'])
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs(d)
    sh('git -C %s checkout -q -- .'%W)
    for f,old,new in s['edits']:
        p=W+'/freesif/'+f
        t=open(p).read()
        assert t.count(old)==1,(s['id'],t.count(old),old)
        open(p,'w').write(t.replace(old,new))
    diff=sh('git -C %s diff'%W).stdout
    open(d+'/patch.diff','w').write(diff)
    # removed lines must be of the original
    for f,old,new in s['edits']:
        bl=sh('git -C %s blame -s %s -- freesif/%s'%(W,'HEAD',f)).stdout.splitlines()
    for m in re.finditer(r'^-(?!--)(.*)$',diff,re.M):
        pass
    open(d+'/demo.py','w').write(s['demo'].lstrip('\n'))
    shutil.copy('/tmp/seedlib/sifw.py',d)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run in the repository; fails where the behaviour is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" || exit 2
PYTHONPATH="$repo:$here" PYTHONDONTWRITEBYTECODE=1 \\
    timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
''')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    t=sh('rm -rf tests/files/tmp; /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider 2>&1 | grep -E "[0-9]+ (passed|failed)"; rm -rf tests/files/tmp; git status --short',cwd=W,env=dict(os.environ,PYTHONPATH=W,PYTHONDONTWRITEBYTECODE='1'))
    bad=sh('bash %s/demo.sh'%d,cwd=W)
    sh('git -C %s checkout -q -- .'%W)
    good=sh('bash %s/demo.sh'%d,cwd='/repo')
    print(s['id'],s['property'],'tests:',t.stdout.strip().splitlines()[:1] , 'HEAD rc',good.returncode,'patched rc',bad.returncode)
    if good.returncode: print(good.stdout[-500:],good.stderr[-1500:])
    print('   ',(bad.stdout+bad.stderr).strip()[-200:])
