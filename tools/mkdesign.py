import json, os, ast, re, subprocess
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
def consts(pid):
    t=ast.parse(open('/verif/pbt/props/%s.py'%pid.lower()).read()); out={}
    for n in t.body:
        if isinstance(n,ast.Assign) and n.targets[0].id in('RULE','ASSUMPTIONS'):
            src=ast.unparse(n.value)
            try: out[n.targets[0].id]=ast.literal_eval(n.value)
            except Exception:
                out[n.targets[0].id]=src
    return out
exec(open('/tmp/design_parts.py').read())
o=[HEAD]
for p in P:
    i=p['id']; c=consts(i)
    o.append('### %s — %s\n'%(i,p['title']))
    r=c['RULE']
    if not isinstance(r,str): r=str(r)
    o.append('*Generated.* '+r[0].upper()+r[1:]+'\n')
    o.append('*Oracle.* '+ORACLE[i]+'\n')
    a=c['ASSUMPTIONS']
    if isinstance(a,list): o.append('*Domain.* '+'; '.join(a)+'.\n')
    else: o.append('*Domain.* As C01; values whose four bytes are all blanks do not occur.\n')
    o.append('*Beyond the tests.* '+WHY[i]+'\n')
o.append(TAIL)
seen={}
for f in ('/tmp/runseeds.out','/tmp/runseeds2.out'):
    if os.path.exists(f):
        for l in open(f):
            m=re.match(r'(\S+) (C\d+) rc=(\d) (\d+)s ?(.*)',l)
            if m: seen[m[1]]=(m[2],m[3],m[5])
o.append('| change | property | needs | caught by (first message) |\n|---|---|---|---|')
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    s=seen.get(d)
    how='not run' if not s else ('**missed**' if s[1]=='0' else '%s: %s'%(s[0],s[2].replace('|','/')[:110].replace('facet ','')))
    o.append('| %s | %s | %s | %s |'%(d,m['property'],m['needs'].replace('|','/'),how))
o.append('')
open('/verif/DESIGN.md','w').write('\n'.join(o))
