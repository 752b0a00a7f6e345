#!/usr/bin/env python3
"""Runs the analyzer on small edits of the source: 'bug' edits must be reported, 'ok' edits must not.
usage: run.py [name-prefix...]   (works on a scratch copy of /repo under /tmp)"""
import os, subprocess, sys, shutil, importlib.util, re, concurrent.futures as cf, tempfile
here = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ)
out = subprocess.run(['bash','-c','. /opt/vp/env.sh; env -0'],capture_output=True).stdout
env.update(dict(x.split('=',1) for x in out.decode().split('\0') if '=' in x))
cases=[]
def bug(name, prop, file, *reps): cases.append((name,'bug',prop,file,reps))
def ok(name, prop, file, *reps): cases.append((name,'ok',prop,file,reps))
for f in sorted(os.listdir(here)):
    if f.startswith('cases') and f.endswith('.py'):
        exec(open(os.path.join(here,f)).read(), {'bug':bug,'ok':ok})
sel=sys.argv[1:]
if os.environ.get('KIND'): cases=[c for c in cases if c[1]==os.environ['KIND']]
if os.environ.get('PROPS'): cases=[(c[0],c[1],os.environ['PROPS'],c[3],c[4]) for c in cases]
base=tempfile.mkdtemp(prefix='ripmut')
subprocess.run(['bash','-c',f'. /opt/vp/env.sh; cd /verif/ripcheck && GOFLAGS=-mod=mod go build -o {base}/rc .'],check=True)
def work(c):
    name,kind,prop,file,reps=c
    d=tempfile.mkdtemp(dir=base)
    subprocess.run(f'cp -a {os.environ.get("SRC","/repo")}/. {d}/ && rm -rf {d}/.git',shell=True,check=True)
    v=os.path.join(d,'..','v'+os.path.basename(d)); os.makedirs(v); shutil.copy('/verif/known_findings.txt',v) if os.path.exists('/verif/known_findings.txt') else None
    fl=file
    for r in reps:
        if len(r)==3: fl=r[0]; r=r[1:]
        p=os.path.join(d,fl); s=open(p).read()
        if r[0] not in s: return (c,'NOMATCH '+r[0][:60])
        s=s.replace(r[0],r[1],1); open(p,'w').write(s)
    b=subprocess.run(['go','build','./...'],cwd=d,env=env,capture_output=True,text=True)
    if b.returncode: shutil.rmtree(d); return (c,'NOBUILD '+b.stderr[:300])
    r=subprocess.run([base+'/rc','-repo',d,'-verif',v]+prop.split(),env=env,capture_output=True,text=True)
    shutil.rmtree(d)
    fired=re.findall(r'VIOLATION property=(\S+)',r.stdout)
    det=[l for l in r.stdout.splitlines() if l.startswith('  [')][:3]
    if r.returncode not in(0,1): return (c,'CRASH '+r.stdout[-300:]+r.stderr[-300:])
    if kind=='bug': return (c,None if fired else 'MISSED', det)
    return (c,('FALSE ALARM '+' '.join(fired)) if fired else None, det)
todo=[c for c in cases if not sel or any(c[0].startswith(s) for s in sel)]
n=0
with cf.ThreadPoolExecutor(int(os.environ.get('J','6'))) as ex:
    for r in ex.map(work,todo):
        c=r[0]
        if r[1]: n+=1; print('!!',c[0],c[1],c[2],r[1]); [print('      ',x[:250]) for x in (r[2] if len(r)>2 else [])]
        elif os.environ.get('V'): print('ok',c[0],c[1],c[2]); [print('      ',x[:250]) for x in (r[2] if len(r)>2 else [])]
print(f'{len(todo)} edits, {n} wrong')
shutil.rmtree(base)
