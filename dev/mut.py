#!/usr/bin/env python3
"""Quick hand-written mutants: mut.py FILE [prop...]; FILE holds M(props, file, old, new) and R(file, old, new) (refactorings, which must stay quiet)."""
import sys, os, subprocess, shutil, concurrent.futures as cf
MUT=[]
def M(props, file, old, new, extra=()): MUT.append(('M', props.split(), [(file,old,new)]+list(extra)))
def R(props, file, old, new, extra=()): MUT.append(('R', props.split(), [(file,old,new)]+list(extra)))
src=sys.argv[1]; exec(open(src).read())
only=set(sys.argv[2:])
env=dict(os.environ)
for l in subprocess.run(['bash','-c','. /opt/vp/env.sh; env'],capture_output=True,text=True).stdout.splitlines():
    k,_,v=l.partition('='); env[k]=v
def run(i):
    kind,props,edits=MUT[i]
    if only and not only & set(props): return None
    d=f'/tmp/mut{os.getpid()}_{i}'
    shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('.git','examples'))
    try:
        for f,o,n in edits:
            p=d+'/'+f; s=open(p).read()
            if o not in s: return (i,'NO MATCH')
            open(p,'w').write(s.replace(o,n,1))
        r=subprocess.run(['go','vet','.'],cwd=d,env=env,capture_output=True,text=True)
        b=subprocess.run(['go','build','.'],cwd=d,env=env,capture_output=True,text=True)
        if b.returncode: return (i,'NO BUILD '+b.stderr[:200])
        t=subprocess.run(['go','test','-count=1','.'],cwd=d,env=env,capture_output=True,text=True)
        note='' if t.returncode==0 else ' (tests fail)'
        out=[]
        for p in props:
            if only and p not in only: continue
            e=dict(env,VERIF_REPO=d,VERIF_DIR=d+'/.v'); os.makedirs(d+'/.v',exist_ok=True)
            c=subprocess.run([os.environ.get('SA','/tmp/sa'),'check',p],env=e,capture_output=True,text=True)
            bad = (c.returncode==0) if kind=='M' else (c.returncode!=0)
            first=[l for l in c.stdout.splitlines() if 'rule' in l or 'VIOL' in l or l.startswith('  ')][:2]
            out.append(('MISSED ' if kind=='M' else 'ALARM ') + p + (' '+c.stdout[:400] if kind=='R' else '') if bad else 'ok '+p+' '+' | '.join(first)[:160])
        return (i,'; '.join(out)+note)
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(6) as ex:
    for r in ex.map(run,range(len(MUT))):
        if r:
            k,_,ed=MUT[r[0]]
            print(k,r[1][:600],'<<',ed[0][1].strip()[:50].replace('\n','/'),'->',ed[0][2].strip()[:50].replace('\n','/'))
