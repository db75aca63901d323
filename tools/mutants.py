#!/usr/bin/env python3
"""Mutation testing of /repo with the checks: mutants.py OUT FILE [first [step [percent [filter]]]].
Each mutant that builds and passes the stable tests is run against the checks in ORDER until one reports a violation."""
import os, subprocess, sys, shutil, json, time
from concurrent.futures import ThreadPoolExecutor
import threading
ORDER={
'accounting.go':"C13 C08 C03 C02 C01 C04 C05 C06 C10 C11 C12 C15 C19 C20 C21 C22 C09 C24 C27 C29 C18 C31 C32 C23 C16 C33 C14 C25 C28 C26 C30 C35 C07 C17 C34 C36 C37",
'backend/ledger/parser.go':"C14 C07 C16 C17 C18 C15 C09 C08 C01 C04 C11 C02 C24 C29 C22 C10 C21 C33 C12 C19 C27 C28 C34 C36",
'backend/ledger/ledger.go':"C09 C31 C28 C29 C20 C14 C17 C16 C33 C34 C22 C37",
'backend/txtdb/txtdb.go':"C23 C31 C17 C16 C22 C12 C19 C35 C34 C36",
'backend/postgres/postgres.go':"C32 C20 C36",
'cmd/ledger/main.go':"C24 C25 C27 C28 C26 C29 C34 C35 C09",
'cmd/muscular/main.go':"C30 C34 C29","cmd/acc/main.go":"C09 C29 C34 C31","cmd/tacc/main.go":"C35 C34 C36",
}
env=dict(os.environ,GOFLAGS='-mod=mod',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',TZ='UTC',LC_ALL='C.UTF-8')
env.pop('LEDGER_FILE',None)
if os.environ.get('ORDER'): ORDER={f:os.environ['ORDER'] for f in list(ORDER)+sys.argv[2:3]}
out,file=sys.argv[1:3]
first=int(sys.argv[3]) if len(sys.argv)>3 else 0
step=int(sys.argv[4]) if len(sys.argv)>4 else 1
percent=sys.argv[5] if len(sys.argv)>5 else '20'
only=json.load(open(sys.argv[6])) if len(sys.argv)>6 else None   # list of mutant numbers
mm=subprocess.check_output(['/tmp/mutate','/repo/'+file,'list'],text=True).splitlines()
W=int(os.environ.get('P','3'))
base='/dev/shm/mut.%d'%os.getpid()
harness=base+'/harness'
os.makedirs(base)
shutil.copytree('/verif/harness',harness)
lock=threading.Lock()
slots=list(range(W))
for i in slots:
    shutil.copytree('/repo',f'{base}/{i}/repo',ignore=shutil.ignore_patterns('.git'))
def sh(cmd,timeout,**kw):
    try:
        p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,text=True,errors='replace',**kw)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 124,'timeout'
def one(i):
    with lock: k=slots.pop()
    d=f'{base}/{k}'; repo=d+'/repo'
    try:
        m=subprocess.run(['/tmp/mutate','/repo/'+file,str(i)],capture_output=True,text=True)
        open(f'{repo}/{file}','w').write(m.stdout)
        shutil.rmtree(d+'/bin',ignore_errors=True); os.makedirs(d+'/bin/mod')
        for x in ('go.mod','go.sum'): shutil.copy(f'{harness}/{x}',d+'/bin/mod/')
        s=open(d+'/bin/mod/go.mod').read().replace('=> /repo\n',f'=> {repo}\n'); open(d+'/bin/mod/go.mod','w').write(s)
        rc,o=sh(['go','vet','./...'],120,cwd=repo,env=env) if 0 else sh(['go','build','-o',d+'/bin/','./cmd/ledger','./cmd/acc','./cmd/muscular','./cmd/tacc'],120,cwd=repo,env=env)
        if rc: return 'nobuild',''
        rc,o=sh(['go','test','-vet=off','-count=1','-timeout','30s','.','./backend/ledger'],60,cwd=repo,env=env)
        if rc: return 'testfails',''
        rc,o=sh(['go','build',f'-modfile={d}/bin/mod/go.mod','-o',d+'/bin/','.','./regworker'],180,cwd=harness,env=env)
        if rc: return 'noharness',o[-300:]
        bad=''
        for c in ORDER[file].split():
            shutil.rmtree(d+'/tmp',ignore_errors=True); os.makedirs(d+'/tmp'); 
            e=dict(env,VH_BIN=d+'/bin',VH_HOME='/verif',VH_EVIDENCE=d+'/ev',VH_TMP=d+'/tmp',GOMAXPROCS='2',VH_SHRINK='1ms',VH_PERCENT=percent)
            e.pop('GOFLAGS')
            os.makedirs(d+'/ev',exist_ok=True)
            rc,o=sh([d+'/bin/verif','check',c],600,env=e)
            if rc==1: return 'killed '+c,bad
            if rc: bad+=f' {c}:rc{rc} {o[-200:]!r}'
        return 'SURVIVED',bad
    finally:
        with lock: slots.append(k)
def run(i):
    try: r,b=one(i)
    except Exception as x: r,b='error',repr(x)
    with lock:
        with open(out,'a') as f: f.write(f'{file}\t{mm[i]}\t{r}\t{b}\n')
ids=only if only is not None else range(first,len(mm),step)
done=set()
if os.path.exists(out):
    for l in open(out):
        x=l.split('\t')
        if x[0]==file: done.add(int(x[1]))
try:
    with ThreadPoolExecutor(W) as ex: list(ex.map(run,[i for i in ids if i not in done]))
finally: shutil.rmtree(base,ignore_errors=True)
