import os,sys,subprocess,shutil,json,threading,queue,importlib.util
PKG='gitlab.cs.fau.de/since/radolan'
spec=importlib.util.spec_from_file_location('pl',sys.argv[1]); pl=importlib.util.module_from_spec(spec); spec.loader.exec_module(pl)
want=set(sys.argv[2:])
q=queue.Queue()
for p in pl.P:
    if not want or p[0] in want: q.put(p)
def sh(cmd,env,cwd,timeout=900):
    try:
        p=subprocess.run(cmd,env=env,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,errors='replace'); return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return -99,'timeout'
lock=threading.Lock()
def worker(w):
    while True:
        try: name,prop,edits=q.get_nowait()
        except queue.Empty: return
        base=f'/tmp/probe/w-{name}'; shutil.rmtree(base,ignore_errors=True)
        src=f'{base}/gopath/src/{PKG}'; os.makedirs(os.path.dirname(src))
        shutil.copytree('/repo',src,ignore=shutil.ignore_patterns('.git'))
        bad=None
        for f,o,n in edits:
            s=open(f'{src}/{f}').read()
            if s.count(o)!=1: bad=f'edit {f}: {s.count(o)} matches of {o[:60]!r}'; break
            open(f'{src}/{f}','w').write(s.replace(o,n))
        race=prop=='C17'
        env=dict(os.environ,GO111MODULE='off',GOPATH=f'{base}/gopath:/verif/harness',GOCACHE='/tmp/mut/cache',GOENV='off',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-buildvcs=false',GOWORK='off',TZ='Europe/Berlin',GOMAXPROCS=os.environ.get('PMAX','3'),CGO_ENABLED='0')
        res=''
        if bad: res='BAD '+bad
        else:
            rc,o=sh(['go','build','-o',f'{base}/r2p',PKG+'/radolan2png'],env,src)
            if rc==0:
                rc,o=sh(['go','test','-vet=off','-count=1','-timeout','60s','.'],env,src)
                fails=[l for l in o.splitlines() if l.startswith('--- FAIL')]
                if len(fails)!=1: res='TESTS FAIL '+str(fails)+o[:300]
            else: res='NOBUILD '+o[-400:]
            if not res:
                p=subprocess.run(['python3','/verif/check.py',prop,'quick'],env=dict(os.environ,VERIF_REPO=src,VERIF_SEED=os.environ.get('SEED','1')),cwd=base,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                ls=p.stdout.strip().splitlines()
                res={0:'*** MISSED',1:'caught',2:'*** NOANSWER'}.get(p.returncode,str(p.returncode))+' '+(ls[0][:160] if p.returncode==1 else ' | '.join(ls[-2:])[:300])
        with lock: print(name,prop,res,flush=True)
        shutil.rmtree(base,ignore_errors=True)
ts=[threading.Thread(target=worker,args=(i,)) for i in range(int(os.environ.get('PW','3')))]
[t.start() for t in ts]; [t.join() for t in ts]
