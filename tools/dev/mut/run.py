import os,sys,subprocess,shutil,queue,threading,random,json,time
random.seed(int(os.environ.get('MSEED','5')))
W=int(os.environ.get('MW','4'))
ORDER={'catalog.go':'C11 C05 C04 C15 C02','conversion.go':'C16 C04 C05','data.go':'C07 C04 C05 C06 C02 C10 C11','header.go':'C02 C03 C07 C11 C15',
'littleendian.go':'C04 C08 C09 C10 C11','projection.go':'C15 C13 C14 C11','projection_sphere.go':'C13 C15','projection_wgs84.go':'C14 C15',
'radolan.go':'C12 C10 C11 C02 C15 C20','runlength.go':'C06 C08 C09 C10 C03','singlebyte.go':'C05 C08 C09 C10 C11',
'radolan2png/radolan2png.go':'C21 C22','radolan2png/vis/vis.go':'C19 C20 C21'}
PKG='gitlab.cs.fau.de/since/radolan'
stable=set()
rows=[l.rstrip('\n').split('\t') for l in open('/tmp/mut/m/index.tsv')]
sel=[]
for r in rows:
    p={'catalog.go':0.2}.get(r[1],1.0)
    if r[1].endswith('.go') and 'string' in r[3] and ('"Usage' in r[3] or 'argument' in r[3]): p=0
    if random.random()<p*float(os.environ.get('MFRAC','1')): sel.append(r)
if len(sys.argv)>1:
    ids=set(sys.argv[1:]); sel=[r for r in rows if r[0] in ids]
random.shuffle(sel)
q=queue.Queue()
for r in sel: q.put(r)
lock=threading.Lock()
out=open(os.environ.get('MOUT','/tmp/mut/result.tsv'),'a')
done=set(l.split('\t')[0] for l in open(out.name))
def sh(cmd,env,cwd,timeout=300):
    try:
        p=subprocess.run(cmd,env=env,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,errors='replace')
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return -99,'timeout'
def worker(w):
    base=f'/tmp/mut/w{w}'; shutil.rmtree(base,ignore_errors=True)
    src=f'{base}/gopath/src/{PKG}'; os.makedirs(os.path.dirname(src))
    shutil.copytree('/tmp/mut/repo',src,ignore=shutil.ignore_patterns('.git'))
    env=dict(os.environ,GO111MODULE='off',GOPATH=f'{base}/gopath:/tmp/mut/harness',GOCACHE=f'/tmp/mut/cache',GOENV='off',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-buildvcs=false',GOWORK='off',TZ='Europe/Berlin',GOMAXPROCS='2',CGO_ENABLED='0')
    while True:
        try: r=q.get_nowait()
        except queue.Empty: return
        if r[0] in done: continue
        f=f'{src}/{r[1]}'; orig=open(f'/tmp/mut/repo/{r[1]}').read()
        shutil.copy(f'/tmp/mut/m/{r[0]}.go',f)
        res='?'; detail=''
        try:
            rc,o=sh(['go','build','-o',f'{base}/r2p',PKG+'/radolan2png'],env,src)
            if rc==0: rc,o=sh(['go','build','-o',f'{base}/mon','verif/mon'],env,src)
            if rc: res='nocompile'
            else:
                rc,o=sh(['go','test','-vet=off','-count=1','-timeout','60s','.'],env,src)
                fails=[l for l in o.splitlines() if l.startswith('--- FAIL')]
                if not (o.count('--- FAIL')==1 and 'TestGrid' in fails[0]): res='tests'
                else:
                    res='SURVIVED'
                    for p in ORDER[r[1]].split():
                        wk=f'{base}/work'; shutil.rmtree(wk,ignore_errors=True); os.makedirs(wk)
                        oj=f'{base}/out.json'
                        if os.path.exists(oj): os.remove(oj)
                        rc,o=sh([f'{base}/mon','-prop',p,'-tier','quick','-seed','1','-src',src,'-work',wk,'-cli',f'{base}/r2p','-out',oj],env,base,timeout=600)
                        try: j=json.load(open(oj))
                        except Exception: j=None
                        if j is None: res='killed-crash'; detail=p+' '+o[-200:].replace('\n',' '); break
                        if j.get('violations'): res='killed'; detail=p+' '+j['violations'][0]['msg'][:150].replace('\n',' ').replace('\t',' '); break
                        if j.get('unmet'): detail+=' unmet:'+p
        finally:
            open(f,'w').write(orig)
        with lock:
            out.write('\t'.join([r[0],r[1],r[2],r[3],res,detail])+'\n'); out.flush()
ts=[threading.Thread(target=worker,args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
