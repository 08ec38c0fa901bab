"""for plugin/core mutants: does compare see it?"""
import sys,os,shutil,tempfile,time,random,pickle,multiprocessing as mp
sys.path.insert(0,'/tmp/m'); sys.path.insert(0,'/verif'); sys.path.insert(0,'/tmp/d')
import mut
from tsa.program import Program,Module
from tsa.contract import *
JOBS=[];THUNKS=[]
def work(a):
    rel,modname,q,desc,i=JOBS[a]; src=THUNKS[i]()
    if not src: return rel,q,desc,'INVALID','',i
    d='/tmp/m/w/%d'%os.getpid()
    path=d+'/'+rel
    if not os.path.isdir(d):
        shutil.copytree('/repo/ttp',d+'/ttp',ignore=shutil.ignore_patterns('__pycache__'))
    old=open('/repo/'+rel).read()
    open(path,'w').write(src)
    try:
        try:
            import signal
            def to(*a): raise KeyboardInterrupt('timeout')
            signal.signal(signal.SIGALRM,to); signal.alarm(120)
            p=Program(d); r=Program('/verif/spec'); C=Contracts(p,r)
            anchors={f.key for f in r.all_functions()}
            key=modname+':'+q
            fs=C.compare(key,anchors=anchors,missing_ok=True)
            res='CAUGHT' if fs else 'missed'
            txt=fs[0].text[:300] if fs else ''
        except BaseException as e:
            res='ERR';txt=repr(e)[:200]
    finally:
        signal.alarm(0)
        open(path,'w').write(old)
    return rel,q,desc,res,txt,i
if __name__=='__main__':
    shutil.rmtree('/tmp/m/w',ignore_errors=True)
    random.seed(int(sys.argv[2]) if len(sys.argv)>2 else 1)
    n=int(sys.argv[1]); filt=sys.argv[3] if len(sys.argv)>3 else ''
    p=Program('/repo'); jobs=[]
    for m in p.modules.values():
        for q,d,s in mut.mutants(m):
            if filt and filt not in m.name+':'+q: continue
            jobs.append((m.rel,m.name,q,d,len(jobs))); THUNKS.append(s)
    random.shuffle(jobs); jobs=jobs[:n]
    JOBS.extend(jobs)
    res=[]; t0=time.time(); LIM=int(os.environ.get('LIM','600'))
    pool=mp.Pool(8); rs=[pool.apply_async(work,(k,)) for k in range(len(jobs))]
    for r,j in zip(rs,jobs):
        try: res.append(r.get(timeout=max(0.1,LIM-(time.time()-t0))))
        except mp.TimeoutError: res.append((j[0],j[2],j[3],'STUCK','',j[4]))
    pool.terminate()
    pickle.dump(res,open('/tmp/m/res.pkl','wb'))
    from collections import Counter
    print(Counter(r[3] for r in res))
    by={}
    for r in res: by.setdefault(r[2].split('@')[0],Counter())[r[3]]+=1
    for k,v in sorted(by.items()): print(k,dict(v))
