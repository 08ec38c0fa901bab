import sys,os,shutil,time,random,pickle,signal,multiprocessing as mp
sys.path.insert(0,'/verif'); sys.path.insert(0,'/tmp/m')
from tsa.program import Program
from tsa.contract import *
L=pickle.load(open('/tmp/m/refac.pkl','rb'))
def work(i):
    rel,modname,q,desc,src=L[i]
    d='/tmp/m/wr/%d'%os.getpid(); path=d+'/'+rel
    if not os.path.isdir(d): shutil.copytree('/repo/ttp',d+'/ttp',ignore=shutil.ignore_patterns('__pycache__'))
    old=open('/repo/'+rel).read(); open(path,'w').write(src)
    try:
        try:
            def to(*a): raise KeyboardInterrupt('timeout')
            signal.signal(signal.SIGALRM,to); signal.alarm(150)
            p=Program(d); r=Program('/verif/spec'); C=Contracts(p,r)
            fs=C.compare(modname+':'+q,anchors={f.key for f in r.all_functions()},missing_ok=True)
            res='ALARM' if fs else 'quiet'; txt=fs[0].text[:9000] if fs else ''
        except BaseException as e: res='ERR';txt=repr(e)[:200]
    finally:
        signal.alarm(0); open(path,'w').write(old)
    return rel,q,desc,res,txt,i
if __name__=='__main__':
    shutil.rmtree('/tmp/m/wr',ignore_errors=True)
    n=int(sys.argv[1]); random.seed(int(sys.argv[2])); filt=sys.argv[3] if len(sys.argv)>3 else ''
    if filt.startswith('#'): ids=[int(x) for x in filt[1:].split(',')]
    else: ids=[i for i in range(len(L)) if filt in L[i][1]+':'+L[i][2] and 'yangson' not in L[i][1] and 'syslog' not in L[i][1]]; random.shuffle(ids); ids=ids[:n]
    LIM=int(os.environ.get('LIM','600')); t0=time.time()
    pool=mp.Pool(8); rs=[pool.apply_async(work,(k,)) for k in ids]; res=[]
    for r,k in zip(rs,ids):
        try: res.append(r.get(timeout=max(0.1,LIM-(time.time()-t0))))
        except mp.TimeoutError: res.append((L[k][0],L[k][2],L[k][3],'STUCK','',k))
    pool.terminate()
    pickle.dump(res,open('/tmp/m/refres.pkl','wb'))
    from collections import Counter
    print(Counter(r[3] for r in res))
    by={}
    for r in res: by.setdefault(r[2].split('@')[0].split(' ')[0],Counter())[r[3]]+=1
    for k,v in sorted(by.items()): print(k,dict(v))
