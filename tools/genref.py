import sys,pickle,random,multiprocessing as mp
sys.path.insert(0,'/tmp/m'); sys.path.insert(0,'/verif')
import refac
from tsa.program import Program
P=Program('/repo')
def one(name):
    m=P.modules[name]; return [(m.rel,m.name,q,d,s) for q,d,s in refac.refactorings(m,random.Random(7))]
# split core by class for parallelism is skipped
with mp.Pool(8) as pool: rs=pool.map(one,sorted(P.modules),chunksize=1)
L=[x for r in rs for x in r]
pickle.dump(L,open('/tmp/m/refac.pkl','wb')); print(len(L))
