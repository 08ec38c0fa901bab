"""behaviour-preserving AST edits: yields (qualname, desc, newsource)"""
import ast, copy, sys, random
sys.path.insert(0,'/verif'); sys.path.insert(0,'/tmp/m')
from mut import islog
def functions(t):
    def rec(body,q,cls):
        for n in body:
            if isinstance(n,ast.FunctionDef):
                yield q+n.name,n,cls
                yield from rec(n.body,q+n.name+'.<locals>.',None)
            elif isinstance(n,ast.ClassDef): yield from rec(n.body,q+n.name+'.',n)
            else:
                for f in('body','orelse','finalbody'):
                    b=getattr(n,f,None)
                    if isinstance(b,list) and b and isinstance(b[0],ast.stmt): yield from rec(b,q,cls)
    yield from rec(t.body,'',None)
def own(fn):
    st=list(fn.body)
    while st:
        n=st.pop(); yield n
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Lambda)): continue
        st.extend(ast.iter_child_nodes(n))
def names(n,ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x,ast.Name) and (ctx is None or isinstance(x.ctx,ctx))}
def blocks(fn):
    st=[fn]
    while st:
        n=st.pop()
        for f in('body','orelse','finalbody'):
            b=getattr(n,f,None)
            if isinstance(b,list) and b and isinstance(b[0],ast.stmt):
                yield n,f,b
                for x in b:
                    if not isinstance(x,(ast.FunctionDef,ast.ClassDef)): st.append(x)
        if isinstance(n,ast.Try):
            for h in n.handlers: st.append(h)
def hasjump(n):
    for x in ast.walk(n):
        if isinstance(x,(ast.Return,ast.Break,ast.Continue,ast.Yield,ast.YieldFrom)): return True
    return False
def params(fn):
    a=fn.args; r=[x.arg for x in a.posonlyargs+a.args+a.kwonlyargs]
    if a.vararg:r.append(a.vararg.arg)
    if a.kwarg:r.append(a.kwarg.arg)
    return r
def pure(e):
    return not any(isinstance(x,(ast.Call,ast.Subscript,ast.Attribute,ast.Await,ast.Yield,ast.BinOp)) for x in ast.walk(e))
def refactorings(m, rnd, per=40):
    base=ast.parse(m.source); bs=ast.unparse(base)
    qs=[q for q,_,_ in functions(base)]
    for qi,q0 in enumerate(qs):
        def fresh():
            t=copy.deepcopy(base); q,fn,cls=list(functions(t))[qi]; return t,fn,cls
        def done(t,desc):
            ast.fix_missing_locations(t)
            try: s=ast.unparse(t); ast.parse(s)
            except Exception: return None
            if s==bs: return None
            return q0,desc,s
        t,fn,cls=fresh()
        nested=[n for n in own(fn) if isinstance(n,(ast.FunctionDef,ast.Lambda))]
        locs={x.id for x in own(fn) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}-set(params(fn))
        glob={x for n in own(fn) if isinstance(n,(ast.Global,ast.Nonlocal)) for x in n.names}
        handlernames={h.name for h in own(fn) if isinstance(h,ast.ExceptHandler) and h.name}
        impnames={a.asname or a.name for n in own(fn) if isinstance(n,(ast.Import,ast.ImportFrom)) for a in n.names}
        locs-=glob|handlernames|impnames|{n.name for n in nested if isinstance(n,ast.FunctionDef)}
        # rename local (only ones not used in nested scopes)
        nestn=set()
        for n in nested: nestn|=names(n)
        compn=set()
        for v in sorted(locs-nestn)[:4]:
            t,fn,cls=fresh()
            for x in ast.walk(fn):
                if isinstance(x,ast.Name) and x.id==v: x.id=v+'_rn'
            r=done(t,'rename '+v)
            if r: yield r
        # invert if/else ; demorgan
        t,fn,cls=fresh()
        ifs=[i for i,n in enumerate(own(fn)) if isinstance(n,ast.If) and n.orelse]
        for i in ifs:
            t,fn,cls=fresh(); n=list(own(fn))[i]
            n.test=ast.UnaryOp(ast.Not(),n.test); n.body,n.orelse=n.orelse,n.body
            r=done(t,'invert-if@%d'%n.lineno)
            if r: yield r
        # if c: return/continue ; rest  -> else
        t,fn,cls=fresh()
        for bi,(own_,f,b) in enumerate(list(blocks(fn))):
            for j,s in enumerate(b):
                if isinstance(s,ast.If) and not s.orelse and isinstance(s.body[-1],(ast.Return,ast.Continue,ast.Raise,ast.Break)) and j+1<len(b):
                    t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                    bb[j].orelse=bb[j+1:]; del bb[j+1:]
                    r=done(t,'early-to-else@%d'%s.lineno)
                    if r: yield r
                if isinstance(s,ast.If) and s.orelse and isinstance(s.body[-1],(ast.Return,ast.Continue,ast.Raise,ast.Break)):
                    t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                    o=bb[j].orelse; bb[j].orelse=[]; bb[j+1:j+1]=o
                    r=done(t,'else-flatten@%d'%s.lineno)
                    if r: yield r
                # temp var for return
                if isinstance(s,ast.Return) and s.value is not None and not isinstance(s.value,ast.Name):
                    t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                    bb[j:j+1]=[ast.Assign([ast.Name('_res',ast.Store())],bb[j].value),ast.Return(ast.Name('_res',ast.Load()))]
                    r=done(t,'ret-temp@%d'%s.lineno)
                    if r: yield r
                # temp for condition
                if isinstance(s,ast.If):
                    t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                    c=bb[j].test; bb[j].test=ast.Name('_cond',ast.Load()); bb.insert(j,ast.Assign([ast.Name('_cond',ast.Store())],c))
                    r=done(t,'cond-temp@%d'%s.lineno)
                    if r: yield r
                # and -> nested ifs
                if isinstance(s,ast.If) and not s.orelse and isinstance(s.test,ast.BoolOp) and isinstance(s.test.op,ast.And):
                    t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                    n=bb[j]; vs=n.test.values; inner=n.body
                    for v in reversed(vs): inner=[ast.If(v,inner,[])]
                    bb[j:j+1]=inner
                    r=done(t,'split-and@%d'%s.lineno)
                    if r: yield r
                # first arg temp
                if isinstance(s,(ast.Expr,ast.Assign)) and isinstance(s.value,ast.Call) and s.value.args and isinstance(s.value.args[0],(ast.Call,ast.Subscript,ast.Attribute,ast.Dict,ast.List,ast.BinOp)) and not islog(s) and isinstance(s.value.func,(ast.Name,ast.Attribute)) and (isinstance(s.value.func,ast.Name) or isinstance(s.value.func.value,(ast.Name,ast.Attribute))):
                    t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                    n=bb[j]; c=n.value.args[0]; n.value.args[0]=ast.Name('_arg',ast.Load()); bb.insert(j,ast.Assign([ast.Name('_arg',ast.Store())],c))
                    r=done(t,'arg-temp@%d'%s.lineno)
                    if r: yield r
                # x = a if c else b
                if isinstance(s,ast.Assign) and isinstance(s.value,ast.IfExp) and isinstance(s.targets[0],ast.Name):
                    t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                    n=bb[j]; v=n.value
                    bb[j]=ast.If(v.test,[ast.Assign(n.targets,v.body)],[ast.Assign(copy.deepcopy(n.targets),v.orelse)])
                    r=done(t,'ifexp-to-if@%d'%s.lineno)
                    if r: yield r
                # augassign list += -> extend? skip;  swap adjacent assigns
                if j+1<len(b) and isinstance(s,ast.Assign) and isinstance(b[j+1],ast.Assign):
                    a1,a2=s,b[j+1]
                    t1,t2=a1.targets[0],a2.targets[0]
                    if isinstance(t1,ast.Name) and isinstance(t2,ast.Name) and t1.id!=t2.id and pure(a1.value) and t1.id not in names(a2.value) and t2.id not in names(a1.value):
                        t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                        bb[j],bb[j+1]=bb[j+1],bb[j]
                        r=done(t,'swap@%d'%s.lineno)
                        if r: yield r
                    elif isinstance(t1,ast.Attribute) and isinstance(t2,ast.Attribute) and t1.attr!=t2.attr and pure(a1.value) and pure(a2.value):
                        t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                        bb[j],bb[j+1]=bb[j+1],bb[j]
                        r=done(t,'swap-attr@%d'%s.lineno)
                        if r: yield r
                # d.update({k:v}) <-> d[k]=v
                if isinstance(s,ast.Assign) and isinstance(s.targets[0],ast.Subscript) and not isinstance(s.targets[0].slice,ast.Slice) and isinstance(s.targets[0].slice,ast.Constant) and isinstance(s.targets[0].slice.value,str) and len(s.targets)==1:
                    t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                    n=bb[j]; tg=n.targets[0]
                    base_=tg.value
                    for x in ast.walk(base_):
                        if hasattr(x,'ctx'): x.ctx=ast.Load()
                    bb[j]=ast.Expr(ast.Call(ast.Attribute(base_,'update',ast.Load()),[ast.Dict([tg.slice],[n.value])],[]))
                    r=done(t,'set-to-update@%d'%s.lineno)
                    if r: yield r
                # for loop -> while with iter index
                if isinstance(s,ast.For) and not s.orelse and not any(isinstance(x,ast.Continue) for x in ast.walk(s)) :
                    t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                    n=bb[j]
                    it=ast.Name('_items',ast.Load())
                    bb[j:j+1]=[ast.Assign([ast.Name('_items',ast.Store())],ast.Call(ast.Name('list',ast.Load()),[n.iter],[])),
                        ast.Assign([ast.Name('_i',ast.Store())],ast.Constant(0)),
                        ast.While(ast.Compare(ast.Name('_i',ast.Load()),[ast.Lt()],[ast.Call(ast.Name('len',ast.Load()),[it],[])]),
                          [ast.Assign([n.target],ast.Subscript(it,ast.Name('_i',ast.Load()),ast.Load())),ast.AugAssign(ast.Name('_i',ast.Store()),ast.Add(),ast.Constant(1))]+n.body,[])]
                    r=done(t,'for-to-while@%d'%s.lineno)
                    if r: yield r
                    # enumerate
                    t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                    n=bb[j]
                    n.iter=ast.Call(ast.Name('enumerate',ast.Load()),[n.iter],[]); n.target=ast.Tuple([ast.Name('_ix',ast.Store()),n.target],ast.Store())
                    r=done(t,'for-enumerate@%d'%s.lineno)
                    if r: yield r
                    # range(len)
                    if isinstance(s.iter,ast.Name):
                        t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                        n=bb[j]; itn=n.iter
                        n.body.insert(0,ast.Assign([n.target],ast.Subscript(itn,ast.Name('_ix',ast.Load()),ast.Load())))
                        n.target=ast.Name('_ix',ast.Store())
                        n.iter=ast.Call(ast.Name('range',ast.Load()),[ast.Call(ast.Name('len',ast.Load()),[itn],[])],[])
                        if not isinstance(s.iter,ast.Name) or True:
                            r=done(t,'for-rangelen@%d'%s.lineno)
                            if r: yield r
                # list comp assign -> loop
                if isinstance(s,ast.Assign) and isinstance(s.value,ast.ListComp) and len(s.value.generators)==1 and isinstance(s.targets[0],ast.Name) and s.targets[0].id not in names(s.value):
                    t,fn,cls=fresh(); _,_,bb=list(blocks(fn))[bi]
                    n=bb[j]; g=n.value.generators[0]; v=n.targets[0].id
                    body=[ast.Expr(ast.Call(ast.Attribute(ast.Name(v,ast.Load()),'append',ast.Load()),[n.value.elt],[]))]
                    for c in reversed(g.ifs): body=[ast.If(c,body,[])]
                    bb[j:j+1]=[ast.Assign([ast.Name(v,ast.Store())],ast.List([],ast.Load())),ast.For(g.target,g.iter,body,[])]
                    r=done(t,'comp-to-loop@%d'%s.lineno)
                    if r: yield r
        # extract helper: contiguous jump-free stmts
        t,fn,cls=fresh()
        isnested='<locals>' in q0
        cand=[]
        for bi,(own_,f,b) in enumerate(list(blocks(fn))):
            for j in range(len(b)):
                for L in (1,2,3,len(b)):
                    seg=b[j:j+L]
                    if len(seg)<L: continue
                    if any(hasjump(s) or isinstance(s,(ast.FunctionDef,ast.ClassDef,ast.Import,ast.ImportFrom,ast.Global,ast.Nonlocal,ast.Delete)) for s in seg): continue
                    if all(islog(s) or isinstance(s,ast.Pass) for s in seg): continue
                    cand.append((bi,j,L))
        rnd.shuffle(cand)
        for bi,j,L in cand[:8]:
            if isnested: break
            t,fn,cls=fresh(); bl=list(blocks(fn)); _,_,bb=bl[bi]
            seg=bb[j:j+L]
            allloc={x.id for x in own(fn) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}|set(params(fn))
            allloc|={n.name for n in own(fn) if isinstance(n,ast.FunctionDef)}|{h.name for h in own(fn) if isinstance(h,ast.ExceptHandler) and h.name}|{a.asname or a.name for n in own(fn) if isinstance(n,(ast.Import,ast.ImportFrom)) for a in n.names}
            # comprehension vars
            compv=set()
            for s in seg:
                for x in ast.walk(s):
                    if isinstance(x,ast.comprehension): compv|=names(x.target)
                    if isinstance(x,ast.Lambda): compv|=set(params(x))
            used=set(); stored=set()
            for s in seg:
                used|=names(s,ast.Load); stored|=names(s,ast.Store)
                for x in ast.walk(s):
                    if isinstance(x,ast.AugAssign) and isinstance(x.target,ast.Name): used.add(x.target.id)
            stored-=compv
            segids={id(x) for s in seg for x in ast.walk(s)}
            loopctx=True
            outer=set()
            for x in own(fn):
                if isinstance(x,ast.Name) and id(x) not in segids and isinstance(x.ctx,ast.Load): outer.add(x.id)
            for n in own(fn):
                if isinstance(n,(ast.FunctionDef,ast.Lambda)) and id(n) not in segids: outer|=names(n)
            # variables stored conditionally must be passed in as well: only safe if definitely assigned before; restrict
            outs=sorted(stored & (outer|used))
            condstored=set()
            for s in seg:
                if not isinstance(s,ast.Assign): condstored|=names(s,ast.Store)
            ins=sorted(((used & allloc)-compv)|((condstored & set(outs))-compv))
            # definitely assigned check: params or assigned earlier in same block straight or function top
            defd=set(params(fn))
            for n in fn.body:
                if n is bb[j]: break
                if isinstance(n,(ast.Assign,)):
                    for tg in n.targets: defd|={x.id for x in ast.walk(tg) if isinstance(x,ast.Name)}
                elif isinstance(n,(ast.FunctionDef,)): defd.add(n.name)
                elif isinstance(n,(ast.Import,ast.ImportFrom)): defd|={a.asname or a.name for a in n.names}
            for k in range(j):
                n=bb[k]
                if isinstance(n,ast.Assign):
                    for tg in n.targets: defd|={x.id for x in ast.walk(tg) if isinstance(x,ast.Name)}
            # enclosing for targets
            for n,f,b2 in bl:
                if isinstance(n,ast.For) and any(id(bb[j]) in {id(y) for y in ast.walk(z)} for z in n.body): defd|=names(n.target)
                if isinstance(n,ast.ExceptHandler) and n.name: defd.add(n.name)
            need=[v for v in ins if v not in defd and v not in stored]
            firststore=[v for v in ins if v not in defd and v in stored]
            ins2=[]
            ok=True
            for v in ins:
                if v in defd: ins2.append(v)
                else:
                    # assigned inside seg before use? accept if the first stmt assigns it
                    if any(isinstance(s,ast.Assign) and v in names(s.targets[0],ast.Store) for s in seg) and v not in condstored: continue
                    if v in compv: continue
                    ok=False
            if not ok: continue
            ismeth=cls is not None and fn.args.args and fn.args.args[0].arg=='self'
            hname='_extracted_helper'
            if ismeth and 'self' not in ins2: ins2=['self']+ins2
            if ismeth: ins2=['self']+[x for x in ins2 if x!='self']
            args=ast.arguments([],[ast.arg(v) for v in ins2],None,[],[],None,[])
            body=list(seg)
            if outs: body.append(ast.Return(ast.Tuple([ast.Name(v,ast.Load()) for v in outs],ast.Load()) if len(outs)>1 else ast.Name(outs[0],ast.Load())))
            h=ast.FunctionDef(hname,args,body,[],None)
            callf=ast.Attribute(ast.Name('self',ast.Load()),hname,ast.Load()) if ismeth else ast.Name(hname,ast.Load())
            call=ast.Call(callf,[ast.Name(v,ast.Load()) for v in ins2 if not(ismeth and v=='self')],[])
            if outs:
                tg=ast.Tuple([ast.Name(v,ast.Store()) for v in outs],ast.Store()) if len(outs)>1 else ast.Name(outs[0],ast.Store())
                new=ast.Assign([tg],call)
            else: new=ast.Expr(call)
            bb[j:j+L]=[new]
            if ismeth:
                cls.body.insert(cls.body.index(fn),h) if fn in cls.body else None
                if fn not in cls.body: continue
            else:
                if fn in t.body: t.body.insert(t.body.index(fn),h)
                else: continue
            r=done(t,'extract L%d@%d'%(L,seg[0].lineno))
            if r: yield r
if __name__=='__main__':
    from tsa.program import Program
    p=Program('/repo'); tot=0; rnd=random.Random(1)
    from collections import Counter
    c=Counter()
    for m in p.modules.values():
        for q,d,s in refactorings(m,rnd): c[d.split('@')[0].split(' ')[0]]+=1; tot+=1
    print(tot,c)
