"""generate AST mutants of /repo/ttp: list of (rel, key, desc, newsource)"""
import ast, copy, os, sys, random
sys.path.insert(0,'/verif')
from tsa.program import Program
def islog(n):
    return isinstance(n,ast.Expr) and isinstance(n.value,ast.Call) and isinstance(n.value.func,ast.Attribute) and isinstance(n.value.func.value,ast.Name) and n.value.func.value.id in('log','logging')
def in_log(parents,n):
    while n in parents:
        n=parents[n]
        if islog(n): return True
    return False
def mutants(m):
    src=m.source; tree=ast.parse(src)
    def walkfn(t):
        # yields (keypath,node) for functions
        def rec(body,q):
            for n in body:
                if isinstance(n,(ast.FunctionDef,)):
                    yield q+n.name,n
                    yield from rec(n.body,q+n.name+'.<locals>.')
                elif isinstance(n,ast.ClassDef): yield from rec(n.body,q+n.name+'.')
                else:
                    for f in('body','orelse','finalbody'):
                        b=getattr(n,f,None)
                        if isinstance(b,list) and b and isinstance(b[0],ast.stmt): yield from rec(b,q)
        yield from rec(t.body,'')
    fns=list(walkfn(tree))
    owner={}
    for q,n in fns:
        for x in ast.walk(n): owner[id(x)]=q   # innermost since nested come later
    allnodes=list(ast.walk(tree)); idx={id(n):i for i,n in enumerate(allnodes)}
    parents={}
    for n in allnodes:
        for c in ast.iter_child_nodes(n): parents[c]=n
    def emit(i,fn,desc):
        t=copy.deepcopy(tree); n=list(ast.walk(t))[i]
        par={}
        for x in ast.walk(t):
            for c in ast.iter_child_nodes(x): par[c]=x
        r=fn(n,par)
        if r is False: return None
        try:
            ast.fix_missing_locations(t); s=ast.unparse(t); ast.parse(s)
        except Exception: return None
        return s
    def replace_in_parent(par,n,new):
        p=par[n]
        for f,v in ast.iter_fields(p):
            if v is n: setattr(p,f,new); return
            if isinstance(v,list):
                for j,x in enumerate(v):
                    if x is n: v[j]=new; return
    for i,n in enumerate(allnodes):
        q=owner.get(id(n))
        if q is None or in_log(parents,n): continue
        ops=[]
        if isinstance(n,(ast.If,ast.While)) and not(isinstance(n,ast.While) and isinstance(n.test,ast.Constant)):
            ops.append(('negate-if',lambda n,par: setattr(n,'test',ast.UnaryOp(ast.Not(),n.test))))
        if isinstance(n,(ast.Assign,ast.AugAssign,ast.Expr,ast.Return,ast.Break,ast.Continue,ast.Delete)) and not islog(n) and not(isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant)):
            def f(n,par): replace_in_parent(par,n,ast.Pass())
            ops.append(('delete-stmt',f))
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            sw={ast.Lt:ast.LtE,ast.LtE:ast.Lt,ast.Gt:ast.GtE,ast.GtE:ast.Gt,ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.In:ast.NotIn,ast.NotIn:ast.In,ast.Is:ast.IsNot,ast.IsNot:ast.Is}
            def f(n,par): n.ops=[sw[type(n.ops[0])]()]
            ops.append(('swap-cmp',f))
        if isinstance(n,ast.BoolOp):
            def f(n,par): n.op=ast.Or() if isinstance(n.op,ast.And) else ast.And()
            ops.append(('swap-bool',f))
            def f2(n,par): replace_in_parent(par,n,n.values[0])
            ops.append(('drop-bool',f2))
            def f3(n,par): replace_in_parent(par,n,n.values[-1])
            ops.append(('drop-bool0',f3))
        if isinstance(n,ast.Constant) and not isinstance(parents.get(n),(ast.Expr,ast.JoinedStr)):
            if n.value is True or n.value is False:
                ops.append(('flip-const',lambda n,par: setattr(n,'value',not n.value)))
            elif n.value is None:
                ops.append(('none-false',lambda n,par: setattr(n,'value',False)))
            elif isinstance(n.value,int):
                ops.append(('int+1',lambda n,par: setattr(n,'value',n.value+1)))
            elif isinstance(n.value,str) and n.value:
                ops.append(('str-x',lambda n,par: setattr(n,'value',n.value+'x')))
        if isinstance(n,ast.Call) and isinstance(n.func,ast.Attribute) and n.func.attr in('copy','strip','lower','get','sort','escape','deepcopy'):
            if n.func.attr in('copy','strip','lower') and not n.args:
                def f(n,par): replace_in_parent(par,n,n.func.value)
                ops.append(('drop-'+n.func.attr,f))
            if n.func.attr in('escape','deepcopy') or (n.func.attr=='copy' and n.args):
                def f(n,par): replace_in_parent(par,n,n.args[0])
                ops.append(('drop-'+n.func.attr,f))
        if isinstance(n,ast.Call) and isinstance(n.func,ast.Name) and n.func.id in('list','sorted','dict','str','int','set','tuple') and len(n.args)>=1:
            def f(n,par): replace_in_parent(par,n,n.args[0])
            ops.append(('drop-'+n.func.id,f))
        if isinstance(n,ast.Call) and n.keywords:
            def f(n,par): n.keywords=n.keywords[:-1]
            ops.append(('drop-kw',f))
        if isinstance(n,ast.Call) and len(n.args)>=2 and not any(isinstance(a,ast.Starred) for a in n.args):
            def f(n,par): n.args[0],n.args[1]=n.args[1],n.args[0]
            ops.append(('swap-args',f))
        if isinstance(n,ast.ExceptHandler) and isinstance(n.type,ast.Tuple):
            def f(n,par): n.type=n.type.elts[-1]
            ops.append(('narrow-exc',f))
        if isinstance(n,ast.Slice):
            pass
        for d,fn in ops:
            yield q,'%s@%d %s'%(d,getattr(n,'lineno',0),ast.unparse(n)[:60].replace('\n',' ')),(lambda i=i,fn=fn,d=d: emit(i,fn,d))
if __name__=='__main__':
    p=Program('/repo'); tot=0
    for m in p.modules.values():
        c=sum(1 for _ in mutants(m)); tot+=c; print(m.rel,c)
    print(tot)
