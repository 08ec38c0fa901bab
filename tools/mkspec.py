import ast,os,sys
src=sys.argv[1] if len(sys.argv)>1 else '/repo'
for d,ds,fs in os.walk(src+'/ttp'):
    ds[:]=[x for x in ds if x!='__pycache__']
    for f in fs:
        if not f.endswith('.py') or f.endswith('_py2.py'): continue
        p=os.path.join(d,f); t=ast.parse(open(p).read())
        for n in ast.walk(t):
            if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
                n.body=n.body[1:] or [ast.Pass()]
        o='/verif/spec/'+os.path.relpath(p,src); os.makedirs(os.path.dirname(o),exist_ok=True)
        open(o,'w').write(ast.unparse(t)+'\n')
