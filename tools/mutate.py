#!/usr/bin/env python3
"""mutate.py OUT SEED N [file-regex [reachmap.json]]: N random source mutants of /repo (in a scratch clone); for each, run the
checks of its file (those which reach its line, given {"file:line": [checks]}) until one notices; OUT lists the survivors."""
import ast, random, subprocess, sys, os, json, re, glob, shutil, tempfile, atexit
out, seed, N = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rx = sys.argv[4] if len(sys.argv) > 4 else "."
T = tempfile.mkdtemp(prefix="mut_", dir="/tmp"); atexit.register(shutil.rmtree, T, True)
R, W = T + "/r", T + "/v"
for a, b in (("/repo", R), (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), W)):
    subprocess.run(["git", "clone", "-q", a, b], check=True)
reach = json.load(open(sys.argv[5])) if len(sys.argv) > 5 else None
PR={"InflationProblem.py":"C01 C02 C05 C22 C04 C08 C06 C10","lp/InflationLP.py":"C12 C08 C18 C06 C13 C16 C17 C19 C14 C10","lp/lp_utils.py":"C14 C16 C21","lp/monomial_classes.py":"C18 C06 C12 C11 C10",
"lp/numbafied.py":"C05 C02 C22 C08","lp/writer_utils.py":"C19","optimization_utils.py":"C21","sdp/InflationSDP.py":"C11 C04 C07 C06 C09 C18 C13 C17 C16 C20","sdp/fast_npa.py":"C03 C02 C05 C06 C04","sdp/monomial_classes.py":"C18 C06 C11",
"sdp/monomial_utils.py":"C18 C06 C20","sdp/quantum_tools.py":"C04 C09 C18 C07","sdp/sdp_utils.py":"C15 C16","sdp/writer_utils.py":"C20","utils.py":"C05 C03 C14 C12 C15"}
rng=random.Random(seed)
CMP={ast.Eq:["!="],ast.NotEq:["=="],ast.Lt:["<=",">"],ast.LtE:["<"],ast.Gt:[">=","<"],ast.GtE:[">"],ast.Is:["is not"],ast.IsNot:["is"],ast.In:["not in"],ast.NotIn:["in"]}
def cands(src):
    t=ast.parse(src); L=src.split("\n"); res=[]
    seg=lambda n: ast.get_source_segment(src,n)
    for n in ast.walk(t):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef)): continue
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            for o in CMP.get(type(n.ops[0]),[]): res.append((n,"%s %s %s"%(seg(n.left),o,seg(n.comparators[0]))))
        if isinstance(n,ast.BoolOp):
            vs=[seg(v) for v in n.values]; j=" or " if isinstance(n.op,ast.And) else " and "
            res.append((n,"("+j.join("(%s)"%v for v in vs)+")"))
            for k in range(len(vs)): res.append((n,"("+(" and " if isinstance(n.op,ast.And) else " or ").join("(%s)"%v for i,v in enumerate(vs) if i!=k)+")"))
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): res.append((n,"(%s)"%seg(n.operand)))
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.USub): res.append((n,"(%s)"%seg(n.operand)))
        if isinstance(n,ast.BinOp):
            for a,b in ((ast.Add,"-"),(ast.Sub,"+"),(ast.Mult,"+"),(ast.Mod,"+"),(ast.FloorDiv,"*"),(ast.BitAnd,"|"),(ast.BitOr,"&")):
                if isinstance(n.op,a): res.append((n,"(%s %s %s)"%(seg(n.left),b,seg(n.right))))
        if isinstance(n,ast.Constant) and type(n.value) is int and n.value<100: res+= [(n,str(n.value+1))]+([(n,str(n.value-1))] if n.value>0 else [])
        if isinstance(n,ast.Constant) and type(n.value) is bool: res.append((n,str(not n.value)))
        if isinstance(n,ast.Constant) and type(n.value) is float: res.append((n,str(n.value*10)))
        if isinstance(n,ast.Call):
            f=seg(n.func)
            if f in("sorted","reversed","deepcopy","set","tuple","list","abs","np.sort","np.unique","frozenset") and len(n.args)>=1: res.append((n,seg(n.args[0])))
            for a,b in(("min","max"),("max","min"),("any","all"),("all","any"),("np.maximum","np.minimum"),("np.vstack","np.hstack")):
                if f==a: res.append((n.func,b))
            if isinstance(n.func,ast.Attribute) and n.func.attr in("copy","tolist","strip") and not n.args: res.append((n,seg(n.func.value)))
            if isinstance(n.func,ast.Attribute) and n.func.attr in("all","any"): res.append((n.func,seg(n.func.value)+"."+("any" if n.func.attr=="all" else "all")))
        if isinstance(n,(ast.If,)): res.append((n.test,"(not (%s))"%seg(n.test)))
        if isinstance(n,ast.IfExp): res.append((n,"(%s if %s else %s)"%(seg(n.orelse),seg(n.test),seg(n.body))))
        if isinstance(n,ast.Continue): res.append((n,"break"))
        if isinstance(n,ast.Break): res.append((n,"continue"))
        if isinstance(n,(ast.Expr,ast.AugAssign,ast.Delete)) and not(isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant)): res.append((n,"pass"))
        if isinstance(n,ast.Assign) and isinstance(n.targets[0],(ast.Attribute,ast.Subscript)): res.append((n,"pass"))
        if isinstance(n,ast.Slice) and (n.lower or n.upper): res.append((n,":"))
    return res
def apply(src,n,new):
    b=src.encode().split(b"\n"); 
    off=lambda l,c: sum(len(x)+1 for x in b[:l-1])+c
    s=src.encode(); return (s[:off(n.lineno,n.col_offset)]+(("("+new+")") if isinstance(n,ast.expr) and not isinstance(n,ast.Slice) else new).encode()+s[off(n.end_lineno,n.end_col_offset):]).decode()
pool=[]
for f in sorted(glob.glob(R+"/inflation/**/*.py",recursive=True)):
    rel=os.path.relpath(f,R+"/inflation")
    if rel not in PR or not re.search(rx,rel): continue
    src=open(f).read()
    for n,new in cands(src):
        k="%s:%d"%(rel,n.lineno)
        if reach is not None and k not in reach: continue
        l=src.split("\n")[n.lineno-1]
        if "verbose" in l or "warn(" in l or "print(" in l: continue
        pool.append((rel,n,new,PR[rel].split() if reach is None else [c for c in PR[rel].split() if c in reach[k]] or reach[k][:3]))
rng.shuffle(pool)
o=open(out,"a"); done=0
for rel,n,new,cs in pool:
    if done>=N: break
    f=R+"/inflation/"+rel; src=open(f).read()
    try: m=apply(src,n,new); ast.parse(m)
    except Exception: continue
    old=ast.get_source_segment(src,n)
    open(f,"w").write(m); done+=1
    res=[]; killed=False
    for c in cs[:6]:
        try: r=subprocess.run([sys.executable,"lib/runner.py",c],cwd=W,env=dict(os.environ,VERIF_REPO=R),capture_output=True,text=True,timeout=400); rc=r.returncode
        except subprocess.TimeoutExpired: rc="T"
        res.append("%s:%s"%(c,rc))
        if rc!=0: killed=True; break
    open(f,"w").write(src)
    line="%s %s:%d  `%s` -> `%s`  %s"%("killed" if killed else "SURVIVED",rel,n.lineno,old.replace("\n","⏎")[:160],new.replace("\n","⏎")[:160]," ".join(res))
    o.write(line+"\n"); o.flush()
