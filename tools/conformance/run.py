"""Compares the analyser with Python itself on some 150 small idioms (no check uses this)."""
import sys, os, shutil, subprocess, json
import tempfile
HERE=os.path.dirname(os.path.abspath(__file__)); SA=os.path.join(HERE,'..','..','sa')
sys.path[:0]=[SA,SA+'/checks']
R=tempfile.mkdtemp(prefix='conf-'); os.rmdir(R)
import atexit; atexit.register(shutil.rmtree, R, True); shutil.copytree('/repo/bicycleparameters', R+'/bicycleparameters')
shutil.copy(HERE+'/idioms.py', R+'/bicycleparameters/idioms.py')
os.environ['SA_REPO']=R
import an, values as V, ring
c=an.Ctx('C32','quick',1); a=c.analysis()
# truth
T=subprocess.run(['/opt/venv/bin/python','-c','''
import sys; sys.path.insert(0,"%s")
import idioms, numpy as np, json
def j(x):
    if isinstance(x,(bool,np.bool_)): return bool(x)
    if isinstance(x,(np.ndarray,)): return [j(y) for y in x] if x.ndim else j(x.item())
    if isinstance(x,(complex,np.complexfloating)): return ["c",float(np.real(x)),float(np.imag(x))]
    if isinstance(x,(int,float,np.number)): return float(x)
    if isinstance(x,(list,tuple)): return [j(y) for y in x]
    if isinstance(x,dict): return {str(float(k)) if isinstance(k,int) else str(k):j(v) for k,v in x.items()}
    if isinstance(x,str) or x is None: return x
    return "<%s>"%type(x).__name__
out={}
for k in dir(idioms):
    if k.startswith("f_"):
        try: out[k]=j(getattr(idioms,k)())
        except Exception as e: out[k]="EXC %r"%e
print(json.dumps(out))
'''.replace('%s")',HERE+'")')],capture_output=True,text=True); 
if T.returncode: print(T.stderr[-2000:]); sys.exit()
truth=json.loads(T.stdout)
def reshape(items, shape):
    if not shape: return items[0]
    if len(shape)==1: return list(items)
    n=len(items)//shape[0] if shape[0] else 0
    return [reshape(items[i*n:(i+1)*n], shape[1:]) for i in range(shape[0])]
def conv(x):
    if x is V.NONE: return None
    if x is V.TRUE: return True
    if x is V.FALSE: return False
    if isinstance(x,V.Num):
        v=ring.Point('a').rf(x.rf)
        if isinstance(v,complex): return ['c',v.real,v.imag] if abs(v.imag)>1e-12 or x.k=='c' else v.real
        return float(v)
    if isinstance(x,V.Str): return x.lit if x.lit is not None else '<str %s>'%V.show(x)
    if isinstance(x,V.Tup): return [conv(y) for y in x.items]
    if isinstance(x,V.Frozen):
        if x.kind=='array': return reshape([conv(y) for y in x.items], x.meta)
        if x.kind in('list','set','tuple'): return [conv(y) for y in x.items]
        if x.kind=='dict': return {str(conv(x.items[i])):conv(x.items[i+1]) for i in range(0,len(x.items),2)}
    return '<%s>'%V.show(x,3)
def same(p,q):
    if isinstance(p,float) and isinstance(q,(float,bool)) or isinstance(q,float) and isinstance(p,(bool,)): return abs(p-q)<=1e-9*(1+abs(q))
    if isinstance(p,float) and isinstance(q,list) and len(q)==3 and q[0]=='c': return abs(q[2])<1e-12 and abs(p-q[1])<1e-9
    if isinstance(p,list) and isinstance(q,list): return len(p)==len(q) and all(same(x,y) for x,y in zip(p,q))
    if isinstance(p,dict) and isinstance(q,dict): return p.keys()==q.keys() and all(same(p[k],q[k]) for k in p)
    return p==q and type(p)==type(q)
def diffs(p,q,path=''):
    if isinstance(p,list) and isinstance(q,list) and len(p)==len(q):
        for i,(x,y) in enumerate(zip(p,q)): yield from diffs(x,y,path+'[%d]'%i)
    elif not same(p,q): yield path,p,q
only=sys.argv[1:]
for k in truth:
    if only and k not in only: continue
    try:
        r=a.call(a.get('idioms',k),[],{},a.state())
        if not r.returns: print('RAISES',k,[str(x.exc[0])+' '+V.show(x.exc[1],2)[:80] for x in r.raised], 'unsure', len(r.unsure)); continue
        got=conv(r.frozen())
    except Exception as e:
        print('ERR',k,type(e).__name__,str(e)[:150]); continue
    if not same(got,truth[k]):
        for p,g,t in list(diffs(got,truth[k]))[:4]: print('DIFF',k+p,'got',str(g)[:120],'want',str(t)[:120])
