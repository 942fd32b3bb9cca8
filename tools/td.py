import sys,time
import os;R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)));sys.path[:0]=[R,R+'/checks']
import importlib
from common import *
from engine import ranges, lib, signnorm
mod=importlib.import_module(sys.argv[1]); pat=sys.argv[2]; T=float(sys.argv[3]); kw=eval("dict(%s)"%(sys.argv[4] if len(sys.argv)>4 else ""))
sys.argv=sys.argv[:1]
obs=[o for o in mod.obligations(os.environ.get("TIER","thorough")) if pat in o.label and (not hasattr(o,'config') or o.config=='arch')]
import multiprocessing as mp
def go(i):
    o=obs[i]
    try:
        t0=time.time(); sg=o.sign; qs=lib.encode_ob(o); out=[]
        for q in qs:
            out.append(ranges.decide(q,T,("kissat","z3"),sign=sg,**kw))
        return (o.label,"%.1f"%(time.time()-t0),[(a,b,str(c)[:160]) for a,b,c in out])
    except Exception as e:
        import traceback; return (o.label,traceback.format_exc()[-150:].replace(chr(10),' | '))
with mp.Pool(8) as p:
    for r in p.imap_unordered(go,range(len(obs))): print(*r,flush=True)
