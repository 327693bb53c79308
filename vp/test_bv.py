"""Self-test of the simplifier: random terms built with and without simplification must agree."""
import random
from . import bv
def raw(op,a,w,k=None):
    M=(1<<w)-1
    class X: pass
    n=X(); n.op=op; n.w=w; n.a=[type('c',(),{'w':y[1]}) for y in a]; n.k=k
    return bv._ev1(n,[y[0] for y in a],{})
def main(iters=20000,seed=1):
    r=random.Random(seed)
    bad=0
    for it in range(iters):
        ws=[1,3,8,8,16]
        vs=[(bv.var('x%d_%d'%(i,w),w),r.choice([0,(1<<w)-1,r.getrandbits(w),1<<(w-1)])) for i in range(3) for w in set(ws)]
        lo=r.randrange(200); hi=r.randrange(lo+1,256); vs.append((bv.var('rg%d'%it,8,lo,hi),r.randint(lo,hi)))
        model={bv.vname(v):c for v,c in vs}
        pool=[(v,c) for v,c in vs]
        for w in ws: 
            c=r.choice([0,1,(1<<w)-1,r.getrandbits(w)]); pool.append((bv.const(c,w),c&((1<<w)-1)))
        for st in range(14):
            op=r.choice(['not','and','or','xor','concat','zext','sext','ex','ite','add','sub','mul','udiv','urem','shl','lshr','ashr','clz','ctz','eq','ult','ule','slt','sle','add','add','ite','and','sub'])
            x=r.choice(pool)
            same=[p for p in pool if p[0].w==x[0].w]
            y=r.choice(same)
            w=x[0].w
            if op in('not','clz','ctz'):
                n=getattr(bv,{'not':'not_'}.get(op,op))(x[0]); 
                if op=='clz' and (1<<w)<=w: continue
                if op=='ctz' and (1<<w)<=w: continue
                e=raw(op,[(x[1],w)],w)
            elif op=='concat':
                y=r.choice(pool)
                if w+y[0].w>40: continue
                n=bv.concat(x[0],y[0]); e=raw(op,[(x[1],w),(y[1],y[0].w)],w+y[0].w)
            elif op in('zext','sext'):
                w2=w+r.randint(1,9)
                n=getattr(bv,op)(x[0],w2); e=raw(op,[(x[1],w)],w2)
            elif op=='ex':
                l=r.randrange(w); ww=r.randint(1,w-l); n=bv.extract(x[0],l,ww); e=raw(op,[(x[1],w)],ww,l)
            elif op=='ite':
                c=r.choice([p for p in pool if p[0].w==1]); n=bv.ite(c[0],x[0],y[0]); e=x[1] if c[1] else y[1]
            elif op in('eq','ult','ule','slt','sle'):
                n=getattr(bv,op)(x[0],y[0]); e=raw(op,[(x[1],w),(y[1],w)],1)
            else:
                n=getattr(bv,{'and':'and_','or':'or_','xor':'xor_'}.get(op,op))(x[0],y[0]); e=raw(op,[(x[1],w),(y[1],w)],w)
            g=bv.evaluate([n],model)[0]
            M=(1<<n.w)-1
            inb=((e-n.lo)&M)<=n.ln and (n.z&e)==0 and (n.o&~e)==0
            if g!=e or not inb or (n.z&n.o):
                print('BAD',op,x,y,n,g,e,inb); bad+=1
                if bad>5: return 1
            pool.append((n,e))
    return 1 if bad else 0
if __name__=='__main__':
    import sys
    rc=main(int(sys.argv[1]) if len(sys.argv)>1 else 20000); print('rc',rc); sys.exit(rc)
