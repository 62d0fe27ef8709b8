"""differential fuzz of the simplifier against z3's own semantics of the unsimplified expression"""
import random, sys
from terms import *
import terms as TM
import smt, z3
R = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
N = int(sys.argv[2]) if len(sys.argv) > 2 else 4000
WS = [8, 16, 32, 64]
A = arr('A')
def gen(w, d):
    """-> (term, z3 expr)"""
    if w == 0:
        k = R.choice(['eq','ult','slt','ule','sle','not','and','or','beq'])
        if k in ('not',):
            a, x = gen(0, d-1) if d>0 else (TRUE, z3.BoolVal(True))
            return bnot(a), z3.Not(x)
        if k in ('and','or','beq') and d>0:
            a,x=gen(0,d-1); b,y=gen(0,d-1)
            return {'and':band,'or':bor,'beq':beq}[k](a,b), {'and':z3.And,'or':z3.Or,'beq':lambda p,q:p==q}[k](x,y)
        ww=R.choice(WS)
        a,x=gen(ww,d-1); b,y=gen(ww,d-1)
        k = k if k in ('eq','ult','slt','ule','sle') else 'eq'
        return ({'eq':eq,'ult':ult,'slt':slt,'ule':ule,'sle':sle}[k](a,b),
                {'eq':lambda p,q:p==q,'ult':z3.ULT,'slt':lambda p,q:p<q,'ule':z3.ULE,'sle':lambda p,q:p<=q}[k](x,y))
    if d<=0 or R.random()<0.1:
        r=R.random()
        if r<0.35:
            c=R.choice([0,1,2,3,4,5,7,8,255,256,-1,-2,-8,1<<(w-1),(1<<(w-1))-1,R.getrandbits(w)])
            return bv(c,w), z3.BitVecVal(c,w)
        if r<0.5 and w==64:
            b=base(R.choice('pq')); return b, smt.tz3(b)
        if r<0.6:
            off=R.choice([0,1,2,4]); o,x=bv(off,64),z3.BitVecVal(off,64)
            t=rd(A,o,w//8); za=smt.tz3(A)
            bs=[z3.Select(za,z3.BitVecVal(off+i,64)) for i in range(w//8)]
            return t, (bs[0] if len(bs)==1 else z3.Concat(*reversed(bs)))
        n=R.choice('abc')
        if R.random()<0.5:
            lo,hi={'a':(0,10),'b':(1,100),'c':(5,120)}[n]
            v=var('%s%dr'%(n,w),w,lo,hi)
        else: v=var('%s%d'%(n,w),w)
        return v, smt.tz3(v)
    k=R.choice(['add','sub','mul','and','or','xor','shl','lshr','ashr','zext','sext','trunc','concat','ite','add','mulc','extract','udiv','urem','sdiv','srem'])
    if k in ('add','sub','mul','and','or','xor'):
        a,x=gen(w,d-1); b,y=gen(w,d-1)
        return {'add':add,'sub':sub,'mul':mul,'and':and_,'or':or_,'xor':xor}[k](a,b), {'add':x+y,'sub':x-y,'mul':x*y,'and':x&y,'or':x|y,'xor':x^y}[k]
    if k in ('udiv','urem','sdiv','srem'):
        a,x=gen(w,d-1); c=R.choice([1,2,3,8,10]); b,y=bv(c,w),z3.BitVecVal(c,w)
        return {'udiv':udiv,'urem':urem,'sdiv':sdiv,'srem':srem}[k](a,b), {'udiv':z3.UDiv(x,y),'urem':z3.URem(x,y),'sdiv':x/y,'srem':z3.SRem(x,y)}[k]
    if k=='mulc':
        a,x=gen(w,d-1); c=R.choice([-1,2,3,4,8,-4]); return mulc(a,c), x*z3.BitVecVal(c,w)
    if k in ('shl','lshr','ashr'):
        a,x=gen(w,d-1); c=R.randrange(0,w); 
        if R.random()<0.3: b,y=gen(w,0)
        else: b,y=bv(c,w),z3.BitVecVal(c,w)
        return {'shl':shl,'lshr':lshr,'ashr':ashr}[k](a,b), {'shl':x<<y,'lshr':z3.LShR(x,y),'ashr':x>>y}[k]
    if k in ('zext','sext'):
        sm=[q for q in WS if q<w]
        if not sm: return gen(w,d-1)
        q=R.choice(sm); a,x=gen(q,d-1)
        return (zext if k=='zext' else sext)(a,w), (z3.ZeroExt if k=='zext' else z3.SignExt)(w-q,x)
    if k in ('trunc','extract'):
        bg=[q for q in WS if q>w]
        if not bg: return gen(w,d-1)
        q=R.choice(bg); a,x=gen(q,d-1)
        lo=0 if k=='trunc' else R.choice([0,8,R.randrange(0,q-w+1)])
        lo=min(lo,q-w)
        return extract(a,lo+w-1,lo), z3.Extract(lo+w-1,lo,x)
    if k=='concat':
        if w==8: return gen(w,d-1)
        a,x=gen(w//2,d-1); b,y=gen(w//2,d-1)
        return concat(a,b), z3.Concat(x,y)
    if k=='ite':
        c,p=gen(0,d-2); a,x=gen(w,d-1); b,y=gen(w,d-1)
        return ite(c,a,b), z3.If(p,x,y)
bad=0
for it in range(N):
    TM.DISTINCT_BASES=False
    w=R.choice([0]+WS)
    t,e=gen(w,4)
    # compare on random assignment incl. ranges
    s=z3.Solver()
    leaves=[x for x in free(t) if not isinstance(x,tuple)]
    for a in smt.axioms([t]): s.add(a)
    # leaves of e may be more: add all ranges
    for v in list(TM.VARS.values()):
        if v.w>0 and (v.lo>0 or v.hi<mask(v.w)):
            s.add(z3.UGE(smt.tz3(v),v.lo), z3.ULE(smt.tz3(v),v.hi))
    for p in 'pq':
        b=base(p); s.add(z3.UGE(smt.tz3(b),b.lo),z3.ULE(smt.tz3(b),b.hi),z3.Extract(3,0,smt.tz3(b))==0)
    s.add(smt.tz3(t)!=e)
    if w>0 :
        pass
    s.set('timeout',1500)
    r=s.check()
    if r==z3.sat:
        bad+=1
        print('MISMATCH',t,'\n  vs',e,'\n ',s.model())
        if bad>5: break
    # check range claims
    if w>0 and (t.lo>0 or t.hi<mask(w)):
        s2=z3.Solver(); s2.set('timeout',1500)
        for v in list(TM.VARS.values()):
            if v.w>0 and (v.lo>0 or v.hi<mask(v.w)):
                s2.add(z3.UGE(smt.tz3(v),v.lo), z3.ULE(smt.tz3(v),v.hi))
        for p in 'pq':
            b=base(p); s2.add(z3.UGE(smt.tz3(b),b.lo),z3.ULE(smt.tz3(b),b.hi),z3.Extract(3,0,smt.tz3(b))==0)
        s2.add(z3.Or(z3.ULT(e,t.lo),z3.UGT(e,t.hi)))
        if s2.check()==z3.sat:
            bad+=1; print('RANGE',t,t.lo,t.hi,e)
print('done',N,'bad',bad)
sys.exit(1 if bad else 0)
