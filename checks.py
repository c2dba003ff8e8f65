"""Which check programs decide which property, and over which bounded spaces."""
PRIM='thls/tops/fp_flopoco_primitives.hpp'
def gen(name,header,lines,pre='',defs=()):
    hs=[header] if isinstance(header,str) else header
    head='#include "ops.hpp"\n'+''.join('#include "%s"\n'%h for h in hs)+'using namespace sp;\n'+pre+'\nvoid register_spaces(){\n'
    return dict(name=name,defs=list(defs),head=head,lines=list(lines),text=head+'\n'.join(lines)+'\n}\n')
def chunk(l,n):
    return [l[i::n] for i in range(n) if l[i::n]]

BIN='''
#define OP_(ER,FR) [](auto x,auto y){ return thls::%(fn)s<ER,FR>(x,y%(arg)s); }
#define RAW(E,F,T) bin_full<E,F,E,F,E,F>("%(fn)s",%(ref)s,OP_(E,F),true,T);
#define FULL(ER,FR,EX,FX,EY,FY,T) bin_full<ER,FR,EX,FX,EY,FY>("%(fn)s",%(ref)s,OP_(ER,FR),false,T);
#define EDGE(ER,FR,EX,FX,EY,FY,fl,el,w,T) bin_edge<ER,FR,EX,FX,EY,FY>("%(fn)s",%(ref)s,OP_(ER,FR),fl,el,w,T);
#define LIST(E,F,...) bin_list<E,F,E,F,E,F>("%(fn)s",%(ref)s,OP_(E,F),{__VA_ARGS__});
#define REFV(ER,FR,EX,FX,EY,FY,fl,w) ref_validate<ER,FR,EX,FX,EY,FY>(%(ref)s,fl,w,0);
'''
def raw(e,f): return 'RAW(%d,%d,0)'%(e,f)
def full(*a): 
    if len(a)==2: a=a*3
    return 'FULL(%d,%d,%d,%d,%d,%d,0)'%a
def edge(a,fl,el,w):
    if len(a)==2: a=a*3
    return 'EDGE(%d,%d,%d,%d,%d,%d,%d,%d,%d,0)'%(tuple(a)+(fl,el,w))
def refv(a,fl,w):
    if len(a)==2: a=a*3
    return 'REFV(%d,%d,%d,%d,%d,%d,%d,%d)'%(tuple(a)+(fl,w))

def promote_mixed(ps): return [(max(a[0],b[0]),max(a[1],b[1]))+a+b for a,b in ps]

CHECKS={}

# every fraction width the property's own lists leave out, with the small alphabets
def sweep(fn,have,lo=1,hi=62,es=(4,5,6,7,8)): return [fn((es[f%len(es)],f)) for f in range(lo,hi+1) if f not in have]
def sweeps(u,name,header,have,fn,n=6,pre='',**k):
    for i,c in enumerate(chunk(sweep(fn,have,**k),n)): u.append(gen('%s%d'%(name,i),header,c,pre))

def traced(fn,ref,hs,lines,name=''):
    """the same operation with its tracing argument on"""
    return gen(name+'traced',hs,lines,(BIN%dict(fn=fn,arg=',1',ref=ref)).replace('("%s"'%fn,'("%s traced"'%fn))


def grid(fmax,extra=()):
    """every exponent width 4..12 and every fraction width 2..fmax at least once, plus named formats"""
    s=set()
    for f in range(2,fmax+1): s.add((4+(f*2)%9,f))
    for e in range(4,13): s.add((e,e+3)); 
    s|={(5,10),(8,7),(8,23),(11,52)}; s|=set(extra)
    return sorted(x for x in s if x[1]<=fmax)

WIDE=[(13,20),(14,31),(15,58),(16,10),(16,40),(8,61),(8,62)] # wide exponents, and fractions at the limits of the 128 bit integers below

def units_add(tier):
    d=dict(fn='add',arg='',ref='REF_ADD'); pre=BIN%d; u=[]
    u.append(gen('full',PRIM,[raw(4,3),raw(4,4)]+[full(*f) for f in [(4,2),(4,5),(4,6),(4,7),(5,2),(5,3),(5,4),(5,5),(5,6),(6,3),(6,4),(6,5),(7,3),(8,2)]]
        +[refv((4,3),3,8),refv((8,23),1,27),refv((11,52),1,56),refv((8,23,5,10,8,23),1,27)],pre))
    mixed_small=promote_mixed([((4,3),(5,4)),((5,3),(4,5)),((6,3),(4,4)),((4,2),(4,6)),((7,2),(4,5)),((4,6),(6,2))])
    mixed_big=promote_mixed([((5,10),(8,23)),((8,7),(5,10)),((8,23),(11,52)),((11,20),(6,33)),((4,30),(9,12)),((12,9),(4,17))])
    u.append(gen('mixed',PRIM,[full(*m) for m in mixed_small]+[edge(m,1,1,m[1]+4) for m in mixed_big],pre))
    ext=[(4,f) for f in (8,9,10,11,12,13,14,20,28,29,30,31,33,34,44,53)]+[(5,f) for f in (13,28,29,30,31,40)]+[(6,29),(11,53)]+WIDE+[(4,61),(7,61)]
    g=grid(62,ext)
    for i,c in enumerate(chunk(g,8 if tier=='quick' else 14)):
        u.append(gen('edge%d'%i,PRIM,[edge(f,1 if f[1]>=12 and tier=='quick' else 2,1,f[1]+4) for f in c],pre))
    if tier=='thorough':
        u.append(gen('tfull',PRIM,[full(*f) for f in [(4,8),(4,9),(5,7),(5,8),(6,6),(6,7),(7,5),(7,6),(8,4),(8,5),(5,10),(8,7)]],pre))
        allg=[(e,f) for e in range(4,13) for f in range(3,33)]
        for i,c in enumerate(chunk(allg,24)): u.append(gen('grid%d'%i,PRIM,[edge(f,1,0,f[1]+4) for f in c],pre))
        for i,c in enumerate(chunk([(8,23),(5,10),(8,7),(11,52),(6,17),(9,31)],3)): u.append(gen('deep%d'%i,PRIM,[edge(f,3,2,f[1]+6) for f in c],pre))
    u.append(traced('add','REF_ADD',[PRIM],[full(4,2),full(4,3),full(5,2),full(5,2,4,2,5,1),edge((8,23),0,0,3),edge((8,23,5,10,8,23),0,0,3)]))
    return u
CHECKS['P01']=dict(units=units_add,level='model_checking')

UN='''
#define UF(nm,EXPR,J,ER,FR,EX,FX) unary_full<ER,FR,EX,FX>(nm,[](u128 v){ auto x=mkfp<EX,FX>(v); return rawfp(EXPR); },J);
#define UE(nm,EXPR,J,ER,FR,EX,FX,L) unary_edge<ER,FR,EX,FX>(nm,[](u128 v){ auto x=mkfp<EX,FX>(v); return rawfp(EXPR); },J,L);
#define UC(nm,EXPR,J,ER,FR,EX,FX,K,L,...) unary_cells<ER,FR,EX,FX>(nm,[](u128 v){ auto x=mkfp<EX,FX>(v); return rawfp(EXPR); },J,K,L,{__VA_ARGS__});
#define UQ(nm,EXPR,J,ER,FR,EX,FX,...) unary_fracs<ER,FR,EX,FX>(nm,[](u128 v){ auto x=mkfp<EX,FX>(v); return rawfp(EXPR); },J,{__VA_ARGS__});
'''
def us(kind,nm,expr,judge,f,*extra):
    if len(f)==2: f=f*2
    e=(expr.replace('@',"%d,%d"%f[:2]))
    return '%s("%s",(%s),%s,%s)'%(kind,nm,e,judge,','.join(map(str,list(f)+list(extra))))+';'
def top(e): return [0,1,2**(e-1)-1,2**e-3,2**e-2,2**e-1]

def units_mul(tier):
    d=dict(fn='mul',arg='',ref='REF_MUL'); pre=BIN%d; u=[]
    u.append(gen('full',PRIM,[raw(4,3)]+[full(*f) for f in [(2,2),(3,3),(4,1),(4,2),(4,4),(4,5),(4,6),(4,7),(5,2),(5,3),(5,4),(5,5),(5,6),(6,3),(6,4),(6,5),(7,3),(8,2)]]
        +[refv((4,3),3,8),refv((8,23),2,3),refv((11,52),1,3),refv((8,12,8,23,8,7),1,3)],pre))
    res=[(5,fr,5,fx,5,fy) for fx,fy in ((3,3),(3,4),(5,2),(2,2)) for fr in range(1,fx+fy+6)]
    for i,c in enumerate(chunk(res,3)): u.append(gen('resw%d'%i,PRIM,[full(*m) for m in c],pre))
    big=[(8,7,8,23,8,23),(8,23,8,7,8,7),(8,23,8,7,8,23),(8,47,8,23,8,23),(8,50,8,23,8,23),(5,21,5,10,5,10),(11,52,11,23,11,52),(8,15,8,7,8,7),(9,31,9,10,9,20),(9,32,9,10,9,20),(9,30,9,10,9,20),(6,40,6,12,6,31),(6,12,6,31,6,12)]
    u.append(gen('mixed',PRIM,[edge(m,1,1,1) for m in big],pre))
    SQ=lambda k,f,*x: us(k,'square','thls::square<@,%d,%d,%d,%d>(x,0)'%(tuple(f[-2:])*2),'ok_sqr',f,*x)
    u.append(gen('square',['mpio.hpp',PRIM],[SQ('UF',f) for f in [(2,2),(3,3),(4,3),(4,6),(5,10),(8,7),(4,4,4,3),(4,2,4,4),(4,9,4,4)]]+[SQ('UE',f,2) for f in [(8,23),(11,52),(7,31),(8,10,8,23),(8,47,8,23)]],UN))
    g=grid(62,[(4,f) for f in (13,30,32)]+[(3,11),(2,9),(12,53)]+WIDE)
    for i,c in enumerate(chunk(g,6 if tier=='quick' else 12)):
        u.append(gen('edge%d'%i,PRIM,[edge(f,2,1,1) for f in c],pre))
    if tier=='thorough':
        u.append(gen('tfull',PRIM,[full(*f) for f in [(4,8),(4,9),(5,7),(5,8),(6,6),(6,7),(7,5),(7,6),(8,4),(8,5),(5,10),(8,7)]],pre))
        allg=[(e,f) for e in range(4,13) for f in range(3,33)]
        for i,c in enumerate(chunk(allg,24)): u.append(gen('grid%d'%i,PRIM,[edge(f,2,0,1) for f in c],pre))
        for i,c in enumerate(chunk([(8,23),(5,10),(8,7),(11,52),(6,17),(9,31)],3)): u.append(gen('deep%d'%i,PRIM,[edge(f,3,2,2) for f in c],pre))
    u.append(traced('mul','REF_MUL',[PRIM],[full(3,2),full(4,2),full(4,3),full(4,4,4,2,4,3),full(4,7,4,2,4,3),edge((8,23),0,0,1),edge((8,7,8,23,8,23),0,0,0),edge((8,47,8,23,8,23),0,0,0)]))
    return u
CHECKS['P02']=dict(units=units_mul,level='model_checking')

def units_div(tier):
    d=dict(fn='div',arg='',ref='REF_DIV'); pre=BIN%d; u=[]
    u.append(gen('full',PRIM,[raw(4,3)]+[full(*f) for f in [(2,2),(3,3),(4,2),(4,4),(4,5),(4,6),(4,7),(5,2),(5,3),(5,4),(5,5),(5,6),(6,3),(6,4),(6,5),(7,3),(8,2)]]
        +[refv((4,3),3,8),refv((8,23),2,3),refv((11,52),1,3),refv((8,23,5,10,8,23),1,3)],pre))
    mixed_small=promote_mixed([((4,3),(5,4)),((5,3),(4,5)),((6,3),(4,4)),((4,2),(4,6)),((7,2),(4,5)),((4,6),(6,2))])
    mixed_big=promote_mixed([((5,10),(8,23)),((8,7),(5,10)),((8,23),(11,52)),((11,20),(6,33)),((4,30),(9,12)),((12,9),(4,17))])
    u.append(gen('mixed',PRIM,[full(*m) for m in mixed_small]+[edge(m,1,1,1) for m in mixed_big],pre))
    g=grid(62,[(4,f) for f in (13,30,32)]+[(3,11),(2,9)]+WIDE)
    for i,c in enumerate(chunk(g,8 if tier=='quick' else 12)):
        u.append(gen('edge%d'%i,PRIM,[edge(f,2,0 if tier=='quick' else 1,1) for f in c],pre))
    if tier=='thorough':
        u.append(gen('tfull',PRIM,[full(*f) for f in [(4,8),(4,9),(5,7),(5,8),(6,6),(6,7),(7,5),(7,6),(8,4),(8,5),(5,10),(8,7)]],pre))
        allg=[(e,f) for e in range(4,13) for f in range(3,33)]
        for i,c in enumerate(chunk(allg,24)): u.append(gen('grid%d'%i,PRIM,[edge(f,2,0,1) for f in c],pre))
        for i,c in enumerate(chunk([(8,23),(5,10),(8,7),(11,52),(6,17),(9,31)],3)): u.append(gen('deep%d'%i,PRIM,[edge(f,3,1,1) for f in c],pre))
    u.append(traced('div','REF_DIV',[PRIM],[full(3,2),full(4,2),full(4,3),full(4,3,4,3,4,2),edge((8,23),0,0,0),edge((8,24),0,0,0)]))
    return u
CHECKS['P03']=dict(units=units_div,level='model_checking')

def units_inv(tier):
    I=lambda k,f,*x: us(k,'inv','thls::inv<@>(x)','ok_inv',f,*x); u=[]
    u.append(gen('full',PRIM,[I('UF',f) for f in [(2,2),(3,2),(4,2),(4,3),(4,4),(4,5),(4,6),(4,7),(4,8),(4,9),(5,5),(5,10),(6,8),(8,2),(8,7),(8,8),(7,12),(4,14)]],UN))
    u.append(gen('fracs',PRIM,[I('UQ',(e,f),*top(e)) for e,f in [(4,16),(5,18),(8,20),(8,19)]]+[I('UQ',(8,23),127,254)],UN))
    g=[f for f in grid(62,[(12,52),(3,9)]+WIDE)]
    for i,c in enumerate(chunk(g,6)): u.append(gen('edge%d'%i,PRIM,[I('UE',f,3) for f in c],UN))
    for i,c in enumerate(chunk([(4+f%9,f) for f in range(15,63)],4)): u.append(gen('cells%d'%i,PRIM,[I('UC',f,7 if tier=='quick' else 12,1,2**(f[0]-1)-1) for f in c],UN))
    if tier=='thorough':
        for i,c in enumerate(chunk([(e,f) for e in range(4,13) for f in range(2,63)],24)): u.append(gen('grid%d'%i,PRIM,[I('UE',f,3) for f in c],UN))
        u.append(gen('tfracs',PRIM,[I('UQ',(8,23),*top(8))]+[I('UQ',(4,f),7,13) for f in range(21,29)]+[I('UF',(8,16)),I('UF',(4,20))],UN))
    u.append(gen('traced',PRIM,[us('UF','inv traced','thls::inv<@>(x,1)','ok_inv',f) for f in [(3,2),(4,3),(4,6),(5,5)]]+[us('UE','inv traced','thls::inv<@>(x,1)','ok_inv',f,0) for f in [(8,23),(8,24)]],UN))
    return u
CHECKS['P04']=dict(units=units_inv,level='model_checking')

def units_invf(tier):
    N=lambda k,f,*x: us(k,'inv_faithful','thls::inv_faithful<@>(x)','ok_inv_faithful',f,*x)
    D=lambda k,f,*x: us(k,'inv_direct','thls::inv_direct<@>(x,0)','ok_inv',f,*x); u=[]
    for i,c in enumerate(chunk(list(range(2,19)),3)): u.append(gen('full%d'%i,PRIM,[N('UF',(4,f)) for f in c],UN))
    u.append(gen('fullx',PRIM,[N('UF',f) for f in [(5,10),(8,7),(8,16),(8,12,8,10),(8,10,8,12),(4,7,4,16),(4,16,4,7),(4,3,4,9),(4,9,4,3)]],UN))
    u.append(gen('direct',PRIM,[D('UF',f) for f in [(4,2),(4,3),(4,4),(4,8),(5,10),(8,16),(8,8,8,16),(8,12,8,10),(8,10,8,12),(4,3,4,12),(4,20,4,5)]],UN))
    u.append(gen('fracs',PRIM,[N('UQ',f,*top(8)[1:5:2]) for f in [(8,23),(8,20,8,23),(8,23,8,20),(8,27,8,23),(8,19),(8,21),(8,22,8,21)]],UN))
    g=[(4+f%9,f) for f in range(14,59)]+[(13,20),(14,31),(15,50),(16,40),(16,14)]+[(8,31,8,23),(8,23,8,31),(11,52),(11,30,11,52)]
    for i,c in enumerate(chunk(g,5)): u.append(gen('edge%d'%i,PRIM,[N('UE',f,3) for f in c],UN))
    cf=[(4+f%9,f) for f in range(14,59)]+[(8,fr,8,fy) for fr,fy in [(23,31),(31,23),(20,28),(28,20),(16,24),(24,16),(15,40),(40,15),(32,33),(33,32),(30,29),(52,30),(30,52)]]+[(11,52)]
    for i,c in enumerate(chunk(cf,5)): u.append(gen('cells%d'%i,PRIM,[N('UC',f,11 if tier=='quick' else 14,1,2**(f[0]-1)-1,2**f[0]-3) for f in c],UN))
    if tier=='thorough':
        for i,c in enumerate(chunk([(8,fr,8,fy) for fr in range(18,28) for fy in range(18,25)],12)): u.append(gen('tf%d'%i,PRIM,[N('UQ',f,1,253) for f in c],UN))
        for i,c in enumerate(chunk([(4,f) for f in range(24,30)],3)): u.append(gen('tl%d'%i,PRIM,[N('UQ',f,7,13) for f in c],UN))
        u.append(gen('tfull',PRIM,[N('UF',f) for f in [(4,19),(4,20),(4,21),(4,22),(4,23),(8,23)]],UN))
    u.append(gen('traced',PRIM,[us('UF','inv_faithful traced','thls::inv_faithful<@>(x,1)','ok_inv_faithful',f) for f in [(4,3),(4,6),(5,9),(4,8,4,12)]]+[us('UF','inv_direct traced','thls::inv_direct<@>(x,1)','ok_inv',f) for f in [(4,3),(5,6),(4,4,4,8)]],UN))
    return u
CHECKS['P05']=dict(units=units_invf,level='model_checking')

def units_alt(tier):
    A='thls/tops/fp_flopoco_add_single_%s.hpp'; u=[]
    def pre(fn,arg=''): return BIN%dict(fn=fn,arg=arg,ref='REF_ADD')
    for v in ('v1','v2','v4','v5'):
        fn='add_single_v5' if v=='v5' else 'add_single'
        fl=[full(*f) for f in [(2,2),(2,7),(3,2),(3,3),(3,6),(4,2),(4,3),(4,4),(4,5),(4,6),(5,2),(5,3),(5,4),(5,5),(6,3),(6,4)]]
        if v=='v5': fl+=[full(*m) for m in promote_mixed([((4,3),(5,4)),((4,4),(4,2)),((4,2),(4,4)),((5,3),(4,5)),((4,6),(4,3))])]+[edge(m,1,1,m[1]+4) for m in promote_mixed([((8,15),(8,16)),((8,30),(8,20)),((8,23),(5,10)),((6,12),(7,40))])]
        u.append(gen(v+'full',A%v,fl,pre(fn)))
        fs=[(4,13),(4,20),(4,26),(4,27),(4,28),(4,35),(4,53),(5,13),(5,12),(5,29),(6,28),(6,29),(6,30),(7,31),(8,7),(8,10),(8,23),(8,32),(11,52),(6,10),(9,33),(5,44),(13,20),(16,40),(6,58),(7,61),(8,62)]
        if tier=='thorough': fs=[(e,f) for e in (4,5,6,8,11,14) for f in range(7,63)]
        for i,c in enumerate(chunk(fs,1 if tier=='quick' else 6)): u.append(gen('%sedge%d'%(v,i),A%v,[edge(f,1 if tier=='quick' else 2,1,f[1]+4) for f in c],pre(fn)))
    f3=[(e,f) for f in range(11,27) for e in (4,5,6,8)]+[(13,20),(16,26)]
    for i,c in enumerate(chunk(f3,2)): u.append(gen('v3edge%d'%i,A%'v3',[edge(f,1,1 if tier=='quick' else 2,f[1]+4) for f in c],pre('add_single')))
    u.append(gen('small',A%'v1',[full(4,4),full(5,3),edge((8,23),1,1,27)],pre('add_small')))
    u.append(gen('fast','thls/tops/fp_flopoco_add_dual_v1.hpp',[full(4,4),full(5,3),full(4,6),edge((8,23),1,1,27)],pre('add_fast')))
    d=BIN%dict(fn='div_v2',arg=',0',ref='REF_DIV'); D='thls/tops/fp_flopoco_div_v2.hpp'
    u.append(gen('d2full',D,[full(*f) for f in [(4,2),(4,3),(4,4),(4,5),(4,6),(5,2),(5,3),(5,4),(5,5),(6,3),(6,4),(7,3)]]+[full(*m) for m in promote_mixed([((4,3),(5,4)),((5,3),(4,5)),((4,6),(6,2))])],d))
    fs=[(5,10),(8,7),(8,23),(8,24),(11,52),(6,17),(9,31),(4,53),(4,9),(12,12),(13,20),(16,40),(8,61),(8,62)] if tier=='quick' else [(4+f%13,f) for f in range(7,63)]
    for i,c in enumerate(chunk(fs,2 if tier=='quick' else 6)): u.append(gen('d2edge%d'%i,D,[edge(f,2,0 if tier=='quick' else 1,1) for f in c],d))
    if tier=='thorough':
        u.append(gen('d2tf',D,[full(*f) for f in [(4,7),(4,8),(5,6),(5,7),(6,5),(6,6)]],d))
        for v in ('v1','v2','v4','v5'):
            u.append(gen(v+'tf',A%v,[full(*f) for f in [(4,7),(4,8),(5,6),(5,7),(6,5),(6,6)]],pre('add_single_v5' if v=='v5' else 'add_single')))
    for v in ('v1','v2','v3','v4','v5'):
        u.append(traced('add_single_v5' if v=='v5' else 'add_single','REF_ADD',[A%v],[full(4,2),full(4,3)]+[edge((8,23),0,0,3)] if v!='v3' else [edge((8,23),0,0,3),edge((4,11),0,0,2)],v))
    u.append(traced('div_v2','REF_DIV',[D],[full(4,2),full(4,3),edge((8,23),0,0,0)],'d2'))
    if tier=='quick':
        for v in ('v1','v2','v4','v5'): sweeps(u,v+'widths',A%v,tuple(range(1,14))+(20,23,26,27,28,29,30,31,32,33,35,40,44,52,53,58,61,62),lambda f: edge(f,0,0,3),pre=pre('add_single_v5' if v=='v5' else 'add_single'),lo=14,n=2,es=(5,6,7))
        sweeps(u,'d2widths',D,tuple(range(1,8))+(10,12,17,20,23,24,31,40,52,53,61,62),lambda f: edge(f,0,0,1),pre=d,lo=8,n=3,es=(4,5,6,7))
    return u
CHECKS['P06']=dict(units=units_alt,level='model_checking')

def tcall(fn,*targs,args=()): return '%s<%s>(%s);'%(fn,','.join(map(str,targs)),','.join(map(str,args)))
def units_cmp(tier):
    O='ordc.hpp'; q=tier=='quick'; u=[]
    C=lambda a,b,k: tcall('cmp_space',*(a+b),args=(k,))
    u.append(gen('raw',O,[C(a,a,2) for a in [(2,1),(2,2),(3,2),(4,2),(4,3),(3,4),(5,2)]+([] if q else [(4,5),(5,4),(6,3)])]))
    u.append(gen('rawmix',O,[C(a,b,2) for a,b in [((3,2),(2,3)),((2,3),(3,2)),((4,2),(2,4)),((3,3),(3,4)),((4,3),(3,3)),((5,2),(3,3)),((3,4),(3,2))]]))
    u.append(gen('norm',O,[C(a,a,1) for a in [(4,5),(5,4),(6,3)]+([] if q else [(4,7),(5,6),(7,4),(8,3)])]))
    for i,c in enumerate(chunk([(4,10),(5,10),(8,7),(8,23),(11,52),(6,20),(9,31),(7,32),(12,40),(10,60),(13,20),(16,58)],2)): u.append(gen('edge%d'%i,O,[C(a,a,0) for a in c]))
    u.append(gen('edgemix',O,[C(a,b,0) for a,b in [((8,23),(5,10)),((5,10),(8,23)),((8,7),(8,23)),((11,52),(8,23)),((8,23),(11,52)),((4,30),(9,12)),((12,9),(4,17)),((7,31),(7,33))]]))
    sweeps(u,'widths',O,(1,2,3,4,5,7,10,20,23,31,32,40,52,58,60),lambda f: C(f,f,0).replace('(0)','(0,0,0)'))
    sweeps(u,'neighbours',O,(1,2,3),lambda f: C(f,(f[0],f[1]-1),0).replace('(0)','(0,0,0)'))
    return u
CHECKS['P07']=dict(units=units_cmp,level='model_checking')

def units_limits(tier):
    R='rel.hpp'; u=[]
    u.append(gen('full',R,[tcall('walk_space',*f,args=('true',)) for f in [(2,1),(2,2),(3,2),(2,5),(4,3),(4,6),(5,5),(5,10),(8,2),(8,7),(6,8)]]))
    ed=[(8,23),(11,52),(4,20),(6,31),(7,32),(9,33),(5,60),(12,53),(4,12),(10,14),(14,20),(16,58)]
    if tier!='quick': ed+= [(e,f) for e in range(4,13) for f in (7,15,24,29,30,37,48,62)]
    for i,c in enumerate(chunk(ed,2 if tier=='quick' else 8)): u.append(gen('edge%d'%i,R,[tcall('walk_space',*f,args=('false',)) for f in c]))
    if tier!='quick': u.append(gen('tfull',R,[tcall('walk_space',*f,args=('true',)) for f in [(8,14),(5,17),(4,20)]]))
    sweeps(u,'widths',R,(1,2,3,5,6,7,8,10,12,14,20,23,31,32,33,52,53,58,60),lambda f: tcall('walk_space',*f,args=('false',0)))
    return u
CHECKS['P12']=dict(units=units_limits,level='model_checking')

def units_pred(tier):
    R='rel.hpp'; u=[]
    u.append(gen('full',R,[tcall('pred_space',*f,args=('true',)) for f in [(2,1),(2,2),(3,2),(2,4),(4,3),(3,4),(5,2)]+([] if tier=='quick' else [(4,5),(5,5),(6,3)])]))
    for i,c in enumerate(chunk([(4,10),(5,10),(8,7),(8,23),(11,52),(6,20),(9,31),(7,32),(12,40),(10,60),(13,20),(16,58)],2)): u.append(gen('edge%d'%i,R,[tcall('pred_space',*f,args=('false',)) for f in c]))
    u.append(gen('text',R,[tcall('text_space',*f,args=('true',)) for f in [(2,1),(2,2),(3,2),(4,3),(4,6),(5,2),(5,10),(8,2)]]+[tcall('text_space',*f,args=('false',)) for f in [(8,23),(11,52),(6,20),(12,40),(13,61)]]))
    sweeps(u,'widths',R,(1,2,3,4,7,10,20,23,31,32,40,52,58,60),lambda f: tcall('pred_space',*f,args=('false',0,0)))
    return u
CHECKS['P13']=dict(units=units_pred,level='model_checking')

CONV=UN
def units_conv(tier):
    P=['thls/tops/fp_flopoco_convert.hpp',PRIM]; u=[]; q=tier=='quick'
    C=lambda k,f,*x: us(k,'convert','thls::convert<@>(x)','ok_conv',f,*x)
    # every pair of small formats, every code
    ms=[(er,fr,ex,fx) for er in (2,3,4,5) for fr in (1,2,3,4) for ex in (2,3,4,5) for fx in (1,2,3,5)]
    if not q: ms=[(er,fr,ex,fx) for er in range(2,8) for fr in range(1,8) for ex in range(2,7) for fx in range(1,8)]
    for i,c in enumerate(chunk(ms,4 if q else 12)): u.append(gen('mix%d'%i,P,[C('UF',m) for m in c],CONV))
    big=[(8,23,5,10),(5,10,8,23),(8,7,8,23),(8,23,8,7),(11,52,8,23),(8,23,11,52),(4,17,12,9),(12,9,4,17),(5,10,11,52),(8,31,8,32),(8,32,8,31),(8,33,8,64-12),(6,40,7,41),(7,41,6,40),(9,12,9,12),(4,53,10,20),(10,20,4,53),(8,22,8,23),(8,23,8,22),(8,21,8,23),(14,20,8,23),(8,23,14,20),(16,58,4,60),(4,60,16,58),(13,61,13,62),(13,62,13,61),(13,20,16,20),(16,20,13,20)]
    u.append(gen('edge',P,[C('UE',m,3) for m in big],CONV))
    u.append(gen('fracs',P,[C('UQ',m,0,1,127,254,255) for m in [(8,7,8,18),(8,10,8,16),(6,5,8,18)]]+[C('UQ',(4,7,8,16),*range(110,145))]+[C('UF',(4,7,5,10)),C('UF',(5,10,8,7)),C('UF',(8,7,5,10)),C('UF',(4,4,5,14))],CONV))
    R=P+['promo.hpp']
    pm=[(ed,fd,es,fs) for es in (2,3,4) for fs in (1,2,3) for ed in range(es,es+3) for fd in (fs,fs+1,fs+3)]
    u.append(gen('promote',R,['promo_space<%d,%d,%d,%d>(true);'%m for m in pm]+['promo_space<%d,%d,%d,%d>(false);'%m for m in [(8,23,5,10),(11,52,8,23),(8,23,8,7),(9,23,8,23),(12,60,4,9),(8,33,8,31),(14,20,13,19),(16,58,8,23)]]))
    if not q: u.append(gen('tfracs',P,[C('UQ',m,0,1,120,127,254,255) for m in [(8,7,8,23),(8,22,8,23),(5,10,8,23)]]+[C('UF',(8,7,8,16))],CONV))
    u.append(gen('traced',P,[us('UF','convert traced','thls::convert<@>(x,1)','ok_conv',m) for m in [(3,2,4,3),(4,3,3,2),(4,2,4,4),(4,4,4,2)]],CONV))
    sweeps(u,'narrow',P,(1,2,3),lambda f: C('UE',f[:1]+(f[1]-1,)+f,0),pre=CONV)
    sweeps(u,'widen',P,(1,2,3),lambda f: C('UE',f+(f[0]+1,f[1]-1),0),pre=CONV)
    sweeps(u,'sameF',P,(1,2,3,4,5),lambda f: C('UE',f+(f[0]+1,f[1]),0),pre=CONV,n=5)
    return u
CHECKS['P08']=dict(units=units_conv,level='model_checking')

def units_neg(tier):
    q=tier=='quick'; u=[]
    N=lambda k,f,*x: us(k,'neg','thls::neg<@>(x)','ok_neg',f,*x)
    ms=[(e,f,e,f) for e in (2,3,4,5) for f in (1,2,3,6)]+[(er,fr,ex,fx) for er in (3,4,5) for fr in (2,3) for ex in (3,4,5) for fx in (2,4)]
    u.append(gen('full',PRIM,[N('UF',m) for m in ms]+[N('UF',f) for f in [(4,10),(5,10),(8,7),(8,10)]],UN))
    u.append(gen('edge',PRIM,[N('UE',f,2) for f in [(8,23),(11,52),(6,31),(7,32),(9,33),(12,60),(16,58),(14,20,16,40),(16,40,14,20),(8,23,5,10),(5,10,8,23),(8,7,8,23),(11,52,8,23),(8,23,11,52)]],UN))
    NN=lambda k,f,*x: us(k,'neg(neg)','thls::neg<@>(thls::neg<@>(x))','ok_conv',f,*x)
    u.append(gen('twice',PRIM,[NN('UF',f) for f in [(3,2),(4,3),(4,6),(5,10),(8,2)]]+[NN('UE',f,2) for f in [(8,23),(11,52),(12,60)]],UN))
    if not q: u.append(gen('tfull',PRIM,[N('UF',f) for f in [(8,16),(5,18),(4,20)]]+[N('UF',(er,fr,ex,fx)) for er in (3,5) for fr in (1,3,5) for ex in (3,4,6) for fx in (1,3,6)],UN))
    u.append(gen('traced',PRIM,[us('UF','neg traced','thls::neg<@>(x,1)','ok_neg',m) for m in [(3,2),(4,3),(3,2,4,3)]],UN))
    sweeps(u,'widths',PRIM,(1,2,3,6,7,10,23,31,32,33,52,60),lambda f: N('UE',f,0),pre=UN,n=3)
    return u
CHECKS['P09']=dict(units=units_neg,level='model_checking')

def units_ieee(tier):
    I='ieee.hpp'; q=tier=='quick'; u=[]
    u.append(gen('full',I,[tcall('ieee_space',*f,args=('true','true')) for f in [(2,2),(3,2),(3,3),(4,3),(3,5),(4,2),(5,2)]+([] if q else [(4,5),(5,4),(6,3)])]))
    u.append(gen('full1',I,[tcall('ieee_space',*f,args=('true','false')) for f in [(5,10),(8,7),(4,10),(6,8)]]))
    u.append(gen('edge',I,[tcall('ieee_space',*f,args=('false','true')) for f in [(8,23),(11,52),(6,20),(9,31),(7,32),(8,33),(10,50),(14,20),(15,60)]]))
    pm=[(ed,fd,es,fs) for es in (2,3,4) for fs in (1,2,3) for ed in range(es,es+3) for fd in (fs,fs+1,fs+3)]
    u.append(gen('promote',I,[tcall('ieee_promo',*m,args=('true',)) for m in pm]+[tcall('ieee_promo',*m,args=('false',)) for m in [(8,23,5,10),(11,52,8,23),(8,23,8,7),(9,23,8,23),(12,51,4,9),(8,33,8,31)]]))
    u.append(gen('text',I,[tcall('itext_space',*f,args=('true',)) for f in [(2,2),(3,2),(4,3),(5,10),(8,2)]]+[tcall('itext_space',*f,args=('false',)) for f in [(8,23),(11,52),(6,20),(12,40),(9,31),(13,61)]]))
    u.append(gen('refs',I,[tcall('iref_space',*m,args=(-1,)) for m in [(3,2,3,2,3,2),(4,3,3,2,3,3),(3,2,4,3,3,2),(3,2,3,2,4,4),(4,2,4,5,4,2),(4,5,4,3,4,2),(5,3,3,3,4,2)]]+[tcall('iref_space',*m,args=(1 if q else 2,)) for m in [(8,23,8,23,8,23),(5,10,8,23,8,7),(8,23,5,10,5,10),(11,52,8,23,8,23),(8,7,11,52,8,23)]]))
    u.append(gen('native','natf.hpp',['float_space(0);']+([] if q else ['float_space(1);'])))
    sweeps(u,'widths',I,(1,2,3,4,5,7,8,10,20,23,31,32,33,50,52,60),lambda f: tcall('ieee_space',*f,args=('false','false')),n=9)
    return u
CHECKS['P10']=dict(units=units_ieee,level='model_checking')

def units_mp(tier):
    M='mpio.hpp'; q=tier=='quick'; u=[]
    u.append(gen('full',M,[tcall('mp_space',*f,args=('true',)) for f in [(2,1),(2,2),(3,2),(2,5),(4,3),(4,6),(5,5),(5,7),(6,4)]+([] if q else [(5,10),(8,7),(6,9),(4,12)])]))
    ed=[(8,23),(11,52),(4,20),(6,31),(7,32),(9,33),(12,40),(5,10),(8,7),(10,53),(13,60),(14,20)]+([] if q else [(e,f) for e in range(4,13) for f in (15,24,30,37,48)])
    for i,c in enumerate(chunk(ed,3 if q else 8)): u.append(gen('edge%d'%i,M,[tcall('mp_space',*f,args=('false',)) for f in c]))
    db=[(2,1),(3,2),(4,3),(5,10),(8,7),(8,23),(11,52),(4,51),(10,52),(12,53),(7,32),(6,31)]+([] if q else [(e,f) for e in (4,9,11,12) for f in (7,20,30,33,50,53)])
    for i,c in enumerate(chunk(db,2 if q else 4)): u.append(gen('dbl%d'%i,M,[tcall('dbl_space',*f,args=(2 if q else 3,)) for f in c]))
    sweeps(u,'widths',M,(1,2,3,4,5,6,7,10,20,23,31,32,33,40,52,53,60),lambda f: tcall('mp_space',*f,args=('false',1)),n=9)
    sweeps(u,'dblwidths',M,(1,2,3,7,10,23,31,32,51,52,53),lambda f: tcall('dbl_space',*f,args=(0,)),n=6)
    return u
CHECKS['P11']=dict(units=units_mp,level='model_checking')

DOT='\n'.join([
 '#define D2(fn,E,F) [](const u128*a,const u128*b){ return rawfp(thls::fn<E,F>(mkfp<E,F>(a[0]),mkfp<E,F>(a[1]),mkfp<E,F>(b[0]),mkfp<E,F>(b[1]))); }',
 '#define D4(fn,E,F) [](const u128*a,const u128*b){ return rawfp(thls::fn<E,F>(mkfp<E,F>(a[0]),mkfp<E,F>(a[1]),mkfp<E,F>(a[2]),mkfp<E,F>(a[3]),mkfp<E,F>(b[0]),mkfp<E,F>(b[1]),mkfp<E,F>(b[2]),mkfp<E,F>(b[3]))); }',
 'static std::vector<int> upto(int n){ std::vector<int> r; for(int i=0;i<=n;i++) r.push_back(i); return r; }',
 'static std::vector<int> key(int F,std::initializer_list<int> m){ std::set<int> s; for(int k:m) for(int d=-2;d<=3;d++) if(k*F+d>=0) s.insert(k*F+d); return std::vector<int>(s.begin(),s.end()); }',''])
def units_dot(tier):
    q=tier=='quick'; u=[]; H2=['fma.hpp','thls/tops/fp_flopoco_dot2_pos_rndd.hpp']; H4=['fma.hpp','thls/tops/fp_flopoco_dot4_pos_rndd.hpp']
    def d2(fs,fn='dot2_pos_rndd'):
        l=[]
        for e,f,kind in fs:
            op='D2(%s,%d,%d)'%(fn,e,f)
            if kind=='all': l.append('dot_align<%d,%d>("%s",%s,2,product_reps(%d,false),upto(%d),false);'%(e,f,fn,op,f,min(2*f+6,2**(e+1)-2)))
            elif kind=='rep': l.append('dot_align<%d,%d>("%s",%s,2,product_reps(%d,true),upto(%d),false);'%(e,f,fn,op,f,2*f+6))
            else: l.append('dot_align<%d,%d>("%s",%s,2,product_edges(%d,%d),upto(%d),false);'%(e,f,fn,op,f,40 if q else 150,2*f+6))
            l.append('dot_range<%d,%d>("%s range",%s,2,product_edges(%d,12));'%(e,f,fn,op,f))
            if e<=4: l.append('dot_exps<%d,%d>("%s exps",%s,2);'%(e,f,fn,op))
        return l
    u.append(gen('dot2',H2,d2([(4,2,'all'),(4,3,'all'),(4,4,'rep'),(5,3,'all'),(5,4,'rep'),(6,4,'rep'),(6,5,'rep'),(8,7,'edge'),(8,23,'edge'),(5,10,'edge'),(6,17,'edge'),(7,31,'edge'),(8,32,'edge'),(9,53,'edge')]),DOT))
    u.append(gen('dot2ref',H2,d2([(4,2,'all'),(5,3,'all'),(6,5,'edge'),(8,23,'edge')],'dot2_pos_rndd_ref_large'),DOT))
    l=[]
    for fn in ('dot2_pos_rndd','dot2_pos_rndd_ref','dot2_pos_rndd_ref_small','dot2_pos_rndd_ref_large'):
        l+=['dot_full<%d,%d>("%s",D2(%s,%d,%d),2);'%(e,f,fn,fn,e,f) for e,f in [(2,1),(2,2),(3,1),(3,2)]]
        l+=['dot_exps<%d,%d>("%s exps",D2(%s,%d,%d),2);'%(e,f,fn,fn,e,f) for e,f in [(4,2),(4,5),(4,8)]+([(4,10)] if fn!='dot2_pos_rndd' else [])]
    l+=['selfcheck("exhaust_dot2_pos_rndd<%d,%d>",&thls::exhaust_dot2_pos_rndd<%d,%d>,300);'%(e,f,e,f) for e,f in [(2,1),(2,2),(3,1)]+([] if q else [(3,2),(2,3)])]
    u.append(gen('dot2small',H2,l,DOT)); l=[]
    for fn in ('dot4_pos_rndd','dot4_pos_rndd_ref','dot4_pos_rndd_ref_small','dot4_pos_rndd_ref_large'):
        l+=['dot_full<%d,%d>("%s",D4(%s,%d,%d),4,%d);'%(e,f,fn,fn,e,f,t) for e,f,t in [(1,1,0),(2,1,1)]]
        l+=['dot_exps<%d,%d>("%s exps",D4(%s,%d,%d),4);'%(e,f,fn,fn,e,f) for e,f in [(3,1),(4,2),(4,3),(4,5)]]
    l+=['selfcheck("exhaust_dot4_pos_rndd<%d,%d>",&thls::exhaust_dot4_pos_rndd<%d,%d>,600);'%(e,f,e,f) for e,f in [(1,1)]+([] if q else [(2,1)])]
    u.append(gen('dot4small',H4,l,DOT))
    u.append(dict(name='together',std='c++17',pre=['#define THLS_FW_UINT_ON_MASKED_UINT 1']+['#include "thls/tops/fp_flopoco_dot%d_pos_rndd.hpp"'%n for n in (2,4)],reject=[],accept=[('dot%d'%n,'auto p%d=&thls::dot%d_pos_rndd<4,3>;'%(n,n)) for n in (2,4)]))
    def d4(fs):
        l=[]
        for e,f,pr,sh,o in fs:
            op='D4(dot4_pos_rndd,%d,%d)'%(e,f)
            l.append('dot_align<%d,%d>("dot4",%s,4,%s,%s,%s);'%(e,f,op,pr,sh,o))
            l.append('dot_range<%d,%d>("dot4 range",%s,4,product_edges(%d,%d));'%(e,f,op,f,8))
            if e<=4: l.append('dot_exps<%d,%d>("dot4 exps",%s,4);'%(e,f,op))
        return l
    u.append(gen('dot4',H4,d4([(5,2,'product_reps(2,true)','upto(15)','true'),(4,2,'product_edges(2,6)','upto(15)','false'),(6,3,'product_edges(3,%d)'%(8 if q else 16),'upto(21)','true')]+
        [(e,f,'product_edges(%d,%d)'%(f,7 if q else 14),'key(%d,{0,2,4,6})'%f,'true') for e,f in [(6,4),(6,5),(7,7),(8,7),(8,12),(5,10),(8,20)][:]if 6*f+3<2**(e+1)-4]),DOT))
    if not q: u.append(gen('dot4t',H4,d4([(6,3,'product_reps(3,true)','upto(21)','true')]),DOT)); u.append(gen('dot2t',H2,d2([(6,6,'rep'),(6,7,'rep'),(8,7,'rep')]),DOT))
    W=lambda f: 'dot_align<%d,%d>("dot2",D2(dot2_pos_rndd,%d,%d),2,product_edges(%d,%d),upto(%d),false);dot_range<%d,%d>("dot2 range",D2(dot2_pos_rndd,%d,%d),2,product_edges(%d,4));'%(f+f+(f[1],10 if q else 40,2*f[1]+6)+f+f+(f[1],))
    sweeps(u,'d2widths',H2,(1,2,3,4,5,7,10,17,23,31,32,53),W,hi=57,es=(8,9),pre=DOT,n=9)
    W4=lambda f: 'dot_align<%d,%d>("dot4",D4(dot4_pos_rndd,%d,%d),4,product_edges(%d,%d),key(%d,{0,2,4}),true);dot_range<%d,%d>("dot4 range",D4(dot4_pos_rndd,%d,%d),4,product_edges(%d,4));'%(f+f+(f[1],4,f[1])+f+f+(f[1],))
    sweeps(u,'d4widths',H4,(1,2,3,4,5,7,10,12,20),W4,hi=20,es=(8,),pre=DOT,n=2)
    return u
CHECKS['P15']=dict(units=units_dot,level='model_checking')

FMA='\n'.join(['#define FM(fn,ER,FR) [](auto x,auto y,auto z){ return thls::fn<ER,FR>(x,y,z); }',
 '#define FF(fn,ER,FR,EX,FX,EY,FY,EZ,FZ) fma_full<ER,FR,EX,FX,EY,FY,EZ,FZ>(#fn,FM(fn,ER,FR));',
 '#define FE(fn,L,ER,FR,EX,FX,EY,FY,EZ,FZ) fma_edge<ER,FR,EX,FX,EY,FY,EZ,FZ>(#fn,FM(fn,ER,FR),L);',''])
def units_fma(tier):
    q=tier=='quick'; u=[]; H=['fma.hpp',PRIM,'thls/tops/fp_flopoco_fma.hpp']
    ff=lambda *a,fn='fma': 'FF(%s,%s)'%(fn,','.join(map(str,a if len(a)>2 else a*4)))
    fe=lambda L,*a,fn='fma': 'FE(%s,%d,%s)'%(fn,L,','.join(map(str,a if len(a)>2 else a*4)))
    u.append(gen('full',H,[ff(2,1),ff(2,2),ff(3,1),ff(3,2),ff(3,3),ff(4,1),ff(4,2)]+[ff(3,2,fn='flopoco_fma')]+([] if q else [ff(4,3),ff(5,1),ff(5,2),ff(3,4)]),FMA))
    u.append(gen('mixed',H,[ff(*m) for m in [(3,2,3,2,3,3,3,1),(3,3,3,1,3,2,3,3),(3,1,3,2,3,2,3,2),(3,4,3,2,3,2,3,2),(3,6,3,2,3,2,3,2),(4,2,3,2,3,2,3,2),(3,2,4,2,3,2,3,2),(3,2,3,2,4,2,3,2),(3,2,3,2,3,2,4,2),(3,2,3,2,3,2,3,7),(2,2,3,3,2,1,4,2),(5,2,2,2,2,2,4,2),(5,2,2,2,2,2,4,5),(6,2,2,1,2,2,5,2),(2,2,2,2,2,2,5,2),(6,3,2,2,3,1,5,2)]]+[fe(0,*m) for m in [(8,23,5,10,5,10,8,23),(8,7,8,7,8,7,8,23),(5,10,8,23,8,23,5,10),(8,23,8,23,5,10,8,7),(8,23,8,10,8,10,8,40)]],FMA))
    es=[(4,3),(4,4),(4,6),(5,5),(5,10),(8,7),(8,23),(6,12),(7,17),(9,26),(6,29),(11,20)]+([] if q else [(5,f) for f in range(6,29)])
    for i,c in enumerate(chunk(es,6 if q else 12)): u.append(gen('edge%d'%i,H,[fe(0 if q else 1,*m) for m in c],FMA))
    u.append(gen('traced',H,[ff(2,1),ff(3,1),fe(0,4,3)],FMA.replace('(x,y,z)','(x,y,z,1)').replace('>(#fn','>(#fn " traced"')))
    sweeps(u,'widths',H,(3,4,5,6,7,10,12,17,20,23,26,29),lambda f: fe(0,*f),pre=FMA,lo=8,hi=28,es=(4,5),n=6)
    return u
CHECKS['P14']=dict(units=units_fma,level='model_checking')

def units_ref(tier):
    q=tier=='quick'; u=[]; H=['mpio.hpp','fma.hpp']
    pr=[((3,2),)*3,((4,3),)*3,((4,2),(3,3),(4,4)),((5,4),(4,2),(3,3))]+([] if q else [((4,4),)*3,((5,3),)*3])
    flat=lambda t:t[0]+t[1]+t[2]
    ed=[(8,23),(11,52),(5,10),(8,7)]; em=[(8,23,5,10,8,7),(5,10,8,23,8,23),(8,7,11,52,8,23)]
    for fn,ref in [('ref_add','REF_ADD'),('ref_mul','REF_MUL'),('ref_div','REF_DIV'),('ref_pow','REF_POW')]:
        l=[full(*flat(p)) for p in pr]
        l+=[edge(f,0 if fn=='ref_pow' else 1,0,1 if fn!='ref_add' else f[1]+3 if q else f[1]+3) for f in ed+em] if fn!='ref_add' else [edge(f,0,0,f[1]+3) for f in ed]+[edge(f,0,0,3) for f in em]
        u.append(gen(fn,H,l,BIN%dict(fn=fn,arg='',ref=ref)))
        dst='\n#undef OP_\n#define OP_(ER,FR) [](auto x,auto y){ thls::fp_flopoco<ER,FR> d; thls::%s(d,x,y); return d; }\n'%fn
        u.append(gen(fn+'_d',H,[l[0],edge((8,23),0,0,1)],BIN%dict(fn=fn,arg='',ref=ref)+dst))
    U=lambda k,nm,e,j,f,*x: us(k,nm,e,j,f,*x); l=[]
    one=[('ref_neg','ok_neg'),('ref_inv','ok_inv'),('ref_convert','ok_conv'),('ref_square','ok_sqr'),('ref_log','ok_log'),('ref_exp','ok_exp'),('ref_sqrt','ok_sqrt')]
    for fn,j in one:
        for f in [(3,2),(4,3),(4,6),(5,4,4,3),(3,2,4,4),(4,5,5,2)]+([] if q else [(5,10),(8,7)]): l.append(U('UF',fn,'thls::%s<@>(x)'%fn,j,f))
        for f in [(8,23),(11,52),(5,10),(8,7),(8,23,5,10),(5,10,8,23)]: l.append(U('UE',fn,'thls::%s<@>(x)'%fn,j,f,1 if fn not in('ref_log','ref_exp') else 0))
    for fn,j in [('ref_square','ok_sqr'),('ref_inv','ok_inv')]:
        for f in [(4,3),(5,4,4,3)]: l.append(U('UF',fn+' dst','([&]{ thls::fp_flopoco<@> d; thls::%s(d,x); return d; }())'%fn,j,f))
    for p in (-3,-1,0,1,2,7):
        for f in [(4,3),(5,4,4,3),(3,2,4,4)]: l.append(U('UF','ref_ldexp_const%d'%p,'thls::ref_ldexp_const<@,%d>(x)'%p,'ok_ldexp<%d>'%p,f))
        l.append(U('UE','ref_ldexp_const%d'%p,'thls::ref_ldexp_const<@,%d>(x)'%p,'ok_ldexp<%d>'%p,(8,23),1))
    for k,j in (('lo','ok_inv_lo'),('hi','ok_inv_hi')):
        for f in [(3,2),(4,3),(4,6),(5,4,4,3),(3,2,4,4)]: l.append(U('UF','ref_inv_faithful '+k,'([&]{ thls::fp_flopoco<@> lo,hi; thls::ref_inv_faithful(lo,hi,x); return %s; }())'%k,j,f))
        for f in [(8,23),(11,52),(8,7)]: l.append(U('UE','ref_inv_faithful '+k,'([&]{ thls::fp_flopoco<@> lo,hi; thls::ref_inv_faithful(lo,hi,x); return %s; }())'%k,j,f,1))
    for i,c in enumerate(chunk(l,3)): u.append(gen('unary%d'%i,H,c,UN))
    F=FMA.replace('FM(fn,ER,FR));','FM(fn,ER,FR),true);').replace('FM(fn,ER,FR),L);','FM(fn,ER,FR),L,true);')
    u.append(gen('fma',H,['FF(ref_fma,%s)'%','.join(map(str,m)) for m in [(3,2)*4,(4,1)*4,(3,3,3,1,3,2,4,3),(4,2,3,2,3,2,3,2)]+([] if q else [(4,2)*4,(3,3)*4])]+['FE(ref_fma,0,%s)'%','.join(map(str,m)) for m in [(8,7)*4,(8,23,5,10,5,10,8,23)]+([] if q else [(5,10)*4,(8,23)*4,(8,7,8,23,8,23,8,23)])],F))
    for fn,ref in [('ref_add','REF_ADD'),('ref_mul','REF_MUL'),('ref_div','REF_DIV')]: sweeps(u,fn+'widths',H,(1,2,3,4,7,10,23,52),lambda f: edge(f,0,0,0),pre=BIN%dict(fn=fn,arg='',ref=ref),n=12,es=(4,5,6))
    for fn,j in one:
        if fn not in('ref_log','ref_exp'): sweeps(u,fn+'widths',H,(1,2,3,4,6,7,10,23,52),lambda f: U('UE',fn,'thls::%s<@>(x)'%fn,j,f,0),pre=UN,n=18,es=(4,5,6))
    return u
CHECKS['P22']=dict(units=units_ref,level='model_checking')

def units_uint(tier):
    q=tier=='quick'; u=[]; H=['fwu.hpp']; N='using namespace fwu;\n'; L=0 if q else 1
    u.append(gen('texts',H,['texts<%d>(%d);'%m for m in [(0,3),(1,3),(2,3),(3,3),(4,2)]+([] if q else [(5,2),(6,1)])],N))
    small=[1,2,3,4,5,6]; wide=[7,8,9,12,15,16,17,24,30,31,32,33,34,47,48,52,53,62,63,64,65,66,80,95,96,97,126,127,128]
    ps=wide if not q else [7,8,16,17,31,32,33,34,48,53,63,64,65,66,96,127,128]
    u.append(gen('pairs',H,['pair_space<%d>(%d);'%(w,L) for w in small+ps]+([] if q else ['pair_space<%d>(2);'%w for w in (8,9)]),N))
    ss=small+wide if not q else small+[8,16,31,32,33,63,64,65,96,127,128]
    for i,c in enumerate(chunk(small+wide,2)): u.append(gen('single%d'%i,H,['one_space<%d>(%d);'%(w,1) for w in c],N))
    for i,c in enumerate(chunk(ss,4)): u.append(gen('slices%d'%i,H,['slice_space<%d>(%d);'%(w,1) for w in c],N))
    mm=[(a,b) for a in (1,2,3,4,5,6) for b in (1,2,3,4,5,6)]+[(8,8),(16,16),(17,16),(16,17),(31,1),(32,32),(31,33),(33,31),(1,63),(63,1),(64,1),(1,64),(64,64),(63,65),(65,63),(127,1),(1,127),(24,53),(53,53),(33,32),(32,1),(96,32),(31,32),(48,16)]
    u.append(gen('mul',H,['mul_space<%d,%d>(%d);'%(a,b,L) for a,b in mm],N))
    u.append(gen('misc',H,['cat_space<%d,%d,%d,%d>();'%t for t in [(1,1,1,1),(2,3,1,4),(8,8,8,8),(16,16,1,31),(1,31,1,31),(32,32,32,32),(2,1,11,52),(2,1,8,23),(31,33,31,33),(1,63,1,63),(64,32,16,16),(5,64,3,56)]]+['sel_space<%d>();'%w for w in (1,6,33,128)]+['arr_space<%d>();'%w for w in (1,3,5,8,16)],N))
    # every other width, and every other width of a product
    rest=[w for w in range(7,129) if w not in wide]; prest=[w for w in range(7,129) if w not in ps]; srest=[w for w in range(7,129) if w not in ss]
    for i,c in enumerate(chunk(rest,8)): u.append(gen('singlew%d'%i,H,['one_space<%d>(0);'%w for w in c],N))
    for i,c in enumerate(chunk(prest,8)): u.append(gen('pairw%d'%i,H,['pair_space<%d>(0);'%w for w in c],N))
    for i,c in enumerate(chunk(srest[2::6] if q else srest,3 if q else 8)): u.append(gen('slicew%d'%i,H,['slice_space<%d>(0);'%w for w in c],N))
    mt=[(t-a,a) if t%2 else (a,t-a) for t in range(2,129) for a in ([t//2] if t%3 else [t//3])]
    for i,c in enumerate(chunk(mt,6)): u.append(gen('mulw%d'%i,H,['mul_space<%d,%d>(0);'%m for m in c if m not in mm],N))
    return u
CHECKS['P16']=dict(units=units_uint,level='model_checking')

HPB='#define HP_BIT\n#include "heap.hpp"\n'
def units_heap(tier):
    th=tier=='thorough'; u=[]; BH='thls/tops/bit_heap.hpp'; G='gmp.h'
    def g(name,hs,lines,pre): return gen(name,hs,lines,pre+'using namespace hp;\n',['-DHP_DETAIL'])
    prof=[(1,),(2,),(3,),(4,),(7,),(12,),(1,1),(2,3),(3,0),(0,3),(0,0,4),(3,3),(3,3,3),(4,4,4),(1,2,3,4),(4,3,2,1),(5,0,5),(0,7,1),(3,3,3,3),(2,2,2,2,2,2),(1,0,1,0,1,3),(3,2,2,2,2),(1,3,1,3,1,3),(8,8),(0,0,0,3,0,0,0),(6,5,3),(2,2,2,2,3),(16,),(1,)*14,
          (20,1,20),(7,7,7,7,7),(9,8,7,6,5,4,3,2,1),(1,2,3,4,5,6,7,8,9),(3,)*20,(2,)*40,(40,),(3,)+(2,)*33,(1,)*70,(33,32,31)]
    if th: prof+=[(5,5,6),(10,6),(6,10),(2,4,6,4),(1,1,3,1,1,3,1,1,3),(13,1,2),(4,)*4,(0,5,0,5,0,5),(15,),(64,64),(100,),(11,)*11,(3,)*42]
    for i,c in enumerate(chunk(prof,6)): u.append(g('profile%d'%i,[G,BH],['profile<%s>();'%','.join(map(str,p)) for p in c],HPB))
    pr=[((3,1,2),(2,2)),((1,1,1,1,1),(4,)),((0,3),(2,0,3)),((2,3),(3,2)),((5,),(1,1,1,1,1)),((1,)*6,(1,)*6)]
    u.append(g('pairs',[G,BH],['pairs<Bld<%s>,Bld<%s>>();'%(','.join(map(str,a)),','.join(map(str,b))) for a,b in pr]+['column<%d>();'%w for w in list(range(0,21))+[32,33,63,64,65,100,128]],HPB))
    u.append(g('uints',[G,BH],['uint_heap<%d>(%d);'%(w,2 if th else 1) for w in (1,2,3,4,5,6,9,12,17,31,32,33,34,53,63,64,65,66,80,100)],HPB))
    for w in (1,2,3): u.append(g('hist%d'%w,[G,BH],['histories<%d,%d>();'%(w,4 if th and w==2 else 3)],HPB))
    MU='#define HP_BIT\n#define HP_MUL\n#include "heap.hpp"\n'; BM='thls/tops/bit_heap_mul.hpp'
    sm=[(t,a,b) for a in range(1,7) for b in range(1,7) for t in range(1,7) if t<=max(a,b) and (a+b+t)%(1 if th else 2)==0]
    for i,c in enumerate(chunk(sm,6 if th else 3)): u.append(g('mulsmall%d'%i,[G,BM],['mul<%d,%d,%d>(2);'%x for x in c],MU))
    big=[(8,24,24),(17,24,24),(16,32,32),(17,53,53),(24,53,53),(18,33,20),(18,20,33),(25,18,54),(4,9,10),(32,31,33),(64,64,64),(17,64,32),(9,17,40)]
    for i,c in enumerate(chunk(big,4)): u.append(g('mulbig%d'%i,[G,BM],['mul<%d,%d,%d>(%d);'%(x+(1 if th else 0,)) for x in c],MU))
    RO='#define HP_ROW\n#include "heap.hpp"\n'; RH='thls/tops/row_heap.hpp'
    rw=[(w,d) for w in (1,2,3,4,5,6,8,9) for d in (2,3,4,5,6,7,8,9) if w*d<=18]+[(1,12),(1,18),(2,9),(8,3),(16,4),(31,3),(32,3),(33,3),(63,3),(64,4),(65,3),(100,3),(24,6),(48,9),(12,11),(20,13)]
    for i,c in enumerate(chunk(rw,4)): u.append(g('rows%d'%i,[G,RH],['rows<%d,%d>();'%x for x in c],RO))
    u.append(g('rhist',[G,RH],['rhist<%d,%d>();'%(w,4 if th else 3) for w in (1,2,4)],RO))
    u.append(g('both',[G,BM,RH],['profile<3,3,3>();','rows<4,3>();','mul<3,5,4>(2);'],'#define HP_BIT\n#define HP_MUL\n#define HP_ROW\n#include "heap.hpp"\n'))
    return u
CHECKS['P18']=dict(units=units_heap,level='model_checking')

def units_soft(tier):
    th=tier=='thorough'; H=['softf.hpp']; N='using namespace sf;\n'; u=[]
    u.append(gen('f32',H,['limits<32>();','expo<32>(%d,1);'%(1 if th else 0),'dense<32>(2);','quot<32>(%d);'%(2 if th else 1),'prod<32>(%d);'%(2 if th else 1)],N))
    u.append(gen('f64',H,['limits<64>();','expo<64>(0,%d);'%(2 if th else 8),'dense<64>(2);','quot<64>(%d);'%(2 if th else 1),'prod<64>(%d);'%(2 if th else 1)],N))
    if th: u.append(gen('all32',H,['all32({0x3f800001u,0x40490fdbu,0x00800003u},0);'],N))
    return u
CHECKS['P19']=dict(units=units_soft,level='model_checking')

def units_pol(tier):
    th=tier=='thorough'; H=['gmp.h','pol.hpp']; N='using namespace pol;\nusing namespace thls;\n'; u=[]
    fl=[(4,2),(4,3)]+([(5,2),(4,4)] if th else []); wd=[(8,23),(5,10),(11,52),(6,9)]
    for k in ('flopoco','ieee_on_flopoco'):
        u.append(gen(k,H,['pairs<policy_%s<%d,%d>>(%d);'%(k,e,f,-2 if k=='flopoco' and (th or e+f<7) else -1) for e,f in fl]+['pairs<policy_%s<%d,%d>>(%d);'%(k,e,f,1 if th or e==8 else 0) for e,f in wd]+['limits<policy_%s<%d,%d>,int>();'%(k,e,f) for e,f in [(4,3)]+wd]+['imports<policy_%s<%d,%d>>();'%(k,e,f) for e,f in [(4,3)]+wd]+['histories<policy_%s<%d,%d>,%d>();'%(k,e,f,d) for e,f,d in [(8,23,3),(4,5,4 if th else 3),(5,10,3),(11,52,3)]],N))
    ns=['native_single','native_double','softfloat_single','softfloat_double','concept']
    u.append(gen('native',H,['pairs<policy_%s>(%d);'%(p,1) for p in ns]+['limits<policy_%s,int>();'%p for p in ns]+['imports<policy_%s>();'%p for p in ns]+['histories<policy_%s,%d>();'%(p,3) for p in ns],N))
    u.append(gen('exports',H,['exports<policy_%s>();'%p for p in ns+['%s<%d,%d>'%(k,e,f) for k in ('flopoco','ieee_on_flopoco') for e,f in [(4,3)]+wd]],N))
    u.append(gen('conv',H,['conv_float<%d,%d>();'%m for m in [(8,23)]],N))
    return u
CHECKS['P20']=dict(units=units_pol,level='model_checking')
def units_poltest(tier):
    th=tier=='thorough'; H=['gmp.h','pol.hpp']; N='using namespace pol;\nusing namespace thls;\n'; u=[]
    ns=['policy_native_single','policy_native_double','policy_softfloat_single','policy_softfloat_double','policy_concept','policy_flopoco<8,23>','policy_ieee_on_flopoco<8,23>','policy_flopoco<6,9>','policy_flopoco<11,52>','policy_ieee_on_flopoco<11,52>','policy_ieee_on_flopoco<6,17>']
    u.append(gen('clean',H,['clean<%s>(%d);'%(p,n) for p in ns for n in ((1,300) if 'single' in p else (1,))],N))
    u.append(gen('faults',H,['faults<policy_native_single>(1,%d);'%(6 if th else 1)]+(['faults<policy_flopoco<6,9>>(1,1);'] if th else []),N))
    return u
CHECKS['P21']=dict(units=units_poltest,level='model_checking')

def units_pure(tier):
    th=tier=='thorough'; u=[]; H=['pure.hpp',PRIM,'thls/tops/fp_flopoco_fma.hpp']; N='using namespace pure;\n'
    def sp_(name,body,n,first=8,states=200,forks=1000): return 'space("%s",[](Calls&K){ %s },%d,%d,%d);'%(name,body,states,forks,first)
    two=lambda fn,e,f,l: 'two<%d,%d>(K,"%s",%d,[](Out&o,auto&a,auto&b){ w(o,thls::%s<%d,%d>(a,b)); });'%(e,f,fn,l,fn,e,f)
    one=lambda fn,e,f,l: 'one<%d,%d>(K,"%s",%d,[](Out&o,auto&a){ w(o,thls::%s<%d,%d>(a)); });'%(e,f,fn,l,fn,e,f)
    # every pair of codes of a small format, and a boundary alphabet of wide ones, one operation at a time
    l=[sp_('%s<%d,%d>'%(fn,e,f),two(fn,e,f,v),0) for fn in ('add','mul','div') for e,f,v in [(4,2,2) if fn=='add' else (3,2,2),(8,23,1),(11,52,1),(5,10,1)]]
    l+=[sp_('%s<%d,%d>'%(fn,e,f),one(fn,e,f,v),0) for fn in ('inv','inv_faithful','neg') for e,f,v in [(4,5,2),(8,23,1),(5,10,1)]]
    l+=[sp_('fma<%d,%d>'%(e,f),'two<%d,%d>(K,"fma",%d,[](Out&o,auto&a,auto&b){ w(o,thls::fma<%d,%d>(a,b,a)); w(o,thls::fma<%d,%d>(b,b,a)); });'%(e,f,v,e,f,e,f),0) for e,f,v in [(2,1,2),(8,23,1)]]
    u.append(gen('ops',H,l,N))
    u.append(gen('mixed',H,[sp_('all operations','basic<8,23>(K,0); basic<5,10>(K,0); basic<4,3>(K,0);',0,64),sp_('oracle operations','refs<8,23>(K,0); refs<5,4>(K,0); refs<11,52>(K,0); basic<5,4>(K,0);',0,32)],N))
    u.append(gen('refs',H,[sp_('ref_pow<%d,%d>'%(e,f),'refpow<%d,%d>(K,%d);'%(e,f,v),0) for e,f,v in [(3,1,2),(5,4,1)]]+[sp_('two-operand references <%d,%d>'%(e,f),'ref2<%d,%d>(K,%d);'%(e,f,v),0) for e,f,v in [(3,1,2),(8,23,1),(11,52,1)]],N))
    H4=['pure.hpp',PRIM,'thls/tops/fp_flopoco_dot2_pos_rndd.hpp','thls/tops/fp_flopoco_dot4_pos_rndd.hpp']
    d2='pos<%d,%d>(K,"dot2",2,[](Out&o,auto*a){ w(o,thls::dot2_pos_rndd<%d,%d>(a[0],a[1],a[2],a[3])); w(o,thls::dot2_pos_rndd_ref<%d,%d>(a[0],a[1],a[2],a[3])); });'; d4='pos<%d,%d>(K,"dot4",4,[](Out&o,auto*a){ w(o,thls::dot4_pos_rndd<%d,%d>(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7])); });'
    u.append(gen('dots',H4,[sp_('dots<%d,%d>'%(e,f),d2%((e,f)*3)+(d4%((e,f)*2) if f<12 else ''),0) for e,f in [(8,23),(4,5),(8,7)]],N))
    alt=['add_single_v1','add_single_v2','add_single_v4','add_single_v5','add_dual']
    H5=['pure.hpp']+['thls/tops/fp_flopoco_%s%s.hpp'%(a,'_v1' if a=='add_dual' else '') for a in alt]+['thls/tops/fp_flopoco_div_v2.hpp']
    u.append(gen('policies',H,[sp_('policies','policy<thls::policy_softfloat_single>(K,6); policy<thls::policy_softfloat_double>(K,5); policy<thls::policy_native_single>(K,4); policy<thls::policy_native_double>(K,4); policy<thls::policy_flopoco<8,23>>(K,4); policy<thls::policy_ieee_on_flopoco<8,23>>(K,4); policy<thls::policy_flopoco<5,4>>(K,4); ieee<5,10>(K); ieee<8,23>(K);',0,64)],N))
    u.append(gen('ints',['heap.hpp','pure.hpp','thls/tops/bit_heap.hpp','thls/tops/bit_heap_mul.hpp'],[sp_('integers and heaps','ints<7>(K,1); ints<33>(K,0); ints<64>(K,0); heaps<5>(K); heaps<12>(K);',0,32)],'#define HP_BIT\n#define HP_MUL\n#define PURE_HEAP\n#include "heap.hpp"\n#include "pure.hpp"\n'+N))
    u[-1]=gen('ints',['gmp.h','thls/tops/bit_heap.hpp','thls/tops/bit_heap_mul.hpp'],u[-1]['lines'],'#define PURE_HEAP\n#include "fwu.hpp"\n#include "pure.hpp"\n'+N)
    return u
CHECKS['P25']=dict(units=units_pure,level='model_checking')

def units_ct(tier):
    th=tier=='thorough'; u=[]; G='gmp.h'; P='using namespace ctm;\n'
    def g(n,l,opt='-O0'): x=gen(n,['ctm.hpp'],l,P); x['opt']=opt; u.append(x)
    g('vec',['creations(std::make_integer_sequence<int,33>());'])
    g('hist',['histories<1,3>();','histories<2,%d>();'%(4 if th else 3),'histories<4,2>();'])
    g('hist3',['histories<3,2>();']+['big<%d>();'%n for n in (5,6,7,8,11,16)])
    if th: g('vec3',['histories<3,3>();']); g('vec5',['histories<5,2>();'])
    g('uniq',['unique<4,1,4>();','unique<4,2,16>();','unique<4,3,64>();','unique<4,4,256>();','unique<3,5,243>();']+(['unique<3,6,729>();','unique<4,5,1024>();'] if th else []))
    for s in (0,1,949333985,4294967295,2147483648) if th else (1,949333985,4294967295): g('lcg%d'%s,['lcg32<%du>();'%s])
    g('lcgg',['lcg32g<12345u,1103515245u,12345u>();','lcg32g<7u,69069u,1u>();'])
    g('lcgp',['minstd<%du>();'%s for s in (2013771743,4294967295)])
    g('lcgq',['m5<%du>();'%s for s in (1,3922919429)])
    g('perm',['permutes<%s>();'%','.join('%du'%s for s in (1,0,2,3,12345,949333985,4294967295)+(tuple(range(100,116)) if th else ())),'calls(std::make_index_sequence<9>());'])
    ls=[(4,2,1),(5,3,7),(8,3,1),(10,4,3),(12,5,2),(14,6,1),(6,1,9),(3,2,5),(2,2,1),(7,7,4),(9,3,0),(13,2,99)]; lb=[(16,6,1),(16,3,2),(32,4,1),(24,5,17)]+([(48,4,3),(63,3,1),(64,3,1),(65,3,2)] if th else [(33,3,2)])
    for i,c in enumerate(chunk(ls,2)): g('lut%d'%i,['lut<%d,%d,%du>();'%x for x in c],'-O1')
    for i,c in enumerate(chunk(lb,3 if th else 2)): g('lutb%d'%i,['lut<%d,%d,%du>();'%x for x in c],'-O1')
    u.append(gen('inputs',[G,'mkin.hpp'],['input_list<%d,%d>();'%m for m in [(8,23),(11,52),(5,10),(8,7),(4,3),(5,5),(6,17),(4,12),(9,31)]]))
    return u
CHECKS['P23']=dict(units=units_ct,level='model_checking')

def units_ctfix(tier):
    H='ctfix.hpp'; u=[]
    def g(n,lines,defs=(),std='c++20'):
        d=gen(n,H,['using namespace ctfix;']+lines,defs=defs); d['std']=std; d['opt']='-O0'; u.append(d)
    es=[(0,0),(0,1),(1,0),(0,3),(5,0),(-2,2),(2,-3),(-7,-7),(0,31),(32,0),(-40,0),(0,-61)]+([] if tier=='quick' else [(a,b) for a in (-63,-5,0,9,62) for b in (-64,-4,0,10,61)])
    g('bounds',['bounds();','shifts();'],std='c++17'); g('boundsneg',['bounds();','shifts();'],('-DCT_NEG',))
    for nm,std,vals in (('programs','c++17',[0,1,2,3,5,2**31-1,2**31,2**53+1,2**61+1,2**62-1,2**62,2**63-1]),('programsneg','c++20',[-1,-2,-3,-2**31,-2**53-1,-2**62,-2**62-1,-2**63+1])):
        acc=[]; rej=[]; lit=lambda v: '(%dLL)'%v
        for v in vals:
            for s_ in range(-2,67):
                k='ctCheckedShiftLeft<%d,%d>'%(v,s_)
                if 0<=s_<64 and -2**63<=v*2**s_<2**63: acc.append((k,'static_assert(thls::ctCheckedShiftLeft<%s,%d>::val==%s,"");'%(lit(v),s_,lit(v*2**s_) if v*2**s_>-2**63 else '(-9223372036854775807LL-1)')))
                else: rej.append((k,'const int64_t r%d=thls::ctCheckedShiftLeft<%s,%d>::val;'%(len(rej),lit(v),s_)))
        u.append(dict(name=nm,std=std,pre=['#include <cstdint>','#include "thls/core/constfunc_helpers.hpp"'],accept=acc,reject=rej))
    for i,c in enumerate(chunk(es,3 if tier=='quick' else 8)):
        g('cmp%d'%i,['cmp<%d,%d>();'%e for e in c],std='c++17'); g('cmpneg%d'%i,['cmp<%d,%d>();'%e for e in c],('-DCT_NEG',))
    return u
CHECKS['P17']=dict(units=units_ctfix,level='model_checking')

def units_rnd(tier):
    q=tier=='quick'; R='rnd.hpp'; u=[]
    ws=list(range(1,41))+[47,48,53,63,64,65,66,72,95,96,97,100,120,127]
    for i,c in enumerate(chunk(ws if q else list(range(1,129)),3)): u.append(gen('bits%d'%i,R,['using namespace rnd;']+['bits<%d,%d>();'%(w,h) for w in c for h in (0,1)]))
    u.append(gen('classes',R,['using namespace rnd;']+['classes<%d,%d>(%d,false);'%(e,f,n) for e,f,n in [(2,2,4 if q else 5),(2,1,5),(3,2,4),(8,23,4),(11,52,4 if q else 5)]]+['classes<%d,%d>(0,true);'%f for f in [(2,2),(4,3),(8,23),(11,52),(5,40)]]))
    return u
CHECKS['P24']=dict(units=units_rnd,level='model_checking')

# the same spaces, smaller, with the program built in several ways
ASAN='extern "C" const char*__asan_default_options(){ return "detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigill=0:handle_sigfpe=0:handle_sigbus=0:use_sigaltstack=0"; }\n'
MODES=[('checked','g++','c++17','-O1',['-fsanitize=undefined','-fsanitize-undefined-trap-on-error','-fsanitize=address','-ftrivial-auto-var-init=pattern']),
       ('debug','g++','gnu++17','-O0',['-ftrivial-auto-var-init=pattern','-funsigned-char']),
       ('release','g++','c++20','-O3',['-DNDEBUG','-ftrivial-auto-var-init=zero']),
       ('clang','clang++','c++17','-O2',['-ftrivial-auto-var-init=pattern'])]
def units_modes(tier):
    q=tier=='quick'; b=[]; L=0 if q else 1
    fs=[(4,3),(5,10),(8,23),(6,29),(7,31),(9,32),(11,52),(16,40),(8,61),(8,62)]
    W=lambda f: 3 if q else f[1]+4
    def bins(fn,ref,arg=''): return BIN%dict(fn=fn,arg=arg,ref=ref)
    def B(name,hs,fn,ref,full_,edge_,arg='',mixed=()): b.append((name,gen(name,hs,[full(*f) for f in full_]+[edge(f,L,0,W(f)) for f in edge_]+[edge(m,0,0,3) for m in mixed],bins(fn,ref,arg)),1))
    mx=promote_mixed([((5,10),(8,23)),((8,23),(11,52)),((4,30),(9,12))])
    B('add',PRIM,'add','REF_ADD',[(4,2)] if q else [(4,2),(4,3),(5,2)],[f for f in fs],mixed=mx)
    B('mul',PRIM,'mul','REF_MUL',[(3,2),(4,2)]+([] if q else [(4,3)]),fs,mixed=[(8,7,8,23,8,23),(8,47,8,23,8,23),(9,31,9,10,9,20),(6,40,6,12,6,31)])
    B('div',PRIM,'div','REF_DIV',[(3,2),(4,2)]+([] if q else [(4,3)]),fs,mixed=mx)
    for v in ('v1','v2','v3','v4','v5'):
        B('adder '+v,'thls/tops/fp_flopoco_add_single_%s.hpp'%v,'add_single_v5' if v=='v5' else 'add_single','REF_ADD',[] if v=='v3' else [(3,2)],[(4,11),(5,14),(8,23),(6,26)] if v=='v3' else [(4,6),(8,23),(6,29),(7,31),(11,52),(8,62)])
    B('divider v2','thls/tops/fp_flopoco_div_v2.hpp','div_v2','REF_DIV',[(4,2)],[(8,23),(7,31),(11,52),(8,62)],',0')
    l=[]
    for nm,ex,j,f,e in [('inv','thls::inv<@>(x)','ok_inv',[(3,2),(4,6)],[(5,10),(8,23),(7,31),(9,32),(11,52),(8,62)]),('inv_faithful','thls::inv_faithful<@>(x)','ok_inv_faithful',[(4,f) for f in (3,6,8)],[(5,14),(8,16),(8,23),(7,31),(11,52),(8,58),(8,23,8,31),(8,31,8,23)]),
        ('inv_direct','thls::inv_direct<@>(x,0)','ok_inv',[(4,3),(4,8),(4,3,4,8)],[]),('neg','thls::neg<@>(x)','ok_neg',[(3,2),(4,3),(4,3,3,2),(3,2,4,3)],[(8,23),(11,52),(16,58),(8,23,5,10),(5,10,8,23)])]:
        l+=[us('UF',nm,ex,j,x) for x in f]+[us('UE',nm,ex,j,x,L) for x in e]
    b.append(('unary',gen('unary',PRIM,l,UN),1))
    C=lambda k,f,*x: us(k,'convert','thls::convert<@>(x)','ok_conv',f,*x); P=['thls/tops/fp_flopoco_convert.hpp',PRIM,'promo.hpp']
    b.append(('convert',gen('convert',P,[C('UF',m) for m in [(er,fr,ex,fx) for er in (3,4,5) for fr in (1,3) for ex in (3,4,5) for fx in (2,4)]]+[C('UE',m,L) for m in [(8,23,5,10),(5,10,8,23),(11,52,8,23),(8,23,11,52),(8,31,8,32),(8,32,8,31),(6,40,7,41),(7,41,6,40),(16,58,4,60),(4,60,16,58),(13,62,13,61)]]
        +['promo_space<%d,%d,%d,%d>(true);'%m for m in [(4,3,3,2),(5,3,3,3)]]+['promo_space<%d,%d,%d,%d>(false);'%m for m in [(8,23,5,10),(11,52,8,23),(16,58,8,23)]],UN),1))
    H=['fma.hpp',PRIM,'thls/tops/fp_flopoco_fma.hpp']
    b.append(('fma',gen('fma',H,['FF(fma,%s)'%','.join(map(str,m)) for m in [(2,1)*4,(3,2,3,1,3,1,3,2)]]+['FE(fma,0,%s)'%','.join(map(str,m)) for m in ([(4,3)*4,(6,29)*4] if q else [(4,3)*4,(8,23)*4,(6,29)*4,(8,23,5,10,5,10,8,23)])],FMA),1))
    b.append(('dot2',gen('dot2',['fma.hpp','thls/tops/fp_flopoco_dot2_pos_rndd.hpp'],[x%(e,f) for e,f in [(4,3),(8,23),(7,31),(9,53)] for x in ('dot_align<%d,%d>("dot2",D2(dot2_pos_rndd,'+'%d,%d),2,product_edges('%(e,f)+'%d,8),upto(%d),false);'%(f,min(2*f+6,2**(e+1)-2)),)]+['dot_range<%d,%d>("dot2 range",D2(dot2_pos_rndd,%d,%d),2,product_edges(%d,6));'%(e,f,e,f,f) for e,f in [(4,3),(8,23),(9,53)]]+['dot_exps<4,2>("%s exps",D2(%s,4,2),2);'%(fn,fn) for fn in ('dot2_pos_rndd_ref_small','dot2_pos_rndd_ref_large')],DOT),1))
    b.append(('dot4',gen('dot4',['fma.hpp','thls/tops/fp_flopoco_dot4_pos_rndd.hpp'],['dot_align<%d,%d>("dot4",D4(dot4_pos_rndd,%d,%d),4,product_edges(%d,3),key(%d,{0,2,4}),true);'%(e,f,e,f,f,f) for e,f in [(6,3),(8,12),(8,20)]]+['dot_range<%d,%d>("dot4 range",D4(dot4_pos_rndd,%d,%d),4,product_edges(%d,4));'%(e,f,e,f,f) for e,f in [(6,3),(8,12)]]+['dot_exps<3,1>("%s exps",D4(%s,3,1),4);'%(fn,fn) for fn in ('dot4_pos_rndd_ref_small','dot4_pos_rndd_ref_large')],DOT),1))
    b.append(('values',gen('values',['ordc.hpp','rel.hpp'],['cmp_space<%d,%d,%d,%d>(2);'%m for m in [(2,1,2,1),(3,2,3,2),(3,2,2,3)]]+['cmp_space<%d,%d,%d,%d>(0,1,0);'%m for m in [(4,23,4,23),(3,52,3,52),(8,23,5,10),(3,33,3,31)]]
        +['walk_space<%d,%d>(%s);'%m for m in [(2,1,'true'),(4,3,'true'),(5,5,'true'),(8,23,'false'),(4,52,'false'),(5,32,'false'),(4,58,'false'),(5,29,'false')]]+['pred_space<%d,%d>(%s);'%m for m in [(2,1,'true'),(3,2,'true'),(4,31,'false,1,0'),(4,52,'false,1,0')][:3 if q else 4]]+['text_space<%d,%d>(%s);'%m for m in [(3,2,'true'),(4,6,'true'),(8,23,'false'),(5,52,'false'),(6,61,'false')]]),1))
    b.append(('ieee',gen('ieee',['ieee.hpp','natf.hpp'],['ieee_space<%d,%d>(%s,%s);'%m for m in [(2,2,'true','true'),(3,2,'true','true'),(5,5,'true','false'),(8,23,'false','false'),(5,52,'false','false'),(5,33,'false','false')]]+['ieee_promo<%d,%d,%d,%d>(%s);'%m for m in [(4,3,3,2,'true'),(8,23,5,10,'false'),(11,52,8,23,'false')]]+['itext_space<%d,%d>(%s);'%m for m in [(3,2,'true'),(8,23,'false'),(5,52,'false'),(6,61,'false')]]+['iref_space<3,2,3,2,3,2>(-1);','iref_space<8,23,5,10,5,10>(0);','float_space(0);'],),1))
    b.append(('exchange',gen('exchange','mpio.hpp',['mp_space<%d,%d>(%s);'%m for m in [(2,1,'true'),(4,3,'true'),(8,7,'false'),(6,23,'false'),(5,52,'false'),(6,31,'false'),(5,53,'false'),(4,60,'false')]]+['dbl_space<%d,%d>(0);'%m for m in [(3,2),(8,23),(11,52),(12,53)]]),1))
    R=[]
    for fn,ref in [('ref_add','REF_ADD'),('ref_mul','REF_MUL'),('ref_div','REF_DIV')]: R.append(gen('ref',['mpio.hpp'],[full(3,2)]+[edge(f,0,0,1) for f in [(8,23),(8,23,5,10,8,7)]],BIN%dict(fn=fn,arg='',ref=ref)))
    for r,fn in zip(R,('add','mul','div')): b.append(('reference '+fn,r,1))
    one=[('ref_neg','ok_neg'),('ref_inv','ok_inv'),('ref_convert','ok_conv'),('ref_square','ok_sqr'),('ref_log','ok_log'),('ref_exp','ok_exp'),('ref_sqrt','ok_sqrt')]
    b.append(('references',gen('references',['mpio.hpp',PRIM],[us('UF',fn,'thls::%s<@>(x)'%fn,j,f) for fn,j in one for f in [(3,2),(4,5,5,2)]]+[us('UE',fn,'thls::%s<@>(x)'%fn,j,f,0) for fn,j in one for f in [(8,23),(8,23,5,10)]]+[us('UF','square','thls::square<@,%d,%d,%d,%d>(x,0)'%(f[-2:]*2),'ok_sqr',f) for f in [(3,3),(4,9,4,4)]]+[us('UE','square','thls::square<@,%d,%d,%d,%d>(x,0)'%(f[-2:]*2),'ok_sqr',f,0) for f in [(8,23),(11,52)]],UN),1))
    N='using namespace fwu;\n'; ws=[1,2,3,5,8,16,31,32,33,63,64,65,127,128]
    b.append(('integers',gen('integers',['fwu.hpp'],['pair_space<%d>(0);'%w for w in ws]+['one_space<%d>(1);'%w for w in ws],N),0))
    b.append(('slices',gen('slices',['fwu.hpp'],['slice_space<%d>(1);'%w for w in [1,2,3,5,8,16,33,64,65,128]],N),0))
    b.append(('products',gen('products',['fwu.hpp'],['mul_space<%d,%d>(0);'%m for m in [(1,1),(2,3),(3,2),(5,6),(8,8),(17,16),(31,33),(64,64),(1,127),(24,53),(63,65)]]+['cat_space<%d,%d,%d,%d>();'%t for t in [(1,1,1,1),(2,3,1,4),(16,16,1,31),(32,32,32,32),(2,1,8,23),(1,63,1,63)]]+['sel_space<%d>();'%w for w in (1,6,33,128)]+['arr_space<%d>();'%w for w in (1,3,8)],N),0))
    HN='using namespace hp;\n'
    b.append(('heaps',gen('heaps',['gmp.h','thls/tops/bit_heap.hpp','thls/tops/bit_heap_mul.hpp','thls/tops/row_heap.hpp'],['profile<%s>();'%p for p in ('1','3','2,3','3,3,3','1,2,3,4','4,3,2,1','2,2,2,2,3')]+['column<%d>();'%w for w in (0,1,2,3,7,8,33)]+['uint_heap<%d>(0);'%w for w in (1,3,8,33,64,65)]+['histories<1,2>();','histories<2,2>();']+['mul<%d,%d,%d>(0);'%t for t in [(2,3,3),(3,5,4),(8,24,24),(17,53,53),(64,64,64)]]+['rows<%d,%d>();'%t for t in [(1,2),(3,3),(4,4),(8,2),(33,3),(64,4)]]+['rhist<2,2>();'],'#define HP_BIT\n#define HP_MUL\n#define HP_ROW\n#include "heap.hpp"\n'+HN,['-DHP_DETAIL']),0))
    b.append(('softfloat',gen('softfloat',['softf.hpp'],['limits<32>();','expo<32>(0,%d);'%(9 if q else 3),'quot<32>(%d);'%(-1 if q else 0),'prod<32>(-1);','limits<64>();','expo<64>(0,%d);'%(96 if q else 24),'quot<64>(%d);'%(-1 if q else 0),'prod<64>(-1);'],'using namespace sf;\n'),1))
    PO='using namespace pol;\nusing namespace thls;\n'; pf=['policy_flopoco<8,23>','policy_ieee_on_flopoco<8,23>','policy_ieee_on_flopoco<4,3>','policy_native_single','policy_native_double','policy_softfloat_single','policy_softfloat_double','policy_concept']
    b.append(('policies',gen('policies',['gmp.h','pol.hpp'],['pairs<policy_flopoco<4,2>>(-1);']+['pairs<%s>(0);'%p for p in pf]+['limits<%s,int>();'%p for p in pf]+['imports<%s>();'%p for p in pf]+['histories<%s,2>();'%p for p in pf[:2]+pf[3:6]],PO),1))
    b.append(('sources',gen('sources','rnd.hpp',['using namespace rnd;']+['bits<%d,%d>();'%(w,h) for w in (1,5,31,32,33,64,65,96,97,127) for h in (0,1)]+['classes<3,2>(3,false);','classes<8,23>(2,false);','classes<11,52>(2,false);','classes<8,23>(0,true);']),0))
    u=[]
    for m,cxx,std,opt,flags in MODES:
        for name,g,inrel in b:
            if m=='release' and not inrel: continue
            h=(ASAN if m=='checked' else '')+g['head']
            u.append(dict(g,name=m+' '+name,head=h,text=h+'\n'.join(g['lines'])+'\n}\n',cxx=cxx,std=std,opt=opt,flags=flags,optional=m in('release','clang')))
    return u
CHECKS['P26']=dict(units=units_modes,level='model_checking')

def units_leak(tier):
    q=tier=='quick'; u=[]; N='using namespace leak;\n'; l=1 if q else 1
    def S(name,body): return 'leak::space("%s",[](Calls&K){ %s });'%(name,body)
    H=['leak.hpp',PRIM,'thls/tops/fp_flopoco_fma.hpp']
    def g(name,hs,lines):
        x=gen(name,[h for h in hs if h!='leak.hpp'],lines,'')
        head='#include "leak.hpp"\n#include "ops.hpp"\n'+''.join('#include "%s"\n'%h for h in hs if h!='leak.hpp')+'using namespace sp;\nusing namespace leak;\n\nvoid register_spaces(){\n'
        return dict(x,head=head,text=head+'\n'.join(lines)+'\n}\n')
    u.append(g('ops',H,[S('operations','basic<8,23>(K,1); basic<5,4>(K,1); basic<11,52>(K,1);'),S('faithful','whole<8,23>(K); whole<5,10>(K); whole<11,52>(K); whole<4,5>(K);'),S('ieee','ieee<5,10>(K); ieee<8,23>(K); ieee<11,52>(K);')]))
    u.append(g('refs',H,[S('oracle operations','refs<8,23>(K,1); refs<5,4>(K,1); refs<11,52>(K,1); refpow<5,4>(K,1); ref2<11,52>(K,1);')]))
    u.append(g('odd',H,[S('imports','odd<8,23>(K); odd<5,4>(K); odd<11,52>(K);'),S('integer texts','odd_int<1>(K); odd_int<4>(K); odd_int<13>(K); odd_int<33>(K); odd_int<64>(K);')]))
    pf=['policy_native_single','policy_native_double','policy_softfloat_single','policy_softfloat_double','policy_flopoco<8,23>','policy_ieee_on_flopoco<8,23>','policy_flopoco<5,4>','policy_concept']
    u.append(g('policies',H,[S('policies',' '.join('policy<thls::%s>(K,5);'%p for p in pf[:-1])),S('policy-imports',' '.join('imp<thls::%s>(K,"%s");'%(p,p) for p in pf))]))
    u.append(g('dots',H+['thls/tops/fp_flopoco_dot2_pos_rndd.hpp','thls/tops/fp_flopoco_dot4_pos_rndd.hpp'],[S('dots<%d,%d>'%(e,f),'pos<%d,%d>(K,"dot2",2,[](Out&o,auto*a){ w(o,thls::dot2_pos_rndd<%d,%d>(a[0],a[1],a[2],a[3])); w(o,thls::dot2_pos_rndd_ref<%d,%d>(a[0],a[1],a[2],a[3])); w(o,thls::dot2_pos_rndd_ref_large<%d,%d>(a[0],a[1],a[2],a[3])); }); pos<%d,%d>(K,"dot4",4,[](Out&o,auto*a){ w(o,thls::dot4_pos_rndd_ref<%d,%d>(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7])); w(o,thls::dot4_pos_rndd_ref_large<%d,%d>(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7])); });'%((e,f)*7)) for e,f in [(4,5),(8,7)]]))
    x=g('ints',['gmp.h','thls/tops/bit_heap.hpp','thls/tops/bit_heap_mul.hpp'],[S('integers and heaps','ints<7>(K,1); ints<33>(K,0); ints<64>(K,0); heaps<5>(K); heaps<12>(K);')])
    head='#define PURE_HEAP\n#include "gmp.h"\n#include "thls/tops/bit_heap.hpp"\n#include "thls/tops/bit_heap_mul.hpp"\n#include "fwu.hpp"\n#include "leak.hpp"\nusing namespace leak;\n\nvoid register_spaces(){\n'
    u.append(dict(x,head=head,text=head+'\n'.join(x['lines'])+'\n}\n'))
    return u
CHECKS['P27']=dict(units=units_leak,level='model_checking')
