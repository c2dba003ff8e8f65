// pol.hpp - arithmetic policies: operators, comparisons, reference operations, histories (P20); the policy test itself (P21)
#pragma once
#include "ieee.hpp"
#include "thls/tops/policy_native.hpp"
#include "thls/tops/policy_softfloat.hpp"
#include "thls/tops/policy_flopoco.hpp"
#include "thls/tops/policy_ieee_on_flopoco.hpp"
namespace pol {
using namespace sp; using namespace mc; using namespace orc;
template<int N> struct NatT; template<> struct NatT<32>{ typedef uint32_t U; }; template<> struct NatT<64>{ typedef uint64_t U; };
inline Val natval(Fmt f,u128 c){ Val v=idecode(f,c); if(v.c==ZERO&&cfrc(f,c)){ v.c=NORM; v.m=cfrc(f,c); v.e=1-f.bias()-f.F; } return v; }
struct Model { int p; i64 emin,emax; bool gradual; };
template<class P> struct Tr;
template<int E,int F> struct Tr<thls::policy_flopoco<E,F>>{ typedef thls::fp_flopoco_wrapper<E,F> V; static V mk(u128 c){ return V(mkfp<E,F>(c)); } static u128 rd(const V&v){ return rawfp(v.raw); } static Fmt f(){ return Fmt{E,F}; } static Val val(u128 c){ return decode(f(),c); } static Model m(){ return Model{F+1,f().emin(),f().emax(),false}; }
    static std::vector<u128> codes(int l){ if(l<0) return all_operands(f(),l==-2); std::vector<u128> r=special_codes(f()); for(int s=0;s<2;s++) for(i64 e:exp_alphabet(f(),l)) for(u64 q:frac_alphabet(F,l)) r.push_back(code(f(),NORM,s,(u128)e,q)); return r; } static const char*name(){ return "flopoco"; } };
template<int E,int F> struct Tr<thls::policy_ieee_on_flopoco<E,F>>{ typedef thls::fp_ieee_on_flopoco_wrapper<E,F> V; static V mk(u128 c){ return V(mki<E,F>(c)); } static u128 rd(const V&v){ return rawi(v.raw); } static Fmt f(){ return Fmt{E,F}; } static Val val(u128 c){ return idecode(f(),c); } static Model m(){ return Model{F+1,f().emin()+1,f().emax()-1,false}; }
    static std::vector<u128> codes(int l){ if(l<0){ std::vector<u128> r; for(u128 x=0;x<((u128)1<<(1+E+F));x++) r.push_back(x); return r; } return icodes(f(),l,l+1); } static const char*name(){ return "ieee on flopoco"; } };
template<class P,int N> struct TrN{ typedef typename P::value_t V; typedef typename NatT<N>::U U; static V mk(u128 c){ U u=(U)c; V v; memcpy(&v,&u,sizeof v); return v; } static u128 rd(const V&v){ U u; memcpy(&u,&v,sizeof u); return u; } static Fmt f(){ return N==32?Fmt{8,23}:Fmt{11,52}; } static Val val(u128 c){ return natval(f(),c); } static Model m(){ return Model{f().F+1,f().emin()+1,f().emax()-1,true}; }
    static std::vector<u128> codes(int l){ return icodes(f(),l,l+1); } };
template<> struct Tr<thls::policy_native_single>:TrN<thls::policy_native_single,32>{ static const char*name(){ return "native single"; } };
template<> struct Tr<thls::policy_native_double>:TrN<thls::policy_native_double,64>{ static const char*name(){ return "native double"; } };
template<> struct Tr<thls::policy_concept>:TrN<thls::policy_concept,64>{ static const char*name(){ return "policy concept"; } };
template<> struct Tr<thls::policy_softfloat_single>:TrN<thls::policy_softfloat_single,32>{ static const char*name(){ return "softfloat single"; } };
template<> struct Tr<thls::policy_softfloat_double>:TrN<thls::policy_softfloat_double,64>{ static const char*name(){ return "softfloat double"; } };
inline bool mpis(mpfr_t a,mpfr_t b){ return mpfr_nan_p(b) ? mpfr_nan_p(a)!=0 : !mpfr_nan_p(a) && mpfr_cmp(a,b)==0 && (mpfr_signbit(a)!=0)==(mpfr_signbit(b)!=0); }
// the value the model prescribes for op(a,b); op 0 +, 1 *, 2 /, 3 plain a
inline void expect(mpfr_t w,const Model&m,int op,mpfr_t a,mpfr_t b){
    auto go=[&](mpfr_t d){ return op==0?mpfr_add(d,a,b,MPFR_RNDN):op==1?mpfr_mul(d,a,b,MPFR_RNDN):op==2?mpfr_div(d,a,b,MPFR_RNDN):mpfr_set(d,a,MPFR_RNDN); };
    int t=go(w); (void)t; if(!mpfr_regular_p(w)) return; i64 e=(i64)mpfr_get_exp(w)-1;
    if(m.gradual){ // the exact result may lie just under a power of two the rounded one reached: look at its truncation
        Mp z(m.p+2); { mpfr_rnd_t R=MPFR_RNDZ; op==0?mpfr_add(z.v,a,b,R):op==1?mpfr_mul(z.v,a,b,R):op==2?mpfr_div(z.v,a,b,R):mpfr_set(z.v,a,R); } i64 ez=(i64)mpfr_get_exp(z.v)-1;
        if(ez<m.emin){ i64 s=m.emin-(m.p-1), pr=ez-s+1; int sg=mpfr_signbit(w);
            if(pr>=1){ Mp y((int)pr); go(y.v); mpfr_set(w,y.v,MPFR_RNDN); return; }
            bool up=false; if(pr==0){ Mp h(2); mpfr_set_si_2exp(h.v,sg?-1:1,s-1,MPFR_RNDN); Mp y(2); { mpfr_rnd_t R=MPFR_RNDA; op==0?mpfr_add(y.v,a,b,R):op==1?mpfr_mul(y.v,a,b,R):op==2?mpfr_div(y.v,a,b,R):mpfr_set(y.v,a,R); } up=mpfr_cmp(y.v,h.v)!=0; }
            if(up) mpfr_set_si_2exp(w,sg?-1:1,s,MPFR_RNDN); else mpfr_set_zero(w,sg?-1:1); return; } }
    else if(e<m.emin){ mpfr_set_zero(w,mpfr_signbit(w)?-1:1); return; }
    if(e>m.emax) mpfr_set_inf(w,mpfr_signbit(w)?-1:1); }
template<class P> void ref(int op,mpfr_t d,mpfr_t a,mpfr_t b){ if(op==0) P::ref_add(d,a,b); else if(op==1) P::ref_mul(d,a,b); else P::ref_div(d,a,b); }
template<class V> V oper(int op,const V&a,const V&b){ return op==0?V(a+b):op==1?V(a*b):V(a/b); }
static const mpfr_exp_t EMIN0=mpfr_get_emin(),EMAX0=mpfr_get_emax();
template<class P> bool exps_ok(){ bool ok=mpfr_get_emin()==EMIN0&&mpfr_get_emax()==EMAX0; mpfr_set_emin(EMIN0); mpfr_set_emax(EMAX0); return ok; }
template<class P,class=void> struct Compound { static bool go(u128,u128,const Model&,mpfr_t,mpfr_t,std::string&){ return true; } static const int n=0; };
template<int E,int F> struct Compound<thls::policy_flopoco<E,F>>{ static const int n=4; static bool go(u128 x,u128 y,const Model&m,mpfr_t a,mpfr_t b,std::string&why){ typedef Tr<thls::policy_flopoco<E,F>> T; Mp w(m.p),g(m.p);
    for(int op=0;op<2;op++) for(int self=0;self<2;self++){ auto v=T::mk(x); auto o=T::mk(y); auto&rhs=self?v:o; u128 r; if(op==0) r=T::rd(v+=rhs); else r=T::rd(v*=rhs); mpfr_ptr bb=self?a:b; expect(w.v,m,op,a,bb); to_mpfr(g.v,T::val(T::rd(v))); bool ok=mpis(g.v,w.v); to_mpfr(g.v,T::val(r)); if(!ok||!mpis(g.v,w.v)||T::rd(o)!=y){ why=std::string(op?"*=":"+=")+(self?" itself":""); return false; } }
    return true; } };
template<class P> void one_pair(Ctx&c,const std::string&nm,u128 x,u128 y){
    typedef Tr<P> T; static const Model m=T::m(); static const int p=m.p; static Mp a(p),b(p),w(p),g(p),ma(p),mb(p),d(p); std::string why;
    to_mpfr(a.v,T::val(x)); to_mpfr(b.v,T::val(y)); c.ev(13+Compound<P>::n);
    bool ok=guarded([&]{ auto va=T::mk(x),vb=T::mk(y); P::to_mpfr(ma.v,va); P::to_mpfr(mb.v,vb); if(!mpis(ma.v,a.v)||!mpis(mb.v,b.v)){ why="to_mpfr"; return; }
        for(int op=0;op<3;op++){ expect(w.v,m,op,a.v,b.v); auto r=oper(op,va,vb); to_mpfr(g.v,T::val(T::rd(r))); if(!mpis(g.v,w.v)){ mpfr_exp_t e0; (void)e0; why=fmt("operator %c expected %a got %a (code %s)","+*/"[op],mpfr_get_d(w.v,MPFR_RNDN),mpfr_get_d(g.v,MPFR_RNDN),hex(T::rd(r)).c_str()); return; }
            ref<P>(op,d.v,ma.v,mb.v); if(!exps_ok<P>()){ why="ref changed the MPFR exponent range"; return; } if(!mpis(ma.v,a.v)||!mpis(mb.v,b.v)){ why="ref changed an operand"; return; }
            auto f=P::from_mpfr(d.v,true); if(!exps_ok<P>()){ why="from_mpfr changed the MPFR exponent range"; return; } to_mpfr(g.v,T::val(T::rd(f))); if(!mpis(g.v,w.v)){ why=fmt("reference %c expected %a got %a",  "+*/"[op],mpfr_get_d(w.v,MPFR_RNDN),mpfr_get_d(g.v,MPFR_RNDN)); return; } }
        int k=(int)(va==vb)|(int)(va!=vb)<<1|(int)(va<vb)<<2|(int)(va<=vb)<<3|(int)(va>vb)<<4|(int)(va>=vb)<<5; bool un=mpfr_nan_p(a.v)||mpfr_nan_p(b.v); int s=un?0:mpfr_cmp(a.v,b.v); int wk=un?2:s==0?1|8|32:s<0?2|4|8:2|16|32; if(k!=wk){ why=fmt("==,!=,<,<=,>,>= expected bits %02x got %02x",wk,k); return; }
        std::string cw; if(!Compound<P>::go(x,y,m,a.v,b.v,cw)) why=cw; });
    if(!ok) exps_ok<P>(); if(ok&&why.empty()) return; c.fail(nm+":"+hex(x)+","+hex(y),ok?why:g_why); }
template<class P> void pairs(int l,int tier=0){ typedef Tr<P> T; auto v=std::make_shared<std::vector<u128>>(T::codes(l)); std::string nm=fmt("%s<%d,%d> pairs",T::name(),T::f().E,T::f().F)+(l<0?" all codes":" alphabet");
    add_space(nm,v->size(),[=](u64 i,Ctx&c){ for(u128 y:*v){ c.st(); one_pair<P>(c,nm,(*v)[i],y); } c.cover((unsigned)i); if(i==v->size()/2) c.sample(nm+" x="+hex((*v)[i])+fmt(" against %zu values: 3 operators, 3 reference operations, 6 comparisons",v->size())); },tier); }
// round trips and imports that do not fit: base values x exponents through the range x wider precisions
template<class P> void imports(){ typedef Tr<P> T; static const Model m=T::m(); auto f=T::f(); std::string nm=fmt("%s<%d,%d> imports",T::name(),f.E,f.F); bool nat=m.gradual; i64 lo=m.emin-(nat?m.p+3:4),hi=m.emax+4; int st=f.E>8?7:1;
    add_space(nm,(u64)((hi-lo)/st+1),[=](u64 i,Ctx&c){ i64 e=lo+(i64)i*st; if(f.E>8&&i%2) e=(i%4==1?lo+(i64)(i%150):hi-(i64)(i%20)); int wide=nat?3:0; for(int s=0;s<2;s++) for(u64 q:frac_alphabet(m.p-1+wide,1)) for(int allow=0;allow<2;allow++){
            Val v{NORM,s,((u128)1<<(m.p-1+wide))|q,e-(m.p-1+wide)}; Mp x(m.p+wide),w(m.p),g(m.p); to_mpfr(x.v,v); expect(w.v,m,3,x.v,x.v); c.ev(); c.st(); bool threw=false; u128 r=0; bool good;
            bool ok=guarded([&]{ try{ r=T::rd(P::from_mpfr(x.v,allow!=0)); }catch(std::runtime_error&){ threw=true; } }); bool er=exps_ok<P>();
            bool exact=mpfr_cmp(w.v,x.v)==0, ends=mpfr_zero_p(w.v)||mpfr_inf_p(w.v); to_mpfr(g.v,T::val(r));
            if(exact) good=!threw&&mpis(g.v,w.v); else if(!allow) good=threw; else if(ends) good=!threw&&mpis(g.v,w.v); else good= (e<m.emin||mpfr_cmp_si_2exp(w.v,s?-1:1,m.emin)==0)? (threw||mpis(g.v,w.v)) : threw;
            if(ok&&er&&good) continue;
            c.fail(nm+fmt(":%lld,%d,%llx,%d",(long long)e,s,(unsigned long long)q,allow),fmt("exponent %lld: %s%s, %s",(long long)e,threw?"refused":ok?"gave ":g_why,threw?"":hex(r).c_str(),!er?"exponent range changed":exact?"representable":"not representable")); }
        c.cover((unsigned)i); if(i==5) c.sample(nm+fmt(" exponent %lld",(long long)e)); }); }
// every value into every precision: exact or refused; the native references refuse a destination of another precision
template<class P> void exports(){ typedef Tr<P> T; static const Model m=T::m(); auto f=T::f(); std::string nm=fmt("%s<%d,%d> exports",T::name(),f.E,f.F); auto v=std::make_shared<std::vector<u128>>(T::codes(0));
    add_space(nm,v->size(),[=](u64 i,Ctx&c){ u128 x=(*v)[i]; Mp w(m.p); to_mpfr(w.v,T::val(x)); u128 y=(*v)[(i*7+3)%v->size()];
        for(int p=2;p<=72;p++){ Mp g(p); c.ev(); c.st(); bool threw=false; bool ok=guarded([&]{ try{ P::to_mpfr(g.v,T::mk(x)); }catch(std::runtime_error&){ threw=true; } }); bool er=exps_ok<P>();
            if(!ok||!er||(p==m.p?threw||!mpis(g.v,w.v):!threw&&!mpis(g.v,w.v))) c.fail(nm+":"+hex(x)+fmt(" into %d bits",p),!ok?g_why:!er?"exponent range changed":threw?"refused":"a different value");
            if(m.gradual&&p!=m.p) for(int op=0;op<3;op++){ Mp d(p),a(m.p),b(m.p); to_mpfr(a.v,T::val(x)); to_mpfr(b.v,T::val(y)); threw=false; c.ev(); ok=guarded([&]{ try{ ref<P>(op,d.v,a.v,b.v); }catch(std::runtime_error&){ threw=true; } }); er=exps_ok<P>(); if(!ok||!er||!threw) c.fail(nm+":"+hex(x)+fmt(" reference %c into %d bits","+*/"[op],p),!ok?g_why:!er?"exponent range changed":"accepted"); } }
        c.cover((unsigned)(i%97)); if(i==1) c.sample(nm+" of "+hex(x)+" into destinations of 2..72 bits"); }); }
// ---- histories: an accumulator driven by every sequence of operations, against an MPFR accumulator
template<class P,int D> struct Hist { typedef Tr<P> T; typedef typename P::value_t V; std::vector<u128> k; Model m; std::string nm; std::vector<std::unique_ptr<Mp>> kv;
    void walk(Ctx&c,int d,u128 x,std::string path,bool&bad){ Mp a(m.p),w(m.p),g(m.p); to_mpfr(a.v,T::val(x)); c.st();
        if(d==0) return; size_t n=k.size();
        for(size_t o=0;o<3*n+6&&!bad;o++){ std::string l; u128 r=0; bool ok; c.ev();
            if(o<3*n){ int op=(int)(o/n); u128 y=k[o%n]; l=fmt(" %c%s","+*/"[op],hex(y).c_str()); ok=guarded([&]{ r=T::rd(oper(op,T::mk(x),T::mk(y))); }); expect(w.v,m,op,a.v,kv[o%n]->v); }
            else { int z=(int)(o-3*n); l=fmt(" self%c","+*/mcr"[z]); ok=guarded([&]{ if(z<3){ r=T::rd(oper(z,T::mk(x),T::mk(x))); } else if(z==3){ Mp t(m.p); P::to_mpfr(t.v,T::mk(x)); r=T::rd(P::from_mpfr(t.v)); } else if(z==4){ V u=T::mk(x); V v(u); v=u; r=T::rd(v); } else { Mp t(m.p),s(m.p),d(m.p); P::to_mpfr(t.v,T::mk(x)); P::to_mpfr(s.v,T::mk(k[0])); ref<P>(0,d.v,t.v,s.v); r=T::rd(P::from_mpfr(d.v,true)); } });
                if(z<3) expect(w.v,m,z,a.v,a.v); else if(z==5) expect(w.v,m,0,a.v,kv[0]->v); else mpfr_set(w.v,a.v,MPFR_RNDN); }
            bool er=exps_ok<P>(); to_mpfr(g.v,T::val(r)); if(!ok||!er||!mpis(g.v,w.v)){ bad=true; c.fail(nm+":"+path+l,ok?fmt("expected %a got %a",mpfr_get_d(w.v,MPFR_RNDN),mpfr_get_d(g.v,MPFR_RNDN)):g_why); return; }
            c.cover((unsigned)(r%65521)); walk(c,d-1,r,path+l,bad); } }
};
template<class P,int D> void histories(int tier=0){ typedef Tr<P> T; auto f=T::f(); auto h=std::make_shared<Hist<P,D>>(); h->m=T::m(); h->nm=fmt("%s<%d,%d> histories depth %d",T::name(),f.E,f.F,D);
    auto one=[&](double d){ Mp t(T::m().p); mpfr_set_d(t.v,d,MPFR_RNDN); return T::rd(P::from_mpfr(t.v)); };
    h->k={one(1),one(-1.5),one(0.75),one(std::ldexp(1.0,-(T::m().p))),one(3)}; for(u128 y:h->k){ h->kv.emplace_back(new Mp(T::m().p)); to_mpfr(h->kv.back()->v,T::val(y)); }
    auto v=std::make_shared<std::vector<u128>>(T::codes(0));
    add_space(h->nm,v->size(),[=](u64 i,Ctx&c){ bool bad=false; h->walk(c,D,(*v)[i],hex((*v)[i]),bad); if(i==v->size()/3) c.sample(h->nm+" from "+hex((*v)[i])+": every sequence of {+,*,/ by 5 constants; self +,*,/; via mpfr; copy; reference +}"); },tier); }
// ---- float <-> wrapper
template<int E,int F> void conv_float(){ typedef thls::fp_flopoco_wrapper<E,F> W; typedef Tr<thls::policy_flopoco<E,F>> T; typedef Tr<thls::policy_native_single> S; Fmt f{E,F}; const auto ALL=(thls::convert_policy)15; std::string nm=fmt("to<float> of wrapper<%d,%d>",E,F),n2=fmt("to<wrapper<%d,%d>> of float",E,F);
    auto v=std::make_shared<std::vector<u128>>(T::codes(E+F<=13?-2:1));
    add_space(nm,(v->size()+63)/64,[=](u64 i,Ctx&c){ for(u64 j=i*64;j<std::min<u64>(v->size(),i*64+64);j++){ u128 x=(*v)[j]; Mp a(F+1),w(24),g(24),g2(24); to_mpfr(a.v,decode(f,x)); expect(w.v,Model{24,-126,127,false},3,a.v,a.v); c.st(); c.ev(2); u128 r=0; bool same=true; bool ok=guarded([&]{ r=S::rd(thls::to<float,ALL>(T::mk(x))); if constexpr(E<=8&&F<=23) same= S::rd(thls::to<float>(T::mk(x)))==r; auto id=thls::to<W>(T::mk(x)); same=same&&T::rd(id)==x; });
            to_mpfr(g.v,natval(Fmt{8,23},r)); if(!ok||!same||!mpis(g.v,w.v)) c.fail(nm+":"+hex(x),fmt("%s expected %a got %a",ok?"":g_why,mpfr_get_d(w.v,MPFR_RNDN),mpfr_get_d(g.v,MPFR_RNDN))); c.cover(eq_class(f,x)); } });
    auto u=std::make_shared<std::vector<u128>>(); for(u64 e=0;e<256;e++) for(u64 q:frac_alphabet(23,1)) for(int s=0;s<2;s++) u->push_back((u64)s<<31|e<<23|q);
    add_space(n2,(u->size()+63)/64,[=](u64 i,Ctx&c){ for(u64 j=i*64;j<std::min<u64>(u->size(),i*64+64);j++){ u128 x=(*u)[j]; Mp a(24),w(F+1),g(F+1); to_mpfr(a.v,idecode(Fmt{8,23},x)); expect(w.v,T::m(),3,a.v,a.v); c.st(); c.ev(2); u128 r=0; bool same=true; bool ok=guarded([&]{ r=T::rd(thls::to<W,ALL>(S::mk(x))); if constexpr(E>=8&&F>=23) same=T::rd(thls::to<W>(S::mk(x)))==r; float y=S::mk(x); double d=thls::to<double>(y); float back=thls::to<float,ALL>(d); same=same&&(x==S::rd(back)||y!=y)&&(d==(double)y||y!=y); });
            to_mpfr(g.v,decode(f,r)); if(!ok||!same||!mpis(g.v,w.v)) c.fail(n2+":"+hex(x),fmt("%s expected %a got %a%s",ok?"":g_why,mpfr_get_d(w.v,MPFR_RNDN),mpfr_get_d(g.v,MPFR_RNDN),same?"":" forms differ")); c.cover((unsigned)(x>>23)); } if(i==3) c.sample(n2+fmt(" block %llu",(unsigned long long)i)); }); }
template<class P,class Under> void limits(){ typedef Tr<P> T; std::string nm=fmt("%s<%d,%d> limits",T::name(),T::f().E,T::f().F);
    add_space(nm,1,[=](u64,Ctx&c){ typedef std::numeric_limits<typename P::value_t> L; Model m=T::m(); int k=0; auto q=[&](const char*n,typename P::value_t got,std::function<void(mpfr_t)> want){ Mp g(m.p),w(m.p); c.ev(); c.st(); c.cover(k++); to_mpfr(g.v,T::val(T::rd(got))); want(w.v); if(!mpis(g.v,w.v)) c.fail(nm+":"+n,fmt("expected %a got %a",mpfr_get_d(w.v,MPFR_RNDN),mpfr_get_d(g.v,MPFR_RNDN))); };
        auto big=[&](int s){ return [=](mpfr_t w){ mpfr_set_ui_2exp(w,1,m.emax+1,MPFR_RNDN); mpfr_nextbelow(w); if(s) mpfr_neg(w,w,MPFR_RNDN); }; };
        q("min",L::min(),[&](mpfr_t w){ mpfr_set_ui_2exp(w,1,m.emin,MPFR_RNDN); }); q("max",L::max(),big(0)); q("lowest",L::lowest(),big(1)); q("infinity",L::infinity(),[](mpfr_t w){ mpfr_set_inf(w,1); }); q("quiet_NaN",L::quiet_NaN(),[](mpfr_t w){ mpfr_set_nan(w); });
        if(L::digits!=m.p) c.fail(nm+":digits",fmt("expected %d got %d",m.p,L::digits)); }); }
// ---- the policy test: every single wrong operation must be reported, and nothing else
struct Plan { int op; i64 at; int kind; }; static Plan g_plan{-1,-1,0}; static i64 g_cnt[12]; // ops 0..2 + * /, 3..8 comparisons, 9..11 references
template<class B> struct FV { typename B::value_t v; };
inline bool hit(int op){ i64 n=g_cnt[op]++; return g_plan.op==op&&n==g_plan.at; }
// the next representable number above; among subnormals, which have fewer bits than the precision says, twice the value
static void nudge(mpfr_t d){ if(mpfr_get_exp(d)<=-125) mpfr_mul_2si(d,d,1,MPFR_RNDN); else mpfr_nextabove(d); }
template<class B> FV<B> wrong(FV<B> x){ typedef Tr<B> T; Val v=T::val(T::rd(x.v)); Fmt f=T::f(); bool q=v.c==NAN_; u128 r; Mp t(T::m().p); if(g_plan.kind==0){ if(q) mpfr_set_ui(t.v,1,MPFR_RNDN); else if(v.c==NORM){ to_mpfr(t.v,v); nudge(t.v); } else mpfr_set_d(t.v,v.c==ZERO?1.0:2.0,MPFR_RNDN); } else if(g_plan.kind==1){ if(q) mpfr_set_inf(t.v,1); else mpfr_set_nan(t.v); } else { if(q) mpfr_set_zero(t.v,1); else if(v.c==ZERO) mpfr_set_inf(t.v,-1); else { to_mpfr(t.v,v); mpfr_neg(t.v,t.v,MPFR_RNDN); } } (void)r; (void)f; return FV<B>{B::from_mpfr(t.v,true)}; }
#define OP2(S,N) template<class B> FV<B> operator S(const FV<B>&a,const FV<B>&b){ FV<B> r{typename B::value_t(a.v S b.v)}; return hit(N)?wrong(r):r; }
OP2(+,0) OP2(*,1) OP2(/,2)
#define CMP2(S,N) template<class B> bool operator S(const FV<B>&a,const FV<B>&b){ bool r=a.v S b.v; return hit(N)?!r:r; }
CMP2(==,3) CMP2(!=,4) CMP2(<,5) CMP2(<=,6) CMP2(>,7) CMP2(>=,8)
template<class B> struct Faulty { typedef FV<B> value_t; static value_t from_mpfr(mpfr_t x,bool a=false){ return {B::from_mpfr(x,a)}; } static void to_mpfr(mpfr_t d,const value_t&v){ B::to_mpfr(d,v.v); }
    static void fix(int op,mpfr_t d){ if(hit(op)){ if(g_plan.kind==1&&!mpfr_nan_p(d)) mpfr_set_nan(d); else if(mpfr_regular_p(d)&&g_plan.kind==0) nudge(d); else if(mpfr_regular_p(d)) mpfr_neg(d,d,MPFR_RNDN); else mpfr_set_ui(d,1,MPFR_RNDN); } }
    static void ref_add(mpfr_t d,mpfr_t a,mpfr_t b){ B::ref_add(d,a,b); fix(9,d); } static void ref_mul(mpfr_t d,mpfr_t a,mpfr_t b){ B::ref_mul(d,a,b); fix(10,d); } static void ref_div(mpfr_t d,mpfr_t a,mpfr_t b){ B::ref_div(d,a,b); fix(11,d); } };
} // pol
namespace std { template<class B> class numeric_limits<pol::FV<B>>{ typedef numeric_limits<typename B::value_t> L; typedef pol::FV<B> T; public: static const bool is_specialized=true; static const int digits=L::digits; static T min(){ return {L::min()}; } static T max(){ return {L::max()}; } static T lowest(){ return {L::lowest()}; } static T infinity(){ return {L::infinity()}; } }; }
namespace pol {
template<class B> bool trial(Plan p,int n){ g_plan=p; memset(g_cnt,0,sizeof g_cnt); static bool quiet=false; if(!quiet){ quiet=true; if(!freopen("/dev/null","w",stderr)){} } bool r=thls::test_policy<Faulty<B>>::test_arithmetic(n); g_plan.op=-1; return r; }
template<class B> void clean(int n){ typedef Tr<B> T; std::string nm=fmt("policy test of %s<%d,%d> size %d",T::name(),T::f().E,T::f().F,n); add_space(nm,1,[=](u64,Ctx&c){ bool r=true; i64 k; bool ok=guarded([&]{ r=trial<B>(Plan{-1,-1,0},n); }); k=g_cnt[0]; c.st((u64)k); c.ev((u64)k*9); c.cover(1); i64 s=(i64)std::sqrt((double)k); if(!ok||r) c.fail(nm+":clean",ok?"a correct policy is reported as failing":g_why); for(int j=0;j<12;j++) if(g_cnt[j]!=k||s*s!=k||s<n) c.fail(nm+fmt(":op %d",j),fmt("operation %d is exercised %lld times, %lld expected; %lld inputs, %d asked for",j,(long long)g_cnt[j],(long long)k,(long long)s,n)); bool e=exps_ok<B>(); if(!e) c.fail(nm+":range","exponent range left changed"); }); }
// which (a,b) pairs get the fault: every row, the columns given by a stride
template<class B> void faults(int n,int cols,int tier=0){ typedef Tr<B> T; i64 k=0; { static bool quiet=false; int fd=dup(2); trial<B>(Plan{-1,-1,0},n); dup2(fd,2); close(fd); k=g_cnt[0]; } i64 s=(i64)std::sqrt((double)k); std::string nm=fmt("single faults under the policy test of %s<%d,%d>, %lld inputs",T::name(),T::f().E,T::f().F,(long long)s);
    add_space(nm,(u64)s*12,[=](u64 i,Ctx&c){ int op=(int)(i%12); i64 row=(i64)(i/12); for(int q=0;q<cols;q++){ i64 col=q==0?row:(row*7+q*31)%s; int kind=(int)((row+q+op)%3); c.st(); c.ev(); bool r=false; bool ok=guarded([&]{ r=trial<B>(Plan{op,row*s+col,kind},n); }); exps_ok<B>(); c.slot->beat++; if(!ok||!r) c.fail(nm+fmt(":op %d pair %lld,%lld kind %d",op,(long long)row,(long long)col,kind),ok?"a wrong result is not reported":g_why); c.cover((unsigned)i*3+kind); } if(i==77) c.sample(nm+fmt(" operation %d, row %lld",op,(long long)row)); },tier); }
} // pol
