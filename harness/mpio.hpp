// mpio.hpp - library numbers <-> MPFR and native doubles (P11), and the MPFR-based reference operations (P22)
#pragma once
#include "rel.hpp"
#include <cmath>
namespace sp {
inline bool mp_is(mpfr_t a,mpfr_t b){ return mpfr_nan_p(b) ? mpfr_nan_p(a)!=0 : !mpfr_nan_p(a) && mpfr_cmp(a,b)==0 && (mpfr_signbit(a)!=0)==(mpfr_signbit(b)!=0); }
inline bool dbl_is(double a,double b){ return b!=b ? a!=a : memcmp(&a,&b,8)==0; }
template<int E,int F,bool D> struct ToD { static double go(const thls::fp_flopoco<E,F>&a){ return a.to_double(); } };
template<int E,int F> struct ToD<E,F,false> { static double go(const thls::fp_flopoco<E,F>&a){ return a.to_double_approx(); } };
template<int E,int F> void mp_one(Ctx&c,const char*nm,u128 x){
    Fmt f{E,F}; Val v=decode(f,x); auto a=mkfp<E,F>(x); Mp g(F+1),w(F+1); to_mpfr(w.v,v); u128 back=0; double da=0,dd=0; c.ev(4); static const mpfr_rnd_t R[5]={MPFR_RNDN,MPFR_RNDZ,MPFR_RNDU,MPFR_RNDD,MPFR_RNDA};
    bool modes=true; std::string md;
    bool ok=guarded([&]{ a.get(g.v); thls::fp_flopoco<E,F> b(g.v); back=rawfp(b); da=a.to_double_approx(); dd=ToD<E,F,(E<=11&&F<=52)>::go(a); });
    if(ok) for(int p: {F+1,F+9,F>3?F/2+1:2,2}) for(auto r:R){ Mp h(p),k(p); c.ev(); if(!guarded([&]{ a.get(h.v,r); })){ ok=false; break; } mpfr_set(k.v,w.v,r); if(!mp_is(h.v,k.v)&&modes){ modes=false; md=fmt(" (extraction to %d bits in mode %d is wrong)",p,(int)r); } }
    double wd=mpfr_get_d(w.v,MPFR_RNDN);
    if(ok&&modes&&mp_is(g.v,w.v)&&same(f,back,x)&&dbl_is(da,wd)&&dbl_is(dd,wd)){ c.cover((unsigned)eq_class(f,x)*64+(unsigned)(cexp(f,x)&63)); return; }
    c.fail(fmt("%s:%s",nm,hex(x).c_str()),fmt("x=%s %s value in MPFR %s%s, read back %s, to_double_approx %a to_double %a want %a",show(f,x).c_str(),ok?"":g_why,mp_is(g.v,w.v)?"right":"WRONG",md.c_str(),show(f,back).c_str(),da,dd,wd));
}
// any exponent arriving through MPFR, with and without permission to leave the range; wrong precisions are refused both ways
template<int E,int F> void mp_range(){
    Fmt f{E,F}; std::string nm=fmt("from MPFR<%d,%d>",E,F); i64 lo=f.emin()-3,hi=f.emax()+3;
    add_space(nm+" exponents in and beyond the range",(u64)(hi-lo+1),[=](u64 i,Ctx&c){
        i64 e=lo+(i64)i; for(int s=0;s<2;s++) for(u64 q:frac_alphabet(F,1)) for(int allow=0;allow<2;allow++){
            Val v{NORM,s,((u128)1<<F)|q,e-F}; Mp m(F+1); to_mpfr(m.v,v); bool in= e>=f.emin()&&e<=f.emax(); u128 got=0; bool threw=false; c.ev(); c.st();
            bool ok=guarded([&]{ try{ thls::fp_flopoco<E,F> r(m.v,allow!=0); got=rawfp(r); }catch(std::runtime_error&){ threw=true; } });
            u128 want=conv(f,v);
            if(ok&&threw==(!in&&!allow)&&(threw||same(f,got,want))){ c.cover((unsigned)(s*4+in*2+allow)); continue; }
            c.fail(nm+fmt(":%lld,%d,%llx,%d",(long long)e,s,(unsigned long long)q,allow),fmt("exponent %lld sign %d frac %llx allow=%d expected %s%s got %s%s",(long long)e,s,(unsigned long long)q,allow,(!in&&!allow)?"exception ":"",show(f,want).c_str(),threw?"exception":ok?"":g_why,show(f,got).c_str())); }
        if(i==0) for(int p:{F,F+2,F+30}) if(p>1){ Mp m(p); mpfr_set_ui(m.v,1,MPFR_RNDN); bool t1=false,t2=false; c.ev(2); guarded([&]{ try{ thls::fp_flopoco<E,F> r(m.v); }catch(std::runtime_error&){ t1=true; } try{ thls::fp_flopoco<E,F> one(1.0); one.get(m.v); }catch(std::runtime_error&){ t2=true; } });
            if(!t1||!t2) c.fail(nm+fmt(":precision %d",p),"a number or destination of the wrong precision is accepted"); }
    });
}
template<int E,int F> void dbl_space(int level){
    Fmt f{E,F}; std::string nm=fmt("from double<%d,%d>",E,F);
    add_space(nm+" every sign and exponent x fraction alphabet",4096,[=](u64 i,Ctx&c){
        std::vector<u64> fl=frac_alphabet(52,level); std::set<u64> fs(fl.begin(),fl.end()); if(F<52) for(u64 b:frac_alphabet(F,0)) for(u64 lo:{(u64)0,(u64)1,(u64)ones(52-F),(u64)1<<(51-F)}) fs.insert((b<<(52-F))|lo);
        for(u64 q:fs){ u64 b=(i<<52)|q; double d; memcpy(&d,&b,8); int s=(int)(i>>11); int ee=(int)(i&2047); u128 want,got=0; c.ev(); c.st();
            if(ee==2047) want= q? mk_nan(f): mk_inf(f,s); else if(ee==0) want=mk_zero(f,s);
            else { i64 e=ee-1023; u64 t= F<=52 ? q>>(52-F) : q<<(F-52); want= e<f.emin()? mk_zero(f,s) : e>f.emax()? mk_inf(f,s) : code(f,NORM,s,(u128)(e+f.bias()),t); }
            bool ok=guarded([&]{ thls::fp_flopoco<E,F> a(d); got=rawfp(a); });
            if(ok&&same(f,got,want)){ c.cover((unsigned)(eq_class(f,want)*8+(ee==0)*4+s)); continue; }
            c.fail(nm+fmt(":%llx",(unsigned long long)b),fmt("double %a expected %s got %s%s",d,show(f,want).c_str(),ok?"":g_why,show(f,got).c_str())); }
        if(i==1000) c.sample(nm+fmt(" sign/exponent field %llx x %zu fractions",(unsigned long long)i,fs.size()));
    });
}
template<int E,int F> void mp_space(bool full,int l=3){
    Fmt f{E,F}; auto nm=std::make_shared<std::string>(fmt("mpfr<%d,%d>",E,F)); OneFn o=[=](Ctx&c,u128 x){ mp_one<E,F>(c,nm->c_str(),x); };
    if(full) codes_all(*nm,f,o); else codes_edge(*nm,f,l,o);
    if(E<=12) mp_range<E,F>();
}
// ---- P22 ----
inline u128 via(Fmt fr,const Val&a,int(*op)(mpfr_t,const mpfr_t,mpfr_rnd_t)){ Mp x(128),z(fr.F+1); to_mpfr(x.v,a); op(z.v,x.v,MPFR_RNDN); return from_mpfr(fr,z.v); }
inline int m_sqrt(mpfr_t d,const mpfr_t s,mpfr_rnd_t r){ return mpfr_sqrt(d,s,r); }
inline int m_log(mpfr_t d,const mpfr_t s,mpfr_rnd_t r){ return mpfr_log(d,s,r); }
inline int m_exp(mpfr_t d,const mpfr_t s,mpfr_rnd_t r){ return mpfr_exp(d,s,r); }
inline u128 ref_pow_(Fmt f,const Val&a,const Val&b){ Mp x(128),y(128),z(f.F+1); to_mpfr(x.v,a); to_mpfr(y.v,b); mpfr_pow(z.v,x.v,y.v,MPFR_RNDN); return from_mpfr(f,z.v); }
static const BinRef REF_POW={ref_pow_,"pow",'^'};
inline bool is_want(Fmt fr,u128 w,u128 got,std::string&want){ if(same(fr,w,got)) return true; want=show(fr,w); return false; }
inline bool ok_sqrt(Fmt fr,Fmt fx,u128 x,u128 got,std::string&want){ return is_want(fr,via(fr,decode(fx,x),m_sqrt),got,want); }
inline bool ok_log(Fmt fr,Fmt fx,u128 x,u128 got,std::string&want){ return is_want(fr,via(fr,decode(fx,x),m_log),got,want); }
inline bool ok_exp(Fmt fr,Fmt fx,u128 x,u128 got,std::string&want){ return is_want(fr,via(fr,decode(fx,x),m_exp),got,want); }
inline bool ok_sqr(Fmt fr,Fmt fx,u128 x,u128 got,std::string&want){ Val v=decode(fx,x); return is_want(fr,orc::mul(fr,v,v),got,want); }
template<int P> inline bool ok_ldexp(Fmt fr,Fmt fx,u128 x,u128 got,std::string&want){ Val v=decode(fx,x); v.e+=P; return is_want(fr,conv(fr,v),got,want); }
// lower (toward -inf) and upper (toward +inf) reciprocal
inline bool ok_inv_lo(Fmt fr,Fmt fx,u128 x,u128 got,std::string&want){ Val v=decode(fx,x); return is_want(fr,orc::div(fr,one(),v,v.s?RUPMAG:RDOWN),got,want); }
inline bool ok_inv_hi(Fmt fr,Fmt fx,u128 x,u128 got,std::string&want){ Val v=decode(fx,x); return is_want(fr,orc::div(fr,one(),v,v.s?RDOWN:RUPMAG),got,want); }
} // sp
