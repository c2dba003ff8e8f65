// leak.hpp - memory taken by a call is given back by the time it ends, however it ends (P27)
//
// Every call of an alphabet is made again and again in one process while the monitor reads how many bytes the C library has handed out.
// What the first calls keep (constant tables, MPFR's caches and pools, free lists of the allocator) does not count: a call has lost
// memory when the amount is larger after each of 16 consecutive calls, and again after each of 64.
#pragma once
#include <malloc.h>
#include "pure.hpp"
#include "mkin.hpp"
namespace leak {
using namespace pure;
inline size_t use(){ mpfr_mp_memory_cleanup(); auto m=mallinfo2(); return m.uordblks+m.hblkhd; }
template<class G> void space(const std::string&nm,G g){
    auto K=std::make_shared<Calls>(); g(*K); const size_t B=16; add_space(nm+fmt(" %zu calls",K->size()),(K->size()+B-1)/B,[=](u64 i,Ctx&c){
        { static bool quiet=false; if(!quiet){ quiet=true; if(!freopen("/dev/null","w",stderr)){} } }
        for(size_t k=i*B;k<std::min(K->size(),(i+1)*B);k++){ Out o; o.reserve(1024); bool died=false; int up=0; size_t u0=use(),n0=0; auto go=[&](int n){ for(int r=0;r<n&&!died;r++){ o.clear(); died=!guarded([&]{ make((*K)[k],o); }); size_t u=use(); if(u>u0) up++; else up=0; n0+=u-u0; u0=u; } c.ev(n); c.st(n); };
            go(8); up=0; n0=0; go(16); c.cover((unsigned)digest(o)); if(died) continue; // refused by an assertion: the process ends with it
            if(up==16){ up=0; n0=0; go(64); if(up==64) c.fail(nm+":"+(*K)[k].key,fmt("every call keeps memory: %zu bytes more after 64 calls",n0)); } }
        if(i==0) c.sample(nm+": "+(*K)[0].key); }); }
// ---- calls that end in an exception, and the rest of the library that owns memory
template<class F> void call(Calls&K,const std::string&nm,F f){ K.push_back({nm,[=](Out&o){ f(o); }}); }
template<int E,int F> void odd(Calls&K){ std::string t=fmt("<%d,%d>",E,F);
    for(int p:{F-1,F+1,F+2,F+9}) for(double v:{1.0,-3.0,0.0,1e300,-1e-300,(double)NAN,(double)INFINITY}) for(int al=0;al<2;al++){
        call(K,"fp_flopoco"+t+fmt("(mpfr %g at %d bits,%d)",v,p,al),[=](Out&o){ Mp m(p); mpfr_set_d(m.v,v,MPFR_RNDN); mpfr_mul_2si(m.v,m.v,v>1e9?60000:v<0&&v>-1?-60000:0,MPFR_RNDN); w(o,thls::fp_flopoco<E,F>(m.v,al)); });
        call(K,"fp_ieee"+t+fmt("(mpfr %g at %d bits,%d)",v,p,al),[=](Out&o){ Mp m(p); mpfr_set_d(m.v,v,MPFR_RNDN); mpfr_mul_2si(m.v,m.v,v>1e9?60000:v<0&&v>-1?-60000:0,MPFR_RNDN); w(o,thls::fp_ieee<E,F>(m.v,al)); });
        call(K,"get "+t+fmt(" at %d bits of %g",p,v),[=](Out&o){ Mp m(p); auto x=std::numeric_limits<thls::fp_flopoco<E,F>>::one(); if(v>2) x=std::numeric_limits<thls::fp_flopoco<E,F>>::max(); x.get(m.v); w(o,m.v); }); }
    for(double v:{1.0,0.1,1e300,5e-324,-0.0}) call(K,"fp_flopoco"+t+fmt("(double %g)",v),[=](Out&o){ w(o,thls::fp_flopoco<E,F>(v)); }); }
template<int W> void odd_int(Calls&K){ for(const char*s:{"0b","0b1","0b1011","0b1_0_1_1","0b2","0b10111111111111111","xyz","0b11 "}) call(K,fmt("fw_uint<%d>(\"%s\")",W,s),[=](Out&o){ w(o,thls::fw_uint<W>(s)); });
    for(int k:{0,1,W-1,W,W+1,3*W}) call(K,fmt("fw_uint<%d>(mpz 2^%d)",W,k),[=](Out&o){ struct Z{ mpz_t z; Z(){ mpz_init(z);} ~Z(){ mpz_clear(z);} } z; mpz_setbit(z.z,k); w(o,thls::fw_uint<W>(z.z)); }); }
template<class P> void imp(Calls&K,const char*nm){ typedef pol::Tr<P> T; int p=T::m().p; for(int q:{p,p+1,p+20,p-1}) for(double v:{1.0,-3.0,0.1,0.0,1e300,-1e-300,(double)NAN,(double)INFINITY}) for(int sc:{0,3000,-3000,-140,-1060}) for(int al=0;al<2;al++) call(K,std::string(nm)+fmt("::from_mpfr(%g*2^%d at %d bits,%d)",v,sc,q,al),[=](Out&o){ Mp m(q); mpfr_set_d(m.v,v,MPFR_RNDN); mpfr_mul_2si(m.v,m.v,sc,MPFR_RNDN); w(o,T::rd(P::from_mpfr(m.v,al))); });
    for(int q:{p,p+1,p+20,p+60}) for(int sg:{1,-1}) for(int al=0;al<2;al++) call(K,std::string(nm)+fmt("::from_mpfr(1/3*%d at %d bits,%d)",sg,q,al),[=](Out&o){ Mp m(q); mpfr_set_si(m.v,sg,MPFR_RNDN); mpfr_div_ui(m.v,m.v,3,MPFR_RNDN); w(o,T::rd(P::from_mpfr(m.v,al))); });
    call(K,std::string(nm)+" policy test",[=](Out&o){ w(o,thls::test_policy<P>::test_arithmetic(1)); }); }
template<int E,int F> void whole(Calls&K){ std::string t=fmt("<%d,%d>",E,F);
    for(int n:{0,20,200}) call(K,"make_input"+t+fmt(" %d",n),[=](Out&o){ std::vector<thls::fp_flopoco<E,F>> a; thls::make_input(a,n); o.push_back(a.size()); });
    one<E,F>(K,"inv_faithful",1,[](Out&o,auto&a){ w(o,thls::inv_faithful<E,F>(a)); }); }
} // leak
