// softf.hpp - software binary32/binary64 against the hardware's, bit for bit (P19)
#pragma once
#include "lib.hpp"
#include "thls/tops/policy_softfloat.hpp"
#include <memory>
namespace sf {
using namespace mc;
template<int N> struct Ty; // 32 or 64
template<> struct Ty<32>{ typedef float H; typedef float32_t S; typedef uint32_t U; static const int F=23,E=8; };
template<> struct Ty<64>{ typedef double H; typedef float64_t S; typedef uint64_t U; static const int F=52,E=11; };
template<class D,class S> inline D as(S s){ static_assert(sizeof(D)==sizeof(S),""); D d; memcpy(&d,&s,sizeof d); return d; }
template<int N> inline bool nan(typename Ty<N>::U u){ typedef Ty<N> T; u64 e=(u>>T::F)&((1u<<T::E)-1); return e==(1u<<T::E)-1 && (u&(((u64)1<<T::F)-1)); }
template<int N> inline bool same(typename Ty<N>::U a,typename Ty<N>::U b){ return a==b||(nan<N>(a)&&nan<N>(b)); }
// number of operations of the pair that differ from the hardware (0 almost always), reported by name
template<int N> inline void pair(Ctx&c,const std::string&nm,typename Ty<N>::U x,typename Ty<N>::U y){
    typedef Ty<N> T; typedef typename T::H H; typedef typename T::S S; typedef typename T::U U;
    S a=as<S>(x),b=as<S>(y); volatile H vh=as<H>(x),vg=as<H>(y); H h=vh,g=vg; U r[3],w[3]; int m=0,n=0; bool ok=guarded([&]{
        r[0]=as<U>(a+b); r[1]=as<U>(a*b); r[2]=as<U>(a/b); m=(int)(a==b)|(int)(a!=b)<<1|(int)(a<b)<<2|(int)(a>b)<<3|(int)(a<=b)<<4|(int)(a>=b)<<5; });
    w[0]=as<U>((H)(h+g)); w[1]=as<U>((H)(h*g)); w[2]=as<U>((H)(h/g)); n=(int)(h==g)|(int)(h!=g)<<1|(int)(h<g)<<2|(int)(h>g)<<3|(int)(h<=g)<<4|(int)(h>=g)<<5; c.ev(9);
    if(ok&&same<N>(r[0],w[0])&&same<N>(r[1],w[1])&&same<N>(r[2],w[2])&&m==n) return;
    std::string key=nm+":"+hex(x)+","+hex(y); if(!ok){ c.fail(key,g_why); return; }
    const char*on[]={"+","*","/"}; for(int i=0;i<3;i++) if(!same<N>(r[i],w[i])){ c.fail(key,fmt("%s %s %s expected %s got %s",hex(x).c_str(),on[i],hex(y).c_str(),hex(w[i]).c_str(),hex(r[i]).c_str())); return; }
    c.fail(key,fmt("==,!=,<,>,<=,>= expected bits %02x got %02x",n,m)); }
inline std::vector<u64> fracs(int F,int lvl){ std::set<u64> s; u64 M=((u64)1<<F)-1; for(u64 v:{(u64)0,(u64)1,(u64)2,(u64)3,M,M-1,M-2,M>>1,(M>>1)+1,(M>>1)+2,(u64)0x5555555555555555ull,(u64)0xAAAAAAAAAAAAAAAAull}) s.insert(v&M);
    if(lvl>0) for(int k=0;k<F;k+=(lvl>1?1:3)) for(u64 v:{(u64)1<<k,((u64)1<<k)-1,M^(((u64)1<<k)-1)}) s.insert(v&M);
    if(lvl>1) for(int k=0;k<F;k++) for(u64 v:{M^((u64)1<<k),((u64)1<<k)|1,(M>>k)^1}) s.insert(v&M);
    return std::vector<u64>(s.begin(),s.end()); }
// every pair of exponent fields (at the coarse step given) x fraction alphabet x both signs
template<int N> void expo(int fl,int step,int tier=0){
    typedef Ty<N> T; typedef typename T::U U; auto fr=std::make_shared<std::vector<u64>>(fracs(T::F,fl)); auto ex=std::make_shared<std::vector<u64>>(); int X=1<<T::E,B=X/2-1; std::set<int> s; for(int e=0;e<X;e+=step) s.insert(e); for(int d=-T::F-3;d<=T::F+3;d++) for(int b:{0,B,X-1}) if(b+d>=0&&b+d<X&&(step==1||(d%7==0)||abs(d)<=3||abs(d)>=T::F-1)) s.insert(b+d); for(int e:s) ex->push_back(e);
    std::string nm=fmt("f%d exponent pairs, %zu fractions",N,fr->size()); size_t n=ex->size();
    add_space(nm,n*n,[=](u64 i,Ctx&c){ u64 ea=(*ex)[i/n],eb=(*ex)[i%n]; for(u64 fa:*fr) for(u64 fb:*fr) for(int sg=0;sg<4;sg++){ c.st(); pair<N>(c,nm,(U)(ea<<T::F|fa|(u64)(sg&1)<<(N-1)),(U)(eb<<T::F|fb|(u64)(sg>>1)<<(N-1))); } c.cover((unsigned)(i%65521)); if(i==n*n/2) c.sample(nm+fmt(" exponents %llu,%llu",(unsigned long long)ea,(unsigned long long)eb)); },tier);
}
// dense fractions at the exponents where something happens
template<int N> void dense(int fl,int tier=0){
    typedef Ty<N> T; typedef typename T::U U; auto fr=std::make_shared<std::vector<u64>>(fracs(T::F,fl)); int X=1<<T::E,B=X/2-1; auto ep=std::make_shared<std::vector<std::pair<u64,u64>>>(); std::set<std::pair<u64,u64>> s;
    for(int d:{0,1,2,3,T::F-1,T::F,T::F+1,T::F+2,T::F+3,30,31,32,62,63}) for(int b:{B,0,1,X-2-d}) if(b>=0&&b+d<X){ s.insert({b,b+d}); s.insert({b+d,b}); }
    for(int d=-T::F-2;d<=2;d++) if(fl<2||d%4==0||d>-3){ s.insert({B/2,B-B/2+d}); } for(int d=-2;d<=2;d++){ s.insert({X-2-B/2,B+B/2+1+d}); s.insert({X-2,d+2}); s.insert({d+2,X-2}); s.insert({X-1,d+2}); s.insert({B+d,B}); s.insert({1,X-4+d}); if(d>=0) s.insert({d,B}); }
    for(auto p:s) ep->push_back(p); std::string nm=fmt("f%d dense fractions %zu",N,fr->size()); size_t n=fr->size();
    add_space(nm,n*ep->size(),[=](u64 i,Ctx&c){ auto e=(*ep)[i/n]; u64 fa=(*fr)[i%n]; for(u64 fb:*fr) for(int sg=0;sg<4;sg++){ c.st(); pair<N>(c,nm,(U)(e.first<<T::F|fa|(u64)(sg&1)<<(N-1)),(U)(e.second<<T::F|fb|(u64)(sg>>1)<<(N-1))); } c.cover((unsigned)(i%65521)); if(i==n+3) c.sample(nm+fmt(" exponents %llu,%llu fraction %llx",(unsigned long long)e.first,(unsigned long long)e.second,(unsigned long long)fa)); },tier);
}
// divisions that land on or next to a representable quotient or a tie: dividend = quotient * divisor, +-2 ulp
template<int N> void quot(int fl,int tier=0){
    typedef Ty<N> T; typedef typename T::U U; auto fr=std::make_shared<std::vector<u64>>(fracs(T::F,fl)); std::string nm=fmt("f%d quotients %zu",N,fr->size());
    // also every leading byte of the divisor (the reciprocal table)
    for(u64 t=0;t<256;t+=fl<0?16:1) for(u64 lo:{(u64)0,((u64)1<<(T::F-8))-1,(u64)1<<(T::F-9)}) fr->push_back(t<<(T::F-8)|lo);
    size_t n=fr->size();
    add_space(nm,n,[=](u64 i,Ctx&c){ u64 one=(u64)1<<T::F; u64 d=one|(*fr)[i]; for(u64 q0:*fr) for(int half=0;half<2;half++){ u128 q=(u128)(one|q0)*2+half; u128 p=q*d; int sh=0; while((p>>sh)>>(T::F+1)) sh++; u64 a=(u64)(p>>sh); for(int k=-1;k<=2;k++){ u64 f=(a+k)&(one-1); c.st(); for(int eb:{(1<<(T::E-1))-1,1<<(T::E-1)}) pair<N>(c,nm,(U)((u64)((1<<(T::E-1))-1)<<T::F|f),(U)((u64)eb<<T::F|(d&(one-1)))); 
            // quotient in the subnormal range
            pair<N>(c,nm,(U)((u64)((1<<(T::E-2)))<<T::F|f),(U)((u64)((1<<(T::E-1))+(1<<(T::E-2))-1+(int)(q0&7))<<T::F|(d&(one-1)))); } } c.cover((unsigned)i); if(i==9) c.sample(nm+" divisor "+hex(d)); },tier);
}
// products on, just above and just below a rounding boundary, for normal results and for every depth of subnormal ones
template<int N> void prod(int fl,int tier=0){
    typedef Ty<N> T; typedef typename T::U U; auto fr=std::make_shared<std::vector<u64>>(fracs(T::F,fl)); for(u64 t=0;t<256;t+=fl<0?16:1) for(u64 lo:{(u64)1,((u64)1<<(T::F-8))-1}) fr->push_back(t<<(T::F-8)|lo);
    std::string nm=fmt("f%d products beside boundaries %zu",N,fr->size()); size_t n=fr->size(); int F=T::F,B=(1<<(T::E-1))-1;
    add_space(nm,n,[=](u64 i,Ctx&c){ u64 mx=((u64)1<<F)|(*fr)[i]; for(int dp=-2;dp<=F+1;dp++){ // dp: how far below the normal range the result lies (<0: normal)
            int x0=dp<0?0:dp; for(int D:{F+x0,F+x0+1}){ if(D>62) D=62; u64 H=(u64)1<<(D-1),M=(H<<1)-1; for(u64 t:{(u64)0,(u64)1,H-1,H,H+1,M}) for(u64 m:mul_ties(mx,F,D,t)){
                U a=(U)((u64)(B/2+3)<<F|(mx&(((u64)1<<F)-1))); i64 eb=dp<0?(dp==-2?B:2*B-(B/2+3)+B): 1-x0+B-(B/2+3); if(eb<1||eb>2*B) continue; for(int sg=0;sg<4;sg+=3){ c.st(); pair<N>(c,nm,(U)(a|(U)(sg&1)<<(N-1)),(U)((u64)eb<<F|m|(u64)(sg>>1)<<(N-1))); } } } }
        c.cover((unsigned)i); },tier);
}
// every 32-bit pattern against fixed partners
inline void all32(std::vector<uint32_t> ys,int tier){ auto v=std::make_shared<std::vector<uint32_t>>(ys); for(uint32_t y:*v){ std::string nm=fmt("f32 all patterns with %08x",y); add_space(nm,1<<16,[=](u64 i,Ctx&c){ for(u64 k=0;k<65536;k++){ pair<32>(c,nm,(uint32_t)(i<<16|k),y); pair<32>(c,nm,y,(uint32_t)(i<<16|k)); } c.st(131072); c.cover((unsigned)i); },tier); } }
template<int N> void limits(){
    std::string nm=fmt("f%d limits",N); add_space(nm,1,[=](u64,Ctx&c){ typedef Ty<N> T; typedef typename T::U U; typedef std::numeric_limits<typename T::S> L; typedef std::numeric_limits<typename T::H> R; int k=0;
        auto q=[&](const char*n,u64 a,u64 b){ c.ev(); c.st(); c.cover(k++); if(a!=b) c.fail(nm+":"+n,fmt("expected %llx got %llx",(unsigned long long)b,(unsigned long long)a)); };
        q("min",as<U>(L::min()),as<U>(R::min())); q("max",as<U>(L::max()),as<U>(R::max())); q("lowest",as<U>(L::lowest()),as<U>(R::lowest())); q("epsilon",as<U>(L::epsilon()),as<U>(R::epsilon())); q("round_error",as<U>(L::round_error()),as<U>(R::round_error())); q("infinity",as<U>(L::infinity()),as<U>(R::infinity())); q("denorm_min",as<U>(L::denorm_min()),as<U>(R::denorm_min())); q("quiet_NaN",nan<N>(as<U>(L::quiet_NaN())),1);
        q("digits",L::digits,R::digits); q("min_exponent",L::min_exponent,R::min_exponent); q("max_exponent",L::max_exponent,R::max_exponent); q("radix",L::radix,R::radix); q("digits10",L::digits10,R::digits10); q("max_digits10",L::max_digits10,R::max_digits10); q("min_exponent10",L::min_exponent10,R::min_exponent10); q("max_exponent10",L::max_exponent10,R::max_exponent10); });
}
} // sf
