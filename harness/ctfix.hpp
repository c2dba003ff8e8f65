// ctfix.hpp - compile-time bounds, checked shifts and fixed-point comparison (P17)
// Every point is one instantiation; 128-bit run-time integers give the expected answer.
#pragma once
#include "lib.hpp"
#include <memory>
#include "thls/core/base_ops.hpp"
namespace ctfix {
using namespace mc; typedef __int128 i128;
// one row per point, filled at compile time: the inputs, the code's answers, the answers expected of it
struct Row { int64_t in[4]; int64_t got[6], want[6]; int n; };
inline std::string L(int64_t v){ return fmt("%lld",(long long)v); }
inline void space(const std::string&nm,const Row*r,size_t N,const char*unit,int nin){ add_space(nm,(N+63)/64,[=](u64 b,Ctx&c){ for(u64 i=b*64;i<std::min<u64>(N,b*64+64);i++){ const Row&q=r[i]; if(!q.n) continue; c.st(); c.ev(); std::string k; for(int j=0;j<nin;j++) k+=(j?",":"")+L(q.in[j]); c.cover((unsigned)(q.want[0]*7+q.n)&1023);
  for(int j=0;j<q.n;j++) if(q.got[j]!=q.want[j]){ c.fail(nm+":"+k,"answer "+L(j)+" is "+L(q.got[j])+", expected "+L(q.want[j])); break; } } if(b==0) c.sample(nm+unit); }); }
// values: small ones, around powers of two, the ends of the range
#ifndef CT_NEG
constexpr int64_t val(int i){ return i<9?i:i<16?((int64_t)1<<(i-5))-1:i==16?0x7fffffff:i==17?0x80000000ll:i==18?((int64_t)1<<53)+1:i==19?((int64_t)1<<61)+1:i==20?((int64_t)1<<62)-1:i==21?((int64_t)1<<62):0x7fffffffffffffffll; }
#define NV 23
#else
constexpr int64_t val(int i){ return i<9?i-4:i<13?-(((int64_t)1<<(i-5))-1):i==13?-0x80000000ll:i==14?-((int64_t)1<<53)-1:i==15?-((int64_t)1<<62)-1:i==16?(int64_t)(-0x7fffffffffffffffll-1):i==17?((int64_t)1<<62):0x7fffffffffffffffll; }
#define NV 19
#endif
// ---- bounds
constexpr int64_t hi2(int64_t a,int64_t b){ return a>b?a:b; } constexpr int64_t lo2(int64_t a,int64_t b){ return a>b?b:a; }
template<int I> constexpr Row bnd(){ using namespace thls; constexpr int64_t a=val(I%NV),b=val(I/NV%NV),c=val(I*7%NV),d=val(I*5/3%NV); constexpr int64_t hi=hi2(hi2(a,b),hi2(c,d)),lo=lo2(lo2(a,b),lo2(c,d));
    return Row{{a,b,c,d},{ctMax<a,b>::val,ctMin<a,b>::val,ctMax4<a,b,c,d>::val,ctMin4<a,b,c,d>::val,ctMax4<d,c,b,a>::val,ctMin4<c,a,d,b>::val},{hi2(a,b),lo2(a,b),hi,lo,hi,lo},6}; }
template<int...I> void bounds_(std::integer_sequence<int,I...>){ static const Row r[]={bnd<I>()...}; space("largest and smallest of two and four",r,sizeof...(I)," every pair of the value list",4); }
inline void bounds(){ bounds_(std::make_integer_sequence<int,NV*NV>()); }
// ---- checked shift: every representable shift has the exact value
constexpr bool fits(int64_t v,int s){ return s>=0&&s<64&&(v==0|| (v>0? (s<63 && v<=(0x7fffffffffffffffll>>s)) : (i128)v*((i128)1<<s)>=-((i128)1<<63))); }
constexpr int64_t mulp(int64_t v,int s){ return (int64_t)((i128)v*((i128)1<<s)); }
constexpr int64_t flo(int64_t v,int s){ return (int64_t)((i128)v/((i128)1<<s) - (v<0 && (i128)v%((i128)1<<s)!=0 ? 1:0)); }
template<int64_t V,int S,bool OK> struct ShV { static constexpr int64_t v=thls::ctCheckedShiftLeft<V,S>::val; };
template<int64_t V,int S> struct ShV<V,S,false>{ static constexpr int64_t v=0; };
template<int I> Row sh(){ constexpr int64_t v=val(I%NV); constexpr int s=I/NV; constexpr bool ok=fits(v,s); return Row{{v,s},{shift_right_const<s>(v),ShV<v,s,ok>::v},{flo(v,s),ok?mulp(v,s):0},ok?2:1}; }
template<int...I> void shifts_(std::integer_sequence<int,I...>){ static const Row r[]={sh<I>()...}; space("constant shifts",r,sizeof...(I)," every value of the list by every distance (to the left where it fits)",2); }
inline void shifts(){ shifts_(std::make_integer_sequence<int,NV*64>()); }
// ---- comparison of fixed-point constants v*2^e
template<int EA,int64_t VA,int EB,int64_t VB,bool OK> struct Cmp { static constexpr Row row(){ using namespace thls; constexpr int lo=EA<EB?EA:EB; constexpr int64_t a=mulp(VA,EA-lo),b=mulp(VB,EB-lo); constexpr int w=a<b?-1:a>b?1:0;
    return Row{{EA,VA,EB,VB},{ctFixCompare<EA,VA,EB,VB>::val,ctFixLessThan<EA,VA,EB,VB>::val,ctFixLessThanEquals<EA,VA,EB,VB>::val,ctFixEquals<EA,VA,EB,VB>::val,ctFixGreaterThanEquals<EA,VA,EB,VB>::val,ctFixGreaterThan<EA,VA,EB,VB>::val},{w,w<0,w<=0,w==0,w>=0,w>0},6}; } };
template<int EA,int64_t VA,int EB,int64_t VB> struct Cmp<EA,VA,EB,VB,false>{ static constexpr Row row(){ return Row{}; } };
template<int EA,int EB,int I> constexpr Row cmp1(){ constexpr int lo=EA<EB?EA:EB; constexpr int64_t a=val(I%NV),b=val(I/NV); return Cmp<EA,a,EB,b,fits(a,EA-lo)&&fits(b,EB-lo)>::row(); }
template<int EA,int EB,int...I> void cmp_(std::integer_sequence<int,I...>){ static const Row r[]={cmp1<EA,EB,I>()...}; space(fmt("fixed-point comparison at exponents %d,%d",EA,EB),r,sizeof...(I)," every pair of the value list that fits",4); }
template<int EA,int EB> void cmp(){ cmp_<EA,EB>(std::make_integer_sequence<int,NV*NV>()); }
} // ctfix
