// ctm.hpp - compile-time vectors, generators, shuffles, the LUT-optimised generator, input lists (P23)
// Every point is one instantiation (a program of the template language); a plain run-time model gives the expected result.
#pragma once
#include "lib.hpp"
#include <memory>
#include <array>
#include <algorithm>
#include "thls/tops/ct/ct_vec_unique.hpp"
#include "thls/tops/ct/ct_vec_permute.hpp"
#include "thls/tops/ct/ct_vec_algorithms.hpp"
#include "thls/tops/ct/ct_rng_lcg_mod_2y32.hpp"
#include "thls/tops/ct/ct_rng_lcg_mod_p.hpp"
#include "thls/tops/lut_opt.hpp"
#include "thls/tops/function_utils.hpp"
namespace ctm {
using namespace mc; namespace ct=thls::ct;
typedef std::vector<int> VI; template<int V> using IC=std::integral_constant<int,V>;
struct Point { std::string key; std::function<std::string(Ctx&)> f; };
typedef std::vector<Point> Points;
inline void space(const std::string&nm,std::shared_ptr<Points> p){ add_space(nm,p->size(),[=](u64 i,Ctx&c){ std::string w; auto&q=(*p)[i]; c.st(); c.ev(); bool ok=guarded([&]{ w=q.f(c); }); c.cover((unsigned)i); if(!ok||!w.empty()) c.fail(nm+":"+q.key,ok?w:g_why); if(i==p->size()/2) c.sample(nm+" "+q.key); }); }
inline std::string show(const VI&v){ std::string s="["; for(int x:v) s+=fmt("%d ",x); return s+"]"; }
// ---- reading a tree without the library's reader
template<class T> struct Rd; template<> struct Rd<ct::ct_vec_empty>{ static void go(VI&){} };
template<class L,class R> struct Rd<ct::ct_vec_branch<L,R>>{ static void go(VI&v){ Rd<L>::go(v); Rd<R>::go(v); } };
template<class X> struct Rd<ct::ct_vec_leaf<X>>{ static void go(VI&v){ v.push_back(X::value); } };
template<class T> VI rd(){ VI v; Rd<T>::go(v); return v; }
template<class T,int...I> VI rdlib(std::integer_sequence<int,I...>){ return VI{ct::ct_vec_read<I,T>::type::value...}; }
// for_each / map_reduce with an order-revealing reduction
struct Coll { std::vector<std::pair<int,int>>*o; template<class C> void operator()(int off,const C*){ o->push_back({off,C::value}); } };
struct MR { template<class L,class R> struct reduce_type{ typedef std::string type; }; template<class L,class R> using rt=std::string; template<int O,class C> struct map_type{ typedef std::string type; };
    template<int O,class C> std::string map() const { return fmt("%d=%d,",O,(int)C::value); } std::string reduce(const std::string&a,const std::string&b) const { return a+b; } };
template<class T> std::string observe(const VI&w){
    VI g=rd<T>(); if(g!=w) return "elements "+show(g)+" expected "+show(w); if(T::N!=(int)w.size()) return fmt("N=%d",T::N);
    VI l=rdlib<T>(std::make_integer_sequence<int,T::N>()); if(l!=w) return "ct_vec_read "+show(l)+" expected "+show(w);
    std::vector<std::pair<int,int>> o; ct::ct_vec_for_each<T>(Coll{&o}); std::string e,f; for(auto&p:o) f+=fmt("%d=%d,",p.first,p.second); for(size_t i=0;i<w.size();i++) e+=fmt("%d=%d,",(int)i,w[i]); if(f!=e) return "for_each saw "+f+" expected "+e;
    std::string m=ct::ct_vec_map_reduce<T>(MR()); if(m!=e) return "map_reduce gave "+m+" expected "+e; return ""; }
// ---- creation
template<int N> void created(Points&p){ p.push_back({fmt("create %d",N),[](Ctx&){ return observe<typename ct::create_ct_vec<N,IC<7>>::type>(VI(N,7)); }}); }
template<int N,int O> void rotated(Points&p){ p.push_back({fmt("rotation %d of %d",O,N),[](Ctx&){ VI w; for(int i=0;i<N;i++) w.push_back((O+i)%N); return observe<typename ct::create_ct_vec_rotation<O,N>::type>(w); }}); }
template<int N,int...O> void rotations(Points&p,std::integer_sequence<int,O...>){ (rotated<N,O>(p),...); }
template<int...N> void creations(std::integer_sequence<int,N...>){ auto p=std::make_shared<Points>(); (created<N+1>(*p),...); (rotations<N+1>(*p,std::make_integer_sequence<int,(N<6?N+3:3)>()),...); space("vector creation",p); }
// ---- all sequences of writes and swaps
template<class T,int D> struct Walk;
template<class T,int D,int O,int N> struct StepOp { // op O: 0..N*N-1 swap(i,j); then writes of 100,101 at each position
    static const bool sw=O<N*N; static const int I=sw?O/N:(O-N*N)/2, J=sw?O%N:0, W=100+(O-N*N)%2;
    template<bool S,class=void> struct R { typedef typename ct::ct_vec_swap<I,J,T>::type type; }; template<class D_> struct R<false,D_>{ typedef typename ct::ct_vec_write<I,IC<W>,T>::type type; };
    typedef typename R<sw>::type type; };
template<class T,int D> struct Walk { static const int N=T::N;
    template<int...O> static void all(Points&p,const VI&w,const std::string&path,std::integer_sequence<int,O...>){ (one<O>(p,w,path),...); }
    template<int O> static void one(Points&p,VI w,std::string path){ typedef StepOp<T,D,O,N> S; if(S::sw){ std::swap(w[S::I],w[S::J]); path+=fmt(" swap%d,%d",S::I,S::J); } else { w[S::I]=S::W; path+=fmt(" [%d]=%d",S::I,S::W); } go2<typename S::type>(p,w,path); }
    template<class U> static void go2(Points&p,const VI&w,const std::string&path){ Walk<U,D-1>::go(p,w,path); }
    static void go(Points&p,const VI&w,const std::string&path){ p.push_back({path,[w](Ctx&){ return observe<T>(w); }}); if constexpr(D>0) all(p,w,path,std::make_integer_sequence<int,N*N+2*N>()); } };
template<int N,int D> void histories(){ auto p=std::make_shared<Points>(); VI w; for(int i=0;i<N;i++) w.push_back((i+1)%N); Walk<typename ct::create_ct_vec_rotation<1,N>::type,D>::go(*p,w,"rotation"); space(fmt("vector of %d: every sequence of swaps and writes to depth %d",N,D),p); }
// every single swap / write of a bigger vector
template<int N> void big(){ histories<N,1>(); }
// ---- unique
template<int B,int LEN,int CODE> struct FromCode { typedef ct::ct_vec_branch<typename FromCode<B,LEN/2,CODE>::type,typename FromCode<B,LEN-LEN/2,CODE/(LEN/2==0?1:LEN/2==1?B:LEN/2==2?B*B:B*B*B)>::type> type; };
template<int B,int CODE> struct FromCode<B,1,CODE>{ typedef ct::ct_vec_leaf<IC<CODE%B-1>> type; };
template<int B,int LEN,int CODE> void uniq1(Points&p){ p.push_back({fmt("code %d",CODE),[](Ctx&){ typedef typename FromCode<B,LEN,CODE>::type T; VI w=rd<T>(); std::set<int> s(w.begin(),w.end()); return observe<typename ct::ct_vec_unique<T>::type>(VI(s.begin(),s.end())); }}); }
template<int B,int LEN,int...C> void uniqs(std::integer_sequence<int,C...>){ auto p=std::make_shared<Points>(); (uniq1<B,LEN,C>(*p),...); space(fmt("distinct values of every vector of %d values out of %d",LEN,B),p); }
template<int B,int LEN,int TOT> void unique(){ uniqs<B,LEN>(std::make_integer_sequence<int,TOT>()); }
// ---- generators
struct Aff { u64 a,c,m; u64 operator()(u64 x) const { return (u64)(((u128)a*x+c)%m); } Aff then(const Aff&o) const { return Aff{(u64)((u128)a*o.a%m),(u64)(((u128)o.a*c+o.c)%m),m}; } };
inline Aff pw(Aff f,i64 n,u64 period){ u64 k= n<0? (u64)((n%(i64)period+(i64)period)%(i64)period):(u64)n; Aff r{1,0,f.m}; while(k){ if(k&1) r=r.then(f); f=f.then(f); k>>=1; } return r; }
template<class R,int D> void skip1(Points&p,Aff f,u64 period,const char*nm){ p.push_back({fmt("%s from %u by %d",nm,(unsigned)R::value,D),[=](Ctx&)->std::string{ u64 w=pw(f,D,period)(R::value); typedef typename ct::skip_by<R,D>::type S; u64 g=S::value; if(g!=w) return fmt("expected %llu got %llu",(unsigned long long)w,(unsigned long long)g);
    if(ct::sample_at<R,D>::value!=w) return "sample_at differs"; if(ct::skip_by<S,1>::type::value!=f(w)) return "one step further is wrong"; if constexpr(D>-2147483647) if(ct::skip_by<S,-D>::type::value!=R::value) return "stepping back does not return to the start"; return ""; }}); }
template<class R,int...D> void skipseq(Points&p,Aff f,u64 period,const char*nm,std::integer_sequence<int,D...>){ (skip1<R,D-70>(p,f,period,nm),...); }
template<class R,int...K> void skippow(Points&p,Aff f,u64 period,const char*nm,std::integer_sequence<int,K...>){ ((skip1<R,(1<<K)>(p,f,period,nm),skip1<R,-(1<<K)>(p,f,period,nm),skip1<R,(1<<K)-1>(p,f,period,nm),skip1<R,1-(1<<K)>(p,f,period,nm),skip1<R,(int)(0x55555555u>>(31-K-1+1))>(p,f,period,nm),skip1<R,-(1<<K)-3>(p,f,period,nm)),...); }
template<class R> void gen(Aff f,u64 period,const char*nm){ auto p=std::make_shared<Points>(); skipseq<R>(*p,f,period,nm,std::make_integer_sequence<int,141>()); skippow<R>(*p,f,period,nm,std::make_integer_sequence<int,30>()); skip1<R,2147483647>(*p,f,period,nm); skip1<R,-2147483647>(*p,f,period,nm); skip1<R,19937>(*p,f,period,nm); skip1<R,1<<30>(*p,f,period,nm); skip1<R,-(1<<30)>(*p,f,period,nm); space(fmt("%s seed %u: skip by every distance",nm,(unsigned)R::value),p); }
template<uint32_t S> void lcg32(){ gen<typename ct::make_quick_and_dirty<S>::type>(Aff{1664525,1013904223,(u64)1<<32},(u64)1<<32,"lcg mod 2^32"); }
template<uint32_t S,uint32_t A,uint32_t C> void lcg32g(){ gen<ct::lcg_mod_2y32_state<S,A,C>>(Aff{A,C,(u64)1<<32},(u64)1<<32,fmt("lcg %u,%u mod 2^32",A,C)=="x"?"":"lcg (other constants) mod 2^32"); }
template<uint32_t S> void minstd(){ gen<typename ct::make_minstdrand0<S>::type>(Aff{16807,0,2147483647},2147483646,"minstd"); auto p=std::make_shared<Points>(); p->push_back({"seed",[](Ctx&)->std::string{ return ct::make_minstdrand0<S>::type::value==S%2147483647u?"":"seed not reduced"; }}); space(fmt("minstd seed %u",(unsigned)S),p); }
template<uint32_t S> void m5(){ gen<typename ct::make_lcg_mod_2y32m5<S>::type>(Aff{1588635695,0,4294967291ull},4294967290ull,"lcg mod 2^32-5"); }
// the whole state graph of one step (walked with the library's own constants) is a single cycle or the inverse is right: checked on the multiplier
// ---- shuffles
inline VI shuffle(VI v,uint32_t&s){ for(int j=(int)v.size();j>1;j--){ std::swap(v[j-1],v[(s>>16)%j]); s=s*1664525u+1013904223u; } return v; }
template<int N,uint32_t S> void perm1(Points&p){ p.push_back({fmt("%d elements seed %u",N,S),[](Ctx&)->std::string{ VI v; for(int i=0;i<N;i++) v.push_back((i+1)%N); uint32_t s=S; typedef typename ct::create_ct_vec_rotation<1,N>::type V; typedef ct::ct_vec_permute<typename ct::make_quick_and_dirty<S>::type,V> P; VI w=shuffle(v,s); std::string r=observe<typename P::type>(w); if(!r.empty()) return r; if(P::rng::value!=s) return fmt("generator left at %u, expected %u",(unsigned)P::rng::value,s); return ""; }}); }
template<uint32_t S,int...N> void perms(Points&p,std::integer_sequence<int,N...>){ (perm1<N+1,S>(p),...); }
template<uint32_t...S> void permutes(){ auto p=std::make_shared<Points>(); (perms<S>(*p,std::make_integer_sequence<int,24>()),...); space("shuffles",p); }
// ---- lut_opt: each output bit is the exclusive or of its distinct sources
template<int N,int T,uint32_t S> void lut(){
    std::string nm=fmt("lut_opt<%d,%d,%u>",N,T,S); uint32_t s=S; VI cyc; for(int i=0;i<N;i++) cyc.push_back((i+1)%N); std::vector<VI> ps; VI cur=cyc; for(int t=0;t<T;t++){ cur=shuffle(cur,s); ps.push_back(cur); } VI out=shuffle(cyc,s);
    auto masks=std::make_shared<std::vector<u128>>(); for(int o=0;o<N;o++){ u128 m=0; for(int t=0;t<T;t++) m|=(u128)1<<ps[t][out[o]]; masks->push_back(m); }
    bool all=N<=14; u64 n= all?(u64)1<<N:(u64)N*N+4;
    add_space(nm,(n+255)/256,[=](u64 b,Ctx&c){ for(u64 i=b*256;i<std::min(n,b*256+256);i++){ u128 x; if(all) x=i; else if(i<(u64)N*N) x=((u128)1<<(i/N))|((u128)1<<(i%N)); else x= i==(u64)N*N?0: i==(u64)N*N+1?(((u128)1<<N)-1): i==(u64)N*N+2?(u128)0x5555555555555555ull%((u128)1<<N):(u128)0x123456789abcdefull%((u128)1<<N);
        u128 w=0; for(int o=0;o<N;o++){ int k=__builtin_popcountll((u64)(x&(*masks)[o]))+__builtin_popcountll((u64)((x&(*masks)[o])>>64)); w=w*2+(k&1); } u128 g=0; typedef thls::fw_uint<N> U; U in=U::from_bits((typename U::bits_t)x); c.st(); c.ev(); bool ok=guarded([&]{ g=(u128)thls::lut_opt_spec<N,T,S>::step(in).bits; }); if(!ok||g!=w||(u128)in.bits!=x) c.fail(nm+":"+hex(x),ok?fmt("expected %s got %s",hex(w).c_str(),hex(g).c_str()):g_why); c.cover((unsigned)(u64)g); } if(b==0) c.sample(nm+(all?" every state":" basis states, their pairwise sums and patterns")); }); }
// ---- callN
template<size_t...I> VI order(int*dummy,...){ return VI(); }
struct Pack { template<class...A> long operator()(A...a) const { long r=0; long v[]={(long)a...,0}; for(size_t i=0;i<sizeof...(A);i++) r=r*10+v[i]; return r; } };
template<size_t N> void call1(Points&p){ p.push_back({fmt("callN %zu",N),[](Ctx&)->std::string{ std::array<long,N> a; long w=0; for(size_t i=0;i<N;i++){ a[i]=(long)i+1; w=w*10+(long)i+1; } long g=thls::callN(Pack(),a); return g==w?"":fmt("arguments arrive as %ld",g); }}); }
template<size_t...N> void calls(std::index_sequence<N...>){ auto p=std::make_shared<Points>(); (call1<N+1>(*p),...); space("argument spreading",p); }
} // ctm
