// rnd.hpp - random operand sources under every scripted random stream of a bounded family (P24)
#pragma once
#include "rel.hpp"
#include <random>
namespace rnd {
using namespace sp;
// a 32-bit generator that plays a script (cyclically) and counts draws
struct Script { typedef uint32_t result_type; std::vector<uint32_t> w; size_t n=0; static constexpr result_type min(){ return 0; } static constexpr result_type max(){ return 0xFFFFFFFFu; } result_type operator()(){ return w[n++%w.size()]; } };
// ---- bits: with uniform independent stream bits the pattern is uniform iff the map stream -> pattern is a linear surjection;
// decided on the all-zero stream, every single stream bit, every pair of stream bits
template<int W,int HOW> u128 draw(const std::vector<uint32_t>&w,size_t*used=0){ Script s; s.w=w; u128 r; typedef thls::fw_uint<W> U;
    if(HOW==0) r=(u128)thls::random_fw_uint<W>(s).bits; else { U x=U::from_bits((typename U::bits_t)0); thls::randomise(x,s); r=(u128)x.bits; } if(used) *used=s.n; return r; }
template<int W,int HOW> void bits(){ std::string nm=fmt("%s<%d>",HOW?"randomise":"random_fw_uint",W); int NW=W/32+2, NB=NW*32;
    add_space(nm,NB+1,[=](u64 i,Ctx&c){ auto one=[&](int a,int b){ std::vector<uint32_t> w(NW,0); if(a<NB) w[a/32]^=1u<<(a%32); if(b<NB) w[b/32]^=1u<<(b%32); return w; }; u128 r0=0,ra=0; size_t used=0; c.st(); c.ev(2);
        std::string k=nm+fmt(":bit %d",(int)i); if(!guarded([&]{ r0=draw<W,HOW>(one(NB,NB),&used); ra=draw<W,HOW>(one((int)i,NB)); })){ c.fail(k,g_why); return; }
        if(used>(size_t)NW){ c.fail(k,fmt("consumes %zu words",used)); return; } u128 top=W==128?~(u128)0:(((u128)1<<W)-1);
        if((r0|ra)&~top){ c.fail(k,"value wider than its type"); return; } c.cover(ra==r0?0:1);
        for(int b=(int)i+1;b<NB;b++){ u128 rb=0,rab=0; c.st(); c.ev(2); if(!guarded([&]{ rb=draw<W,HOW>(one(NB,b)); rab=draw<W,HOW>(one((int)i,b)); })){ c.fail(k,g_why); return; } if(rab!=(ra^rb^r0)){ c.fail(k+fmt(",%d",b),"stream bits do not act independently"); return; } }
        if(i==(u64)NB){ // rank of the whole map
            std::vector<u128> rows; for(int b=0;b<NB;b++){ u128 v=draw<W,HOW>(one(NB,b))^r0; for(u128 x:rows){ u128 y=v^x; if(y<v) v=y; } if(v) { rows.push_back(v); } } if((int)rows.size()!=W) c.fail(k,fmt("only 2^%zu of 2^%d patterns are reachable",rows.size(),W)); c.sample(nm+fmt(": rank %zu from %zu words",rows.size(),used)); } }); }
// ---- classes
template<int E,int F> struct Src { typedef thls::fp_flopoco_random_test_source<E,F> S; };
inline int clsof(const Fmt&f,u128 x){ int q=ccls(f,x); if(q==NAN_) return 6; return (q==ZERO?0:q==NORM?2:4)+csgn(f,x); }
// every subset of classes disabled (in either order) x every script of L words over an alphabet, and constant streams over a fine grid
template<int E,int F> void classes(int L,bool grid){
    std::string nm=fmt("source<%d,%d> %s",E,F,grid?"constant streams":"word sequences"); Fmt f{E,F}; typedef typename Src<E,F>::S S; static const typename S::Class C[7]={S::PosZero,S::NegZero,S::PosNormal,S::NegNormal,S::PosInf,S::NegInf,S::NaN};
    add_space(nm,126+1,[=](u64 m,Ctx&c){ std::string k=nm+fmt(":disabled %02x",(unsigned)m); S src; bool ok=guarded([&]{ if(m&1) for(int i=6;i>=0;i--){ if(m>>i&1) src.disable_class(C[i]); } else for(int i=0;i<7;i++) if(m>>i&1) src.disable_class(C[i]); }); if(!ok){ c.fail(k,g_why); return; }
        unsigned seen=0; std::set<u128> pats[2]; std::vector<uint32_t> A={0,1,0x3fffffff,0x40000000,0x7fffffff,0x80000000,0xc0000000,0xfffffffe,0xffffffff}; u64 N=1; if(grid) N=4096*3; else for(int i=0;i<L;i++) N*=A.size();
        for(u64 n=0;n<N;n++){ Script s; if(grid){ uint32_t b=(uint32_t)(n/3<<20); s.w={b+(n%3==0?0:n%3==1?0xfffffu:0x5a5a5u)}; } else { u64 q=n; for(int i=0;i<L;i++){ s.w.push_back(A[q%A.size()]); q/=A.size(); } }
            u128 x=0; c.st(); c.ev(); if(!guarded([&]{ x=rawfp(src(s)); })){ c.fail(k,g_why); return; } int q=clsof(f,x); seen|=1u<<q; c.cover(q*128+(unsigned)m);
            if(m>>q&1){ std::string w; for(auto v:s.w) w+=fmt("%x ",v); c.fail(k+" stream "+w,"draws disabled "+show(f,x)); return; } if((q|1)==3) pats[q&1].insert(x&(((u128)1<<(E+F))-1)); }
        if(grid){ if((seen|m)!=127) c.fail(k,fmt("enabled classes %02x never drawn",127&~(seen|(unsigned)m))); }
        else if(E<=2&&F<=2) for(int s=0;s<2;s++) if(!(m>>(2+s)&1) && pats[s].size()!=(1u<<(E+F))) c.fail(k,fmt("only %zu of %d exponent and fraction patterns drawn",pats[s].size(),1<<(E+F)));
        if(m==5) c.sample(k+fmt(": classes %02x drawn",seen)); }); }
} // rnd
