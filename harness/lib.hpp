// lib.hpp - moving codes in and out of library types
#pragma once
#include "oracle.hpp"
#include "thls/tops/fp_flopoco.hpp"
template<int E,int F> inline thls::fp_flopoco<E,F> mkfp(mc::u128 c){
    typedef thls::fw_uint<3+E+F> B; return thls::fp_flopoco<E,F>(B::from_bits((typename B::bits_t)c)); }
template<int E,int F> inline mc::u128 rawfp(const thls::fp_flopoco<E,F>&x){ return (mc::u128)x.bits.bits; }
namespace mc {
using orc::ones;
// operands built so that the result lies on, or a unit of the last discarded bit beside, a rounding boundary
inline u64 inv_odd(u64 a){ u64 x=a; for(int k=0;k<6;k++) x*=2-a*x; return x; } // a*x==1 modulo 2^64
// significands my of FY+1 bits with the lowest D bits of mx*my equal to t
inline std::vector<u64> mul_ties(u64 mx,int FY,int D,u64 t){
    std::vector<u64> r; int v=0; while(!(mx&1)){ mx>>=1; v++; } int k=D-v; if(k<0||(v&&(t&(u64)ones(v)))) return r; t>>=v; u64 top=(u64)1<<FY;
    if(k>FY+1) k=FY+1; u64 lo=(inv_odd(mx)*t)&(u64)ones(k);
    for(u64 hi:{(u64)0,(u64)0x5555555555555555ull,~(u64)0,(u64)0x6A09E667F3BCC908ull}){ u64 m=(hi&~(u64)ones(k))|lo; m&=2*top-1; if(k<=FY) m|=top; if(m&top) r.push_back(m&(top-1)); }
    return r; }
// significands mx of F+1 bits with mx*2^m congruent to r modulo the odd significand y: the quotient ends r/y beside an integer
inline std::vector<u64> div_ties(u64 y,int F,int m,i64 r){
    u64 h=(y+1)/2,x; u128 p=r<0?(u128)(y-(u64)(-r)%y):(u128)((u64)r%y); for(int k=0;k<m;k++) p=p*h%y; x=(u64)p; std::vector<u64> o; u64 top=(u64)1<<F;
    for(int k=0;k<2;k++,x+=y) if(x>=top&&x<2*top) o.push_back(x&(top-1)); return o; }
}
