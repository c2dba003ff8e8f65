// oracle.hpp - independent reference semantics for the float formats: exact integer arithmetic, no library code.
//
// A number of format (E,F) is  flags(2) sign(1) exp(E) frac(F),  flags 00 zero, 01 normal, 10 infinity, 11 NaN;
// a normal is (-1)^s * 1.frac * 2^(exp-bias), bias=2^(E-1)-1; every exponent code is usable; no denormals;
// results below the smallest normal after rounding are zero (sign kept), above the largest: infinity.
#pragma once
#include "mc.hpp"
#include <mpfr.h>
#include <gmp.h>

namespace orc {
using mc::u128; using mc::i128; using mc::u64; using mc::i64;

struct Fmt { int E,F; int bias() const { return (1<<(E-1))-1; } i64 emin() const { return -bias(); } i64 emax() const { return ((i64)1<<E)-1-bias(); }
    int bits() const { return 3+E+F; } };

enum Cls { ZERO=0, NORM=1, INF=2, NAN_=3 };

// exact value: (-1)^s * m * 2^e (m!=0 for NORM; not necessarily normalised)
struct Val { int c; int s; u128 m; i64 e; };

inline u128 ones(int n){ return n>=128 ? ~(u128)0 : (((u128)1<<n)-1); }
inline int blen(u128 v){ u64 h=(u64)(v>>64),l=(u64)v; return h?128-__builtin_clzll(h): l?64-__builtin_clzll(l):0; }

inline u128 code(Fmt f,int cls,int s,u128 ex,u128 fr){ return ((u128)cls<<(f.E+f.F+1))|((u128)s<<(f.E+f.F))|(ex<<f.F)|fr; }
inline int ccls(Fmt f,u128 c){ return (int)(c>>(f.E+f.F+1))&3; }
inline int csgn(Fmt f,u128 c){ return (int)(c>>(f.E+f.F))&1; }
inline u128 cexp(Fmt f,u128 c){ return (c>>f.F)&ones(f.E); }
inline u128 cfrc(Fmt f,u128 c){ return c&ones(f.F); }

inline Val decode(Fmt f,u128 c){
    Val v; v.c=ccls(f,c); v.s=csgn(f,c); v.m=0; v.e=0;
    if(v.c==NORM){ v.m=((u128)1<<f.F)|cfrc(f,c); v.e=(i64)cexp(f,c)-f.bias()-f.F; }
    return v;
}

// do two codes denote the same value?  (NaN: any; zero/inf: sign; normal: everything)
inline bool same(Fmt f,u128 a,u128 b){
    int ca=ccls(f,a),cb=ccls(f,b);
    if(ca!=cb) return false; if(ca==NAN_) return true;
    if(csgn(f,a)!=csgn(f,b)) return false;
    if(ca==NORM) return cexp(f,a)==cexp(f,b)&&cfrc(f,a)==cfrc(f,b);
    return true;
}

enum Rnd { RNE, RDOWN /*toward zero in magnitude*/ , RUPMAG };
// round m*2^e (plus a sticky tail strictly between 0 and one unit of m's lsb) to the format, unbounded exponent, then range check
inline u128 round_to(Fmt f,int s,u128 m,i64 e,bool sticky,Rnd r=RNE){
    int L=blen(m); int drop=L-(f.F+1); u128 q; i64 qe;
    if(drop<=0){ q=m<<(-drop); qe=e+drop; if(sticky && r==RUPMAG) q+=1; /* caller gives enough bits for RNE */ }
    else {
        q=m>>drop; qe=e+drop; u128 rem=m&ones(drop); u128 half=(u128)1<<(drop-1);
        bool up = r==RNE ? (rem>half || (rem==half && (sticky || (q&1)))) : r==RUPMAG ? (rem!=0||sticky) : false;
        if(up) q+=1;
    }
    if(q>>(f.F+1)){ q>>=1; qe+=1; }
    i64 E=qe+f.F;
    if(E<f.emin()) return code(f,ZERO,s,0,0);
    if(E>f.emax()) return code(f,INF,s,0,0);
    return code(f,NORM,s,(u128)(E+f.bias()),q&ones(f.F));
}
inline u128 mk_zero(Fmt f,int s){ return code(f,ZERO,s,0,0); }
inline u128 mk_inf(Fmt f,int s){ return code(f,INF,s,0,0); }
inline u128 mk_nan(Fmt f){ return code(f,NAN_,0,0,0); }

// all significands must be at most 63 bits
inline u128 add(Fmt fr,const Val &a,const Val &b){
    if(a.c==NAN_||b.c==NAN_) return mk_nan(fr);
    if(a.c==INF){ if(b.c==INF && a.s!=b.s) return mk_nan(fr); return mk_inf(fr,a.s); }
    if(b.c==INF) return mk_inf(fr,b.s);
    if(a.c==ZERO&&b.c==ZERO) return mk_zero(fr,a.s&b.s);
    if(a.c==ZERO) return round_to(fr,b.s,b.m,b.e,false);
    if(b.c==ZERO) return round_to(fr,a.s,a.m,a.e,false);
    Val x=a,y=b; // normalise both to 63 bits
    int sx=63-blen(x.m), sy=63-blen(y.m); x.m<<=sx; x.e-=sx; y.m<<=sy; y.e-=sy;
    if(y.e>x.e || (y.e==x.e && y.m>x.m)){ Val t=x; x=y; y=t; }
    i64 d=x.e-y.e; u128 X=x.m<<64, Y; bool st=false; i64 e=x.e-64;
    if(d<=64) Y=y.m<<(64-d); else if(d<=64+63){ int k=(int)(d-64); Y=y.m>>k; st=(y.m&ones(k))!=0; } else { Y=0; st=true; }
    u128 S; if(x.s==y.s) S=X+Y; else { S=X-Y; if(st) S-=1; }
    if(S==0) return mk_zero(fr,0);
    return round_to(fr,x.s,S,e,st);
}
inline u128 mul(Fmt fr,const Val &a,const Val &b){
    int s=a.s^b.s;
    if(a.c==NAN_||b.c==NAN_) return mk_nan(fr);
    if((a.c==INF&&b.c==ZERO)||(a.c==ZERO&&b.c==INF)) return mk_nan(fr);
    if(a.c==INF||b.c==INF) return mk_inf(fr,s);
    if(a.c==ZERO||b.c==ZERO) return mk_zero(fr,s);
    return round_to(fr,s,a.m*b.m,a.e+b.e,false);
}
inline u128 div(Fmt fr,const Val &a,const Val &b,Rnd r=RNE){
    int s=a.s^b.s;
    if(a.c==NAN_||b.c==NAN_) return mk_nan(fr);
    if(a.c==INF&&b.c==INF) return mk_nan(fr);
    if(a.c==ZERO&&b.c==ZERO) return mk_nan(fr);
    if(a.c==INF) return mk_inf(fr,s);
    if(b.c==INF) return mk_zero(fr,s);
    if(a.c==ZERO) return mk_zero(fr,s);
    if(b.c==ZERO) return mk_inf(fr,s);
    int k=128-blen(a.m); u128 n=a.m<<k; u128 q=n/b.m; return round_to(fr,s,q,a.e-k-b.e,q*b.m!=n,r);
}
inline Val one(){ Val v; v.c=NORM; v.s=0; v.m=1; v.e=0; return v; }
inline u128 conv(Fmt fr,const Val &a){
    if(a.c==NAN_) return mk_nan(fr); if(a.c==INF) return mk_inf(fr,a.s); if(a.c==ZERO) return mk_zero(fr,a.s);
    return round_to(fr,a.s,a.m,a.e,false);
}
inline Val negv(Val a){ a.s^=1; return a; }

// -2 unordered, else sign of a-b
inline int cmp(const Val &a,const Val &b){
    if(a.c==NAN_||b.c==NAN_) return -2;
    auto rank=[](const Val&v){ return v.c==ZERO?0: v.c==INF ? (v.s?-2:2) : (v.s?-1:1); };
    int ra=rank(a),rb=rank(b); if(ra!=rb) return ra<rb?-1:1; if(ra==0||ra==2||ra==-2) return 0;
    int la=blen(a.m),lb=blen(b.m); i64 ta=la+a.e,tb=lb+b.e; int r;
    if(ta!=tb) r=ta<tb?-1:1; else { u128 x=a.m<<(127-la),y=b.m<<(127-lb); r=x<y?-1:x>y?1:0; }
    return ra<0?-r:r;
}

// ordinal of a non-NaN code on the number line of its format: zero is 0, consecutive values differ by one, inf is one past the largest
inline i128 ordinal(Fmt f,u128 c){
    int k=ccls(f,c); i128 o= k==ZERO?0: k==INF ? (i128)1+((i128)1<<(f.E+f.F)) : (i128)1+(i128)((cexp(f,c)<<f.F)|cfrc(f,c));
    return csgn(f,c)?-o:o;
}

// -------- MPFR second opinion (used to validate the integer model) ----------
struct Mp { mpfr_t v; Mp(int p){ mpfr_init2(v,p);} ~Mp(){ mpfr_clear(v);} Mp(const Mp&)=delete; };
inline void to_mpfr(mpfr_t d,const Val &v){ // d has enough precision
    if(v.c==NAN_) mpfr_set_nan(d); else if(v.c==INF) mpfr_set_inf(d,v.s?-1:1); else if(v.c==ZERO) mpfr_set_zero(d,v.s?-1:1);
    else { mpfr_set_ui_2exp(d,(unsigned long)(u64)(v.m>>64),64,MPFR_RNDN); Mp t(64); mpfr_set_ui(t.v,(unsigned long)(u64)v.m,MPFR_RNDN); mpfr_add(d,d,t.v,MPFR_RNDN); mpfr_mul_2si(d,d,v.e,MPFR_RNDN); if(v.s) mpfr_neg(d,d,MPFR_RNDN); } }
inline u128 from_mpfr(Fmt f,const mpfr_t x){ // x has precision F+1
    if(mpfr_nan_p(x)) return mk_nan(f); int s=mpfr_signbit(x)?1:0;
    if(mpfr_inf_p(x)) return mk_inf(f,s); if(mpfr_zero_p(x)) return mk_zero(f,s);
    mpz_t z; mpz_init(z); i64 e=mpfr_get_z_2exp(z,x); mpz_abs(z,z); mpz_t h; mpz_init(h); mpz_tdiv_q_2exp(h,z,64); u128 m=((u128)mpz_get_ui(h)<<64)|(u64)mpz_get_ui(z); 
    mpz_clear(h); mpz_clear(z);
    return round_to(f,s,m,e,false);
}
inline u128 mpfr_op(Fmt fr,char op,const Val&a,const Val&b,mpfr_rnd_t r=MPFR_RNDN){
    Mp x(128),y(128),z(fr.F+1); to_mpfr(x.v,a); to_mpfr(y.v,b);
    if(op=='+') mpfr_add(z.v,x.v,y.v,r); else if(op=='*') mpfr_mul(z.v,x.v,y.v,r); else if(op=='/') mpfr_div(z.v,x.v,y.v,r); else mpfr_set(z.v,x.v,r);
    return from_mpfr(fr,z.v);
}
inline u128 mpfr_fma3(Fmt fr,const Val&a,const Val&b,const Val&c){
    Mp x(128),y(128),w(128),z(fr.F+1); to_mpfr(x.v,a); to_mpfr(y.v,b); to_mpfr(w.v,c); mpfr_fma(z.v,x.v,y.v,w.v,MPFR_RNDN); return from_mpfr(fr,z.v);
}

inline std::string show(Fmt f,u128 c){
    static const char *n[]={"zero","norm","inf","nan"}; int k=ccls(f,c);
    std::string r=std::string(csgn(f,c)?"-":"+")+n[k];
    if(k==NORM) r+=mc::fmt("(e=%lld,f=%s)",(long long)cexp(f,c)-f.bias(),mc::hex(cfrc(f,c)).c_str());
    return r+"="+mc::hex(c);
}

// -------- operand sets -----------
// boundary alphabet for fractions of F bits
inline std::vector<u64> frac_alphabet(int F,int level){
    std::set<u64> s; u64 M=(u64)ones(F); u64 H=(u64)1<<(F-1);
    for(u64 v:{(u64)0,(u64)1,(u64)2,(u64)3,H,H-1,H+1,M,M-1,M-2}) s.insert(v&M);
    s.insert(0x5555555555555555ull&M); s.insert(0xAAAAAAAAAAAAAAAAull&M);
    if(level>=1){ s.insert(0x3333333333333333ull&M); s.insert(0x6A09E667F3BCC908ull&M); s.insert((0xB504F333F9DE6484ull>>(64-F))&M); s.insert((0x6A09E667F3BCC908ull>>(64-F))&M); s.insert((H>>1)&M); s.insert((H|(H>>1))&M); s.insert((H>>1)|1); s.insert(M^1); s.insert((M^(H>>1))&M); }
    if(level>=2) for(int k=0;k<F;k++){ s.insert(((u64)1<<k)&M); s.insert((((u64)1<<k)-1)&M); s.insert(M^(((u64)1<<k)-1)); }
    if(level>=3) for(int k=0;k<F;k++){ s.insert((M^((u64)1<<k))&M); s.insert((((u64)1<<k)+1)&M); s.insert((H|((u64)1<<k))&M); s.insert((H^(((u64)1<<k)-1))&M);}
    return std::vector<u64>(s.begin(),s.end());
}
// special operands with several payloads
inline std::vector<u128> special_codes(Fmt f,int level=1){
    std::vector<u128> r; std::vector<u128> pe={0,ones(f.E)}, pf={0,ones(f.F)};
    if(level>=1){ pe.push_back((u128)f.bias()); pe.push_back(1); pf.push_back((u128)1<<(f.F-1)); }
    for(int c:{ZERO,INF,NAN_}) for(int s=0;s<2;s++) for(u128 e:pe) for(u128 q:pf) r.push_back(code(f,c,s,e,q));
    return r;
}
} // orc
