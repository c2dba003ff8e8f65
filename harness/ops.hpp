// ops.hpp - exploration spaces shared by the checks of float operations
#pragma once
#include "lib.hpp"
#include <memory>
namespace sp {
using namespace mc; using namespace orc;

// all normal codes of a format plus the special codes with assorted payloads
inline std::vector<u128> all_operands(Fmt f,bool raw=false){
    std::vector<u128> r;
    if(raw){ u128 n=(u128)1<<f.bits(); for(u128 i=0;i<n;i++) r.push_back(i); return r; }
    for(int s=0;s<2;s++) for(u128 ef=0; ef<((u128)1<<(f.E+f.F)); ef++) r.push_back(((u128)NORM<<(f.E+f.F+1))|((u128)s<<(f.E+f.F))|ef);
    for(u128 c:special_codes(f)) r.push_back(c);
    return r;
}
inline std::vector<i64> exp_alphabet(Fmt f,int level=1){
    std::set<i64> s; i64 M=(i64)ones(f.E), b=f.bias();
    for(i64 d=0; d<(level>=2?5:level>=1?3:2); d++){ s.insert(d); s.insert(M-d); s.insert(b+d); s.insert(b-d); }
    std::vector<i64> r; for(i64 v:s) if(v>=0&&v<=M) r.push_back(v); return r;
}

struct BinRef { u128 (*ref)(Fmt,const Val&,const Val&); const char *name; char mp; };
inline u128 ref_add_(Fmt f,const Val&a,const Val&b){ return orc::add(f,a,b); }
inline u128 ref_mul_(Fmt f,const Val&a,const Val&b){ return orc::mul(f,a,b); }
inline u128 ref_div_(Fmt f,const Val&a,const Val&b){ return orc::div(f,a,b); }

inline unsigned outcome(Fmt fr,const Val&a,const Val&b,u128 r,int tag){
    i64 d = (a.c==NORM&&b.c==NORM)? (a.e-b.e) : 99; if(d>80) d=80; if(d<-80) d=-80;
    return (unsigned)(((((a.c*4+b.c)*4+ccls(fr,r))*2+a.s)*2+b.s)*256 + (d+128))*4u+ (unsigned)tag*1000003u;
}

// judge one call
template<class Call> inline void judge2(Ctx &c,const char *nm,Fmt fr,Fmt fx,Fmt fy,u128 x,u128 y,u128 want,const Val&vx,const Val&vy,int tag,Call call){
    u128 got=0; c.ev();
    bool ok=guarded([&]{ got=call(x,y); });
    if(ok && same(fr,got,want)){ c.cover(outcome(fr,vx,vy,want,tag)); return; }
    c.fail(fmt("%s:%s,%s",nm,hex(x).c_str(),hex(y).c_str()),
        fmt("x=%s y=%s expected %s got %s",show(fx,x).c_str(),show(fy,y).c_str(),show(fr,want).c_str(), ok?show(fr,got).c_str():(std::string("CRASH ")+g_why).c_str()));
}

template<int ER,int FR,int EX,int FX,int EY,int FY,class OP>
void bin_full(const std::string &tagname,BinRef ref,OP op,bool raw,int tier=0){
    Fmt fr{ER,FR},fx{EX,FX},fy{EY,FY};
    auto xs=std::make_shared<std::vector<u128>>(); auto ys=std::make_shared<std::vector<u128>>(); auto vs=std::make_shared<std::vector<Val>>();
    u64 n = raw ? (u64)1<<fx.bits() : ((u64)2<<(EX+FX))+special_codes(fx).size();
    std::string nm=fmt("%s<%d,%d>(<%d,%d>,<%d,%d>)",tagname.c_str(),ER,FR,EX,FX,EY,FY);
    add_space(nm+(raw?" all codes x all codes":" all normals+specials, all pairs"),n,[=](u64 i,Ctx&c){
        if(xs->empty()){ *xs=all_operands(fx,raw); *ys=all_operands(fy,raw); for(u128 y:*ys) vs->push_back(decode(fy,y)); }
        u128 x=(*xs)[i]; Val vx=decode(fx,x); typename std::remove_reference<decltype(*ys)>::type &Y=*ys;
        for(size_t j=0;j<Y.size();j++){ u128 want=ref.ref(fr,vx,(*vs)[j]);
            judge2(c,nm.c_str(),fr,fx,fy,x,Y[j],want,vx,(*vs)[j],0,[&](u128 a,u128 b){ return rawfp(op(mkfp<EX,FX>(a),mkfp<EY,FY>(b))); }); }
        c.st(Y.size());
        if(c.want_sample()&&i+1==n/3) c.sample(nm+" x="+show(fx,x)+" against "+fmt("%zu",Y.size())+" second operands, last y="+show(fy,Y.back())+" -> "+show(fr,ref.ref(fr,vx,vs->back())));
    },tier);
}

// exponents of the second operand worth pairing with x's exponent code ex
inline std::vector<i64> partner_exps(Fmt fr,Fmt fx,Fmt fy,i64 ex,int window,int edge){
    std::set<i64> s; i64 M=(i64)ones(fy.E); i64 e=ex-fx.bias();
    auto put=[&](i64 trueexp){ i64 v=trueexp+fy.bias(); if(v>=0&&v<=M) s.insert(v); };
    for(int d=-window;d<=window;d++) put(e+d);
    for(int d=-edge;d<=edge;d++){ put(fr.emin()-e+d); put(fr.emax()-e+d); put(e-fr.emin()+d); put(e-fr.emax()+d); put(d); put(fr.emin()+d); put(fr.emax()+d); }
    for(int d=0;d<=edge;d++){ s.insert(d); if(M-d>=0) s.insert(M-d); }
    std::vector<i64> r; for(i64 v:s) if(v>=0&&v<=M) r.push_back(v); return r;
}

// structured boundary cross product for formats too large for all pairs
template<int ER,int FR,int EX,int FX,int EY,int FY,class OP>
void bin_edge(const std::string &tagname,BinRef ref,OP op,int flevel,int elevel,int window,int tier=0){
    Fmt fr{ER,FR},fx{EX,FX},fy{EY,FY};
    std::string nm=fmt("%s<%d,%d>(<%d,%d>,<%d,%d>)",tagname.c_str(),ER,FR,EX,FX,EY,FY);
    auto xs=std::make_shared<std::vector<u128>>();
    for(u128 c:special_codes(fx)) xs->push_back(c);
    for(int s=0;s<2;s++) for(i64 e:exp_alphabet(fx,elevel)) for(u64 q:frac_alphabet(FX,flevel)) xs->push_back(code(fx,NORM,s,(u128)e,q));
    add_space(nm+fmt(" boundary alphabet L%d/%d window %d",flevel,elevel,window),xs->size(),[=](u64 i,Ctx&c){
        u128 x=(*xs)[i]; Val vx=decode(fx,x); std::vector<u64> fl=frac_alphabet(FY,flevel);
        // relate y's fraction to x's as well: equal and neighbouring fractions (cancellation), complements
        std::set<u64> fs(fl.begin(),fl.end()); u64 MY=(u64)ones(FY); u64 q=(u64)cfrc(fx,x); u64 qa = FX>=FY ? (q>>(FX-FY)) : (q<<(FY-FX));
        if(vx.c==NORM) for(int d=-2;d<=2;d++){ fs.insert((qa+d)&MY); fs.insert((~qa+d)&MY); }
        std::vector<i64> es = vx.c==NORM ? partner_exps(fr,fx,fy,(i64)cexp(fx,x),window,elevel+1) : exp_alphabet(fy,elevel);
        auto one=[&](u128 y){ Val vy=decode(fy,y); u128 want=ref.ref(fr,vx,vy); c.st();
            judge2(c,nm.c_str(),fr,fx,fy,x,y,want,vx,vy,0,[&](u128 a,u128 b){ return rawfp(op(mkfp<EX,FX>(a),mkfp<EY,FY>(b))); }); };
        for(u128 y:special_codes(fy)) one(y);
        for(int s=0;s<2;s++) for(i64 e:es) for(u64 f:fs) one(code(fy,NORM,s,(u128)e,f));
        if(vx.c==NORM&&(ref.mp=='*'||ref.mp=='/')&&FX>=8&&csgn(fx,x)==0){
            auto ex=[&](i64 e0){ std::vector<i64> r; i64 e=(i64)cexp(fx,x)-fx.bias(); for(i64 t:{e0,(i64)fr.emin(),(i64)fr.emin()-1,(i64)fr.emax(),(i64)fr.emax()-1}){ i64 v= ref.mp=='*'? t-e+fy.bias() : t+e+fx.bias(); if(v>=0&&v<=(i64)ones(fy.E)) r.push_back(v); } return r; };
            u64 mx=(u64)cfrc(fx,x)|(u64)1<<FX;
            if(ref.mp=='*'){ int D0=FX+FY-FR; std::set<u64> ms; for(int D:{D0,D0+1}) if(D>=1&&D<64){ u64 H=(u64)1<<(D-1),M=(u64)ones(D); for(u64 t:{(u64)0,(u64)1,(u64)2,H-1,H,H+1,M,M-1,H|(H>>1),H>>1}) for(u64 m:mul_ties(mx,FY,D,t&M)) ms.insert(m); } for(i64 e:ex(0)) for(u64 m:ms) one(code(fy,NORM,(int)(m&1),(u128)e,m)); }
            else if(EX==EY&&FX==FY){ u128 y=code(fy,NORM,csgn(fx,x),(u128)cexp(fx,x),(u64)cfrc(fx,x)|1); Val vy=decode(fy,y); std::set<u64> ms; for(int m:{FR,FR+1,FR+2}) for(i64 r:{0,1,-1,2,-2,3,-3,5,-7}) for(u64 q:div_ties(mx|1,FX,m,r)) ms.insert(q);
                for(i64 e:ex(0)) for(u64 q:ms){ u128 z=code(fx,NORM,(int)(q&1),(u128)e,q); Val vz=decode(fx,z); c.st(); judge2(c,nm.c_str(),fr,fx,fy,z,y,ref.ref(fr,vz,vy),vz,vy,0,[&](u128 a,u128 b){ return rawfp(op(mkfp<EX,FX>(a),mkfp<EY,FY>(b))); }); } } }
        if(c.want_sample()&&i==xs->size()/2) c.sample(nm+" x="+show(fx,x)+fmt(" against %zu exponents x %zu fractions x 2 signs",es.size(),fs.size()));
    },tier);
}

// a listed set of operand pairs (witnesses of known findings)
template<int ER,int FR,int EX,int FX,int EY,int FY,class OP>
void bin_list(const std::string &tagname,BinRef ref,OP op,std::vector<std::pair<u128,u128>> ps,int tier=0){
    Fmt fr{ER,FR},fx{EX,FX},fy{EY,FY}; std::string nm=fmt("%s<%d,%d>(<%d,%d>,<%d,%d>)",tagname.c_str(),ER,FR,EX,FX,EY,FY);
    add_space(nm+" listed pairs",ps.size(),[=](u64 i,Ctx&c){ Val vx=decode(fx,ps[i].first),vy=decode(fy,ps[i].second); c.st();
        judge2(c,nm.c_str(),fr,fx,fy,ps[i].first,ps[i].second,ref.ref(fr,vx,vy),vx,vy,0,[&](u128 a,u128 b){ return rawfp(op(mkfp<EX,FX>(a),mkfp<EY,FY>(b))); }); },tier);
}

// validation of the integer reference against MPFR over a whole format
template<int ER,int FR,int EX,int FX,int EY,int FY>
void ref_validate(BinRef ref,int flevel,int window,int tier=0){
    Fmt fr{ER,FR},fx{EX,FX},fy{EY,FY};
    std::string nm=fmt("reference '%c'<%d,%d>(<%d,%d>,<%d,%d>) vs MPFR",ref.mp,ER,FR,EX,FX,EY,FY);
    auto xs=std::make_shared<std::vector<u128>>();
    for(u128 c:special_codes(fx,0)) xs->push_back(c);
    for(int s=0;s<2;s++) for(i64 e:exp_alphabet(fx,1)) for(u64 q:frac_alphabet(FX,flevel)) xs->push_back(code(fx,NORM,s,(u128)e,q));
    add_space(nm,xs->size(),[=](u64 i,Ctx&c){
        u128 x=(*xs)[i]; Val vx=decode(fx,x); auto one=[&](u128 y){ Val vy=decode(fy,y); u128 a=ref.ref(fr,vx,vy),b=mpfr_op(fr,ref.mp,vx,vy); c.ev(); c.st();
            if(!same(fr,a,b)) c.fail(fmt("%s:%s,%s",nm.c_str(),hex(x).c_str(),hex(y).c_str()),"REFERENCE DISAGREES: "+show(fr,a)+" vs "+show(fr,b)); };
        for(u128 y:special_codes(fy,0)) one(y);
        std::vector<i64> es = vx.c==NORM ? partner_exps(fr,fx,fy,(i64)cexp(fx,x),window,2) : exp_alphabet(fy,1);
        for(int s=0;s<2;s++) for(i64 e:es) for(u64 f:frac_alphabet(FY,flevel)) one(code(fy,NORM,s,(u128)e,f));
    },tier);
}
static const BinRef REF_ADD={ref_add_,"add",'+'}, REF_MUL={ref_mul_,"mul",'*'}, REF_DIV={ref_div_,"div",'/'};
} // sp
namespace sp {
typedef bool (*UnaryOk)(Fmt fr,Fmt fx,u128 x,u128 got,std::string &want);
// every normal code (x0,step cover the whole exp x frac x sign range) plus specials of a format through a unary operation
template<int ER,int FR,int EX,int FX,class OP,class OKF>
void unary_full(const std::string &tagname,OP op,OKF okf,int tier=0){
    Fmt fr{ER,FR},fx{EX,FX}; std::string nm=fmt("%s<%d,%d>(<%d,%d>)",tagname.c_str(),ER,FR,EX,FX);
    u64 tot=(u64)1<<(fx.bits()-2); // one class
    u64 blk = tot>4096? 4096:tot, nb=tot/blk;
    bool raw=fx.bits()<=14;
    u64 n = raw? 4*nb : nb+1;
    add_space(nm+(raw?" all codes":" all normals+specials"),n,[=](u64 i,Ctx&c){
        auto one=[&](u128 x){ u128 got=0; c.ev(); c.st(); std::string want; bool ok=guarded([&]{ got=op(x); });
            if(ok && okf(fr,fx,x,got,want)){ c.cover((unsigned)(ccls(fx,x)*64+ccls(fr,got)*16+csgn(fx,x)*8+csgn(fr,got)*4)*64u+(unsigned)(cexp(fx,x)&63)); return; }
            if(!ok) okf(fr,fx,x,0,want);
            c.fail(fmt("%s:%s",nm.c_str(),hex(x).c_str()),fmt("x=%s expected %s got %s",show(fx,x).c_str(),want.c_str(),ok?show(fr,got).c_str():(std::string("CRASH ")+g_why).c_str())); };
        if(raw) for(u64 k=0;k<blk;k++) one((u128)i*blk+k);
        else if(i<nb) for(u64 k=0;k<blk;k++) one(((u128)NORM<<(EX+FX+1))|(i*blk+k));
        else for(u128 x:special_codes(fx)) one(x);
        if(c.want_sample()&&i==n/2) c.sample(nm+fmt(": %llu consecutive codes from %s",(unsigned long long)blk,raw?hex((u128)i*blk).c_str():hex(((u128)NORM<<(EX+FX+1))|(i*blk)).c_str()));
    },tier);
}
// boundary alphabet through a unary operation: all exponents (or the alphabet for wide ones) x fraction alphabet x signs
template<int ER,int FR,int EX,int FX,class OP,class OKF>
void unary_edge(const std::string &tagname,OP op,OKF okf,int flevel,int tier=0){
    Fmt fr{ER,FR},fx{EX,FX}; std::string nm=fmt("%s<%d,%d>(<%d,%d>)",tagname.c_str(),ER,FR,EX,FX);
    u64 n=((u64)1<<EX)+1;
    add_space(nm+fmt(" every exponent x fraction alphabet L%d",flevel),n,[=](u64 i,Ctx&c){
        auto one=[&](u128 x){ u128 got=0; c.ev(); c.st(); std::string want; bool ok=guarded([&]{ got=op(x); });
            if(ok && okf(fr,fx,x,got,want)){ c.cover((unsigned)(ccls(fx,x)*64+ccls(fr,got)*16+csgn(fx,x)*8+csgn(fr,got)*4)*64u+(unsigned)(cexp(fx,x)&63)); return; }
            if(!ok) okf(fr,fx,x,0,want);
            c.fail(fmt("%s:%s",nm.c_str(),hex(x).c_str()),fmt("x=%s expected %s got %s",show(fx,x).c_str(),want.c_str(),ok?show(fr,got).c_str():(std::string("CRASH ")+g_why).c_str())); };
        if(i==n-1){ for(u128 x:special_codes(fx)) one(x); return; }
        std::vector<u64> fl=frac_alphabet(FX,flevel);
        // fractions next to every rounding boundary of the result format
        std::set<u64> fs(fl.begin(),fl.end()); u64 M=(u64)ones(FX);
        if(FX>FR){ int D=FX-FR; for(u64 hi:frac_alphabet(FR<1?1:FR,0)) for(u64 lo: {(u64)0,(u64)1,((u64)1<<(D-1)),((u64)1<<(D-1))-1,((u64)1<<(D-1))+1,((u64)1<<D)-1}) fs.insert(((hi<<D)|(lo&(((u64)1<<D)-1)))&M); }
        for(int s=0;s<2;s++) for(u64 f:fs) one(code(fx,NORM,s,i,f));
        if(c.want_sample()&&i==n/2) c.sample(nm+fmt(": exponent code %llu x %zu fractions x 2 signs",(unsigned long long)i,fs.size()));
    },tier);
}
// every fraction of a format at a few exponents
template<int ER,int FR,int EX,int FX,class OP,class OKF>
void unary_fracs(const std::string &tagname,OP op,OKF okf,std::vector<i64> exps,int tier=0){
    Fmt fr{ER,FR},fx{EX,FX}; std::string nm=fmt("%s<%d,%d>(<%d,%d>)",tagname.c_str(),ER,FR,EX,FX);
    u64 tot=(u64)1<<FX, blk=tot>4096?4096:tot, nb=tot/blk;
    add_space(nm+fmt(" every fraction at %zu exponents",exps.size()),nb*exps.size(),[=](u64 i,Ctx&c){
        i64 e=exps[i/nb]; u64 b=(i%nb)*blk;
        for(u64 k=0;k<blk;k++){ u128 x=code(fx,NORM,(int)((k^(k>>3))&1),(u128)e,b+k); u128 got=0; c.ev(); c.st(); std::string want; bool ok=guarded([&]{ got=op(x); });
            if(ok && okf(fr,fx,x,got,want)){ c.cover((unsigned)(ccls(fr,got)*16+csgn(fr,got)*4)*64u+(unsigned)(cexp(fr,got)&63)); continue; }
            if(!ok) okf(fr,fx,x,0,want);
            c.fail(fmt("%s:%s",nm.c_str(),hex(x).c_str()),fmt("x=%s expected %s got %s",show(fx,x).c_str(),want.c_str(),ok?show(fr,got).c_str():(std::string("CRASH ")+g_why).c_str())); }
        if(c.want_sample()&&i==nb/2) c.sample(nm+fmt(": fractions %llu..%llu at exponent code %lld",(unsigned long long)b,(unsigned long long)(b+blk-1),(long long)e));
    },tier);
}
// every pattern of the leading K fraction bits (cells of a table) x an alphabet of what follows, at a few exponents
template<int ER,int FR,int EX,int FX,class OP,class OKF>
void unary_cells(const std::string &tagname,OP op,OKF okf,int K,int level,std::vector<i64> exps,int tier=0){
    Fmt fr{ER,FR},fx{EX,FX}; std::string nm=fmt("%s<%d,%d>(<%d,%d>)",tagname.c_str(),ER,FR,EX,FX); if(K>FX-2) K=FX-2; u64 n=(u64)1<<K, blk=n>16?16:n;
    add_space(nm+fmt(" every leading %d bits x alphabet L%d",K,level),n/blk*exps.size(),[=](u64 i,Ctx&c){
        i64 e=exps[i/(n/blk)]; u64 b=(i%(n/blk))*blk; auto lows=frac_alphabet(FX-K,level);
        for(u64 k=0;k<blk;k++) for(u64 lo:lows){ u128 x=code(fx,NORM,(int)((k^lo)&1),(u128)e,((b+k)<<(FX-K))|lo); u128 got=0; c.ev(); c.st(); std::string want; bool ok=guarded([&]{ got=op(x); });
            if(ok && okf(fr,fx,x,got,want)){ c.cover((unsigned)(ccls(fr,got)*16+csgn(fr,got)*4)*64u+(unsigned)(cexp(fr,got)&63)); continue; }
            if(!ok) okf(fr,fx,x,0,want);
            c.fail(fmt("%s:%s",nm.c_str(),hex(x).c_str()),fmt("x=%s expected %s got %s",show(fx,x).c_str(),want.c_str(),ok?show(fr,got).c_str():(std::string("CRASH ")+g_why).c_str())); }
        if(c.want_sample()&&i==0) c.sample(nm+fmt(": leading bits %llu.. x %zu endings",(unsigned long long)b,lows.size()));
    },tier);
}
// judges
inline bool ok_inv(Fmt fr,Fmt fx,u128 x,u128 got,std::string &want){ u128 w=orc::div(fr,one(),decode(fx,x)); if(same(fr,w,got)) return true; want=show(fr,w); return false; }
inline bool ok_inv_faithful(Fmt fr,Fmt fx,u128 x,u128 got,std::string &want){
    Val v=decode(fx,x); u128 lo=orc::div(fr,one(),v,RDOWN),hi=orc::div(fr,one(),v,RUPMAG); if(same(fr,lo,got)||same(fr,hi,got)) return true; want=show(fr,lo)+" or "+show(fr,hi); return false; }
inline bool ok_conv(Fmt fr,Fmt fx,u128 x,u128 got,std::string &want){ u128 w=orc::conv(fr,decode(fx,x)); if(same(fr,w,got)) return true; want=show(fr,w); return false; }
inline bool ok_neg(Fmt fr,Fmt fx,u128 x,u128 got,std::string &want){ u128 w=orc::conv(fr,negv(decode(fx,x))); if(same(fr,w,got)) return true; want=show(fr,w); return false; }
} // sp
