// ordc.hpp - comparisons (P07)
#pragma once
#include "rel.hpp"
#include "thls/tops/fp_flopoco_ordering.hpp"
namespace sp {
template<int EX,int FX,int EY,int FY> void cmp_pair(Ctx&c,const char*nm,u128 x,u128 y){
    Fmt fx{EX,FX},fy{EY,FY}; auto a=mkfp<EX,FX>(x); auto b=mkfp<EY,FY>(y); int m=-1; c.ev(6);
    bool ok=guarded([&]{ m=(int)equal(a,b).to_bool()|(int)not_equal(a,b).to_bool()<<1|(int)less_than(a,b).to_bool()<<2|(int)less_than_equal(a,b).to_bool()<<3|(int)greater_than(a,b).to_bool()<<4|(int)greater_than_equal(a,b).to_bool()<<5; });
    int r=cmp(decode(fx,x),decode(fy,y)); int w = r==-2? 2 : r==0 ? 1|8|32 : r<0 ? 2|4|8 : 2|16|32;
    if(ok&&m==w){ c.cover((unsigned)((eq_class(fx,x)*6+eq_class(fy,y))*64+m)); return; }
    c.fail(fmt("%s:%s,%s",nm,hex(x).c_str(),hex(y).c_str()),fmt("x=%s y=%s expected eq,ne,lt,le,gt,ge=%d%d%d%d%d%d got %s%d%d%d%d%d%d",show(fx,x).c_str(),show(fy,y).c_str(),w&1,w>>1&1,w>>2&1,w>>3&1,w>>4&1,w>>5&1,ok?"":g_why,m&1,m>>1&1,m>>2&1,m>>3&1,m>>4&1,m>>5&1));
}
template<int EX,int FX,int EY,int FY> void cmp_space(int full,int l=2,int le=1){ // 2: raw codes, 1: normals+specials, 0: boundary alphabet
    Fmt fx{EX,FX},fy{EY,FY}; auto nm=std::make_shared<std::string>(fmt("compare<%d,%d>,<%d,%d>",EX,FX,EY,FY)); PairFn p=[=](Ctx&c,u128 x,u128 y){ cmp_pair<EX,FX,EY,FY>(c,nm->c_str(),x,y); };
    if(full) pairs_full(*nm,fx,fy,full==2,p); else pairs_edge(*nm,fx,fy,l,le,p);
}
} // sp
