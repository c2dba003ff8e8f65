// promo.hpp - widening without loss (P08)
#pragma once
#include "rel.hpp"
#include "thls/tops/fp_promote.hpp"
#include "thls/tops/fp_convert.hpp"
namespace sp {
template<int ED,int FD,int ES,int FS> void promo_one(Ctx&c,const char*nm,u128 x){
    Fmt fd{ED,FD},fs{ES,FS}; u128 r=0,b=0; c.ev(2);
    bool ok=guarded([&]{ thls::fp_flopoco<ED,FD> d; thls::promote(d,mkfp<ES,FS>(x)); r=rawfp(d); thls::fp_flopoco<ES,FS> s; thls::convert(s,d); b=rawfp(s); });
    u128 w=conv(fd,decode(fs,x));
    if(ok&&same(fd,r,w)&&same(fs,b,x)){ c.cover((unsigned)ccls(fs,x)*2+csgn(fs,x)); return; }
    c.fail(fmt("%s:%s",nm,hex(x).c_str()),fmt("x=%s expected %s got %s%s; converted back %s",show(fs,x).c_str(),show(fd,w).c_str(),ok?"":g_why,show(fd,r).c_str(),show(fs,b).c_str()));
}
template<int ED,int FD,int ES,int FS> void promo_space(bool full){
    Fmt fs{ES,FS}; auto nm=std::make_shared<std::string>(fmt("promote<%d,%d>(<%d,%d>)",ED,FD,ES,FS)); OneFn o=[=](Ctx&c,u128 x){ promo_one<ED,FD,ES,FS>(c,nm->c_str(),x); };
    if(full) codes_all(*nm,fs,o); else codes_edge(*nm,fs,3,o);
}
} // sp
