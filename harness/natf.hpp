// natf.hpp - native float <-> library number (P10)
#pragma once
#include "ieee.hpp"
#include "thls/tops/policy_flopoco.hpp"
namespace sp {
inline void float_one(Ctx&c,uint32_t x){
    static const Fmt f{8,23}; Val v=idecode(f,x); u128 g=0; uint32_t back=0; c.ev(2);
    bool ok=guarded([&]{ float t; memcpy(&t,&x,4); auto w=thls::to<thls::fp_flopoco_wrapper<8,23>>(t); g=rawfp(w.raw); float r=thls::to<float>(w); memcpy(&back,&r,4); });
    u128 wf=conv(f,v),wi=iround(f,v);
    if(ok&&same(f,g,wf)&&isame(f,back,wi)){ c.cover((unsigned)v.c*2+v.s); return; }
    c.fail(fmt("float:%x",x),fmt("float bits %x %sbecomes %s want %s; back to %x want %s",x,ok?"":g_why,show(f,g).c_str(),show(f,wf).c_str(),back,hex(wi).c_str()));
}
inline void float_space(int level){ // 0: every exponent x alphabet, 1: all 2^32
    if(level==0) add_space("native float round trip, every sign and exponent x fraction alphabet",512,[](u64 i,Ctx&c){ for(u64 q:frac_alphabet(23,3)){ c.st(); float_one(c,(uint32_t)(i<<23|q)); } if(i==100) c.sample("float sign/exponent field 0x64 x fraction alphabet"); });
    else add_space("native float round trip, all 2^32 floats",1<<16,[](u64 i,Ctx&c){ for(u64 k=0;k<65536;k++) float_one(c,(uint32_t)(i<<16|k)); c.st(65536); if(i==1000) c.sample("floats 0x03e80000..0x03e8ffff"); });
    // library number -> native float for numbers the float cannot hold exactly is part of "flopoco to ieee"
}
} // sp
