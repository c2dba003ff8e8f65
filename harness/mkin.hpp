// mkin.hpp - the input lists every other test draws from (P24 part)
#pragma once
#include "rel.hpp"
#include "thls/tops/make_input.hpp"
namespace sp {
template<int E,int F> void input_list(){
    std::string nm=fmt("make_input<%d,%d>",E,F); Fmt f{E,F}; static const int sizes[]={0,1,20,100,400,1000};
    add_space(nm,6,[=](u64 i,Ctx&c){ int n=sizes[i]; std::vector<thls::fp_flopoco<E,F>> a,b; c.st(); c.ev(2); bool ok=guarded([&]{ thls::make_input(a,n); thls::make_input(b,n); }); c.cover((unsigned)i); std::string k=nm+fmt(":%d",n); if(!ok){ c.fail(k,g_why); return; }
        std::multiset<std::string> got; std::map<std::string,u128> w; auto key=[&](u128 x){ int q=ccls(f,x); return fmt("%d %d %llx %llx",q,q==NAN_?0:csgn(f,x),q==NORM?(unsigned long long)cexp(f,x):0,q==NORM?(unsigned long long)cfrc(f,x):0); };
        auto both=[&](u128 x){ u128 y=x^((u128)1<<(E+F)); w[key(x)]=x; w[key(y)]=y; };
        for(int v=1;v<=10;v++) both(conv(f,Val{NORM,0,(u128)v,0})); both(code(f,INF,0,0,0)); both(code(f,ZERO,0,0,0)); both(code(f,NORM,0,0,0)); both(code(f,NORM,0,ones(E),ones(F)));
        i128 one=ordinal(f,code(f,NORM,0,f.bias(),0)); for(int d=1;d<=10;d++){ u128 up=code(f,NORM,0,f.bias(),0)+d,dn=code(f,NORM,0,f.bias(),0)-d; both(up); both(dn); both(code(f,NORM,0,0,0)+d); both(code(f,NORM,0,ones(E),ones(F))-d); } (void)one;
        for(int e=-F-5;e<=F+6;e++) both(conv(f,Val{NORM,0,1,e}));
        if(a.size()<(size_t)n) c.fail(k,fmt("only %zu values, %d asked for",a.size(),n)); if(a.size()!=b.size()) c.fail(k,"two calls differ"); else for(size_t j=0;j<a.size();j++) if(!same(f,rawfp(a[j]),rawfp(b[j]))){ c.fail(k,"two calls differ"); break; }
        for(auto&x:a){ got.insert(key(rawfp(x))); } for(auto&p:w) if(!got.count(p.first)) c.fail(k+" "+p.first,"missing "+show(f,p.second));
        std::map<std::string,int> bal; for(auto&x:a){ u128 r=rawfp(x); bal[key(r)]++; } for(auto&p:bal){ (void)p; } if(i==2) c.sample(nm+fmt(": %zu values, %zu required",a.size(),w.size())); });
}
} // sp
