// ieee.hpp - the IEEE interchange format (denormals are zero) and its bridges (P10)
#pragma once
#include "rel.hpp"
#include "thls/tops/fp_ieee.hpp"
#include "thls/tops/fp_convert.hpp"
#include "thls/tops/fp_promote.hpp"
namespace sp {
// IEEE code: sign exp frac; exp 0 is zero, exp all ones is infinity (frac 0) or NaN
inline Val idecode(Fmt f,u128 c){ Val v; v.s=(int)(c>>(f.E+f.F))&1; u128 e=cexp(f,c),q=cfrc(f,c); v.m=0; v.e=0; if(e==0) v.c=ZERO; else if(e==ones(f.E)) v.c=q?NAN_:INF; else { v.c=NORM; v.m=((u128)1<<f.F)|q; v.e=(i64)e-f.bias()-f.F; } return v; }
// nearest IEEE code for a flopoco-style code of the same format (its two outer binades do not exist there)
inline u128 ifrom(Fmt f,u128 c){ u128 S=(u128)csgn(f,c)<<(f.E+f.F), I=ones(f.E)<<f.F; int k=ccls(f,c); if(k==NAN_) return I|ones(f.F); if(k==INF) return S|I; if(k==ZERO) return S; u128 e=cexp(f,c); if(e==0) return S; if(e==ones(f.E)) return S|I; return S|(e<<f.F)|cfrc(f,c); }
inline u128 iround(Fmt f,const Val&v){ return ifrom(f,conv(f,v)); }
inline bool isame(Fmt f,u128 a,u128 b){ Val x=idecode(f,a),y=idecode(f,b); if(x.c==NAN_||y.c==NAN_) return x.c==y.c; return a==b; } // outputs are compared bit for bit
template<int E,int F> inline thls::fp_ieee<E,F> mki(u128 c){ typedef thls::fw_uint<1+E+F> B; return thls::fp_ieee<E,F>(B::from_bits((typename B::bits_t)c)); }
template<int E,int F> inline u128 rawi(const thls::fp_ieee<E,F>&x){ return (u128)x.bits.bits; }
inline std::string ishow(Fmt f,u128 c){ Val v=idecode(f,c); static const char*n[]={"zero","norm","inf","nan"}; return std::string(v.s?"-":"+")+n[v.c]+"="+hex(c); }
inline std::vector<u128> icodes(Fmt f,int fl,int el){ std::vector<u128> r; std::set<i64> es; i64 M=(i64)ones(f.E); for(i64 d=0;d<=el;d++) for(i64 v:{d,M-d,(i64)f.bias()+d,(i64)f.bias()-d}) if(v>=0&&v<=M) es.insert(v);
    for(int s=0;s<2;s++) for(i64 e:es) for(u64 q:frac_alphabet(f.F,fl)) r.push_back(((u128)s<<(f.E+f.F))|((u128)e<<f.F)|q); return r; }
inline std::string pred_s(int c,int s){ return fmt("%d%d%d%d %d%d %d%d%d%d%d%d f%d",c==0,c==1,c==2,c==3,!s,s,c==1&&!s,c==1&&s,c==0&&!s,c==0&&s,c==2&&!s,c==2&&s,c); }
template<int E,int F> void ieee_one(Ctx&c,const char*nm,u128 x){
    Fmt f{E,F}; Val v=idecode(f,x); auto a=mki<E,F>(x); std::string got; c.ev(6); u128 fl=0,back=0,pr=0,mp=0,pi=0; Mp m(F+1),w(F+1); to_mpfr(w.v,v); double d=0;
    auto want=pred_s(v.c,v.s)+fmt(" s%d e%llx q%llx",v.s,(unsigned long long)cexp(f,x),(unsigned long long)cfrc(f,x));
    bool ok=guarded([&]{
        got=fmt("%d%d%d%d %d%d %d%d%d%d%d%d f%d",(int)a.is_zero().to_bool(),(int)a.is_normal().to_bool(),(int)a.is_inf().to_bool(),(int)a.is_nan().to_bool(),(int)a.is_positive().to_bool(),(int)a.is_negative().to_bool(),
            (int)a.is_pos_normal().to_bool(),(int)a.is_neg_normal().to_bool(),(int)a.is_pos_zero().to_bool(),(int)a.is_neg_zero().to_bool(),(int)a.is_pos_inf().to_bool(),(int)a.is_neg_inf().to_bool(),(int)a.get_flags().to_int())
            +fmt(" s%d e%llx q%llx",(int)a.get_sign().to_int(),(unsigned long long)a.get_exp_bits().bits,(unsigned long long)a.get_frac_bits().bits);
        thls::fp_flopoco<E,F> t,p; thls::convert(t,a); fl=rawfp(t); thls::fp_ieee<E,F> b; thls::convert(b,t); back=rawi(b);
        thls::promote(p,a); pr=rawfp(p); thls::fp_ieee<E,F> q; thls::promote(q,a); pi=rawi(q);
        a.get(m.v); thls::fp_ieee<E,F> r(m.v); mp=rawi(r); d=a.to_double_approx(); });
    if(ok&&v.c==NORM) for(int p:{F+1,F/2+1>1?F/2+1:2,2}) for(auto rm:{MPFR_RNDN,MPFR_RNDZ,MPFR_RNDU,MPFR_RNDD,MPFR_RNDA}){ Mp h(p),k(p); c.ev(); if(!guarded([&]{ a.get(h.v,rm); })){ ok=false; break; } mpfr_set(k.v,w.v,rm); if(mpfr_cmp(h.v,k.v)){ ok=false; snprintf(g_why,sizeof g_why,"wrong rounding when extracted to fewer bits "); break; } }
    u128 wf=conv(f,v), wi=iround(f,v); bool mok= v.c==NAN_? mpfr_nan_p(m.v)!=0 : (mpfr_cmp(m.v,w.v)==0 && (mpfr_signbit(m.v)!=0)==(v.s!=0) && !mpfr_nan_p(m.v));
    double wd=mpfr_get_d(w.v,MPFR_RNDN); bool dok= v.c==NAN_? d!=d : memcmp(&d,&wd,8)==0;
    if(ok&&got==want&&same(f,fl,wf)&&same(f,pr,wf)&&isame(f,back,wi)&&isame(f,mp,wi)&&pi==x&&mok&&dok){ c.cover((unsigned)v.c*2+v.s+8*(cexp(f,x)==0&&cfrc(f,x)!=0)); return; }
    c.fail(fmt("%s:%s",nm,hex(x).c_str()),fmt("x=%s %sfields [%s] want [%s]; to flopoco %s / %s want %s; back %s, through mpfr %s want %s; mpfr value %s double %a want %a",ishow(f,x).c_str(),ok?"":g_why,got.c_str(),want.c_str(),show(f,fl).c_str(),show(f,pr).c_str(),show(f,wf).c_str(),hex(back).c_str(),hex(mp).c_str(),hex(wi).c_str(),mok?"ok":"WRONG",d,wd));
}
template<int E,int F> void flop_to_ieee_one(Ctx&c,const char*nm,u128 y){
    Fmt f{E,F}; u128 r=0,p=0; Fmt g{E+1,F}; c.ev(2);
    bool ok=guarded([&]{ thls::fp_ieee<E,F> t; thls::convert(t,mkfp<E,F>(y)); r=rawi(t); thls::fp_ieee<E+1,F> q; thls::promote(q,mkfp<E,F>(y)); p=rawi(q); });
    u128 w=ifrom(f,y), wp=iround(g,decode(f,y));
    if(ok&&isame(f,r,w)&&isame(g,p,wp)){ c.cover((unsigned)eq_class(f,y)); return; }
    c.fail(fmt("%s:%s",nm,hex(y).c_str()),fmt("x=%s %sconverted %s want %s; promoted %s want %s",show(f,y).c_str(),ok?"":g_why,hex(r).c_str(),hex(w).c_str(),hex(p).c_str(),hex(wp).c_str()));
}
template<int ED,int FD,int ES,int FS> void ieee_promo_one(Ctx&c,const char*nm,u128 x){
    Fmt fd{ED,FD},fs{ES,FS}; u128 r=0,p=0; c.ev(2); Val v=idecode(fs,x);
    bool ok=guarded([&]{ thls::fp_ieee<ED,FD> t; thls::promote(t,mki<ES,FS>(x)); r=rawi(t); thls::fp_flopoco<ED,FD> q; thls::promote(q,mki<ES,FS>(x)); p=rawfp(q); });
    u128 w=iround(fd,v),wf=conv(fd,v);
    auto isval=[&](u128 g){ return isame(fd,g,w) || (v.c==ZERO&&cfrc(fs,x)!=0&&idecode(fd,g).c==ZERO&&idecode(fd,g).s==v.s); }; // a denormal pattern is a zero: any zero of its sign will do for it; a true zero stays one
    if(ok&&isval(r)&&same(fd,p,wf)){ c.cover((unsigned)v.c*2+v.s); return; }
    c.fail(fmt("%s:%s",nm,hex(x).c_str()),fmt("x=%s %sto ieee %s want %s; to flopoco %s want %s",ishow(fs,x).c_str(),ok?"":g_why,hex(r).c_str(),hex(w).c_str(),show(fd,p).c_str(),show(fd,wf).c_str()));
}
template<int E,int F> void ieee_pair(Ctx&c,const char*nm,u128 x,u128 y){
    Fmt f{E,F}; Val a=idecode(f,x),b=idecode(f,y); int eq=-1; u128 rm=0,ra=0; c.ev(3);
    bool ok=guarded([&]{ auto p=mki<E,F>(x),q=mki<E,F>(y); eq=p.equals(q).to_bool(); rm=rawi(thls::ref_mul<E,F>(p,q)); ra=rawi(thls::ref_add<E,F>(p,q)); });
    int we= a.c==b.c && (a.c==NAN_||a.c==ZERO||(a.s==b.s&&(a.c==INF||x==y))); u128 wm=ifrom(f,mul(f,a,b)),wa=ifrom(f,add(f,a,b));
    if(ok&&eq==we&&isame(f,rm,wm)&&isame(f,ra,wa)){ c.cover((unsigned)((a.c*4+b.c)*4+a.s*2+b.s)); return; }
    c.fail(fmt("%s:%s,%s",nm,hex(x).c_str(),hex(y).c_str()),fmt("x=%s y=%s %sequals=%d want %d; ref_mul %s want %s; ref_add %s want %s",ishow(f,x).c_str(),ishow(f,y).c_str(),ok?"":g_why,eq,we,hex(rm).c_str(),hex(wm).c_str(),hex(ra).c_str(),hex(wa).c_str()));
}
// numbers of any exponent arriving through MPFR
template<int E,int F> void ieee_mpfr(){
    Fmt f{E,F}; std::string nm=fmt("ieee from MPFR<%d,%d>",E,F); i64 lo=f.emin()-3,hi=f.emax()+3;
    add_space(nm+" exponents beyond the range",(u64)(hi-lo+1),[=](u64 i,Ctx&c){
        i64 e=lo+(i64)i; for(int s=0;s<2;s++) for(u64 q:frac_alphabet(F,1)) for(int allow=0;allow<2;allow++){
            Val v{NORM,s,((u128)1<<F)|q,e-F}; Mp m(F+1); to_mpfr(m.v,v); bool in= e>=f.emin()+1&&e<=f.emax()-1; u128 got=0; bool threw=false; c.ev(); c.st();
            bool ok=guarded([&]{ try{ thls::fp_ieee<E,F> r(m.v,allow!=0); got=rawi(r); }catch(std::runtime_error&){ threw=true; } });
            u128 want= e<f.emin()+1 ? (u128)s<<(E+F) : e>f.emax()-1 ? ((u128)s<<(E+F))|(ones(E)<<F) : iround(f,v);
            if(ok&&threw==(!in&&!allow)&&(threw||got==want)){ c.cover((unsigned)(s*4+in*2+allow)); continue; }
            c.fail(nm+fmt(":%lld,%d,%llx,%d",(long long)e,s,(unsigned long long)q,allow),fmt("exponent %lld sign %d frac %llx allow=%d expected %s%s got %s%s",(long long)e,s,(unsigned long long)q,allow,(!in&&!allow)?"exception":"",hex(want).c_str(),threw?"exception":ok?"":g_why,hex(got).c_str())); }
        if(i==0){ Mp m(F+2); mpfr_set_ui(m.v,1,MPFR_RNDN); bool threw=false; c.ev(); guarded([&]{ try{ thls::fp_ieee<E,F> r(m.v); }catch(std::runtime_error&){ threw=true; } }); if(!threw) c.fail(nm+":precision","a number of the wrong precision is accepted"); } if(i==0) for(int p=2;p<=70;p++) if(p!=F+1){ Mp m(p); bool threw=false; c.ev(); guarded([&]{ try{ mki<E,F>((u128)1<<F).get(m.v); }catch(std::runtime_error&){ threw=true; } }); if(!threw) c.fail(nm+fmt(":destination %d",p),"a destination of the wrong precision is accepted"); }
    });
    add_space(fmt("ieee limits<%d,%d> constants",E,F),1,[=](u64,Ctx&c){
        typedef thls::fp_ieee<E,F> T; typedef std::numeric_limits<T> L; u128 S=(u128)1<<(E+F),I=ones(E)<<F,b=f.bias();
        auto ck=[&](const char*k,u128 want,std::function<T()> g){ u128 got=0; c.ev(); c.st(); bool ok=guarded([&]{ got=rawi(g()); }); if(!ok||!isame(f,got,want)) c.fail(fmt("ieee limits<%d,%d>:",E,F)+k,fmt("%s expected %s got %s",k,hex(want).c_str(),ok?hex(got).c_str():g_why)); else c.cover((unsigned)k[0]*7+k[1]); };
        u128 mx=((ones(E)-1)<<F)|ones(F);
        ck("min",(u128)1<<F,[]{return L::min();}); ck("neg_min",S|((u128)1<<F),[]{return L::neg_min();}); ck("max",mx,[]{return L::max();}); ck("neg_max",S|mx,[]{return L::neg_max();}); ck("lowest",S|mx,[]{return L::lowest();});
        ck("infinity",I,[]{return L::infinity();}); ck("neg_infinity",S|I,[]{return L::neg_infinity();}); ck("quiet_NaN",I|1,[]{return L::quiet_NaN();});
        ck("pos_zero",0,[]{return L::pos_zero();}); ck("neg_zero",S,[]{return L::neg_zero();}); ck("pos_one",b<<F,[]{return L::pos_one();}); ck("neg_one",S|(b<<F),[]{return L::neg_one();}); ck("one",b<<F,[]{return L::one();}); ck("default",0,[]{return T();});
        auto ci=[&](const char*k,i64 want,i64 got){ c.ev(); c.st(); if(want!=got) c.fail(fmt("ieee limits<%d,%d>:",E,F)+k,fmt("%s expected %lld got %lld",k,(long long)want,(long long)got)); };
        ci("digits",F+1,L::digits); ci("min_exponent",f.emin()+1,L::min_exponent); ci("max_exponent",f.emax()-1,L::max_exponent); ci("radix",2,L::radix); ci("is_specialized",1,L::is_specialized); ci("is_signed",1,L::is_signed); ci("is_integer",0,L::is_integer); ci("is_exact",0,L::is_exact); ci("has_infinity",1,L::has_infinity); ci("has_quiet_NaN",1,L::has_quiet_NaN); ci("is_bounded",1,L::is_bounded); ci("is_modulo",0,L::is_modulo); ck("denorm_min",(u128)1<<F,[]{return L::denorm_min();});
    });
}
// the text of a pattern: its bits, class, and the exponent and significand of a normal one
template<int E,int F> void itext_one(Ctx&c,const char*nm,u128 x){
    Fmt f{E,F}; auto a=mki<E,F>(x); Val v=idecode(f,x); int k=v.c; std::string t,why; c.ev(); static const char*words[4]={"zero","normal","inf","nan"}; std::string bits=bin_text(x,1+E+F);
    if(!guarded([&]{ t=a.str(); })) why=g_why;
    else { if(t.compare(0,bits.size(),bits)||(t.size()>bits.size()&&strchr("01_",t[bits.size()]))) why="the bits differ"; for(int j=0;j<4;j++) if((t.find(words[j])!=std::string::npos)!=(j==k)) why=std::string(j==k?"does not say ":"says ")+words[j];
        if(why.empty()&&(k==ZERO||k==INF)&&t.find(std::string(v.s?"-":"+")+words[k])==std::string::npos) why="sign of a special";
        if(why.empty()&&k==NORM){ std::string w="e="+bin_text(cexp(f,x),E)+fmt("=%lld ",(long long)((i64)cexp(f,x)-f.bias())); size_t q=t.find("(approx)"); if(t.find(w)==std::string::npos) why="exponent is not "+w; else if(t.find("f="+bin_text(cfrc(f,x),F))==std::string::npos) why="fraction"; else if(q!=std::string::npos){ double g=strtod(t.c_str()+q+8,nullptr),m=std::ldexp((double)(u64)v.m,-F); if(std::fabs(g-m)>1e-5*m) why=fmt("significand %g for %g",g,m); } } }
    if(why.empty()){ c.cover((unsigned)k*2+v.s); return; } c.fail(fmt("%s:%s",nm,hex(x).c_str()),fmt("x=%s %s in \"%s\"",ishow(f,x).c_str(),why.c_str(),t.c_str())); }
template<int E,int F> void itext_space(bool full){ Fmt f{E,F}; auto nm=std::make_shared<std::string>(fmt("ieee text<%d,%d>",E,F)); auto xs=std::make_shared<std::vector<u128>>(); if(full) for(u128 x=0;x<((u128)1<<(1+E+F));x++) xs->push_back(x); else *xs=icodes(f,1,2);
    add_space(*nm+(full?" all codes":" boundary alphabet"),(xs->size()+63)/64,[=](u64 i,Ctx&c){ for(u64 j=i*64;j<std::min<u64>(xs->size(),i*64+64);j++){ c.st(); itext_one<E,F>(c,nm->c_str(),(*xs)[j]); } if(i==0) c.sample(*nm); }); }
// reference operations of operands and result of three formats, returned and stored
template<int ER,int FR,int EA,int FA,int EB,int FB> void iref_space(int level){
    Fmt r{ER,FR},fa{EA,FA},fb{EB,FB}; auto nm=std::make_shared<std::string>(fmt("ieee references<%d,%d> of <%d,%d> and <%d,%d>",ER,FR,EA,FA,EB,FB)); auto all=[](Fmt f,int l){ std::vector<u128> v; if(l<0) for(u128 x=0;x<((u128)1<<(1+f.E+f.F));x++) v.push_back(x); else v=icodes(f,l,l); return v; };
    auto xs=std::make_shared<std::vector<u128>>(all(fa,level)),ys=std::make_shared<std::vector<u128>>(all(fb,level));
    add_space(*nm,xs->size(),[=](u64 i,Ctx&c){ u128 x=(*xs)[i]; for(u128 y:*ys){ Val a=idecode(fa,x),b=idecode(fb,y); u128 wm=ifrom(r,mul(r,a,b)),wa=ifrom(r,add(r,a,b)),g[4]={0,0,0,0}; c.st(); c.ev(4);
        bool ok=guarded([&]{ auto p=mki<EA,FA>(x); auto q=mki<EB,FB>(y); g[0]=rawi(thls::ref_mul<ER,FR>(p,q)); g[1]=rawi(thls::ref_add<ER,FR>(p,q)); thls::fp_ieee<ER,FR> d; thls::ref_mul(d,p,q); g[2]=rawi(d); thls::fp_ieee<ER,FR> s; thls::ref_add(s,p,q); g[3]=rawi(s); });
        if(ok&&isame(r,g[0],wm)&&isame(r,g[1],wa)&&isame(r,g[2],wm)&&isame(r,g[3],wa)){ c.cover((unsigned)((a.c*4+b.c)*4+a.s*2+b.s)); continue; }
        c.fail(*nm+":"+hex(x)+","+hex(y),fmt("x=%s y=%s %sref_mul %s, stored %s want %s; ref_add %s, stored %s want %s",ishow(fa,x).c_str(),ishow(fb,y).c_str(),ok?"":g_why,hex(g[0]).c_str(),hex(g[2]).c_str(),hex(wm).c_str(),hex(g[1]).c_str(),hex(g[3]).c_str(),hex(wa).c_str())); } if(i==xs->size()/2) c.sample(*nm+" x="+ishow(fa,x)); }); }
template<int E,int F> void ieee_space(bool full,bool pairs){
    Fmt f{E,F}; auto n1=std::make_shared<std::string>(fmt("ieee<%d,%d>",E,F)),n2=std::make_shared<std::string>(fmt("ieee<%d,%d> pairs",E,F)),n3=std::make_shared<std::string>(fmt("flopoco to ieee<%d,%d>",E,F));
    if(full){
        u64 n=(u64)1<<(1+E+F), blk=n>512?512:n;
        add_space(*n1+" all codes",n/blk,[=](u64 i,Ctx&c){ for(u64 k=0;k<blk;k++) ieee_one<E,F>(c,n1->c_str(),(u128)i*blk+k); c.st(blk); if(i==0) c.sample(*n1+fmt(" codes 0..%llu",(unsigned long long)blk-1)); });
        codes_all(*n3,f,[=](Ctx&c,u128 x){ flop_to_ieee_one<E,F>(c,n3->c_str(),x); });
        if(pairs) add_space(*n2+" all codes x all codes",n,[=](u64 i,Ctx&c){ for(u64 k=0;k<n;k++) ieee_pair<E,F>(c,n2->c_str(),i,k); c.st(n); });
    } else {
        auto xs=std::make_shared<std::vector<u128>>(icodes(f,2,4));
        add_space(*n1+" boundary alphabet",xs->size(),[=](u64 i,Ctx&c){ ieee_one<E,F>(c,n1->c_str(),(*xs)[i]); c.st(); if(i==0) c.sample(*n1+" "+ishow(f,(*xs)[i])); });
        codes_edge(*n3,f,2,[=](Ctx&c,u128 x){ flop_to_ieee_one<E,F>(c,n3->c_str(),x); });
        auto ys=std::make_shared<std::vector<u128>>(icodes(f,0,2));
        if(pairs) add_space(*n2+" boundary alphabet",ys->size(),[=](u64 i,Ctx&c){ for(u128 y:*ys) ieee_pair<E,F>(c,n2->c_str(),(*ys)[i],y); c.st(ys->size()); });
    }
    ieee_mpfr<E,F>();
}
template<int ED,int FD,int ES,int FS> void ieee_promo(bool full){
    Fmt f{ES,FS}; auto nm=std::make_shared<std::string>(fmt("promote ieee<%d,%d> to <%d,%d>",ES,FS,ED,FD));
    if(full){ u64 n=(u64)1<<(1+ES+FS); add_space(*nm+" all codes",n,[=](u64 i,Ctx&c){ c.st(); ieee_promo_one<ED,FD,ES,FS>(c,nm->c_str(),i); }); }
    else { auto xs=std::make_shared<std::vector<u128>>(icodes(f,2,4)); add_space(*nm+" boundary alphabet",xs->size(),[=](u64 i,Ctx&c){ c.st(); ieee_promo_one<ED,FD,ES,FS>(c,nm->c_str(),(*xs)[i]); }); }
}
} // sp
