// rel.hpp - relations, predicates, walks, conversions between representations
#pragma once
#include "ops.hpp"
namespace sp {
typedef std::function<void(Ctx&,u128,u128)> PairFn;
// every pair of codes of two formats (raw: all 2^bits codes; otherwise normals + assorted specials)
inline void pairs_full(const std::string&nm,Fmt fx,Fmt fy,bool raw,PairFn f,int tier=0){
    auto xs=std::make_shared<std::vector<u128>>(); auto ys=std::make_shared<std::vector<u128>>();
    u64 n = raw ? (u64)1<<fx.bits() : ((u64)2<<(fx.E+fx.F))+special_codes(fx).size();
    add_space(nm+(raw?" all codes x all codes":" all normals+specials, all pairs"),n,[=](u64 i,Ctx&c){
        if(xs->empty()){ *xs=all_operands(fx,raw); *ys=all_operands(fy,raw); }
        u128 x=(*xs)[i]; for(u128 y:*ys) f(c,x,y); c.st(ys->size());
        if(c.want_sample()&&i==n/3) c.sample(nm+" x="+show(fx,x)+fmt(" against %zu second operands",ys->size()));
    },tier);
}
inline void pairs_edge(const std::string&nm,Fmt fx,Fmt fy,int flevel,int elevel,PairFn f,int tier=0){
    auto xs=std::make_shared<std::vector<u128>>();
    for(u128 c:special_codes(fx)) xs->push_back(c);
    for(int s=0;s<2;s++) for(i64 e:exp_alphabet(fx,elevel)) for(u64 q:frac_alphabet(fx.F,flevel)) xs->push_back(code(fx,NORM,s,(u128)e,q));
    Fmt fr{std::max(fx.E,fy.E),std::max(fx.F,fy.F)};
    add_space(nm+fmt(" boundary alphabet L%d/%d",flevel,elevel),xs->size(),[=](u64 i,Ctx&c){
        u128 x=(*xs)[i]; Val vx=decode(fx,x); std::vector<u64> fl=frac_alphabet(fy.F,flevel);
        std::set<u64> fs(fl.begin(),fl.end()); u64 MY=(u64)ones(fy.F); u64 q=(u64)cfrc(fx,x); u64 qa = fx.F>=fy.F ? (q>>(fx.F-fy.F)) : (q<<(fy.F-fx.F));
        for(int d=-2;d<=2;d++) fs.insert((qa+d)&MY);
        std::vector<i64> es = vx.c==NORM ? partner_exps(fr,fx,fy,(i64)cexp(fx,x),2,elevel) : exp_alphabet(fy,elevel);
        for(u128 y:special_codes(fy)){ c.st(); f(c,x,y); }
        for(int s=0;s<2;s++) for(i64 e:es) for(u64 g:fs){ c.st(); f(c,x,code(fy,NORM,s,(u128)e,g)); }
        if(c.want_sample()&&i==xs->size()/2) c.sample(nm+" x="+show(fx,x)+fmt(" against %zu exponents x %zu fractions x 2 signs",es.size(),fs.size()));
    },tier);
}
typedef std::function<void(Ctx&,u128)> OneFn;
inline void codes_all(const std::string&nm,Fmt f,OneFn fn,int tier=0){ // every code of a (small) format
    u64 n=(u64)1<<f.bits(), blk=n>1024?1024:n;
    add_space(nm+" all codes",n/blk,[=](u64 i,Ctx&c){ for(u64 k=0;k<blk;k++) fn(c,(u128)i*blk+k); c.st(blk); if(c.want_sample()&&i==n/blk/2) c.sample(nm+fmt(" codes %llu..%llu",(unsigned long long)(i*blk),(unsigned long long)((i+1)*blk-1))); },tier);
}
inline void codes_edge(const std::string&nm,Fmt f,int flevel,OneFn fn,int tier=0){ // specials + every exponent x fraction alphabet x sign
    u64 n=((u64)1<<f.E)+1;
    add_space(nm+fmt(" every exponent x fraction alphabet L%d",flevel),n,[=](u64 i,Ctx&c){
        if(i==n-1){ for(u128 x:special_codes(f)){ c.st(); fn(c,x);} return; }
        for(int s=0;s<2;s++) for(u64 q:frac_alphabet(f.F,flevel)){ c.st(); fn(c,code(f,NORM,s,i,q)); }
        if(c.want_sample()&&i==n/2) c.sample(nm+fmt(" exponent code %llu",(unsigned long long)i));
    },tier);
}
#define MC_EXPECT(C,NM,KEY,COND,...) do{ if(!(COND)) (C).fail(std::string(NM)+":"+(KEY),fmt(__VA_ARGS__)); }while(0)

// -------- P13: representation predicates --------
// library order: NaN 0, -inf 1, -norm 2, zero 3, +norm 4, +inf 5
inline int eq_class(Fmt f,u128 c){ int k=ccls(f,c),s=csgn(f,c); return k==NAN_?0: k==ZERO?3: k==INF?(s?1:5):(s?2:4); }
inline bool within1(Fmt f,u128 a,u128 b){ bool na=ccls(f,a)==NAN_,nb=ccls(f,b)==NAN_; if(na||nb) return na&&nb; i128 d=ordinal(f,a)-ordinal(f,b); return d>=-1&&d<=1; }
template<int E,int F> void pred_pair(Ctx&c,const char*nm,u128 x,u128 y){
    Fmt f{E,F}; auto a=mkfp<E,F>(x),b=mkfp<E,F>(y); int eq=-1,w=-1; c.ev(2);
    bool ok=guarded([&]{ eq=a.equals(b).to_bool(); w=a.within_1ulp(b).to_bool(); });
    bool we=same(f,x,y),ww=within1(f,x,y);
    if(ok&&eq==(int)we&&w==(int)ww){ c.cover((unsigned)(eq_class(f,x)*6+eq_class(f,y))*4+eq*2+w); return; }
    c.fail(fmt("%s:%s,%s",nm,hex(x).c_str(),hex(y).c_str()),fmt("x=%s y=%s expected equals=%d within_1ulp=%d got %s%d %d",show(f,x).c_str(),show(f,y).c_str(),we,ww,ok?"":g_why,eq,w));
}
template<int E,int F> void pred_one(Ctx&c,const char*nm,u128 x){
    Fmt f{E,F}; auto a=mkfp<E,F>(x); std::string got; c.ev(); int k=ccls(f,x),s=csgn(f,x);
    auto want=fmt("%d%d%d%d %d%d %d%d%d%d%d%d c%d f%d s%d e%llx q%llx",k==0,k==1,k==2,k==3,!s,s,k==1&&!s,k==1&&s,k==0&&!s,k==0&&s,k==2&&!s,k==2&&s,eq_class(f,x),k,s,(unsigned long long)cexp(f,x),(unsigned long long)cfrc(f,x))
        +" "+hex(x&ones(E+F))+" "+hex(((u128)k<<(E+F))|(x&ones(E+F)));
    bool ok=guarded([&]{
        got=fmt("%d%d%d%d %d%d %d%d%d%d%d%d c%d f%d s%d e%llx q%llx",(int)a.is_zero().to_bool(),(int)a.is_normal().to_bool(),(int)a.is_inf().to_bool(),(int)a.is_nan().to_bool(),(int)a.is_positive().to_bool(),(int)a.is_negative().to_bool(),
            (int)a.is_pos_normal().to_bool(),(int)a.is_neg_normal().to_bool(),(int)a.is_pos_zero().to_bool(),(int)a.is_neg_zero().to_bool(),(int)a.is_pos_inf().to_bool(),(int)a.is_neg_inf().to_bool(),
            (int)a.get_equality_class().to_int(),(int)a.get_flags().to_int(),(int)a.get_sign().to_int(),(unsigned long long)a.get_exp_bits().bits,(unsigned long long)a.get_frac_bits().bits)
            +" "+hex((u128)a.get_exp_frac_bits().bits)+" "+hex((u128)a.get_flags_exp_frac_bits().bits);
        // the field constructor rebuilds the same number
        thls::fp_flopoco<E,F> r(a.get_flags(),a.get_sign(),a.get_exp_bits(),a.get_frac_bits()); if(rawfp(r)!=x) got+=" field constructor gives "+hex(rawfp(r));
    });
    if(ok&&got==want){ c.cover((unsigned)eq_class(f,x)); return; }
    c.fail(fmt("%s:%s",nm,hex(x).c_str()),fmt("x=%s expected [%s] got [%s]",show(f,x).c_str(),want.c_str(),ok?got.c_str():g_why));
}
// the text of a number: its bits, its class, the exponent of a normal one, and its value
inline std::string bin_text(u128 v,int W){ std::string w="0b"; for(int k=W-1;k>=0;k--){ w+=((v>>k)&1)?'1':'0'; if(k&&k%8==0) w+='_'; } return w; }
template<int E,int F> void text_one(Ctx&c,const char*nm,u128 x){
    Fmt f{E,F}; auto a=mkfp<E,F>(x); int k=ccls(f,x),s=csgn(f,x); std::string t,o,why; c.ev(2);
    bool ok=guarded([&]{ t=a.str(); std::ostringstream os; os<<a; o=os.str(); });
    if(ok){
        static const char*words[4]={"zero","normal","inf","nan"}; std::string bits=bin_text(x,3+E+F);
        if(t!=o) why="the stream shows something else"; else if(t.compare(0,bits.size(),bits)||(t.size()>bits.size()&&strchr("01_",t[bits.size()]))) why="the bits differ";
        std::string head=t.substr(0,t.find("~=")); if(why.empty()&&head.size()==t.size()) why="no value";
        if(why.empty()) for(int j=0;j<4;j++) if((head.find(words[j])!=std::string::npos)!=(j==k)) why=std::string(j==k?"does not say ":"says ")+words[j];
        if(why.empty()&&(k==ZERO||k==INF)&&head.find(std::string(s?"-":"+")+words[k])==std::string::npos) why="sign of a special";
        if(why.empty()&&k==NORM){ std::string w="e="+bin_text(cexp(f,x),E)+fmt("=%lld,",(long long)((i64)cexp(f,x)-f.bias())); if(head.find(w)==std::string::npos) why="exponent is not "+w; else if(head.find("f="+bin_text(cfrc(f,x),F))==std::string::npos) why="fraction"; }
        if(why.empty()){ double g=strtod(t.c_str()+head.size()+2,nullptr); Val v=decode(f,x); if(k==NAN_){ if(g==g) why="value"; } else if(k==ZERO){ if(g!=0||std::signbit(g)!=(s!=0)) why="value"; } else if(k==INF){ if(!std::isinf(g)||std::signbit(g)!=(s!=0)) why="value"; }
            else { double m=std::ldexp((double)(u64)v.m,(int)std::max<i64>(-3000,std::min<i64>(3000,v.e))); if(s) m=-m; if(std::isinf(m)||std::isinf(g)? !(std::isinf(g)||std::fabs(g)>1.7e308)||std::signbit(g)!=std::signbit(m): std::fabs(g-m)>std::fabs(m)*1e-5+5e-324*2) why=fmt("value %g for %g",g,m); } }
    } else why=g_why;
    if(why.empty()){ c.cover((unsigned)eq_class(f,x)); return; }
    c.fail(fmt("%s:%s",nm,hex(x).c_str()),fmt("x=%s %s in \"%s\"",show(f,x).c_str(),why.c_str(),t.c_str()));
}
template<int E,int F> void text_space(bool full){ Fmt f{E,F}; auto nm=std::make_shared<std::string>(fmt("text<%d,%d>",E,F)); OneFn o=[=](Ctx&c,u128 x){ text_one<E,F>(c,nm->c_str(),x); }; if(full) codes_all(*nm,f,o); else codes_edge(*nm,f,1,o); }
template<int E,int F> void pred_space(bool full,int l=2,int le=1){
    Fmt f{E,F}; auto nm=std::make_shared<std::string>(fmt("predicates<%d,%d>",E,F)); auto n1=std::make_shared<std::string>(fmt("fields<%d,%d>",E,F));
    PairFn p=[=](Ctx&c,u128 x,u128 y){ pred_pair<E,F>(c,nm->c_str(),x,y); }; OneFn o=[=](Ctx&c,u128 x){ pred_one<E,F>(c,n1->c_str(),x); };
    if(full){ pairs_full(*nm,f,f,true,p); codes_all(*n1,f,o); } else { pairs_edge(*nm,f,f,l,le,p); codes_edge(*n1,f,l,o); }
}
// -------- P12: walking the number line --------
// extended ordinal that keeps -0 and +0 apart: ... -min=-2, -0=-1, +0=0, +min=1 ...
inline i128 xord(Fmt f,u128 c){ i128 o=ordinal(f,c&~((u128)1<<(f.E+f.F))); return csgn(f,c)? -1-o : o; }
inline u128 from_xord(Fmt f,i128 o){ int s=o<0; i128 m= s? -1-o : o; i128 top=(i128)1+((i128)1<<(f.E+f.F)); if(m==0) return mk_zero(f,s); if(m>=top) return mk_inf(f,s); m-=1; return code(f,NORM,s,(u128)(m>>f.F),(u128)m&ones(f.F)); }
template<int E,int F> void walk_one(Ctx&c,const char*nm,u128 x){
    Fmt f{E,F}; auto a=mkfp<E,F>(x); u128 up=0,dn=0,ud=0,du=0,au=0,ad=0; bool threw=false; c.ev(6);
    bool ok=guarded([&]{ auto u=nextup(a),d=nextdown(a); up=rawfp(u); dn=rawfp(d); ud=rawfp(nextdown(u)); du=rawfp(nextup(d)); au=rawfp(nextafter(a,INFINITY)); ad=rawfp(nextafter(a,-INFINITY)); });
    u128 wu,wd,wud,wdu; i128 top=(i128)1+((i128)1<<(E+F));
    if(ccls(f,x)==NAN_) wu=wd=wud=wdu=mk_nan(f);
    else { i128 o=xord(f,x); i128 u=std::min(o+1,top),d=std::max(o-1,-1-top); wu=from_xord(f,u); wd=from_xord(f,d); wud=from_xord(f,std::max(u-1,-1-top)); wdu=from_xord(f,std::min(d+1,top)); }
    if(ok&&same(f,up,wu)&&same(f,dn,wd)&&same(f,ud,wud)&&same(f,du,wdu)&&same(f,au,wu)&&same(f,ad,wd)){ c.cover((unsigned)(eq_class(f,x)*6+eq_class(f,up))*6+eq_class(f,dn)); return; }
    c.fail(fmt("%s:%s",nm,hex(x).c_str()),fmt("x=%s expected up=%s down=%s got %s up=%s down=%s (down of up %s, up of down %s)",show(f,x).c_str(),show(f,wu).c_str(),show(f,wd).c_str(),ok?"":g_why,show(f,up).c_str(),show(f,dn).c_str(),show(f,ud).c_str(),show(f,du).c_str()));
}
// the whole chain: from -inf upwards one step at a time, and back
template<int E,int F> void walk_chain(){
    Fmt f{E,F}; std::string nm=fmt("chain<%d,%d>",E,F);
    add_space(nm+" from one infinity to the other",2,[=](u64 dir,Ctx&c){
        typedef thls::fp_flopoco<E,F> T; typedef std::numeric_limits<T> L; T cur= dir?L::infinity():L::neg_infinity(); i128 top=(i128)1+((i128)1<<(E+F)); i128 o=dir?top:-1-top; i128 end=dir?-1-top:top;
        u64 steps=0; u64 lim=((u64)4<<(E+F))+16;
        while(o!=end && steps<lim){ u128 r=0; c.ev(); bool ok=guarded([&]{ cur= dir?nextdown(cur):nextup(cur); r=rawfp(cur); }); o+=dir?-1:1; steps++; c.st();
            if(!ok||!same(f,r,from_xord(f,o))){ c.fail(nm+fmt(":%llu,%llu",(unsigned long long)dir,(unsigned long long)steps),fmt("step %llu %s of the walk: expected %s got %s%s",(unsigned long long)steps,dir?"down":"up",show(f,from_xord(f,o)).c_str(),ok?"":g_why,show(f,r).c_str())); return; } }
        c.cover((unsigned)dir); c.sample(nm+fmt(": %llu steps",(unsigned long long)steps));
    });
}
template<int E,int F> void limits_check(){
    Fmt f{E,F}; std::string nm=fmt("limits<%d,%d>",E,F);
    add_space(nm+" constants",1,[=](u64,Ctx&c){
        typedef thls::fp_flopoco<E,F> T; typedef std::numeric_limits<T> L; i64 b=f.bias();
        auto ck=[&](const char*k,u128 want,std::function<T()> g){ u128 got=0; c.ev(); c.st(); bool ok=guarded([&]{ got=rawfp(g()); }); if(!ok||!same(f,got,want)) c.fail(nm+":"+k,fmt("%s expected %s got %s",k,show(f,want).c_str(),ok?show(f,got).c_str():g_why)); else c.cover((unsigned)k[0]*7+k[1]); };
        ck("min",code(f,NORM,0,0,0),[]{return L::min();}); ck("neg_min",code(f,NORM,1,0,0),[]{return L::neg_min();}); ck("denorm_min",code(f,NORM,0,0,0),[]{return L::denorm_min();});
        ck("max",code(f,NORM,0,ones(E),ones(F)),[]{return L::max();}); ck("neg_max",code(f,NORM,1,ones(E),ones(F)),[]{return L::neg_max();}); ck("lowest",code(f,NORM,1,ones(E),ones(F)),[]{return L::lowest();});
        ck("infinity",mk_inf(f,0),[]{return L::infinity();}); ck("neg_infinity",mk_inf(f,1),[]{return L::neg_infinity();}); ck("quiet_NaN",mk_nan(f),[]{return L::quiet_NaN();});
        ck("pos_zero",mk_zero(f,0),[]{return L::pos_zero();}); ck("neg_zero",mk_zero(f,1),[]{return L::neg_zero();}); ck("zero",mk_zero(f,0),[]{return L::zero();}); ck("default",mk_zero(f,0),[]{return T();});
        ck("pos_one",code(f,NORM,0,b,0),[]{return L::pos_one();}); ck("neg_one",code(f,NORM,1,b,0),[]{return L::neg_one();}); ck("one",code(f,NORM,0,b,0),[]{return L::one();});
        auto ci=[&](const char*k,i64 want,i64 got){ c.ev(); c.st(); if(want!=got) c.fail(nm+":"+k,fmt("%s expected %lld got %lld",k,(long long)want,(long long)got)); };
        ci("digits",F+1,L::digits); ci("radix",2,L::radix); ci("bias",b,L::bias); ci("min_exponent",f.emin(),L::min_exponent); ci("max_exponent",f.emax(),L::max_exponent);
        ci("type.bias",b,T::bias); ci("type.min_exponent",f.emin(),T::min_exponent); ci("type.max_exponent",f.emax(),T::max_exponent); ci("type.exp_bits",E,T::exp_bits); ci("type.frac_bits",F,T::frac_bits);
        ci("has_infinity",1,L::has_infinity); ci("has_quiet_NaN",1,L::has_quiet_NaN); ci("is_signed",1,L::is_signed); ci("is_integer",0,L::is_integer); ci("is_specialized",1,L::is_specialized); ci("is_exact",0,L::is_exact); ci("is_bounded",1,L::is_bounded); ci("is_modulo",0,L::is_modulo); ci("is_iec559",0,L::is_iec559); ci("has_denorm",std::denorm_absent,L::has_denorm); ci("has_signaling_NaN",0,L::has_signaling_NaN); ci("round_style",std::round_to_nearest,L::round_style);
        bool threw=false; try{ (void)nextafter(L::one(),2.0); }catch(std::exception&){ threw=true; } ci("nextafter of an arbitrary target throws",1,threw);
    });
}
template<int E,int F> void walk_space(bool full,int l=3){
    Fmt f{E,F}; auto nm=std::make_shared<std::string>(fmt("next<%d,%d>",E,F)); OneFn o=[=](Ctx&c,u128 x){ walk_one<E,F>(c,nm->c_str(),x); };
    if(full){ codes_all(*nm,f,o); walk_chain<E,F>(); } else codes_edge(*nm,f,l,o);
    limits_check<E,F>();
}
} // sp
