// fma.hpp - multiply-add (P14), positive dot products rounded down (P15)
#pragma once
#include "rel.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
namespace sp {
// exact product as a value
inline Val vmul(const Val&a,const Val&b){ Val r; r.s=a.s^b.s; r.m=0; r.e=0;
    if(a.c==NAN_||b.c==NAN_||(a.c==INF&&b.c==ZERO)||(a.c==ZERO&&b.c==INF)) r.c=NAN_; else if(a.c==INF||b.c==INF) r.c=INF; else if(a.c==ZERO||b.c==ZERO) r.c=ZERO; else { r.c=NORM; r.m=a.m*b.m; r.e=a.e+b.e; } return r; }
inline u128 fma_(Fmt fr,const Val&x,const Val&y,const Val&z){ Val p=vmul(x,y); if(blen(p.m)<=54&&fr.F<=53) return orc::add(fr,p,z); return mpfr_fma3(fr,x,y,z); }
struct TriRef { u128 (*lo)(Fmt,const Val&,const Val&,const Val&); };
template<int ER,int FR,int EX,int FX,int EY,int FY,int EZ,int FZ,class OP> struct Fma {
    static bool judge(Ctx&c,const char*nm,OP op,bool strict,u128 x,u128 y,u128 z,const Val&vx,const Val&vy,const Val&vz){
        Fmt fr{ER,FR},fx{EX,FX},fy{EY,FY},fz{EZ,FZ}; u128 got=0; c.ev();
        bool ok=guarded([&]{ got=rawfp(op(mkfp<EX,FX>(x),mkfp<EY,FY>(y),mkfp<EZ,FZ>(z))); });
        u128 w=fma_(fr,vx,vy,vz); 
        if(ok&&same(fr,got,w)){ c.cover((unsigned)(((vx.c*4+vy.c)*4+vz.c)*4+ccls(fr,w))*2+csgn(fr,w)); return true; }
        if(ok&&!strict){ // rounding once more at the exact product's width may move a result that is a hair away from a tie
            Fmt fw{14,std::max(FX+FY+2,FZ)}; if(fw.F>=FR){ Val t=decode(fw,fma_(fw,vx,vy,vz)); u128 w2=conv(fr,t); if(same(fr,got,w2)){ c.cover(7000); return true; } } }
        c.fail(fmt("%s:%s,%s,%s",nm,hex(x).c_str(),hex(y).c_str(),hex(z).c_str()),fmt("x=%s y=%s z=%s expected %s got %s%s",show(fx,x).c_str(),show(fy,y).c_str(),show(fz,z).c_str(),show(fr,w).c_str(),ok?"":g_why,show(fr,got).c_str()));
        return false; }
};
template<int ER,int FR,int EX,int FX,int EY,int FY,int EZ,int FZ,class OP> void fma_full(const std::string&tag,OP op,bool strict=false){
    Fmt fx{EX,FX},fy{EY,FY},fz{EZ,FZ}; auto nm=std::make_shared<std::string>(fmt("%s<%d,%d>(<%d,%d>,<%d,%d>,<%d,%d>)",tag.c_str(),ER,FR,EX,FX,EY,FY,EZ,FZ));
    auto ops=[](Fmt f){ std::vector<u128> r; for(int s=0;s<2;s++) for(u128 ef=0;ef<((u128)1<<(f.E+f.F));ef++) r.push_back(((u128)NORM<<(f.E+f.F+1))|((u128)s<<(f.E+f.F))|ef); for(u128 k:special_codes(f,0)) r.push_back(k); return r; };
    auto xs=std::make_shared<std::vector<u128>>(ops(fx)),ys=std::make_shared<std::vector<u128>>(ops(fy)),zs=std::make_shared<std::vector<u128>>(ops(fz));
    add_space(*nm+" all normals+specials, all triples",xs->size(),[=](u64 i,Ctx&c){ u128 x=(*xs)[i]; Val vx=decode(fx,x);
        for(u128 y:*ys){ Val vy=decode(fy,y); for(u128 z:*zs) Fma<ER,FR,EX,FX,EY,FY,EZ,FZ,OP>::judge(c,nm->c_str(),op,strict,x,y,z,vx,vy,decode(fz,z)); } c.st(ys->size()*zs->size());
        if(i==xs->size()/3) c.sample(*nm+" x="+show(fx,x)+fmt(" against %zu x %zu",ys->size(),zs->size())); });
}
template<int ER,int FR,int EX,int FX,int EY,int FY,int EZ,int FZ,class OP> void fma_edge(const std::string&tag,OP op,int lvl,bool strict=false){
    Fmt fr{ER,FR},fx{EX,FX},fy{EY,FY},fz{EZ,FZ}; auto nm=std::make_shared<std::string>(fmt("%s<%d,%d>(<%d,%d>,<%d,%d>,<%d,%d>)",tag.c_str(),ER,FR,EX,FX,EY,FY,EZ,FZ));
    auto xs=std::make_shared<std::vector<u128>>(); for(u128 k:special_codes(fx,0)) xs->push_back(k);
    for(int s=0;s<2;s++) for(i64 e:exp_alphabet(fx,0)) for(u64 q:frac_alphabet(FX,lvl)) xs->push_back(code(fx,NORM,s,(u128)e,q));
    add_space(*nm+fmt(" boundary alphabet L%d, addend placed around and below the product",lvl),xs->size(),[=](u64 i,Ctx&c){
        u128 x=(*xs)[i]; Val vx=decode(fx,x); std::vector<u128> ys; for(u128 k:special_codes(fy,0)) ys.push_back(k);
        std::set<u64> fs; for(u64 q:frac_alphabet(FY,lvl>0?lvl-1:0)) fs.insert(q); u64 M=(u64)ones(FY); if(FX==FY) for(int d=-1;d<=1;d++){ fs.insert(((u64)cfrc(fx,x)+d)&M); fs.insert((~(u64)cfrc(fx,x)+d)&M); }
        std::vector<i64> es= vx.c==NORM? partner_exps(fr,fx,fy,(i64)cexp(fx,x),0,1) : exp_alphabet(fy,0);
        for(int s=0;s<2;s++) for(i64 e:es) for(u64 q:fs) ys.push_back(code(fy,NORM,s,(u128)e,q));
        for(u128 y:ys){ Val vy=decode(fy,y),p=vmul(vx,vy); std::vector<u128> zs; for(u128 k:special_codes(fz,0)) zs.push_back(k);
            if(p.c==NORM){ int L=blen(p.m); i64 top=p.e+L-1; u128 nrm=p.m<<(127-L)>>0; (void)nrm;
                // fraction of the product cut to z's width, its neighbours, and the low half of the product shifted up
                u64 hi= L-1>=FZ ? (u64)((p.m>>(L-1-FZ))&ones(FZ)) : (u64)((p.m<<(FZ-(L-1)))&ones(FZ)); u64 lo=(u64)(p.m&ones(std::min(FZ,L-1)));
                std::set<u64> qs={0,(u64)ones(FZ),1,(u64)1<<(FZ-1),hi,(hi+1)&(u64)ones(FZ),(hi-1)&(u64)ones(FZ),lo};
                int N=FX+FY+4+FR; for(int d=-N;d<=FZ+4;d++){ if(lvl<2 && !(d>=-4||d<=-N+3||(d>=-FR-4&&d<=-FR+4)||(d>=-FX-FY-4&&d<=-FX-FY+4)) && (d%5)) continue; i64 ez=top+d+fz.bias(); if(ez<0||ez>(i64)ones(EZ)) continue; for(int s=0;s<2;s++) for(u64 q:qs) zs.push_back(code(fz,NORM,s,(u128)ez,q)); }
                for(i64 ez:exp_alphabet(fz,0)) for(int s=0;s<2;s++) for(u64 q:{(u64)0,hi,(u64)ones(FZ)}) zs.push_back(code(fz,NORM,s,(u128)ez,q));
            } else for(i64 ez:exp_alphabet(fz,0)) for(int s=0;s<2;s++) for(u64 q:{(u64)0,(u64)5&(u64)ones(FZ),(u64)ones(FZ)}) zs.push_back(code(fz,NORM,s,(u128)ez,q));
            for(u128 z:zs) Fma<ER,FR,EX,FX,EY,FY,EZ,FZ,OP>::judge(c,nm->c_str(),op,strict,x,y,z,vx,vy,decode(fz,z)); c.st(zs.size()); }
        if(i==xs->size()/2) c.sample(*nm+" x="+show(fx,x)+fmt(" against %zu second operands, addends at every relevant distance",ys.size())); });
}
// ---- positive dot products, exact sum rounded down ----
inline u128 dot_down(Fmt f,int n,const u128*a,const u128*b){ // a,b positive normals
    i64 e[4],lo=1<<30,hi=-(1<<30); u128 m[4]; for(int i=0;i<n;i++){ Val x=decode(f,a[i]),y=decode(f,b[i]); m[i]=x.m*y.m; e[i]=x.e+y.e; lo=std::min(lo,e[i]); hi=std::max(hi,e[i]); }
    if(hi-lo+2*f.F+2+3<=127){ u128 s=0; for(int i=0;i<n;i++) s+=m[i]<<(e[i]-lo); return round_to(f,0,s,lo,false,RDOWN); }
    mpz_t s,t; mpz_init(s); mpz_init(t); for(int i=0;i<n;i++){ mpz_set_ui(t,(unsigned long)(u64)(m[i]>>64)); mpz_mul_2exp(t,t,64); mpz_add_ui(t,t,(unsigned long)(u64)m[i]); mpz_mul_2exp(t,t,e[i]-lo); mpz_add(s,s,t); }
    size_t L=mpz_sizeinbase(s,2); i64 k=L>100?(i64)L-100:0; mpz_tdiv_q_2exp(s,s,k); mpz_tdiv_q_2exp(t,s,64); u128 v=((u128)mpz_get_ui(t)<<64)|(u64)mpz_get_ui(s); mpz_clear(s); mpz_clear(t);
    return round_to(f,0,v,lo+k,false,RDOWN);
}
inline u128 pn(Fmt f,u64 e,u64 q){ return code(f,NORM,0,e,q); }
template<int E,int F,class OP> void dot_judge(Ctx&c,const char*nm,OP op,int n,const u128*a,const u128*b){
    Fmt f{E,F}; u128 got=0; c.ev(); c.st(); bool ok=guarded([&]{ got=op(a,b); }); u128 w=dot_down(f,n,a,b);
    if(ok&&same(f,got,w)){ c.cover((unsigned)ccls(f,w)*4096+(unsigned)(cexp(f,w)&15)*64+(unsigned)(cfrc(f,w)&63)); return; }
    std::string k=nm; k+=":"; for(int i=0;i<n;i++) k+=hex(a[i])+"*"+hex(b[i])+(i+1<n?"+":"");
    std::string d; for(int i=0;i<n;i++) d+=show(f,a[i])+" * "+show(f,b[i])+(i+1<n?" + ":""); c.fail(k,d+" expected "+show(f,w)+" got "+(ok?"":g_why)+show(f,got));
}
// one operand pair per distinct exact product, in increasing order of the product
inline std::vector<std::pair<u64,u64>> product_reps(int F,bool distinct){
    std::map<u64,std::pair<u64,u64>> m; std::vector<std::pair<u64,u64>> r; u64 B=(u64)1<<F;
    for(u64 p=0;p<B;p++) for(u64 q=0;q<B;q++){ if(distinct) m[(B+p)*(B+q)]={p,q}; else r.push_back({p,q}); }
    for(auto&k:m) r.push_back(k.second); return r; }
// products with the longest runs of ones or zeros below the leading bit, plus the extremes: they decide carries between far-apart terms
inline std::vector<std::pair<u64,u64>> product_edges(int F,size_t keep){
    u64 B=(u64)1<<F,M=B-1; std::vector<u64> fr; if(F<=9) for(u64 q=0;q<B;q++) fr.push_back(q); else { fr=frac_alphabet(F,1); }
    std::vector<std::pair<int,std::pair<u64,u64>>> o; for(u64 p:fr) for(u64 q:fr) if(p<=q){ u128 v=(u128)(B+p)*(B+q); int best=0,run=0,prev=-1; for(int b=0;b<=2*F+1;b++){ int t=(v>>b)&1; if(t==prev) run++; else run=1; prev=t; if(t) best=std::max(best,run); } int tz=0; while(!((v>>tz)&1)&&tz<2*F) tz++; o.push_back({-std::max(best,tz),{p,q}}); }
    std::stable_sort(o.begin(),o.end(),[](auto&a,auto&b){ return a.first<b.first; }); std::vector<std::pair<u64,u64>> r={{0,0},{M,M},{0,M},{0,1},{1,1},{M,M-1},{M/2,M/2+1}};
    for(size_t i=0;i<o.size()&&r.size()<keep;i++) r.push_back(o[i].second); return r; }
inline void split_exp(Fmt f,i64 pe,u64&ea,u64&eb){ i64 mx=(i64)ones(f.E); i64 a=pe/2; if(a>mx) a=mx; i64 b=pe-a; if(b>mx){ a+=b-mx; b=mx; } if(b<0){ a+=b; b=0; } ea=(u64)a; eb=(u64)b; }
// every product combination x every alignment of the smaller terms under the largest, each term in turn largest
template<int E,int F,class OP> void dot_align(const std::string&tag,OP op,int n,std::vector<std::pair<u64,u64>> pr,std::vector<int> shifts,bool ordered,int tier=0){
    Fmt f{E,F}; auto nm=std::make_shared<std::string>(fmt("%s<%d,%d>",tag.c_str(),E,F)); size_t K=pr.size(),S=shifts.size(); i64 center=((i64)ones(E))+ (i64)shifts.back()/2; if(center>2*(i64)ones(E)-1) center=2*(i64)ones(E)-1;
    if(center-shifts.back()<0||center>2*(i64)ones(E)) { fprintf(stderr,"dot_align: exponent field too small\n"); abort(); }
    add_space(*nm+fmt(" %zu products per term x %zu alignments%s",K,S,ordered?", smaller terms in order":", every term largest in turn"),K*K,[=](u64 i,Ctx&c){
        u128 a[4],b[4]; size_t k[4]; k[0]=i/K; k[1]=i%K; u64 rest=1; for(int t=2;t<n;t++) rest*=K;
        for(u64 r=0;r<rest;r++){ u64 rr=r; for(int t=2;t<n;t++){ k[t]=rr%K; rr/=K; }
            std::vector<int> ix(n,0); for(;;){
                int rot=ordered?1:n; for(int m=0;m<rot;m++){ for(int t=0;t<n;t++){ i64 pe=center-(t==0?0:shifts[ix[t]]); u64 ea,eb; split_exp(f,pe,ea,eb); int pos=(t+m)%n; a[pos]=pn(f,ea,pr[k[t]].first); b[pos]=pn(f,eb,pr[k[t]].second); } dot_judge<E,F>(c,nm->c_str(),op,n,a,b); }
                int t=1; for(;t<n;t++){ if(++ix[t]<(int)S){ if(ordered) for(int z=1;z<t;z++) ix[z]=ix[t]; break; } ix[t]=0; } if(t==n) break;
                if(ordered){ bool dup=false; for(int z=2;z<n;z++) if(ix[z]>ix[z-1]) dup=true; if(dup) continue; }
            } }
        if(i==K*K/2) c.sample(*nm+fmt(" products %zu,%zu (of %zu) against every other and %zu alignments",k[0],k[1],K,S));
    },tier);
}
// range ends: every exponent of the largest product x near alignments
template<int E,int F,class OP> void dot_range(const std::string&tag,OP op,int n,std::vector<std::pair<u64,u64>> pr){
    Fmt f{E,F}; auto nm=std::make_shared<std::string>(fmt("%s<%d,%d>",tag.c_str(),E,F)); i64 top=2*(i64)ones(E);
    std::set<i64> es; for(i64 d=0;d<=5;d++) for(i64 v:{d,top-d,f.bias()+d,f.bias()-d,top-f.bias()+d,top-f.bias()-d,top/2+d,f.bias()+((i64)1<<E)+d,f.bias()+((i64)1<<E)-d}) if(v>=0&&v<=top) es.insert(v); if(E<=6) for(i64 v=0;v<=top;v++) es.insert(v);
    auto ev=std::make_shared<std::vector<i64>>(es.begin(),es.end()); size_t K=pr.size();
    add_space(*nm+" product exponents across and beyond the range",ev->size()*K,[=](u64 i,Ctx&c){ i64 pe0=(*ev)[i/K]; u128 a[4],b[4]; static const int sh[]={0,1,2,3,1000000}; u64 cmb=1; for(int t=1;t<n;t++) cmb*=5*K;
        if(n==4) cmb=5*5*5*K;
        for(u64 r=0;r<cmb;r++){ u64 rr=r; bool bad=false; for(int t=0;t<n;t++){ i64 pe=pe0; size_t k=i%K; if(t){ int s=sh[rr%5]; rr/=5; pe= s==1000000?0:pe0-s; if(n==4){ k=(r/125+t)%K; } else { k=rr%K; rr/=K; } } if(pe<0||pe>top||(t&&pe>pe0)){ bad=true; break; } u64 ea,eb; split_exp(f,pe,ea,eb); a[t]=pn(f,ea,pr[k].first); b[t]=pn(f,eb,pr[k].second); }
            if(!bad) dot_judge<E,F>(c,nm->c_str(),op,n,a,b); } });
}
// terms with every way to divide the product exponent between the factors, and every pair of raw exponents
template<int E,int F,class OP> void dot_exps(const std::string&tag,OP op,int n){
    Fmt f{E,F}; auto nm=std::make_shared<std::string>(fmt("%s<%d,%d>",tag.c_str(),E,F)); u64 X=(u64)1<<E;
    add_space(*nm+" every exponent of two factor pairs",X*X,[=](u64 i,Ctx&c){ u128 a[4],b[4]; for(u64 e0=0;e0<X;e0++) for(u64 e1=0;e1<X;e1++) for(int v=0;v<3;v++){ u64 M=(u64)ones(F); u64 q[4]={0,M,M/3,1}; for(int t=0;t<n;t++){ int w=(t+v)%4; u64 ea= t==0?i/X:t==1?e0:t==2?0:(i/X), eb= t==0?i%X:t==1?e1:t==2?e0:0; a[t]=pn(f,ea,q[w]); b[t]=pn(f,eb,q[3-w]); } dot_judge<E,F>(c,nm->c_str(),op,n,a,b); } });
}
// every tuple of positive normals
template<int E,int F,class OP> void dot_full(const std::string&tag,OP op,int n,int tier=0){
    Fmt f{E,F}; auto nm=std::make_shared<std::string>(fmt("%s<%d,%d>",tag.c_str(),E,F)); u64 X=(u64)1<<(E+F),pts=1,rest=1; for(int i=0;i<n;i++) pts*=X; for(int i=n;i<2*n;i++) rest*=X;
    add_space(*nm+" every operand tuple",pts,[=](u64 i,Ctx&c){ u128 a[4],b[4]; u64 q=i; for(int t=0;t<n;t++){ a[t]=pn(f,(q%X)>>F,q&ones(F)); q/=X; } for(u64 r=0;r<rest;r++){ u64 w=r; for(int t=0;t<n;t++){ b[t]=pn(f,(w%X)>>F,w&ones(F)); w/=X; } dot_judge<E,F>(c,nm->c_str(),op,n,a,b); } },tier);
}
// a bundled self-check, run to its end in a child process: it must find nothing to report
inline void selfcheck(const std::string&nm,void(*f)(),int secs,int tier=0){
    add_space(nm,1,[=](u64,Ctx&c){ c.st(); c.ev(); pid_t p=fork(); if(!p){ int d=open("/dev/null",O_RDWR); dup2(d,1); dup2(d,2); signal(SIGABRT,SIG_DFL); signal(SIGSEGV,SIG_DFL); alarm(secs); f(); _exit(0); }
        int st=0; waitpid(p,&st,0); if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM) c.fail(nm,"does not finish"); else if(st!=0) c.fail(nm,fmt("reports a difference (status %x)",st)); else { c.cover(1); c.sample(nm+": ran to its end, nothing to report"); } },tier);
}
} // sp
