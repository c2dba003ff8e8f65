// pure.hpp - every library call is a function of its operands: no history of other calls changes a result (P25)
//
// Explicit-state search over the storage a call can leave something behind in.  A state is the content of all static and
// thread-local storage of the program (the library is header-only, so all of its statics live there) together with the global settings
// of MPFR and of the floating-point unit.  From the state of a fresh process every call of an alphabet is made; each new content is a
// new state, from which every call is made again, until no call leads to a state not seen before.  In every state every call must
// return what it returns as the first call of a fresh process and must leave its operands alone.  When the search closes, the verdict
// covers call sequences of every length over the alphabet.
#pragma once
#include "pol.hpp"
#include "fma.hpp"
#include "thls/tops/fp_flopoco_ordering.hpp"
#include <cfenv>
#include <link.h>
#include <poll.h>
#include <sys/wait.h>
#include <xmmintrin.h>
extern char __data_start, _end;
namespace pure {
using namespace sp; using namespace mc; using namespace orc;
typedef std::vector<u64> Out;
struct Call { std::string key; std::function<void(Out&)> f; };
typedef std::vector<Call> Calls;
// ---- hidden state
struct Region { const char*p; size_t n; };
inline std::vector<Region> regions(){ std::vector<Region> r; r.push_back({&__data_start,(size_t)(&_end-&__data_start)});
    size_t tls=0; dl_iterate_phdr([](dl_phdr_info*i,size_t,void*d){ for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_TLS){ size_t a=i->dlpi_phdr[k].p_align?i->dlpi_phdr[k].p_align:1; *(size_t*)d=(i->dlpi_phdr[k].p_memsz+a-1)/a*a; } return 1; },&tls);
    if(tls) r.push_back({(const char*)__builtin_thread_pointer()-tls,tls}); return r; }
struct Hidden { std::vector<Region> R=regions(); std::string save; u64 env[6];
    static void ext(u64*e){ e[0]=(u64)mpfr_get_emin(); e[1]=(u64)mpfr_get_emax(); e[2]=(u64)mpfr_get_default_prec(); e[3]=(u64)mpfr_get_default_rounding_mode(); e[4]=(u64)fegetround(); e[5]=_mm_getcsr()&0xFFC0; }
    void take(){ save.clear(); for(auto&r:R) save.append(r.p,r.n); ext(env); }
    bool changed() const { size_t o=0; for(auto&r:R){ if(memcmp(save.data()+o,r.p,r.n)) return true; o+=r.n; } u64 e[6]; ext(e); return memcmp(e,env,sizeof e)!=0; }
    u64 hash() const { u64 h=0xcbf29ce484222325ull; auto eat=[&](const char*p,size_t n){ for(size_t i=0;i<n;i++){ h^=(unsigned char)p[i]; h*=0x100000001b3ull; h^=h>>29; } }; for(auto&r:R) eat(r.p,r.n); u64 e[6]; ext(e); eat((const char*)e,sizeof e); return h; } };
// run f in a child; returns what it wrote, and whether it ended by itself
template<class F> std::string child(Ctx&c,F f,bool*ok){ int p[2]; *ok=false; if(pipe(p)) return ""; pid_t pid=fork();
    if(!pid){ close(p[0]); for(int s:{SIGSEGV,SIGFPE,SIGILL,SIGABRT,SIGBUS,SIGTRAP}) signal(s,SIG_DFL); f(p[1]); _exit(0); }
    close(p[1]); std::string b; char t[4096]; ssize_t n; int idle=0; while(1){ pollfd pf={p[0],POLLIN,0}; int r=poll(&pf,1,1000); if(r==0){ c.slot->beat++; if(++idle>12){ kill(pid,SIGKILL); break; } continue; } n=read(p[0],t,sizeof t); if(n<=0) break; b.append(t,n); idle=0; } close(p[0]); int st; waitpid(pid,&st,0); *ok=WIFEXITED(st)&&WEXITSTATUS(st)==0; c.slot->beat++; return b; }
inline void put(int fd,const std::string&s){ size_t o=0; while(o<s.size()){ ssize_t n=write(fd,s.data()+o,s.size()-o); if(n<=0) _exit(9); o+=n; } }
inline u64 digest(const Out&o){ u64 h=o.size()*0x9E3779B97F4A7C15ull+1; for(u64 v:o){ h^=v; h*=0xff51afd7ed558ccdull; h^=h>>32; } return h; }
inline std::string outs(const Out&o){ std::string s; for(u64 v:o) s+=fmt("%llx ",(unsigned long long)v); return s; }
// a refusal (exception) is a result like any other
inline void make(const Call&k,Out&o){ try{ k.f(o); }catch(std::exception&e){ u64 h=77; for(const char*q=e.what();*q;q++) h=h*131+(unsigned char)*q; o.push_back(h); } }
// what each call returns as the first call of a fresh process (0: it does not return); one process makes calls for as long as
// its hidden state is that of a fresh process
inline std::shared_ptr<std::vector<u64>> firsts(Ctx&c,const Calls&K){ auto r=std::make_shared<std::vector<u64>>(K.size(),0); size_t k=0,forks=0;
    while(k<K.size()&&forks++<4200){ bool ok; size_t k0=k; std::string b=child(c,[&](int fd){ Out o; o.reserve(64); std::string buf; buf.reserve(8*K.size()+8); Hidden H; H.take(); for(size_t i=k0;i<K.size();i++){ o.clear(); make(K[i],o); u64 d=digest(o); bool ch=H.changed(); buf.append((char*)&d,8); if(ch||buf.size()>=4096){ put(fd,buf); buf.clear(); if(ch) return; } } put(fd,buf); },&ok);
        for(size_t o=0;o+8<=b.size()&&k<K.size();o+=8) memcpy(&(*r)[k++],b.data()+o,8);
        if(!ok){ // the next call did not return: find it alone
            bool ok2; std::string b2=child(c,[&](int fd){ Out o; make(K[k],o); u64 d=digest(o); put(fd,std::string((char*)&d,8)); },&ok2); if(ok2&&b2.size()==8) memcpy(&(*r)[k],b2.data(),8); k++; } }
    c.ev(k); if(k<K.size()) c.capped(fmt("calls change hidden state: only %zu of %zu calls are used",k,K.size())); return r; }
// all call sequences that start with `first`
inline void search(Ctx&c,const std::string&nm,const Calls&K,const std::vector<u64>&want,size_t first,size_t maxstates,size_t maxforks){
    auto name=[&](const std::vector<unsigned>&s){ std::string r; for(unsigned k:s) r+=(r.empty()?"":" ; ")+K[k].key; return r; };
    if(!want[first]) return; // does not return even alone: judged by the property of the operation
    std::set<u64> seen; std::vector<std::vector<unsigned>> queue; queue.push_back({(unsigned)first}); size_t forks=0;
    struct Rec { u64 kind,k,v; }; // 0 call k differs with digest v, 1 call k leads to state v, 2 all calls done, 3 state after the prefix
    for(size_t q=0;q<queue.size()&&q<maxstates&&forks<maxforks;q++){ std::vector<unsigned> seq=queue[q]; size_t k=0; bool dead=false;
        while(k<K.size()&&!dead&&forks<maxforks){ bool ok; forks++; size_t k0=k; std::vector<char> skip(K.size()); for(size_t i=0;i<K.size();i++) skip[i]=!want[i];
            std::string b=child(c,[&](int fd){ Out o; o.reserve(64); Hidden H; for(unsigned s:seq){ o.clear(); make(K[s],o); } H.take();
                { Rec r{3,0,H.hash()}; put(fd,std::string((char*)&r,sizeof r)); }
                for(size_t i=k0;i<K.size();i++){ if(skip[i]) continue; o.clear(); { Rec r{4,i,0}; if(i==k0||!(i&63)) put(fd,std::string((char*)&r,sizeof r)); } make(K[i],o); u64 d=digest(o); if(d!=want[i]){ Rec r{0,i,d}; put(fd,std::string((char*)&r,sizeof r)); } if(H.changed()){ Rec r{1,i,H.hash()}; put(fd,std::string((char*)&r,sizeof r)); return; } }
                Rec r{2,0,0}; put(fd,std::string((char*)&r,sizeof r)); },&ok);
            size_t reached=k0; bool finished=false,moved=false;
            for(size_t o=0;o+sizeof(Rec)<=b.size();o+=sizeof(Rec)){ Rec r; memcpy(&r,b.data()+o,sizeof r);
                if(r.kind==3){ if(k0==0&&q==0) seen.insert(r.v); }
                else if(r.kind==4) reached=r.k;
                else if(r.kind==0){ auto s=seq; s.push_back((unsigned)r.k); c.fail(nm+":"+name(s),fmt("the last call of the sequence returns something else than it does alone (digest %llx, alone %llx)",(unsigned long long)r.v,(unsigned long long)want[r.k])); return; }
                else if(r.kind==1){ moved=true; k=r.k+1; if(seen.insert(r.v).second){ auto s=seq; s.push_back((unsigned)r.k); queue.push_back(s); } }
                else if(r.kind==2) finished=true; }
            c.ev((moved?k:K.size())-k0); c.st();
            if(finished) k=K.size();
            else if(!moved){ c.fail(nm+":"+name(seq)+fmt(" ; %s..",K[reached].key.c_str()),"a call that returns alone does not return after this sequence"); dead=true; } } }
    c.cover((unsigned)(first*7+seen.size()));
    if(queue.size()>maxstates||forks>=maxforks) c.capped(fmt("more than %zu hidden states or %zu processes",maxstates,maxforks));
    c.sample(nm+fmt(": %zu hidden states over %zu calls, first call %s",seen.size(),K.size(),K[first].key.c_str())); }
// one point per first call (per `per` of them)
// the alphabet in an order that mixes it, so that a search that has to be cut short has seen all of its regions
inline Calls mixed(const Calls&K){ size_t n=K.size(),st=(size_t)(n*0.6180339887)|1; auto g=[](size_t a,size_t b){ while(b){ size_t t=a%b; a=b; b=t; } return a; }; while(n>1&&g(st,n)!=1) st++; Calls r; for(size_t i=0;i<n;i++) r.push_back(K[(i*st)%n]); return r; }
template<class Gen> void space(const std::string&nm,Gen gen,size_t maxstates=200,size_t maxforks=20000,size_t firstcalls=1u<<30){
    // the alphabet is built here for its size only: every worker builds its own, so that processes stay small
    size_t size; { Calls K; gen(K); size=K.size(); }
    struct Here { Calls K; std::shared_ptr<std::vector<u64>> want; }; auto H=std::make_shared<std::shared_ptr<Here>>(); u64 n=std::min<u64>(size,firstcalls);
    // the alphabet is cut into first calls spread evenly over it
    add_space(nm+fmt(" (%zu calls)",size),n,[=](u64 i,Ctx&c){ if(!*H){ *H=std::make_shared<Here>(); Calls K; gen(K); (*H)->K=K.size()>2000?mixed(K):K; (*H)->want=firsts(c,(*H)->K); } search(c,nm,(*H)->K,*(*H)->want,(size_t)(i*size/n),maxstates,maxforks); }); }
// ---- turning results into words
inline void w(Out&o,u128 v){ o.push_back((u64)v); o.push_back((u64)(v>>64)); }
template<int E,int F> void w(Out&o,const thls::fp_flopoco<E,F>&x){ w(o,rawfp(x)); }
template<int E,int F> void w(Out&o,const thls::fp_ieee<E,F>&x){ w(o,rawi(x)); }
template<int W> void w(Out&o,const thls::fw_uint<W>&x){ w(o,(u128)x.bits); }
inline void w(Out&o,bool b){ o.push_back(b); } inline void w(Out&o,int b){ o.push_back((u64)b); } inline void w(Out&o,u64 b){ o.push_back(b); }
inline void w(Out&o,double d){ u64 u; memcpy(&u,&d,8); o.push_back(u); } inline void w(Out&o,float d){ uint32_t u; memcpy(&u,&d,4); o.push_back(u); }
inline void w(Out&o,const std::string&s){ u64 h=1; for(char ch:s) h=h*131+(unsigned char)ch; o.push_back(h); o.push_back(s.size()); }
inline void w(Out&o,mpfr_t m){ o.push_back((u64)mpfr_get_prec(m)); if(mpfr_nan_p(m)){ o.push_back(7); return; } if(mpfr_inf_p(m)){ o.push_back(8+(mpfr_signbit(m)!=0)); return; } if(mpfr_zero_p(m)){ o.push_back(10+(mpfr_signbit(m)!=0)); return; } mpfr_exp_t e; mpz_t z; mpz_init(z); e=mpfr_get_z_2exp(z,m); o.push_back((u64)e); w(o,(int)mpz_sgn(z)); for(size_t i=0;i<mpz_size(z);i++) o.push_back(mpz_getlimbn(z,i)); mpz_clear(z); }
// operands of a format: level 0 a handful, 1 a boundary alphabet, 2 everything
inline std::vector<u128> codes(Fmt f,int lvl){ std::vector<u128> r; if(lvl>=2) return all_operands(f,true);
    u128 b=f.bias(), q=ones(f.F), m=ones(f.E); r={mk_zero(f,0),code(f,NORM,0,b,0),code(f,NORM,1,b,q),code(f,NORM,0,b+1,q/3),mk_inf(f,1),mk_nan(f)};
    if(lvl==1) for(u128 x:{mk_zero(f,1),mk_inf(f,0),code(f,NORM,0,0,0),code(f,NORM,1,0,q),code(f,NORM,0,m,q),code(f,NORM,1,m,0),code(f,NORM,0,b-1,q),code(f,NORM,1,b,q/3),code(f,NORM,0,b,q/5),code(f,NORM,0,b+1,q-q/5),code(f,ZERO,1,m,q),code(f,NAN_,1,m,q)}) r.push_back(x);
    return r; }
template<int E,int F,class G> void one(Calls&K,const std::string&nm,int lvl,G g){ Fmt f{E,F}; for(u128 x:codes(f,lvl)) K.push_back({nm+fmt("<%d,%d>(%s)",E,F,hex(x).c_str()),[=](Out&o){ auto a=mkfp<E,F>(x); g(o,a); w(o,a); }}); }
template<int E,int F,class G> void two(Calls&K,const std::string&nm,int lvl,G g){ Fmt f{E,F}; auto v=codes(f,lvl); for(u128 x:v) for(u128 y:v) K.push_back({nm+fmt("<%d,%d>(%s,%s)",E,F,hex(x).c_str(),hex(y).c_str()),[=](Out&o){ auto a=mkfp<E,F>(x),b=mkfp<E,F>(y); g(o,a,b); w(o,a); w(o,b); }}); }
template<int E,int F,class G> void pos(Calls&K,const std::string&nm,int n,G g){ Fmt f{E,F}; u128 b=f.bias(),q=ones(f.F),m=ones(f.E); std::vector<u128> v={code(f,NORM,0,b,0),code(f,NORM,0,b,q),code(f,NORM,0,b-1,q/3),code(f,NORM,0,0,q),code(f,NORM,0,m,0)}; for(size_t i=0;i<v.size();i++) for(size_t j=0;j<v.size();j++) K.push_back({nm+fmt("<%d,%d>(%s,%s..)",E,F,hex(v[i]).c_str(),hex(v[j]).c_str()),[=](Out&o){ thls::fp_flopoco<E,F> a[8]; for(int k=0;k<2*n;k++) a[k]=mkfp<E,F>(v[(i*(k+1)+j*(k&1?1:2)+k/3)%v.size()]); g(o,a); for(int k=0;k<2*n;k++) w(o,a[k]); }}); }
#define CALL [](Out&o,auto&...a)
// ---- the alphabets
template<int E,int F> void basic(Calls&K,int l){
    two<E,F>(K,"add",l,[](Out&o,auto&a,auto&b){ w(o,thls::add<E,F>(a,b)); });
    two<E,F>(K,"mul",l,[](Out&o,auto&a,auto&b){ w(o,thls::mul<E,F>(a,b)); w(o,thls::mul<E,2*F+2>(a,b)); });
    two<E,F>(K,"div",l,[](Out&o,auto&a,auto&b){ w(o,thls::div<E,F>(a,b)); });
    two<E,F>(K,"order",l,[](Out&o,auto&a,auto&b){ w(o,thls::less_than(a,b)); w(o,thls::less_than_equal(a,b)); w(o,thls::greater_than(a,b)); w(o,thls::equal(a,b)); w(o,a.equals(b)); });
    one<E,F>(K,"inv",l,[](Out&o,auto&a){ w(o,thls::inv<E,F>(a)); });
    one<E,F>(K,"neg",l,[](Out&o,auto&a){ w(o,thls::neg<E,F>(a)); });
    one<E,F>(K,"convert",l,[](Out&o,auto&a){ w(o,thls::convert<E+1,F+2>(a)); w(o,thls::convert<E-1,F-1>(a)); });
    one<E,F>(K,"step",l,[](Out&o,auto&a){ w(o,nextup(a)); w(o,nextdown(a)); });
    one<E,F>(K,"text",l,[](Out&o,auto&a){ w(o,a.str()); });
    one<E,F>(K,"mpfr",l,[](Out&o,auto&a){ mpfr_t m; mpfr_init2(m,F+1); a.get(m); w(o,m); w(o,thls::fp_flopoco<E,F>(m)); mpfr_clear(m); }); }
template<int E,int F> void refs(Calls&K,int l){ int h=l<1?1:l;
    two<E,F>(K,"ref_add",l,[](Out&o,auto&a,auto&b){ w(o,thls::ref_add<E,F>(a,b)); });
    two<E,F>(K,"ref_mul",l,[](Out&o,auto&a,auto&b){ w(o,thls::ref_mul<E,F>(a,b)); });
    two<E,F>(K,"ref_div",l,[](Out&o,auto&a,auto&b){ w(o,thls::ref_div<E,F>(a,b)); });
    if(E<=5) two<E,F>(K,"ref_pow",l,[](Out&o,auto&a,auto&b){ w(o,thls::ref_pow<E,F>(a,b)); });
    two<E,F>(K,"ref_fma",l,[](Out&o,auto&a,auto&b){ w(o,thls::ref_fma<E,F>(a,b,a)); w(o,thls::ref_fma<E,F>(b,b,a)); });
    if(E<=8) one<E,F>(K,"ref_exp",h,[](Out&o,auto&a){ w(o,thls::ref_exp<E,F>(a)); });
    one<E,F>(K,"ref_log",h,[](Out&o,auto&a){ w(o,thls::ref_log<E,F>(a)); });
    one<E,F>(K,"ref_sqrt",h,[](Out&o,auto&a){ w(o,thls::ref_sqrt<E,F>(a)); });
    one<E,F>(K,"ref_square",h,[](Out&o,auto&a){ w(o,thls::ref_square<E,F>(a)); });
    one<E,F>(K,"ref_inv",h,[](Out&o,auto&a){ w(o,thls::ref_inv<E,F>(a)); thls::fp_flopoco<E,F> lo,hi; thls::ref_inv_faithful(lo,hi,a); w(o,lo); w(o,hi); });
    one<E,F>(K,"ref one",h,[](Out&o,auto&a){ w(o,thls::ref_neg<E,F>(a)); w(o,thls::ref_convert<E,F-1>(a)); w(o,thls::ref_ldexp_const<E,F,3>(a)); w(o,a.to_double_approx()); }); }
// one reference operation at a time, over more codes
template<int E,int F> void refpow(Calls&K,int l){ two<E,F>(K,"ref_pow",l,[](Out&o,auto&a,auto&b){ w(o,thls::ref_pow<E,F>(a,b)); }); }
template<int E,int F> void ref2(Calls&K,int l){ two<E,F>(K,"ref",l,[](Out&o,auto&a,auto&b){ w(o,thls::ref_add<E,F>(a,b)); w(o,thls::ref_mul<E,F>(a,b)); w(o,thls::ref_div<E,F>(a,b)); w(o,thls::ref_fma<E,F>(a,b,b)); }); }
template<class P> void policy(Calls&K,int n,const char*tag=""){ typedef pol::Tr<P> T; auto all=T::codes(0); std::vector<u128> v; for(int i=0;i<n;i++) v.push_back(all[(size_t)i*(all.size()-1)/(n-1)]);
    for(u128 x:v) for(u128 y:v) K.push_back({std::string(T::name())+tag+fmt(" %s,%s",hex(x).c_str(),hex(y).c_str()),[=](Out&o){ auto a=T::mk(x),b=T::mk(y); w(o,T::rd(a+b)); w(o,T::rd(a*b)); w(o,T::rd(a/b)); w(o,a<b); w(o,a==b); w(o,a>=b); w(o,T::rd(a)); w(o,T::rd(b));
        Mp m(T::m().p),d(T::m().p); P::to_mpfr(m.v,a); w(o,m.v); P::ref_add(d.v,m.v,m.v); w(o,d.v); P::ref_div(d.v,m.v,m.v); w(o,d.v); try{ w(o,T::rd(P::from_mpfr(m.v,true))); }catch(std::exception&e){ w(o,std::string(e.what())); } }}); }
template<int E,int F> void ieee(Calls&K){ Fmt f{E,F}; auto v=icodes(f,0,0); size_t st=std::max<size_t>(1,v.size()/9); for(size_t i=0;i<v.size();i+=st){ u128 x=v[i]; K.push_back({fmt("ieee<%d,%d>(%s)",E,F,hex(x).c_str()),[=](Out&o){ auto a=mki<E,F>(x); thls::fp_flopoco<E,F> y; thls::fp_ieee<E,F> z; thls::promote(y,a); thls::convert(z,y); w(o,y); w(o,z); w(o,a); }}); } }
#ifdef PURE_HEAP
template<int W> void ints(Calls&K,int lvl){ using namespace fwu; u128 M=mask(W); std::vector<u128> v={0,1,M,M/3,M-M/5,(u128)1<<(W-1)}; if(lvl) for(u128 x:{(u128)2,M-1,M/7,M/2}) v.push_back(x&M);
    for(u128 x:v) for(u128 y:v) K.push_back({fmt("fw_uint<%d>(%s,%s)",W,hex(x).c_str(),hex(y).c_str()),[=](Out&o){ auto a=mk<W>(x),b=mk<W>(y); w(o,a+b); w(o,a-b); w(o,(a&b)); w(o,(a|b)); w(o,(a^b)); w(o,~a); w(o,a<b); w(o,a==b); w(o,a*b); w(o,thls::concat(a,b)); w(o,thls::select(a==b,a,b)); w(o,a<<3); w(o,a>>2); w(o,thls::get_bits<W-1,W/2>(a)); w(o,a); w(o,b); mpz_t z; mpz_init(z); a.to_mpz_t(z); w(o,(u64)mpz_get_ui(z)); mpz_clear(z); }}); }
template<int W> void heaps(Calls&K){ using namespace fwu; u128 M=mask(W); for(u128 x:{(u128)1,M,M/3,M-M/5}) for(u128 y:{(u128)1,M,M/7}) K.push_back({fmt("heaps<%d>(%s,%s)",W,hex(x).c_str(),hex(y).c_str()),[=](Out&o){ auto a=mk<W>(x),b=mk<W>(y); auto h=thls::bit_heap_mul<W/2+1>(a,b); auto g=thls::merge_bit_heaps(h,thls::fw_uint_to_bit_heap(a)); w(o,thls::bit_heap_collapse(thls::compress(g))); w(o,thls::bit_heap_collapse(thls::compress(h))); mpz_t z; mpz_init(z); thls::bit_heap_to_mpz(z,g); w(o,(u64)mpz_get_ui(z)); mpz_clear(z); }}); }
#endif
// several alphabets in one space: what one operation leaves behind is seen by all others
} // pure
