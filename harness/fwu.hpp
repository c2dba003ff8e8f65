// fwu.hpp - fixed-width unsigned integers against integers modulo 2^width (P16)
#pragma once
#include "ops.hpp"
#include <gmp.h>
#include <utility>
namespace fwu {
using namespace sp; using thls::fw_uint;
inline u128 mask(int w){ return w<=0?0:w>=128?~(u128)0:(((u128)1<<w)-1); }
template<int W> fw_uint<W> mk(u128 v){ return fw_uint<W>::from_bits((typename fw_uint<W>::bits_t)v); }
template<int W> u128 rd(const fw_uint<W>&x){ return (u128)x.bits; }
// one labelled result and its expected value; the label survives a crash
struct Seq { const char*cur=""; bool bad=false; std::string what; u64 n=0;
    void operator()(const char*l,u128 got,u128 want){ n++; if(got!=want&&!bad){ bad=true; what=fmt("%s expected %s got %s",l,hex(want).c_str(),hex(got).c_str()); } } };
#define Q(label,expr,want) { q.cur=label; auto r_=(expr); q(label,rdv(r_),(u128)(want)); }
template<int W> u128 rdv(const fw_uint<W>&x){ return (u128)x.bits; }
inline u128 rdv(bool b){ return b; } inline u128 rdv(int b){ return (u128)(unsigned)b; } inline u128 rdv(u64 b){ return b; } inline u128 rdv(u128 b){ return b; } inline u128 rdv(uint32_t b){ return b; }
template<class F> void run(Ctx&c,const std::string&key,F f){ Seq q; bool ok=guarded([&]{ f(q); }); c.ev(q.n?q.n:1); if(ok&&!q.bad) return; c.fail(key,ok?q.what:fmt("%s: %s",q.cur,g_why)); }
// values worth visiting at width w: everything when small, otherwise edges of every bit position
inline std::vector<u128> vals(int w,int lvl){ std::set<u128> s; u128 M=mask(w);
    if(w<=6||(lvl>1&&w<=9)){ for(u128 v=0;v<=M;v++) s.insert(v); return std::vector<u128>(s.begin(),s.end()); }
    int st= lvl>0?1: w>70?9: w>34?5:2; std::set<int> ks; for(int k=0;k<w;k+=st) ks.insert(k); for(int k:{7,8,15,16,30,31,32,33,62,63,64,65,w-2,w-1}) if(k>=0&&k<w) ks.insert(k);
    for(int k:ks){ u128 b=(u128)1<<k; for(u128 v:{b,b-1,b+1,M^b,M^(b-1),M-b}) s.insert(v&M); }
    u128 p=((u128)0x243F6A8885A308D3ull<<64)|0x13198A2E03707344ull; for(u128 v:{(u128)0,(u128)1,(u128)2,(u128)3,M,M-1,p,p>>3,~p,p>>(128-w),((u128)0xAAAAAAAAAAAAAAAAull<<64)|0xAAAAAAAAAAAAAAAAull,((u128)0x5555555555555555ull<<64)|0x5555555555555555ull,(u128)0xFFFFFFFFull,(u128)0xFFFFFFFFull<<32,(u128)0x7FFFFFFF,(u128)0x80000000ull,(u128)~0ull}) s.insert(v&M);
    return std::vector<u128>(s.begin(),s.end()); }
static const int INTS[]={0,1,2,3,5,7,8,15,16,31,63,127,128,255,256,1023,65535,65536,1<<20,(1<<30)-1,1<<30,0x7FFFFFFE,0x7FFFFFFF};
template<int W> void pair_space(int lvl){
    auto v=std::make_shared<std::vector<u128>>(vals(W,lvl)); std::string nm=fmt("fw_uint<%d> pairs",W);
    add_space(nm,v->size(),[=](u64 i,Ctx&c){ u128 x=(*v)[i],M=mask(W); const u128 S=(u128)1<<127; (void)S;
        for(u128 y:*v){ c.st(); run(c,nm+":"+hex(x)+","+hex(y),[&](Seq&q){ auto a=mk<W>(x),b=mk<W>(y);
            Q("+",a+b,(x+y)&M) Q("-",a-b,(x-y)&M) Q("&",a&b,x&y) Q("|",a|b,x|y) Q("^",a^b,x^y) Q("<",a<b,x<y) Q("<=",a<=b,x<=y) Q(">",a>b,x>y) Q(">=",a>=b,x>=y) Q("==",a==b,x==y) Q("!=",a!=b,x!=y)
            for(int z=0;z<2;z++){ fw_uint<1> k(z); Q("add_with_cin",thls::add_with_cin(a,b,k),(x+y+z)&M) Q("add_sub",thls::add_sub(k,a,b),(z?x-y:x+y)&M) Q("select",thls::select(k,a,b),z?x:y) }
            Q("unchanged lhs",a,x) Q("unchanged rhs",b,y) fw_uint<W> t; t=a; Q("assign",t,x) fw_uint<W> u(b); Q("copy",u,y) Q("checked_cast",thls::checked_cast<W>(a),x) }); }
        c.cover((unsigned)(x%251)); if(i==v->size()/2) c.sample(nm+" x="+hex(x)+fmt(" against %zu values, 20 operations each",v->size())); });
}
template<int W> void one_space(int lvl){
    auto v=std::make_shared<std::vector<u128>>(vals(W,lvl)); std::string nm=fmt("fw_uint<%d> single",W);
    add_space(nm,v->size(),[=](u64 i,Ctx&c){ u128 x=(*v)[i],M=mask(W); c.st();
        auto K=[&](const std::string&k){ return nm+":"+hex(x)+" "+k; };
        run(c,K("value"),[&](Seq&q){ auto a=mk<W>(x); Q("from_bits",a,x) Q("~",~a,~x&M) Q("default",fw_uint<W>(),0) Q("zg",thls::zg<W>(),0) Q("og",thls::og<W>(),M) if(W==1){ Q("zg1",thls::zg1,0) Q("zg2",thls::zg2,0) Q("zg3",thls::zg3,0) Q("zg4",thls::zg4,0) Q("og1",thls::og1,1) Q("og2",thls::og2,3) Q("og3",thls::og3,7) Q("og4",thls::og4,15) } for(int z=0;z<2;z++){ Q("add_cin",thls::add_cin(a,fw_uint<1>(z)),(x+z)&M) Q("copybit",thls::copybit<W>(fw_uint<1>(z)),z?M:0) }
            Q("take_lsb",thls::take_lsb(a),x&1) Q("take_msb",thls::take_msb(a),(x>>(W-1))&1) if(W==1) Q("to_bool",a.to_bool(),x) if(W<=32) Q("to_uint32",a.to_uint32(),x) if(x<=~(u64)0) Q("to_uint64",a.to_uint64(),x) if(x<=0x7FFFFFFF) Q("to_int",a.to_int(),x)
            if(W<=64||x<=~(u64)0) Q("from_uint64",fw_uint<W>::from_uint64((u64)x),x) if(x<=0x7FFFFFFF) Q("from int",fw_uint<W>((int)x),x) if(x<=0x7FFFFFFF) Q("cg",thls::cg<W>((int)x),x) });
        for(int k=0;k<W;k++) run(c,K(fmt("shift %d",k)),[&](Seq&q){ auto a=mk<W>(x); Q("<<",a<<k,(x<<k)&M) Q(">>",a>>k,x>>k) });
        for(int b:INTS) run(c,K(fmt("int %d",b)),[&](Seq&q){ auto a=mk<W>(x); u128 B=(u128)b; Q("+int",a+b,(x+B)&M) Q("-int",a-b,(x-B)&M) if((B&~M)==0){ Q("+ -int",a+(-b),(x-B)&M) Q("- -int",a-(-b),(x+B)&M) } Q("&int",a&b,x&B) Q("^int",a^b,(x^B)&M) if(B<=M) Q("|int",a|b,x|B)
            if(B<=M||W>=31){ Q("<int",a<b,x<B) Q("<=int",a<=b,x<=B) Q(">int",a>b,x>B) Q(">=int",a>=b,x>=B) Q("==int",a==b,x==B) Q("!=int",a!=b,x!=B) } });
        run(c,K("text and big integers"),[&](Seq&q){ auto a=mk<W>(x); q.cur="to_string"; std::string s=a.to_string(),w="0b"; for(int k=W-1;k>=0;k--){ w+=((x>>k)&1)?'1':'0'; if(k&&k%8==0) w+='_'; } q("to_string",s==w,1); if constexpr(W<=64){ Q("from text",fw_uint<W>(s.c_str()),x) }
            std::ostringstream o; o<<a; q("ostream",o.str()==w,1);
            q.cur="mpz"; mpz_t m; mpz_init(m); a.to_mpz_t(m); u128 back=0; for(int k=127;k>=0;k--) back=back*2+mpz_tstbit(m,k); q("to_mpz_t",mpz_sgn(m)>=0&&mpz_sizeinbase(m,2)<=128?back:~x,x); if(W<=64){ u64 lo=(u64)x; mpz_set_ui(m,lo); } else { mpz_set_ui(m,(u64)(x>>64)); mpz_mul_2exp(m,m,64); mpz_add_ui(m,m,(u64)x); } Q("from mpz",fw_uint<W>(m),x) mpz_clear(m);
            if constexpr(W<=64){ Q("from decimal",fw_uint<W>(std::to_string((u64)x).c_str()),x) }
            q.cur="to_double_approx"; double d=thls::to_double_approx(a); long double e=(long double)(u64)(x>>64)*18446744073709551616.0L+(long double)(u64)x; long double err=fabsl((long double)d-e); q("to_double_approx",W<=52? err==0 : err<=e*1e-15L,1); });
        // construction outside the range is refused
        if(i==0&&W<31) for(int b:{(int)mask(W)+1,(int)mask(W)+2,0x7FFFFFFF,-1,-2147483647}) { u128 got=0; c.ev(); if(guarded([&]{ fw_uint<W> t(b); got=rd(t); })) c.fail(K(fmt("out of range %d",b)),"accepted as "+hex(got)); }
        if(i==0&&W<64) for(u64 b:{(u64)mask(W)+1,~(u64)0,(u64)1<<63}) { u128 got=0; c.ev(); if(b>mask(W)&&guarded([&]{ auto t=fw_uint<W>::from_uint64(b); got=rd(t); })) c.fail(K(fmt("out of range %llu",(unsigned long long)b)),"accepted as "+hex(got)); }
        if(i==0&&W<127){ mpz_t m; mpz_init(m); mpz_setbit(m,W); c.ev(); if(guarded([&]{ fw_uint<W> t(m); })) c.fail(K("mpz out of range"),"accepted"); mpz_clear(m); }
        if(x>0x7FFFFFFF){ int g=0; c.ev(); if(guarded([&]{ g=mk<W>(x).to_int(); })) c.fail(K("to_int"),fmt("does not fit but gave %d",g)); }
        if(x>~(u64)0){ u64 g=0; c.ev(); if(guarded([&]{ g=mk<W>(x).to_uint64(); })) c.fail(K("to_uint64"),fmt("does not fit but gave %llu",(unsigned long long)g)); }
        c.cover((unsigned)(x%251)); });
}
// every text over a small alphabet: exactly W binary digits give their value, anything else is refused (separators may stand between digits)
template<int W> void texts(int extra){ std::string nm=fmt("fw_uint<%d> binary texts",W); static const char AB[]={'0','1','_','2','x',' ','-'}; const int A=7; int L=W+extra; u64 n=0,p=1; for(int l=0;l<=L;l++){ n+=p; p*=A; }
    add_space(nm,(n+255)/256,[=](u64 blk,Ctx&c){ for(u64 i=blk*256;i<std::min(n,blk*256+256);i++){ u64 j=i,q=1; int l=0; while(j>=q){ j-=q; q*=A; l++; } std::string t; for(int k=0;k<l;k++){ t+=AB[j%A]; j/=A; }
            int d=0; u128 x=0; bool bad=false; for(char ch:t){ if(ch=='0'||ch=='1'){ d++; x=x*2+(ch-'0'); } else if(ch!='_') bad=true; } bool good=!bad&&d==W; bool trail=good&&!t.empty()&&t.back()=='_'; if(trail||(good&&W==0&&l>0)) { c.st(); continue; } // unspecified: a separator after the last digit
            std::string txt="0b"+t; u128 got=0; bool refused=false; c.ev(); c.st(); bool ok=guarded([&]{ try{ fw_uint<W> a(txt.c_str()); got=rd(a); }catch(std::runtime_error&){ refused=true; } }); if(!ok) refused=true;
            if(good?refused||got!=x:!refused) c.fail(nm+":\""+txt+"\"",good?(refused?"refused":"gave "+hex(got)):"accepted as "+hex(got)); else c.cover((unsigned)(good?(int)(x%64):64+d)); }
        if(blk==0) c.sample(nm+fmt(": %llu texts",(unsigned long long)n)); }); }
// slices
template<int W,int HI,int LO> void slice1(Seq&q,u128 x){ q.cur="get_bits"; auto r=thls::get_bits<HI,LO>(mk<W>(x)); u128 w=(x>>LO)&mask(HI-LO+1); if(rd(r)!=w||r.width!=HI-LO+1){ q.cur=""; q(fmt("get_bits<%d,%d>",HI,LO).c_str(),rd(r),w); } else q.n++; }
template<int W,int HI,int...LO> void slice2(Seq&q,u128 x,std::integer_sequence<int,LO...>){ (slice1<W,HI,LO>(q,x),...); }
template<int W,int...HI> void slice3(Seq&q,u128 x,std::integer_sequence<int,HI...>){ (slice2<W,HI>(q,x,std::make_integer_sequence<int,HI+1>()),...); }
template<int W,int...HI> void slice_sparse(Seq&q,u128 x,std::integer_sequence<int,HI...>){ // LO from the limb edges
    auto lo=[&](auto h){ constexpr int H=decltype(h)::value; auto one=[&](auto l){ constexpr int L=decltype(l)::value; if constexpr(L>=0&&L<=H) slice1<W,H,L>(q,x); };
        one(std::integral_constant<int,0>()); one(std::integral_constant<int,1>()); one(std::integral_constant<int,30>()); one(std::integral_constant<int,31>()); one(std::integral_constant<int,32>()); one(std::integral_constant<int,33>()); one(std::integral_constant<int,63>()); one(std::integral_constant<int,64>()); one(std::integral_constant<int,65>()); one(std::integral_constant<int,H>()); one(std::integral_constant<int,H-1>()); one(std::integral_constant<int,H-31>()); one(std::integral_constant<int,H-32>()); one(std::integral_constant<int,H-63>()); one(std::integral_constant<int,H-64>()); };
    (lo(std::integral_constant<int,HI>()),...); }
template<int W,int B> void ends1(Seq&q,u128 x){ auto a=mk<W>(x); u128 M=mask(W);
    Q("take_lsbs",thls::take_lsbs<B>(a),x&mask(B)) Q("take_msbs",thls::take_msbs<B>(a),B==0?0:(x>>(W-B))&mask(B)) Q("resize down",thls::resize<B>(a),x&mask(B))
    if constexpr(B<W){ Q("drop_lsbs",thls::drop_lsbs<B>(a),x>>B) Q("drop_msbs",thls::drop_msbs<B>(a),x&mask(W-B)) Q("get_bit",thls::get_bit<B>(a),(x>>B)&1) }
    if constexpr(B>0&&B<W){ auto hi=thls::take_msbs<B>(a); auto lo=thls::drop_msbs<B>(a); Q("take and drop rejoined",thls::concat(hi,lo),x) } (void)M; }
template<int W,int...B> void ends(Seq&q,u128 x,std::integer_sequence<int,B...>){ (ends1<W,B>(q,x),...); }
template<int W,int P> void pads1(Seq&q,u128 x){ if constexpr(W+P<=128){ auto a=mk<W>(x); Q("zpad_hi",thls::zpad_hi<P>(a),x) Q("opad_hi",thls::opad_hi<P>(a),x|(mask(P)<<(W<128?W:0))) Q("zpad_lo",thls::zpad_lo<P>(a),x<<P) Q("opad_lo",thls::opad_lo<P>(a),(x<<P)|mask(P)) Q("extu",thls::extu<W+P>(a),x) Q("resize up",thls::resize<W+P>(a),x) } }
template<int W,int...P> void pads(Seq&q,u128 x,std::integer_sequence<int,P...>){ (pads1<W,P>(q,x),...); }
template<int W> void slice_space(int lvl){
    auto v=std::make_shared<std::vector<u128>>(vals(W,lvl)); std::string nm=fmt("fw_uint<%d> slices",W);
    add_space(nm,v->size(),[=](u64 i,Ctx&c){ u128 x=(*v)[i]; c.st(); run(c,nm+":"+hex(x),[&](Seq&q){
        if constexpr(W<=12) slice3<W>(q,x,std::make_integer_sequence<int,W>()); else slice_sparse<W>(q,x,std::make_integer_sequence<int,W>());
        ends<W>(q,x,std::make_integer_sequence<int,W+1>());
        pads<W>(q,x,std::integer_sequence<int,0,1,2,3,5,8,16,31,32,33,63,64,65>());
        if constexpr(W>1){ auto a=mk<W>(x); Q("drop_lsb",thls::drop_lsb(a),x>>1) Q("drop_msb",thls::drop_msb(a),x&mask(W-1)) }
        if constexpr(2*W<=128){ auto a=mk<W>(x); Q("square",thls::square(a),x*x) } }); c.cover((unsigned)(x%251)); });
}
template<int W,int O> void mul_space(int lvl){
    auto v=std::make_shared<std::vector<u128>>(vals(W,lvl)); auto u=std::make_shared<std::vector<u128>>(vals(O,lvl)); std::string nm=fmt("fw_uint<%d> with fw_uint<%d>",W,O);
    add_space(nm,v->size(),[=](u64 i,Ctx&c){ u128 x=(*v)[i]; for(u128 y:*u){ c.st(); run(c,nm+":"+hex(x)+","+hex(y),[&](Seq&q){ auto a=mk<W>(x); auto b=mk<O>(y);
        Q("*",a*b,x*y) Q("full_mul",thls::full_mul(a,b),x*y) Q("concat",thls::concat(a,b),(x<<O)|y) static_assert(decltype(a*b)::width==W+O&&decltype(thls::concat(a,b))::width==W+O,"result widths"); }); } c.cover((unsigned)(x%251)); });
}
template<int A,int B,int C,int D> void cat_space(){
    std::string nm=fmt("concat of widths %d,%d,%d,%d",A,B,C,D); auto va=std::make_shared<std::vector<u128>>(vals(A,0)),vb=std::make_shared<std::vector<u128>>(vals(B,0)),vc=std::make_shared<std::vector<u128>>(vals(C,0)),vd=std::make_shared<std::vector<u128>>(vals(D,0));
    add_space(nm,va->size(),[=](u64 i,Ctx&c){ u128 w=(*va)[i]; size_t sb=1+vb->size()/9,sc=1+vc->size()/9,sd=1+vd->size()/9; for(size_t j=0;j<vb->size();j+=sb) for(size_t k=0;k<vc->size();k+=sc) for(size_t l=0;l<vd->size();l+=sd){ u128 x=(*vb)[j],y=(*vc)[k],z=(*vd)[l]; c.st(); run(c,nm+":"+hex(w)+","+hex(x)+","+hex(y)+","+hex(z),[&](Seq&q){
        auto a=mk<A>(w); auto b=mk<B>(x); auto d=mk<C>(y); auto e=mk<D>(z); u128 r3=(((w<<B)|x)<<C)|y; Q("concat 1",thls::concat(a),w) Q("concat 3",thls::concat(a,b,d),r3) Q("concat 4",thls::concat(a,b,d,e),(r3<<D)|z) }); } c.cover((unsigned)i); });
}
// select with 1..6 conditions: the first true condition wins; conditions may be bool or one-bit integers
template<int W> void sel_space(){
    std::string nm=fmt("select over fw_uint<%d>",W);
    add_space(nm,64*64,[=](u64 i,Ctx&c){ unsigned b=i&63,ty=(unsigned)(i>>6); c.st(); run(c,nm+fmt(":%u,%u",b,ty),[&](Seq&q){
        fw_uint<W> v[7]; for(int k=0;k<7;k++) v[k]=mk<W>((u128)(k*9+3)&mask(W)); auto pick=[&](int n){ for(int k=0;k<n;k++) if((b>>k)&1) return rd(v[k]); return rd(v[n]); };
        bool c_[6]; fw_uint<1> f_[6]; for(int k=0;k<6;k++){ c_[k]=(b>>k)&1; f_[k]=fw_uint<1>((int)((b>>k)&1)); }
        auto go=[&](auto&k0,auto&k1,auto&k2,auto&k3,auto&k4,auto&k5){ Q("select 1",thls::select(k0,v[0],v[1]),pick(1)) Q("select 2",thls::select(k0,v[0],k1,v[1],v[2]),pick(2)) Q("select 3",thls::select(k0,v[0],k1,v[1],k2,v[2],v[3]),pick(3)) Q("select 4",thls::select(k0,v[0],k1,v[1],k2,v[2],k3,v[3],v[4]),pick(4)) Q("select 5",thls::select(k0,v[0],k1,v[1],k2,v[2],k3,v[3],k4,v[4],v[5]),pick(5)) Q("select 6",thls::select(k0,v[0],k1,v[1],k2,v[2],k3,v[3],k4,v[4],k5,v[5],v[6]),pick(6)) };
        if(ty==0) go(c_[0],c_[1],c_[2],c_[3],c_[4],c_[5]); else if(ty==63) go(f_[0],f_[1],f_[2],f_[3],f_[4],f_[5]); else if(ty==21) go(f_[0],c_[1],f_[2],c_[3],f_[4],c_[5]); else if(ty==42) go(c_[0],f_[1],c_[2],f_[3],c_[4],f_[5]); else { Q("&&",f_[0]&&f_[1],c_[0]&&c_[1]) Q("||",f_[0]||f_[1],c_[0]||c_[1]) } }); c.cover((unsigned)i); });
}
template<int W> void arr_space(){
    std::string nm=fmt("arrays and tables of fw_uint<%d>",W);
    add_space(nm,256,[=](u64 i,Ctx&c){ c.st(); run(c,nm+fmt(":%llu",(unsigned long long)i),[&](Seq&q){ fw_uint<W> x[8]; u128 v[8]; for(int k=0;k<8;k++){ v[k]=((i+1)*(k*37+11)+(i>>3)*k)&mask(W); x[k]=mk<W>(v[k]); }
        auto cat=[&](int hi,int lo){ u128 r=0; for(int k=hi;k>=lo;k--) r=(r<<W)|v[k]; return r; };
        Q("concat_array<0,0>",(thls::concat_array<0,0>(x)),cat(0,0)) Q("concat_array<3,0>",(thls::concat_array<3,0>(x)),cat(3,0)) Q("concat_array<7,5>",(thls::concat_array<7,5>(x)),cat(7,5)) Q("concat_array<6,2>",(thls::concat_array<6,2>(x)),cat(6,2)) if constexpr(8*W<=128) Q("concat_array<7,0>",(thls::concat_array<7,0>(x)),cat(7,0))
        thls::lut<W,6> t([&](int k){ return (int)(((u128)k*(i|1)+i)&mask(W)&0x7FFFFFFF); }); for(int k=0;k<64;k++) Q("lut",t(fw_uint<6>(k)),((u128)k*(i|1)+i)&mask(W)&0x7FFFFFFF) }); c.cover((unsigned)i); });
}
} // fwu
