// heap.hpp - bit heaps and row heaps against plain integer sums (P18)
#pragma once
#include "fwu.hpp"
#include <sstream>
namespace hp {
using namespace fwu;
#ifdef HP_BIT
// ---- building and reading a heap without the library's own helpers: columns most significant first
template<int...H> struct Bld;
template<int H> struct Bld<H>{ typedef thls::bit_heap_root<H> T; static const int bits=H; static T go(u128&p){ u128 b=p&mask(H); p>>=H; return T(mk<H>(b)); } };
template<int H,int...R> struct Bld<H,R...>{ typedef thls::bit_heap_link<H,typename Bld<R...>::T> T; static const int bits=H+Bld<R...>::bits; static T go(u128&p){ u128 b=p&mask(H); p>>=H; return T(mk<H>(b),Bld<R...>::go(p)); } };
inline int pop(u128 v){ return __builtin_popcountll((u64)v)+__builtin_popcountll((u64)(v>>64)); }
template<int H> u128 val(const thls::bit_heap_root<H>&x){ return pop(rd(x.bits)); }
template<int H,class T> u128 val(const thls::bit_heap_link<H,T>&x){ return ((u128)pop(rd(x.bits))<<T::width)+val(x.lsbs); }
template<int H> std::string prof(const thls::bit_heap_root<H>*){ return H>9?"^":std::to_string(H); }
template<int H,class T> std::string prof(const thls::bit_heap_link<H,T>*){ return (H>9?"^":std::to_string(H))+prof((T*)0); }
template<int H> int tall(const thls::bit_heap_root<H>*){ return H; }
template<int H,class T> int tall(const thls::bit_heap_link<H,T>*){ return std::max(H,tall((T*)0)); }
template<int H> int cols(const thls::bit_heap_root<H>*){ return 1; }
template<int H,class T> int cols(const thls::bit_heap_link<H,T>*){ return 1+cols((T*)0); }
inline u128 mpz(mpz_t m){ if(mpz_sgn(m)<0||mpz_sizeinbase(m,2)>128) return ~(u128)0; u128 b=0; for(int k=127;k>=0;k--) b=b*2+mpz_tstbit(m,k); return b; }
inline std::string bin(u128 v){ if(!v) return "0"; std::string s; while(v){ s.insert(s.begin(),'0'+(int)(v&1)); v>>=1; } return s; }
template<class T> struct is_link{ static const bool v=false; }; template<int H,class T> struct is_link<thls::bit_heap_link<H,T>>{ static const bool v=true; };
// everything that can be observed of one heap whose exact (unreduced) value is v
template<class T> void look(Seq&q,const T&h,u128 v,bool print=true){
    const u128 M=mask(T::width);
    Q("value",val(h),v) Q("width",(int)T::width,cols((T*)0)) Q("max_height",(int)T::max_height,tall((T*)0))
    q.cur="to_mpz"; mpz_t m; mpz_init_set_ui(m,77); thls::bit_heap_to_mpz(m,h); Q("to_mpz",mpz(m),v&M) mpz_clear(m);
    if constexpr(is_link<T>::v) if(print){ q.cur="print"; std::ostringstream o; o<<h; std::string w=fmt("BH[W=%d,MH=%d,bits=0b",cols((T*)0),tall((T*)0))+bin(v&M)+",H="+prof((T*)0)+"]"; q("print",o.str()==w,1); }
    q.cur="compress"; auto d=thls::compress(h); typedef decltype(d) D; Q("compressed height",tall((D*)0)<=2,1) Q("compressed width",cols((D*)0),cols((T*)0)) Q("compressed value",val(d)&M,v&M)
    if constexpr(T::max_height<=2) Q("already compressed",val(d),v)
    Q("collapse",thls::bit_heap_collapse(d),v&M) }
template<class T> void derive(Seq&q,const T&h,u128 v){
    { auto p=thls::pad_bit_heap<T::width+1>(h); Q("pad+1",val(p),v) Q("pad+1 width",cols((decltype(p)*)0),cols((T*)0)+1) look(q,p,v,false); }
    { auto p=thls::pad_bit_heap<T::width>(h); Q("pad+0",val(p),v) }
    { auto p=thls::pad_bit_heap<T::width+5>(h); Q("pad+5",val(p),v) Q("collapse pad+5",thls::bit_heap_collapse(thls::compress(p)),v&mask(T::width+5)) }
#ifdef HP_DETAIL // steps that have no public name: left out of the build if a tree does not have them
    { auto p=thls::detail::bit_heap_shift_left_impl<0,T>::build(h); Q("shift 0",val(p),v) }
    { auto p=thls::detail::bit_heap_shift_left_impl<1,T>::build(h); Q("shift 1",val(p),v<<1) look(q,p,v<<1,false); }
    { auto p=thls::detail::bit_heap_shift_left_impl<4,T>::build(h); Q("shift 4",val(p),v<<4) Q("shift 4 width",cols((decltype(p)*)0),cols((T*)0)+4) look(q,p,v<<4,false); }
#endif
    { auto p=thls::merge_bit_heaps(h,h); Q("merge self",val(p),2*v) }
}
inline std::vector<u128> patterns(int n){ std::set<u128> s; u128 M=mask(n); if(n<=16){ for(u128 v=0;v<=M;v++) s.insert(v); } else { for(int k=0;k<n;k++) for(u128 b:{(u128)1<<k,((u128)1<<k)-1}) for(u128 v:{b,~b}) s.insert(v&M); for(int k=0;k<n;k++) for(int j=0;j<k;j++) s.insert((((u128)1<<k)|((u128)1<<j))&M); s.insert(M); s.insert(0); u128 a=0; for(int i=0;i<128;i+=2) a|=(u128)1<<i; s.insert(a&M); s.insert(~a&M); for(int g:{3,5,7}) { u128 b=0; for(int i=0;i<128;i+=g) b|=(u128)1<<i; for(int k=0;k<g;k++){ s.insert((b<<k)&M); s.insert(~(b<<k)&M); } } }
    return std::vector<u128>(s.begin(),s.end()); }
template<int...H> void profile(int tier=0){
    typedef Bld<H...> B; typedef typename B::T T; auto ps=std::make_shared<std::vector<u128>>(patterns(B::bits)); std::string nm="bit heap "; for(int h:{H...}) nm+=fmt("%d.",h);
    u64 n=(ps->size()+63)/64;
    add_space(nm,n,[=](u64 i,Ctx&c){ for(u64 k=i*64;k<std::min<u64>(ps->size(),i*64+64);k++){ u128 p=(*ps)[k]; c.st(); run(c,nm+":"+hex(p),[&](Seq&q){ u128 t=p; T h=B::go(t); u128 v=val(h); c.cover((unsigned)((u64)v%4093)); look(q,h,v); derive(q,h,v); q.cur="untouched"; q("untouched",val(h),v); }); }
        if(i==n/2) c.sample(nm+fmt(" patterns %llu..: to_mpz, compress, collapse, pad, shift, merge",(unsigned long long)i*64)); },tier);
}
// a pair of heaps with unrelated shapes
template<class A,class B> void pairs(int tier=0){
    auto pa=std::make_shared<std::vector<u128>>(patterns(A::bits)),pb=std::make_shared<std::vector<u128>>(patterns(B::bits)); std::string nm="merge "+prof((typename A::T*)0)+" with "+prof((typename B::T*)0);
    add_space(nm,pa->size(),[=](u64 i,Ctx&c){ for(u128 y:*pb){ u128 x=(*pa)[i]; c.st(); run(c,nm+":"+hex(x)+","+hex(y),[&](Seq&q){ u128 t=x; auto a=A::go(t); t=y; auto b=B::go(t); u128 v=val(a)+val(b); c.cover((unsigned)((u64)v%4093)); look(q,thls::merge_bit_heaps(a,b),v,false); look(q,thls::merge_bit_heaps(b,a),v,false); }); } },tier);
}
// one column of height W
template<int W> void column(){
    auto ps=std::make_shared<std::vector<u128>>(patterns(W)); std::string nm=fmt("column %d",W);
#ifdef HP_DETAIL
    add_space(nm,(ps->size()+255)/256,[=](u64 i,Ctx&c){ for(u64 k=i*256;k<std::min<u64>(ps->size(),i*256+256);k++){ u128 p=(*ps)[k]; c.st(); c.cover(pop(p)); run(c,nm+":"+hex(p),[&](Seq&q){ q.cur="compress column"; auto r=thls::detail::compress_column_impl<W>::build(mk<W>(p)); Q("sum+2carry",2*pop(rd(r.first))+pop(rd(r.second)),pop(p))
        if constexpr(W==3){ auto s=thls::detail::compress_3_2(mk<3>(p)); Q("3:2",2*(int)rd(s.first)+(int)rd(s.second),pop(p)) } }); } });
#endif
}
template<int W> void uint_heap(int lvl){
    auto v=std::make_shared<std::vector<u128>>(vals(W,lvl)); std::string nm=fmt("fw_uint<%d> to bit heap",W);
    add_space(nm,v->size(),[=](u64 i,Ctx&c){ u128 x=(*v)[i]; c.st(); c.cover((unsigned)((u64)x%4093)); run(c,nm+":"+hex(x),[&](Seq&q){ auto h=thls::fw_uint_to_bit_heap(mk<W>(x)); look(q,h,x); Q("tall",tall((decltype(h)*)0),1) }); });
}
// ---- operation sequences: at every node of the tree the heap is observed, then every operation is tried
struct Act { u128 a,b; };
template<int D,class T> void walk(Ctx&c,Seq&q,const T&h,u128 v,const Act&A,std::string path){
    c.st(); std::string before=path; q.n++; bool was=q.bad; look(q,h,v,false); if(q.bad&&!was) q.what=path+": "+q.what;
    if constexpr(D>0){
        u128 M=mask(T::width); (void)M;
        walk<D-1>(c,q,thls::merge_bit_heaps(h,thls::fw_uint_to_bit_heap(mk<3>(A.a))),v+A.a,A,path+" +a");
        walk<D-1>(c,q,thls::merge_bit_heaps(thls::fw_uint_to_bit_heap(mk<1>(A.b&1)),h),v+(A.b&1),A,path+" b+");
#ifdef HP_DETAIL
        { auto s=thls::detail::bit_heap_shift_left_impl<2,T>::build(h); walk<D-1>(c,q,s,v<<2,A,path+" <<2"); }
#endif
        walk<D-1>(c,q,thls::pad_bit_heap<T::width+1>(h),v,A,path+" pad");
        { auto z=thls::compress(h); u128 w=val(z); if(((w^v)&M)&&!q.bad){ q.bad=true; q.what=path+" compress: value changed"; } walk<D-1>(c,q,z,w,A,path+" compress"); }
    } }
template<int W0,int D> void histories(int tier=0){
    std::string nm=fmt("bit heap histories from fw_uint<%d> depth %d",W0,D);
    add_space(nm,(1u<<W0)*16,[=](u64 i,Ctx&c){ u128 x=i>>4; Act A{i&7,(i>>3)&1}; run(c,nm+fmt(":%llu",(unsigned long long)i),[&](Seq&q){ walk<D>(c,q,thls::fw_uint_to_bit_heap(mk<W0>(x)),x,A,"x"); }); c.cover((unsigned)i); if(i==37) c.sample(nm+": every sequence of {+a, b+, <<2, pad, compress}"); },tier);
}
#endif
#ifdef HP_MUL
template<int TILE,int WA,int WB> void mul(int lvl,int tier=0){
    auto va=std::make_shared<std::vector<u128>>(vals(WA,lvl)),vb=std::make_shared<std::vector<u128>>(vals(WB,lvl)); std::string nm=fmt("bit_heap_mul<%d> %dx%d",TILE,WA,WB);
    add_space(nm,va->size(),[=](u64 i,Ctx&c){ std::cerr.setstate(std::ios::failbit); u128 x=(*va)[i]; for(u128 y:*vb){ c.st(); run(c,nm+":"+hex(x)+","+hex(y),[&](Seq&q){ auto h=thls::bit_heap_mul<TILE>(mk<WA>(x),mk<WB>(y)); typedef decltype(h) T; u128 v=x*y; Q("width",cols((T*)0),WA+WB) Q("value",val(h),v) Q("collapse",thls::bit_heap_collapse(thls::compress(h)),v)
        q.cur="to_mpz"; mpz_t m; mpz_init(m); thls::bit_heap_to_mpz(m,h); Q("to_mpz",mpz(m),v) mpz_clear(m);
        if constexpr(WA+WB<=100){ auto s=thls::merge_bit_heaps(h,thls::fw_uint_to_bit_heap(mk<WA>(x))); Q("multiply-add",thls::bit_heap_collapse(thls::compress(thls::pad_bit_heap<WA+WB+1>(s))),v+x) } }); }
        c.cover((unsigned)((u64)x%4093)); if(i==va->size()/2) c.sample(nm+" x="+hex(x)+fmt(" times %zu values",vb->size())); },tier);
}
#endif
#ifdef HP_ROW
inline u128 mpzv(mpz_t m){ if(mpz_sgn(m)<0||mpz_sizeinbase(m,2)>128) return ~(u128)0; u128 b=0; for(int k=127;k>=0;k--) b=b*2+mpz_tstbit(m,k); return b; }
template<int W,int D> u128 rval(const thls::row_heap_holder<W,D>&h){ u128 s=0; for(int i=0;i<D;i++) s+=rd(h.rows[i]); return s; }
template<int W,int D> void rlook(Seq&q,const thls::row_heap_holder<W,D>&h,u128 v){ u128 M=mask(W);
    Q("value",rval(h),v) Q("width",(int)h.width,W) Q("depth",(int)h.depth,D) q.cur="to_mpz"; mpz_t m; mpz_init_set_ui(m,9); thls::row_heap_to_mpz(m,h); Q("to_mpz",mpzv(m),v&M) mpz_clear(m);
    if constexpr(D>=2){ q.cur="compress"; auto z=thls::compress(h); Q("compressed depth",(int)z.depth,2) Q("compressed value",rval(z)&M,v&M) if constexpr(D==2) Q("already compressed",rval(z),v) Q("collapse",thls::collapse(z),v&M) } }
template<int W,int D> thls::row_heap_holder<W,D> rbuild(const std::vector<u128>&r){ thls::row_heap_holder<W,D> h; for(int i=0;i<D;i++) h.rows[i]=mk<W>(r[i]); return h; }
// all rows over an alphabet (everything when W*D is small)
template<int W,int D> void rows(int tier=0){
    std::set<u128> s; u128 M=mask(W); if(W*D<=18) for(u128 v=0;v<=M;v++) s.insert(v); else { for(u128 v:{(u128)0,(u128)1,M,M>>1,(M>>1)+1,M-1}) s.insert(v&M); if(D<=5) for(u128 v:{(u128)0x5555555555555555ull*(((u128)1<<64)|1),(u128)3<<(W>32?31:W/2),(u128)1<<(W>64?64:W/2)}) s.insert(v&M); while(pow((double)s.size(),D)>3e5) s.erase(std::next(s.begin(),s.size()/2)); }
    auto al=std::make_shared<std::vector<u128>>(s.begin(),s.end()); std::string nm=fmt("row heap %dx%d",W,D); u64 n=1; int split=D>2?2:1; for(int i=0;i<split;i++) n*=al->size(); u64 in=1; for(int i=split;i<D;i++) in*=al->size();
    add_space(nm,n,[=](u64 i,Ctx&c){ for(u64 j=0;j<in;j++){ std::vector<u128> r; u64 a=i,b=j; for(int k=0;k<D;k++){ if(k<split){ r.push_back((*al)[a%al->size()]); a/=al->size(); } else { r.push_back((*al)[b%al->size()]); b/=al->size(); } }
        c.st(); std::string key=nm+":"; for(u128 x:r) key+=hex(x)+","; run(c,key,[&](Seq&q){ auto h=rbuild<W,D>(r); u128 v=0; for(u128 x:r) v+=x; rlook(q,h,v);
            auto n1=h+mk<W+3>(mask(W+3)); Q("+wider",rval(n1),v+mask(W+3)) Q("+wider width",(int)n1.width,W+3) if constexpr(W>1){ auto n2=h+mk<W-1>(mask(W-1)); Q("+narrower",rval(n2),v+mask(W-1)) Q("+narrower width",(int)n2.width,W) }
            auto o=thls::fw_uint_to_row_heap(mk<W>(r[0])); rlook(q,o,r[0]); auto s2=h+o; Q("heap+heap",rval(s2),v+r[0]) Q("heap+heap depth",(int)s2.depth,D+1)
            auto wide=thls::fw_uint_to_row_heap(mk<W+2>(mask(W+2)))+mk<W+2>(1); auto s3=h+wide,s4=wide+h; Q("heap+wider heap",rval(s3),v+mask(W+2)+1) Q("wider heap+heap",rval(s4),v+mask(W+2)+1) Q("collapse of sum",thls::collapse(thls::compress(s3)),(v+mask(W+2)+1)&mask(W+2)) }); c.cover((unsigned)i*31+(unsigned)j%31); }
        if(i==n/2) c.sample(nm+fmt(" %llu row tuples: compress, collapse, +fw_uint, +heap",(unsigned long long)in)); },tier);
}
template<int Dp,int W,int D> void rwalk(Ctx&c,Seq&q,const thls::row_heap_holder<W,D>&h,u128 v,u128 a,std::string path){
    c.st(); bool was=q.bad; rlook(q,h,v); if(q.bad&&!was) q.what=path+": "+q.what;
    if constexpr(Dp>0){ rwalk<Dp-1>(c,q,h+mk<3>(a&7),v+(a&7),a,path+" +a3"); rwalk<Dp-1>(c,q,h+mk<W+1>(a&mask(W+1)),v+(a&mask(W+1)),a,path+" +wide"); rwalk<Dp-1>(c,q,h+h,2*v,a,path+" +self"); rwalk<Dp-1>(c,q,thls::fw_uint_to_row_heap(mk<5>(a&31))+h,v+(a&31),a,path+" 5+");
        if constexpr(D>=2){ auto z=thls::compress(h); u128 w=rval(z); if(((w^v)&mask(W))&&!q.bad){ q.bad=true; q.what=path+" compress: value changed"; } rwalk<Dp-1>(c,q,z,w,a,path+" compress"); } } }
template<int W0,int Dp> void rhist(int tier=0){ std::string nm=fmt("row heap histories from fw_uint<%d> depth %d",W0,Dp);
    add_space(nm,(1u<<W0)*32,[=](u64 i,Ctx&c){ u128 x=i>>5,a=i&31; run(c,nm+fmt(":%llu",(unsigned long long)i),[&](Seq&q){ rwalk<Dp>(c,q,thls::fw_uint_to_row_heap(mk<W0>(x)),x,a|(a<<5),"x"); }); c.cover((unsigned)i); if(i==37) c.sample(nm+": every sequence of {+narrow, +wide, +self, heap+, compress}"); },tier);
}
#endif
}
