// mc.hpp - bounded exhaustive explorer used by every check in /verif.
//
// A check program registers *spaces*.  A space is a finite, fully enumerated set of executions of the
// real library code: it has N outer points; visiting point i enumerates everything below it
// (second operands, whole operation sequences, ...) without randomness, so the union over
// i in [0,N) is the whole space.  Workers (forked processes) pull chunks of outer points from a shared
// counter until the space is used up; a run that does not get through a space says so.
//
// While a library call is in flight, a failing assert(), abort(), SIGSEGV, SIGFPE, SIGILL or an exception is
// turned into an observable outcome ("crash") of that call, and a call that does not come back is
// killed by a watchdog and reported for the point being visited.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <atomic>

namespace mc {

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

//////////////////////////////////////////////////////////////////////////////
// trapping library calls

extern sigjmp_buf g_jmp;
extern volatile sig_atomic_t g_armed;
extern char g_why[256];

struct Disarm { ~Disarm(){ g_armed=0; } };

// true when the call returned normally
template<class F> inline bool guarded(F f)
{
    if(__builtin_expect(sigsetjmp(g_jmp,0),0)){ g_armed=0; return false; }
    g_armed=1;
    try{ f(); }catch(std::exception &e){ g_armed=0; snprintf(g_why,sizeof g_why,"exception: %s",e.what()); return false; }
    catch(...){ g_armed=0; snprintf(g_why,sizeof g_why,"exception"); return false; }
    g_armed=0;
    return true;
}

//////////////////////////////////////////////////////////////////////////////
// counters shared between the workers of one space

static const int COVER_BITS=1<<16;
struct Shared {
    std::atomic<u64> next;
    std::atomic<u64> evals;       // library calls made and checked
    std::atomic<u64> states;      // distinct input states (operand tuples / histories' states) visited
    std::atomic<u64> viol;        // violations, all
    std::atomic<u64> done;        // outer points completed
    std::atomic<unsigned char> cover[COVER_BITS]; // distinct outcome classes seen
};
struct WorkerSlot { std::atomic<u64> beat; std::atomic<u64> point; std::atomic<int> busy; char pad[40]; };

struct Ctx {
    Shared *sh; FILE *out; u64 point; std::string space; bool verbose; std::string hist; u64 lo; // points this worker has been through: finished ranges, start of the current one
    u64 evals, states; WorkerSlot *slot; unsigned printed;
    std::vector<std::string> samples;
    void ev(u64 n=1){ evals+=n; if((evals&0xFFF)<n) slot->beat.fetch_add(1,std::memory_order_relaxed); }
    void st(u64 n=1){ states+=n; }
    void cover(unsigned h){ unsigned i=(h*2654435761u)>>16; if(!sh->cover[i].load(std::memory_order_relaxed)) sh->cover[i].store(1,std::memory_order_relaxed); }
    bool want_sample() const { return samples.size()<2 ; }
    void sample(const std::string &s){ if(samples.size()<2) samples.push_back(s); }
    // report a violation: `key` identifies the failing input
    void fail(const std::string &key, const std::string &detail){
        sh->viol.fetch_add(1);
        if(printed<200){ printed++; fprintf(out,"V\t%s\t%llu|%llu-%llu|%s%llu-%llu\t%s\t%s\n",space.c_str(),(unsigned long long)point,(unsigned long long)lo,(unsigned long long)point,hist.c_str(),(unsigned long long)lo,(unsigned long long)point,key.c_str(),detail.c_str()); fflush(out); }
    }
    // the search below this point was cut short: the space does not count as exhausted
    void capped(const std::string&why){ fprintf(out,"C\t%s\t%s\n",space.c_str(),why.c_str()); }
    void flush(){ sh->evals+=evals; sh->states+=states; evals=states=0; }
};

struct Space { std::string name; u64 n; std::function<void(u64,Ctx&)> body; int tier; /*0: both, 1: thorough only*/ };
std::vector<Space> &spaces();
inline void add_space(const std::string &name, u64 n, std::function<void(u64,Ctx&)> body, int tier=0){ spaces().push_back(Space{name,n,body,tier}); }
bool thorough();

std::string fmt(const char *f,...) __attribute__((format(printf,1,2)));
std::string hex(u128 v);
int mc_main(int argc,char **argv);

} // mc
void register_spaces(); // defined by each check program
