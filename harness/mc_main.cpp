#include "mc.hpp"
#include <cstdarg>
#include <algorithm>
#include <exception>
namespace mc {
sigjmp_buf g_jmp; volatile sig_atomic_t g_armed=0; char g_why[256];
static bool s_thorough=false;
bool thorough(){ return s_thorough; }
std::vector<Space> &spaces(){ static std::vector<Space> s; return s; }
std::string fmt(const char *f,...){ char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
std::string hex(u128 v){ if(v>>64) return fmt("0x%llx%016llx",(unsigned long long)(v>>64),(unsigned long long)v); return fmt("0x%llx",(unsigned long long)v); }

static volatile unsigned g_inflight_sig=0;
static void on_sig(int s){
    if(g_armed){ if(s!=SIGABRT || !g_inflight_sig) snprintf(g_why,sizeof g_why,"signal %d",s); g_inflight_sig=0; siglongjmp(g_jmp,1); }
    signal(s,SIG_DFL); raise(s);
}
static void install(){
    static char stk[1<<16]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=stk; ss.ss_size=sizeof stk; sigaltstack(&ss,nullptr);
    int sigs[]={SIGSEGV,SIGFPE,SIGILL,SIGABRT,SIGBUS,SIGTRAP};
    for(int s:sigs){ struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=on_sig; sa.sa_flags=SA_NODEFER|(s==SIGSEGV?SA_ONSTACK:0); sigaction(s,&sa,nullptr); }
}

static void run_points(const Space &sp,Shared *sh,WorkerSlot *slot,FILE *out,u64 chunk){
    Ctx c; c.sh=sh; c.out=out; c.space=sp.name; c.evals=c.states=0; c.slot=slot; c.printed=0; c.verbose=false;
    while(1){
        u64 lo=sh->next.fetch_add(chunk); if(lo>=sp.n) break;
        u64 hi=std::min(sp.n,lo+chunk);
        c.lo=lo;
        for(u64 i=lo;i<hi;i++){
            c.point=i; slot->point=i; slot->busy=1; slot->beat++;
            sp.body(i,c);
            slot->busy=0; c.flush(); sh->done++;
        }
        c.hist+=fmt("%llu-%llu,",(unsigned long long)lo,(unsigned long long)hi-1);
    }
    for(auto &s:c.samples) fprintf(out,"S\t%s\t%s\n",sp.name.c_str(),s.c_str());
    fflush(out);
}

// child process that (re)visits points ("17" or "0-16,40-44", in that order); returns true when it reproduces key
static int replay_point(const std::string &name,const std::string &pts,const char *key,bool print){
    for(auto &sp:spaces()) if(sp.name==name){
        Shared *sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
        WorkerSlot *sl=(WorkerSlot*)mmap(0,sizeof(WorkerSlot),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
        int p[2]; if(pipe(p)) return -1;
        fflush(stdout);
        pid_t pid=fork();
        if(!pid){ close(p[0]); install(); FILE*o=fdopen(p[1],"w");
            Ctx c; c.sh=sh; c.out=o; c.space=sp.name; c.evals=c.states=0; c.slot=sl; c.printed=0; c.verbose=true;
            const char *q=pts.c_str();
            while(*q){ char *e; u64 a=strtoull(q,&e,10),b2=a; if(*e=='-') b2=strtoull(e+1,&e,10); c.lo=a;
                for(u64 i=a;i<=b2&&i<sp.n;i++){ c.point=i; c.printed=0; sl->beat++; sp.body(i,c); c.flush(); } q=*e==','?e+1:e; if(e==q&&*e) break; }
            fflush(o); _exit(0); }
        close(p[1]); std::string buf; char b[4096]; ssize_t r;
        // watchdog for the replay as well
        time_t t0=time(0); u64 last=0; bool killed=false;
        fd_set fs; 
        while(1){ FD_ZERO(&fs); FD_SET(p[0],&fs); struct timeval tv={1,0}; int s=select(p[0]+1,&fs,0,0,&tv);
            if(s>0){ r=read(p[0],b,sizeof b); if(r<=0) break; buf.append(b,r); t0=time(0); }
            else { if(sl->beat.load()!=last){ last=sl->beat.load(); t0=time(0);} if(time(0)-t0>15){ kill(pid,SIGKILL); killed=true; break; } } }
        close(p[0]); int st; waitpid(pid,&st,0);
        if(print) fputs(buf.c_str(),stdout);
        bool found=false; 
        if(key){ if(killed || !WIFEXITED(st)) found=(!strcmp(key,"HANG")||!strcmp(key,"DIED")); 
            size_t pos=0; while(!found && pos<buf.size()){ size_t e=buf.find('\n',pos); if(e==std::string::npos) e=buf.size(); std::string l=buf.substr(pos,e-pos); pos=e+1;
                if(l.compare(0,2,"V\t")==0 && l.find(std::string("\t")+key+"\t")!=std::string::npos) found=true; } }
        else found = buf.find("V\t")!=std::string::npos || killed || !WIFEXITED(st);
        if(print && killed) printf("V\t%s\t%s\tHANG\tno progress for 15 s\n",name.c_str(),pts.c_str());
        return found?1:0;
    }
    fprintf(stderr,"no such space %s\n",name.c_str()); return -1;
}

int mc_main(int argc,char **argv){
    setvbuf(stdout,nullptr,_IOLBF,0);
    int workers=8; const char *only=nullptr,*rsp=nullptr,*rkey=nullptr; std::string rpt; double limit=1e9; bool list=false;
    for(int i=1;i<argc;i++){ std::string a=argv[i];
        if(a=="--thorough") s_thorough=true; else if(a=="--workers") workers=atoi(argv[++i]);
        else if(a=="--only") only=argv[++i]; else if(a=="--replay"){ rsp=argv[++i]; rpt=argv[++i];} else if(a=="--key") rkey=argv[++i];
        else if(a=="--limit") limit=atof(argv[++i]); else if(a=="--list") list=true; }
    // the library prints debugging noise on stdout/stderr: keep our own channel
    register_spaces();
    if(list){ for(auto&s:spaces()) printf("%s\t%llu\t%d\n",s.name.c_str(),(unsigned long long)s.n,s.tier); return 0; }
    if(rsp){ int r=replay_point(rsp,rpt,rkey,true); return r==1?1:r==0?0:2; }
    time_t start=time(0);
    Shared *sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    WorkerSlot *slots=(WorkerSlot*)mmap(0,sizeof(WorkerSlot)*workers,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    u64 totE=0,totS=0; bool capped=false; unsigned nviol=0; 
    std::set<unsigned> coverAll; u64 totcov=0;
    for(auto &sp:spaces()){
        if(sp.tier==1 && !s_thorough) continue;
        if(only && sp.name.find(only)==std::string::npos) continue;
        if(difftime(time(0),start)>limit){ printf("C\t%s\tnot started: time limit\n",sp.name.c_str()); capped=true; continue; }
        sh->next=0; sh->evals=0; sh->states=0; sh->viol=0; sh->done=0; for(int i=0;i<COVER_BITS;i++) sh->cover[i]=0;
        u64 chunk=std::max<u64>(1,sp.n/(u64)(workers*16));
        int nw=(int)std::min<u64>(workers,(sp.n+chunk-1)/chunk); if(nw<1) nw=1;
        std::vector<pid_t> pids(nw); std::vector<std::string> files(nw); std::vector<u64> lastbeat(nw,0); std::vector<time_t> lastt(nw,time(0));
        std::vector<std::string> lines; fflush(stdout);
        struct timespec a,b; clock_gettime(CLOCK_MONOTONIC,&a);
        for(int w=0;w<nw;w++){
            char tn[]="/tmp/mcXXXXXX"; int fd=mkstemp(tn); files[w]=tn; slots[w].beat=0; slots[w].busy=0; slots[w].point=0;
            pid_t pid=fork();
            if(!pid){ install(); FILE*o=fdopen(fd,"w"); run_points(sp,sh,&slots[w],o,chunk); fflush(o); _exit(0); }
            close(fd); pids[w]=pid;
        }
        int alive=nw; bool spcapped=false;
        while(alive){
            int st; pid_t p=waitpid(-1,&st,WNOHANG);
            if(p>0){ for(int w=0;w<nw;w++) if(pids[w]==p){ alive--; pids[w]=0; 
                    if(!WIFEXITED(st)||WEXITSTATUS(st)){ lines.push_back(fmt("V\t%s\t%llu\tDIED\tworker ended with status %d",sp.name.c_str(),(unsigned long long)slots[w].point.load(),st)); sh->viol++; } } continue; }
            usleep(2000);
            time_t now=time(0);
            for(int w=0;w<nw;w++) if(pids[w]){
                u64 bt=slots[w].beat.load(); if(bt!=lastbeat[w]||!slots[w].busy){ lastbeat[w]=bt; lastt[w]=now; }
                else if(now-lastt[w]>40){ kill(pids[w],SIGKILL); int s2; waitpid(pids[w],&s2,0); pids[w]=0; alive--;
                    lines.push_back(fmt("V\t%s\t%llu\tHANG\tno progress for 40 s",sp.name.c_str(),(unsigned long long)slots[w].point.load())); sh->viol++; } }
            if(difftime(now,start)>limit && !spcapped){ spcapped=true; for(int w=0;w<nw;w++) if(pids[w]) kill(pids[w],SIGKILL);
                for(int w=0;w<nw;w++) if(pids[w]){ int s2; waitpid(pids[w],&s2,0); pids[w]=0; alive--; } }
        }
        for(int w=0;w<nw;w++){ FILE*f=fopen(files[w].c_str(),"r"); char buf[65536]; while(f&&fgets(buf,sizeof buf,f)){ size_t l=strlen(buf); if(l&&buf[l-1]=='\n') buf[l-1]=0; lines.push_back(buf);} if(f) fclose(f); unlink(files[w].c_str()); }
        clock_gettime(CLOCK_MONOTONIC,&b);
        u64 cov=0; for(int i=0;i<COVER_BITS;i++) cov+=sh->cover[i];
        totcov+=cov; totE+=sh->evals; totS+=sh->states;
        // replay before report
        std::set<std::string> seenkey; unsigned replayed=0,nhist=0;
        int nsamp=0;
        for(auto &l:lines){
            if(l[0]=='S'){ if(nsamp++<1) printf("%s\n",l.c_str()); continue; }
            if(l[0]=='C'){ if(!spcapped) printf("%s\n",l.c_str()); spcapped=capped=true; continue; }
            if(l[0]!='V') continue;
            std::vector<std::string> f; size_t pos=0; while(1){ size_t t=l.find('\t',pos); f.push_back(l.substr(pos,t==std::string::npos?t:t-pos)); if(t==std::string::npos) break; pos=t+1; }
            if(f.size()<4||!seenkey.insert(f[3]).second) continue;
            // the point on its own, then with what the same worker did before it (the code may remember earlier calls)
            std::vector<std::string> hs; pos=0; while(1){ size_t t=f[2].find('|',pos); std::string h=f[2].substr(pos,t==std::string::npos?t:t-pos); if(hs.empty()||h!=hs.back()) hs.push_back(h); if(t==std::string::npos) break; pos=t+1; }
            std::string at=hs[0];
            if(replayed<10){ replayed++; bool ok=false;
                for(size_t k=0;k<hs.size()&&!ok&&(k==0||nhist<4);k++){ if(k) nhist++; at=hs[k]; ok=replay_point(sp.name,at,f[3].c_str(),false)==1; }
                if(!ok){ printf("N\t%s\n",l.c_str()+2); continue; } }
            printf("V\t%s\t%s\t%s\t%s\n",f[1].c_str(),at.c_str(),f[3].c_str(),f.size()>4?f[4].c_str():""); nviol++;
        }
        bool complete=sh->done==sp.n; if(!complete) capped=true;
        printf("P\t%s\tpoints=%llu/%llu\tevals=%llu\tstates=%llu\tcover=%llu\tviol=%llu\t%s\t%.1fs\n",sp.name.c_str(),(unsigned long long)sh->done.load(),(unsigned long long)sp.n,
            (unsigned long long)sh->evals.load(),(unsigned long long)sh->states.load(),(unsigned long long)cov,(unsigned long long)sh->viol.load(),complete&&!spcapped?"exhausted":"INCOMPLETE",(b.tv_sec-a.tv_sec)+(b.tv_nsec-a.tv_nsec)*1e-9);
    }
    printf("T\tevals=%llu\tstates=%llu\tcover=%llu\tviol=%u\t%s\n",(unsigned long long)totE,(unsigned long long)totS,(unsigned long long)totcov,nviol,capped?"capped":"exhaustive");
    return nviol?1:0;
}
} // mc

// assert() inside a guarded library call becomes an outcome instead of ending the worker
extern "C" void __assert_fail(const char *e,const char *f,unsigned l,const char *) noexcept {
    snprintf(mc::g_why,sizeof mc::g_why,"assertion failed: %s",e);
    if(mc::g_armed) siglongjmp(mc::g_jmp,1);
    fprintf(stderr,"harness assertion %s %s:%u\n",e,f,l); _exit(3);
}
int main(int argc,char**argv){ return mc::mc_main(argc,argv); }
