// A controlled scheduler for the real code: its threads run as fibers, every
// synchronisation operation, blocking call and conflicting memory access
// (reported by the compiler's instrumentation) is a point where the next
// thread is chosen, and all choices up to a number of preemptions are explored
// depth first.  Time is virtual, and passes when nothing can run; that it
// passes earlier is one more choice.
#pragma once
#include "mc.hpp"
#include <setjmp.h>
#include <ucontext.h>
#include <pthread.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <map>
#include <array>

extern "C" { extern char __start_vsdata[] __attribute__((weak)), __stop_vsdata[] __attribute__((weak)), __start_vsbss[] __attribute__((weak)), __stop_vsbss[] __attribute__((weak)); }

namespace vs {
typedef long long ll;
enum { RUN, MUTEX, COND, JOIN, TIMED, PRED, DEAD };
struct Fiber { int id, st; void *obj; ll deadline; bool cancel, nocancel, joined, detached, sigpipe_blocked; std::vector<void*> clean; void *(*fn)(void*); void *arg; jmp_buf jb; bool started; char *stack; bool (*pred)(void*); void *parg; const char *what; };
static const int MAXF=16; static const size_t STK=1<<18;
inline int cur_();
typedef std::array<unsigned,MAXF> VC;
inline VC vc[MAXF]; inline std::map<void*,VC> lvc;    // happens-before clocks of threads, and of what they synchronise on
inline void acquire(void *o) { auto i=lvc.find(o); if (i!=lvc.end()) for (int k=0;k<MAXF;k++) if (i->second[k]>vc[cur_()][k]) vc[cur_()][k]=i->second[k]; }
inline void release(void *o) { VC &l=lvc[o], &m=vc[cur_()]; for (int k=0;k<MAXF;k++) if (m[k]>l[k]) l[k]=m[k]; m[cur_()]++; }
inline Fiber fib[MAXF]; inline int nf=0, cur=0; inline int cur_() { return cur; } inline bool in_run=false;
inline char *stacks=0;
inline ucontext_t boot; inline jmp_buf main_jb;
inline ll now_us=0; inline const ll EPOCH=1000000000LL*1000000;
inline bool advd=false; inline ll late=0;        // time has passed while something could run
inline long steps=0;
// ------------------------------------------------ exploration
struct Choice { int pick, n; };
inline std::vector<Choice> path; inline size_t pos=0; inline int preempts=0, bound=2; inline bool allow_adv=true; inline bool spurious=false;
inline const char *fatal_why=0;
[[noreturn]] inline void stop_run(int why);
inline int choose(int n)
{
    if (n<=1) return 0;
    if (pos<path.size())
    {
        if (path[pos].n!=n) { in_run=false; fprintf(stderr,"%s: the run is not deterministic (%d options instead of %d at %zu)\n",mc::cur,n,path[pos].n,pos); fflush(mc::out); mc::wr("ERROR\n"); _exit(2); }
        return path[pos++].pick;
    }
    path.push_back({0,n}); pos++; return 0;
}
inline bool next_path()
{
    while (path.size() && path.back().pick+1>=path.back().n) path.pop_back();
    if (path.empty()) return false;
    path.back().pick++; return true;
}
// ------------------------------------------------ conflict detection
inline char *arena=0; static const size_t ARENA=512u<<20; inline size_t atop=0;
inline std::vector<unsigned char> freed;         // per 8 bytes of the arena: freed
struct Acc { unsigned epoch; unsigned char wt, marked; unsigned wc, rc[MAXF]; };
inline std::vector<std::pair<std::pair<std::vector<unsigned char>*,size_t>,int>> pending;    // found to be shared; points from the next round on
inline Acc *acc_a, *acc_g; static const size_t NACC=1<<22; inline std::vector<unsigned char> shared_a, shared_g; inline unsigned epoch=0; inline bool grew=false; inline size_t nshared=0;
inline char *g0=0; inline size_t gn=0;
inline std::string trouble;                       // set by the monitors; ends the run
struct Ev { int t; ll at; const char *w; }; inline std::vector<Ev> trace; inline bool tracing=false;
inline void report(const std::string &s) { if (trouble.empty()) trouble=s; }
inline void point(const char *what);
inline int alive() { int k=0; for (int i=0;i<nf;i++) if (fib[i].st!=DEAD) k++; return k; }
inline void access(void *p, int size, bool wr)
{
    char *c=(char*)p;
    Acc *A; std::vector<unsigned char> *S; size_t g;
    if (c>=arena && c<arena+ARENA) { g=(c-arena)>>3; A=acc_a; S=&shared_a; if (freed[g]) { report(mc::fmt("%s of freed memory",wr?"write":"read")); } if (g>=NACC) { report("machinery: uses too much memory"); return; } }
    else if (c>=g0 && c<g0+gn) { g=(c-g0)>>3; A=acc_g; S=&shared_g; }
    else return;
    if (nf<2) return;
    // a write is a point if it was ever in a race; a read only if such a write was seen to come after one
    unsigned char have=(*S)[g];
    if (have!=3)
    {
        Acc &a=A[g]; if (a.epoch!=epoch) { memset(&a,0,sizeof a); a.epoch=epoch; }
        VC &m=vc[cur]; unsigned char race= a.wc>m[a.wt] ? 1 : 0;
        if (wr) { for (int k=0;k<nf;k++) if (a.rc[k]>m[k]) race=3; a.wt=cur; a.wc=m[cur]; }
        else a.rc[cur]=m[cur];
        race&=~(have|a.marked);
        if (race) { a.marked|=race; pending.push_back({{S,g},race}); grew=true; }
    }
    if (!(have&(wr?1:2))) return;
    point(wr?"write":"read");
}
// ------------------------------------------------ running
inline bool due(Fiber &f) { return f.deadline>=0 && f.deadline<=now_us; }
inline std::map<void*,int> owner;
inline bool enabled(Fiber &f)
{
    switch (f.st)
    {
    case RUN: return true;
    case MUTEX: { auto i=owner.find(f.obj); return i==owner.end()||i->second<0; }
    case COND: return (f.cancel && !f.nocancel) || due(f);
    case JOIN: return fib[(size_t)f.obj].st==DEAD;
    case TIMED: return due(f) || (f.cancel && !f.nocancel);
    case PRED: return f.pred(f.parg) || (f.cancel && !f.nocancel) || due(f);
    }
    return false;
}
inline void (*quiescent)()=0; inline ll quiescent_until=0;   // called when nothing can run, before time passes until ...
inline void (*on_switch)()=0;
inline void enter();
inline void sw(int to)
{
    if (to==cur) return;
    int from=cur; cur=to;
    if (!_setjmp(fib[from].jb)) { if (fib[to].started) _longjmp(fib[to].jb,1); enter(); }
}
inline void go(int to)      // leave for ever
{ cur=to; if (fib[to].started) _longjmp(fib[to].jb,1); enter(); abort(); }
inline ll next_deadline() { ll d=-1; for (int i=0;i<nf;i++) if (fib[i].st!=DEAD && fib[i].st!=RUN && fib[i].deadline>now_us && (d<0||fib[i].deadline<d)) d=fib[i].deadline; return d; }
// pick who runs next; the current thread may or may not be able to
inline int pick_next()
{
    while (1)
    {
        if (trouble.size()) stop_run(1);
        if (++steps>200000) { report("runs without end"); stop_run(1); }
        // the current thread goes on, or else the next one in turn; anything else costs one of the preemptions
        int opt[MAXF+2], n=0; bool me=fib[cur].st!=DEAD && enabled(fib[cur]);
        if (me) opt[n++]=cur;
        for (int j=1;j<nf;j++) { int i=(cur+j)%nf; if ((!n || preempts<bound) && fib[i].st!=DEAD && enabled(fib[i])) opt[n++]=i; }
        ll d=next_deadline();
        if (n==0)
        {
            if (d<0)
            {
                std::string s="deadlock:"; for (int i=0;i<nf;i++) if (fib[i].st!=DEAD) s+=mc::fmt(" thread %d in %s;",i,fib[i].what?fib[i].what:"?");
                report(s); stop_run(1);
            }
            if (quiescent) { quiescent_until=d; quiescent(); if (trouble.size()) stop_run(1); }
            now_us=d; continue;
        }
        if (d>=0 && allow_adv && preempts<bound) opt[n++]=-1;
        int k=choose(n);
        if (opt[k]==-1) { preempts++; late+=d-now_us; now_us=d; advd=true; continue; }
        if (k>0) preempts++;
        return opt[k];
    }
}
inline void cancel_now();
inline bool may_cancel() { return fib[cur].cancel && !fib[cur].nocancel; }
inline void (*at_point)();
inline void point(const char *what)
{
    if (!in_run) return;
    if (tracing) trace.push_back({cur,now_us,what});
    if (at_point) at_point();
    fib[cur].what=what; int to=pick_next(); sw(to);
}
// block until enabled
inline void block(int st, void *obj, ll deadline, const char *what)
{
    if (tracing) trace.push_back({cur,now_us,what});
    Fiber &f=fib[cur]; f.st=st; f.obj=obj; f.deadline=deadline; f.what=what;
    int to=pick_next(); sw(to);
    f.st=RUN; f.deadline=-1;
}
inline void ended()
{
    fib[cur].st=DEAD; fib[cur].clean.clear();
    int to=pick_next(); go(to);
}
inline void enter()
{
    Fiber &f=fib[cur]; f.started=true;
    getcontext(&boot); boot.uc_stack.ss_sp=f.stack; boot.uc_stack.ss_size=STK; boot.uc_link=0;
    makecontext(&boot, (void(*)())+[]{ Fiber &f=fib[cur]; f.fn(f.arg); ended(); abort(); }, 0);
    setcontext(&boot); abort();
}
inline int spawn(void *(*fn)(void*), void *arg, bool det)
{
    if (nf>=MAXF) { report("too many threads"); stop_run(1); }
    Fiber &f=fib[nf]; f.id=nf; f.st=RUN; f.obj=0; f.deadline=-1; f.cancel=f.nocancel=f.joined=false; f.sigpipe_blocked=nf?fib[cur].sigpipe_blocked:false; f.detached=det; f.clean.clear(); f.fn=fn; f.arg=arg; f.started=false; f.stack=stacks+nf*STK; f.pred=0; f.what="start";
    vc[nf].fill(0); if (nf) { vc[nf]=vc[cur]; vc[cur][cur]++; } vc[nf][nf]=1;
    return nf++;
}
inline int run_why=0;
[[noreturn]] inline void stop_run(int why) { in_run=false; run_why=why; _longjmp(main_jb,1); }
inline std::vector<char> save_d, save_b;
inline void setup()
{
    tracing=getenv("TRACE")!=0;
    stacks=(char*)mmap(0,MAXF*STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
    arena=(char*)mmap((void*)0x200000000000,ARENA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    acc_a=(Acc*)mmap(0,NACC*sizeof(Acc),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); shared_a.resize(NACC); freed.resize(ARENA>>3);
    char *lo=__start_vsdata, *hi=__stop_vsbss; if (__start_vsbss<lo) lo=__start_vsbss; if (__stop_vsdata>hi) hi=__stop_vsdata;
    g0=lo; gn=hi-lo; acc_g=(Acc*)calloc((gn>>3)+2,sizeof(Acc)); shared_g.resize((gn>>3)+2);
    save_d.assign(__start_vsdata,__stop_vsdata); save_b.assign(__start_vsbss,__stop_vsbss);
}
inline std::vector<void(*)()> exits;
// one execution; true if it ended by itself
inline bool execute(void *(*fn)(void*), void *arg)
{
    memcpy(__start_vsdata,save_d.data(),save_d.size()); memcpy(__start_vsbss,save_b.data(),save_b.size());
    memset(freed.data(),0,(atop>>3)+1); atop=0; epoch++; nf=0; cur=0; owner.clear(); lvc.clear(); now_us=0; advd=false; late=0; steps=0; pos=0; preempts=0; trouble.clear(); exits.clear(); trace.clear();
    run_why=0;
    if (!_setjmp(main_jb)) { spawn(fn,arg,false); in_run=true; cur=0; enter(); }
    in_run=false;
    return trouble.empty();
}
// explore all schedules of one scenario; check() is called after each
struct Result { unsigned long runs; bool ok; };
inline unsigned long max_runs=0;
inline Result explore(void *(*fn)(void*), void *arg, const std::function<void()> &before, const std::function<void()> &after)
{
    Result r={0,true};
    std::fill(shared_a.begin(),shared_a.end(),0); std::fill(shared_g.begin(),shared_g.end(),0); nshared=0;
    for (int round=0;;round++)
    {
        path.clear(); grew=false; unsigned long before_runs=r.runs; pending.clear();
        do
        {
            before(); execute(fn,arg); if (tracing && r.runs%50000==0) { fprintf(stderr,"ROUND %d run %lu, %zu points, %zu shared\n",round,r.runs,path.size(),nshared); if (r.runs==50000) for (auto &e : trace) fprintf(stderr,"%lld thread %d %s\n",e.at,e.t,e.w); } if (trouble.empty()) after();
            r.runs++; mc::case_no=mc::case_no+1; mc::stats["transitions"]+=steps;
            if (trouble.size())
            {
                if (tracing) { for (auto &e : trace) fprintf(stderr,"%lld thread %d %s\n",e.at,e.t,e.w); for (int i=0;i<nf;i++) fprintf(stderr,"thread %d state %d in %s until %lld\n",i,fib[i].st,fib[i].what,fib[i].deadline); }
                std::string s="schedule"; for (auto &c : path) s+=mc::fmt(" %d",c.pick); if (s.size()>600) s=s.substr(0,600);
                mc::fail("-",mc::cur,trouble+" ["+s+"]"); r.ok=false; return r;
            }
            if (max_runs && r.runs>=max_runs) { mc::stats["capped"]++; return r; }
            if (grew && r.runs-before_runs<100) break;
        } while (next_path());
        for (auto &p : pending) (*p.first.first)[p.first.second]|=p.second, nshared++;
        if (!grew) break;
    }
    if (getenv("RUNS")) fprintf(stderr,"RUNS %lu %s\n",r.runs,mc::cur);
    mc::stats["states"]+=r.runs; if ((unsigned long)mc::maxstats["preemption_bound"]<(unsigned long)bound) mc::maxstats["preemption_bound"]=bound;
    return r;
}
inline void cancel_now()
{
    Fiber &f=fib[cur]; f.nocancel=true;  // cleanup handlers run with cancellation off
    if (f.clean.empty()) ended();
    void *b=f.clean.back(); f.clean.pop_back();
    _longjmp((struct __jmp_buf_tag*)b,1);
}
inline void sleep_until(ll when, const char *what) { if (may_cancel()) cancel_now(); block(TIMED,0,when,what); if (may_cancel()) cancel_now(); }
inline void wait_for(bool (*pred)(void*), void *a, ll deadline, const char *what, bool cancellable=true)
{
    if (cancellable && may_cancel()) cancel_now();
    Fiber &f=fib[cur]; f.pred=pred; f.parg=a; bool was=f.nocancel; if (!cancellable) f.nocancel=true;
    block(PRED,0,deadline,what);
    f.nocancel=was; if (cancellable && may_cancel()) cancel_now();
}
}

// ---------------------------------------------------- what the code calls
extern "C" {
#define VS_ACC(n) void __tsan_read##n(void *p) { if (vs::in_run) vs::access(p,n,false); } void __tsan_write##n(void *p) { if (vs::in_run) vs::access(p,n,true); } \
 void __tsan_unaligned_read##n(void *p) { if (vs::in_run) vs::access(p,n,false); } void __tsan_unaligned_write##n(void *p) { if (vs::in_run) vs::access(p,n,true); } \
 void __tsan_volatile_read##n(void *p) { if (vs::in_run) vs::access(p,n,false); } void __tsan_volatile_write##n(void *p) { if (vs::in_run) vs::access(p,n,true); }
VS_ACC(1) VS_ACC(2) VS_ACC(4) VS_ACC(8) VS_ACC(16)
void __tsan_read_range(void *p, long n) { if (vs::in_run) for (long i=0;i<n;i+=8) vs::access((char*)p+i,8,false); }
void __tsan_write_range(void *p, long n) { if (vs::in_run) for (long i=0;i<n;i+=8) vs::access((char*)p+i,8,true); }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit(void*) {}
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
#define VS_AT(n,T) T __tsan_atomic##n##_load(const volatile T *p, int) { if (vs::in_run) { vs::point("atomic"); vs::acquire((void*)p); } return *p; } \
 void __tsan_atomic##n##_store(volatile T *p, T v, int) { if (vs::in_run) { vs::point("atomic"); vs::acquire((void*)p); vs::release((void*)p); } *p=v; } \
 T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { if (vs::in_run) { vs::point("atomic"); vs::acquire((void*)p); vs::release((void*)p); } T o=*p; *p=v; return o; } \
 T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { if (vs::in_run) { vs::point("atomic"); vs::acquire((void*)p); vs::release((void*)p); } T o=*p; *p=o+v; return o; } \
 T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { if (vs::in_run) { vs::point("atomic"); vs::acquire((void*)p); vs::release((void*)p); } T o=*p; *p=o-v; return o; } \
 T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { if (vs::in_run) { vs::point("atomic"); vs::acquire((void*)p); vs::release((void*)p); } T o=*p; *p=o&v; return o; } \
 T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { if (vs::in_run) { vs::point("atomic"); vs::acquire((void*)p); vs::release((void*)p); } T o=*p; *p=o|v; return o; } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { if (vs::in_run) { vs::point("atomic"); vs::acquire((void*)p); vs::release((void*)p); } if (*p==*e) { *p=v; return 1; } *e=*p; return 0; } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##n##_compare_exchange_strong(p,e,v,a,b); } \
 T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int, int) { if (vs::in_run) { vs::point("atomic"); vs::acquire((void*)p); vs::release((void*)p); } T o=*p; if (o==e) *p=v; return o; }
VS_AT(8,unsigned char) VS_AT(16,unsigned short) VS_AT(32,unsigned int) VS_AT(64,unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

// copies are one access each
static void vs_range(const void *p, size_t n, bool wr)
{
    if (!vs::in_run || !n || vs::nf<2) return;
    char *c=(char*)p; size_t st=n<=4096?8:512; bool pointed=false;
    for (size_t i=0;;i+=st)
    {
        if (i>=n) { if (i-st<n-1) i=n-1; else break; }
        char *q=c+i; size_t g; std::vector<unsigned char> *S=0;
        if (q>=vs::arena && q<vs::arena+vs::ARENA) g=(q-vs::arena)>>3, S=&vs::shared_a; else if (q>=vs::g0 && q<vs::g0+vs::gn) g=(q-vs::g0)>>3, S=&vs::shared_g; else break;
        if (g<S->size() && (*S)[g] && pointed) continue;
        if (g<S->size() && (*S)[g]) pointed=true;
        vs::access(q,8,wr);
        if (i==n-1) break;
    }
}
void *__real_memcpy(void*,const void*,size_t); void *__wrap_memcpy(void *d, const void *s, size_t n) { vs_range(s,n,false); vs_range(d,n,true); return __real_memcpy(d,s,n); }
void *__real_memmove(void*,const void*,size_t); void *__wrap_memmove(void *d, const void *s, size_t n) { vs_range(s,n,false); vs_range(d,n,true); return __real_memmove(d,s,n); }
void *__real_memset(void*,int,size_t); void *__wrap_memset(void *d, int c, size_t n) { vs_range(d,n,true); return __real_memset(d,c,n); }
void *__real_malloc(size_t); void __real_free(void*); void *__real_calloc(size_t,size_t); void *__real_realloc(void*,size_t); char *__real_strdup(const char*);
void *__wrap_malloc(size_t n)
{
    if (!vs::in_run) return __real_malloc(n);
    size_t k=(n+15+16)&~15ul; if (vs::atop+k+32>vs::ARENA) { vs::report("memory use without bounds"); vs::stop_run(1); }
    char *p=vs::arena+vs::atop; vs::atop+=k+16; *(size_t*)p=n; memset(p+16,0xCD,n<256?n:256); return p+16;
}
void __wrap_free(void *p)
{
    if (!p) return; char *c=(char*)p;
    if (c<vs::arena||c>=vs::arena+vs::ARENA) return __real_free(p);
    if (!vs::in_run) return;
    size_t n=*(size_t*)(c-16), g=(c-vs::arena)>>3; if (vs::freed[g]) vs::report("memory freed twice");
    memset(&vs::freed[g],1,(n+7)/8?(n+7)/8:1); memset(p,0xDD,n<256?n:256);
}
void *__wrap_calloc(size_t a, size_t b) { if (!vs::in_run) return __real_calloc(a,b); void *p=__wrap_malloc(a*b); memset(p,0,a*b); return p; }
void *__wrap_realloc(void *p, size_t n)
{
    char *c=(char*)p; if (!vs::in_run && !(c>=vs::arena&&c<vs::arena+vs::ARENA)) return __real_realloc(p,n);
    void *q=__wrap_malloc(n); if (p) { size_t o=*(size_t*)(c-16); memcpy(q,p,o<n?o:n); __wrap_free(p); } return q;
}
char *__wrap_strdup(const char *s) { if (!vs::in_run) return __real_strdup(s); size_t n=strlen(s)+1; char *p=(char*)__wrap_malloc(n); memcpy(p,s,n); return p; }

int vs_thread_fail=-1;      // which creation fails
int __wrap_pthread_attr_init(pthread_attr_t *a) { *(int*)a=0; return 0; }
int __wrap_pthread_attr_setdetachstate(pthread_attr_t *a, int d) { *(int*)a=d; return 0; }
int __wrap_pthread_attr_destroy(pthread_attr_t*) { return 0; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *arg)
{
    vs::point("pthread_create");
    if (vs_thread_fail>=0 && vs_thread_fail--==0) return EAGAIN;
    int id=vs::spawn(f,arg,a && *(int*)a==PTHREAD_CREATE_DETACHED); *t=id+1; vs::point("thread started"); return 0;
}
int __wrap_pthread_join(pthread_t t, void**)
{
    size_t id=t-1; if (id>=(size_t)vs::nf||vs::fib[id].detached||vs::fib[id].joined) { vs::report("join of something that is not a joinable thread"); vs::stop_run(1); }
    vs::block(vs::JOIN,(void*)id,-1,"pthread_join"); vs::fib[id].joined=true; for (int k=0;k<vs::MAXF;k++) if (vs::vc[id][k]>vs::vc[vs::cur][k]) vs::vc[vs::cur][k]=vs::vc[id][k]; return 0;
}
int __wrap_pthread_detach(pthread_t t) { vs::fib[t-1].detached=true; return 0; }
pthread_t __wrap_pthread_self() { return vs::cur+1; }
int __wrap_pthread_cancel(pthread_t t)
{
    vs::point("pthread_cancel"); size_t id=t-1; if (id>=(size_t)vs::nf||vs::fib[id].joined) { vs::report("cancellation of something that is not a thread"); vs::stop_run(1); }
    vs::fib[id].cancel=true; vs::point("cancelled"); return 0;
}
int __wrap_pthread_setcancelstate(int s, int *o) { if (o) *o=vs::fib[vs::cur].nocancel; vs::fib[vs::cur].nocancel= s==PTHREAD_CANCEL_DISABLE; return 0; }
void __wrap_pthread_testcancel() { if (vs::may_cancel()) vs::cancel_now(); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t*) { vs::owner[m]=-1; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    vs::point("mutex_lock"); auto i=vs::owner.find(m);
    if (i!=vs::owner.end() && i->second>=0) { if (i->second==vs::cur) { vs::report("a thread locks a mutex it holds"); vs::stop_run(1); } vs::block(vs::MUTEX,m,-1,"mutex_lock"); }
    vs::owner[m]=vs::cur; vs::acquire(m); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { vs::point("mutex_trylock"); auto i=vs::owner.find(m); if (i!=vs::owner.end()&&i->second>=0) return EBUSY; vs::owner[m]=vs::cur; vs::acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    auto i=vs::owner.find(m); if (i==vs::owner.end()||i->second!=vs::cur) vs::report("unlock of a mutex that is not held");
    vs::release(m); vs::owner[m]=-1; vs::point("mutex_unlock"); return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int vs_cond_wait(pthread_cond_t *c, pthread_mutex_t *m, vs::ll dl)
{
    if (vs::may_cancel()) vs::cancel_now();
    auto i=vs::owner.find(m); if (i==vs::owner.end()||i->second!=vs::cur) { vs::report("waiting without holding the mutex"); vs::stop_run(1); }
    vs::point("cond_wait"); if (vs::spurious && vs::preempts<vs::bound && vs::choose(2)) { vs::preempts++; vs::release(m); vs::owner[m]=-1; vs::point("spurious wakeup"); if (vs::owner[m]>=0) vs::block(vs::MUTEX,m,-1,"mutex after a wakeup"); vs::owner[m]=vs::cur; vs::acquire(m); return 0; }
    vs::release(m); vs::owner[m]=-1;
    vs::block(vs::COND,c,dl,"cond_wait"); bool to=dl>=0 && dl<=vs::now_us && vs::fib[vs::cur].obj;
    if (vs::owner[m]>=0) vs::block(vs::MUTEX,m,-1,"mutex after cond_wait");
    vs::owner[m]=vs::cur; vs::acquire(m);
    if (vs::may_cancel() && vs::fib[vs::cur].obj!=(void*)1) vs::cancel_now();
    return to?ETIMEDOUT:0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return vs_cond_wait(c,m,-1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { return vs_cond_wait(c,m,t->tv_sec*1000000LL+t->tv_nsec/1000-vs::EPOCH); }
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
    vs::point("cond_signal"); int w[vs::MAXF], n=0;
    for (int i=0;i<vs::nf;i++) if (vs::fib[i].st==vs::COND && vs::fib[i].obj==c) w[n++]=i;
    if (n) { int k=vs::choose(n); vs::fib[w[k]].st=vs::RUN; }
    vs::point("signalled"); return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{ vs::point("cond_broadcast"); for (int i=0;i<vs::nf;i++) if (vs::fib[i].st==vs::COND && vs::fib[i].obj==c) vs::fib[i].st=vs::RUN; vs::point("broadcast"); return 0; }
int __wrap_pthread_sigmask(int how, const sigset_t *s, sigset_t *o)
{ bool &b=vs::fib[vs::cur].sigpipe_blocked; if (s && sigismember(s,SIGPIPE)) b= how!=SIG_UNBLOCK; else if (s && how==SIG_SETMASK) b=false; return 0; }
void __wrap_pthread_exit(void*) { vs::fib[vs::cur].nocancel=false; vs::fib[vs::cur].cancel=true; vs::cancel_now(); }
void __wrap___pthread_register_cancel(void *b) { vs::fib[vs::cur].clean.push_back(b); }
void __wrap___pthread_unregister_cancel(void *b) { auto &c=vs::fib[vs::cur].clean; if (c.size()) c.pop_back(); }
void __wrap___pthread_unwind_next(void *b) { vs::cancel_now(); }

int __wrap_gettimeofday(struct timeval *t, void*) { if (!vs::in_run) { timespec s; syscall(228,0,&s); t->tv_sec=s.tv_sec; t->tv_usec=s.tv_nsec/1000; return 0; } vs::point("gettimeofday"); vs::ll n=vs::now_us+vs::EPOCH; t->tv_sec=n/1000000; t->tv_usec=n%1000000; return 0; }
int __real_clock_gettime(clockid_t, timespec*);
int __wrap_clock_gettime(clockid_t c, timespec *t) { if (!vs::in_run) return __real_clock_gettime(c,t); vs::point("clock_gettime"); vs::ll n=vs::now_us+(c==CLOCK_MONOTONIC?0:vs::EPOCH); t->tv_sec=n/1000000; t->tv_nsec=n%1000000*1000; return 0; }
time_t __wrap_time(time_t *t) { vs::point("time"); time_t r=(vs::now_us+vs::EPOCH)/1000000; if (t) *t=r; return r; }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    if (n || !t) { vs::report("unexpected select()"); vs::stop_run(1); }
    if (t->tv_sec<0 || t->tv_usec<0) { vs::point("select"); errno=EINVAL; return -1; }
    vs::sleep_until(vs::now_us+t->tv_sec*1000000LL+t->tv_usec,"select"); t->tv_sec=t->tv_usec=0; return 0;
}
int __wrap_nanosleep(const timespec *t, timespec*) { vs::sleep_until(vs::now_us+t->tv_sec*1000000LL+(t->tv_nsec+999)/1000,"nanosleep"); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int fl, const timespec *t, timespec*) { vs::ll n=t->tv_sec*1000000LL+(t->tv_nsec+999)/1000; vs::sleep_until(fl?n-(c==CLOCK_MONOTONIC?0:vs::EPOCH):vs::now_us+n,"clock_nanosleep"); return 0; }
int __wrap_usleep(unsigned u) { if (!vs::in_run) { timespec t={u/1000000,u%1000000*1000L}; return syscall(35,&t,0); } vs::sleep_until(vs::now_us+u,"usleep"); return 0; }
unsigned __wrap_sleep(unsigned u) { vs::sleep_until(vs::now_us+u*1000000LL,"sleep"); return 0; }
int __real_atexit(void(*)());
int __wrap_atexit(void (*f)()) { if (!vs::in_run) return __real_atexit(f); vs::exits.push_back(f); return 0; }
extern int vs_exit_code; int vs_exit_code=-1;
void __real__exit(int) __attribute__((noreturn)); void __real_exit(int) __attribute__((noreturn));
void __wrap__exit(int c) { if (!vs::in_run) __real__exit(c); vs::point("_exit"); vs_exit_code=c; vs::stop_run(0); }
void __wrap_exit(int c)
{
    if (!vs::in_run) __real_exit(c);
    vs::point("exit"); while (vs::exits.size()) { auto f=vs::exits.back(); vs::exits.pop_back(); f(); }
    vs_exit_code=c; vs::stop_run(0);
}
}
