// S01, S03-S08: streams.  The system and library calls the code makes are
// interposed, so that every answer of the environment (data in pieces,
// failures, short transfers) is chosen by the enumeration.
#define _GNU_SOURCE 1
#include "mc.hpp"
#include "fmtutil.hpp"
#include <atomic>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <dirent.h>
#include <algorithm>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <zstd.h>
extern "C" {
#include "../libstream/stream.h"
}
using std::string; using std::vector; using mc::fmt;
typedef long long ll;

extern "C" const char *__asan_default_options() { return "quarantine_size_mb=8"; }
static unsigned long long cid=0, want=0;
static bool turn() { cid++; return mc::O.replaying ? cid==want : mc::mix(cid)%mc::O.nshards==(unsigned)mc::O.shard; }
static void start_case(const string &d)
{ string s=fmt("%s#%llu ",mc::O.tier.c_str(),cid)+d.substr(0,2000); for (auto &c : s) if (c=='\t'||c=='\n') c=' '; mc::begin_case(s); mc::stats["evals"]++; }
static void bad(const string &m) { mc::fail(m); }
static bool th() { return mc::thorough(); }
static string show(const string &s, size_t n=80) { return fu::show(s,n); }

// ---------------------------------------------------------- allocations
static std::atomic<long> live{0}; static std::atomic<bool> counting{false};
static thread_local volatile int tpause=1;   // volatile: the compiler thinks that free() does not look at it
struct Pause { Pause() { tpause=tpause+1; } ~Pause() { tpause=tpause-1; } };
static void on_malloc(const volatile void*, size_t) { if (counting && !tpause) live++; }
static void on_free(const volatile void *p) { if (counting && !tpause && p) live--; }

// ---------------------------------------------------------- faults
// a fault point: any interposed call of the threads under test
enum { F_MAIN=1, F_WORKER=2 };
static std::atomic<int> f_who{0}, f_n{0}, f_at{-1};
static std::atomic<int> f_kinds{0};         // bit mask of kinds that count
static std::atomic<bool> f_short{false};    // a short transfer rather than an error
static string f_hit;
static thread_local bool is_worker=false;
enum { K_READ=1, K_WRITE=2, K_OPEN=4, K_ALLOC=8, K_NET=16, K_THREAD=32, K_DUP=64 };
static bool fault(int kind, const char *name)
{
    int who=is_worker?F_WORKER:F_MAIN;
    if (!(f_who&who) || !(f_kinds&kind) || tpause) return false;
    int n=f_n++;
    if (n!=f_at) return false;
    Pause p; f_hit=name; return true;
}
static void arm(int who, int kinds, int at, bool shrt=false) { f_n=0; f_at=at; f_kinds=kinds; f_short=shrt; f_hit=""; f_who=who; }
static void disarm() { f_who=0; }

// read and write are defined here, also for the compression libraries
extern "C" ssize_t read(int fd, void *b, size_t n)
{
    if (fault(K_READ,"read")) { errno=EIO; return -1; }
    if (n>(1<<26)) { if (is_worker) { mc::crash("read into a buffer of an absurd size"); _exit(97); } }
    ssize_t r;
    do r=syscall(SYS_read,fd,b,n); while (0);
    if (r>0) { volatile char *c=(volatile char*)b; c[0]=c[0]; c[r-1]=c[r-1]; }
    return r;
}
static std::atomic<int> sink_fd{-1}; static string sink; static std::atomic<bool> sink_on{false};
extern "C" ssize_t write(int fd, const void *b, size_t n)
{
    if (sink_on && fd==sink_fd) { Pause p; sink.append((const char*)b,n); return n; }
    if (fault(K_WRITE,"write")) { if (f_short && n>1) { return syscall(SYS_write,fd,b,n/2); } errno=is_worker?ENOSPC:EIO; return -1; }
    return syscall(SYS_write,fd,b,n);
}
extern "C" {
int __real_open(const char*, int, ...); int __wrap_open(const char *f, int m, int p) { if (fault(K_OPEN,"open")) { errno=EACCES; return -1; } return __real_open(f,m,p); }
int __real_pipe(int*); int __wrap_pipe(int *p) { if (fault(K_OPEN,"pipe")) { errno=EMFILE; return -1; } return __real_pipe(p); }
int __real_dup(int); int __wrap_dup(int f) { if (fault(K_DUP,"dup")) { errno=EMFILE; return -1; } return __real_dup(f); }
void *__real_malloc(size_t); void *__wrap_malloc(size_t n) { if (fault(K_ALLOC,"malloc")) { errno=ENOMEM; return 0; } return __real_malloc(n); }
char *__real_strdup(const char*); char *__wrap_strdup(const char *s) { if (fault(K_ALLOC,"strdup")) { errno=ENOMEM; return 0; } return __real_strdup(s); }
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
}
// ---------------------------------------------------------- workers
static pthread_mutex_t wm=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t wc=PTHREAD_COND_INITIALIZER; static int workers=0;
struct Tramp { void *(*f)(void*); void *a; };
static void *tramp(void *p)
{
    Tramp t; t=*(Tramp*)p; delete (Tramp*)p;
    is_worker=true; tpause=0;
    void *r=t.f(t.a);
    is_worker=false; tpause=tpause+1;
    pthread_mutex_lock(&wm); workers--; pthread_cond_broadcast(&wc); pthread_mutex_unlock(&wm);
    return r;
}
static pthread_attr_t big_attr; static bool attr_done=false;
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void*(*f)(void*), void *arg)
{
    if (fault(K_THREAD,"pthread_create")) return EAGAIN;
    Pause p;
    pthread_mutex_lock(&wm); workers++; pthread_mutex_unlock(&wm);
    int r=__real_pthread_create(t,a,tramp,new Tramp{f,arg});
    if (r) { pthread_mutex_lock(&wm); workers--; pthread_mutex_unlock(&wm); }
    return r;
}
static bool wait_workers(int ms=20000)
{
    Pause p; timespec ts; clock_gettime(CLOCK_REALTIME,&ts); ts.tv_sec+=ms/1000; ts.tv_nsec+=(ms%1000)*1000000L; if (ts.tv_nsec>=1000000000) ts.tv_nsec-=1000000000, ts.tv_sec++;
    pthread_mutex_lock(&wm); int r=0;
    while (workers && !r) r=pthread_cond_timedwait(&wc,&wm,&ts);
    bool ok=!workers; pthread_mutex_unlock(&wm); return ok;
}
static vector<int> open_fds()
{
    Pause p; vector<int> v; for (int i=0;i<200;i++) if (fcntl(i,F_GETFD)!=-1) v.push_back(i);
    return v;
}
static string fds_diff(const vector<int> &a, const vector<int> &b)
{ string s; for (int x : b) if (std::find(a.begin(),a.end(),x)==a.end()) s+=fmt(" %d opened",x); for (int x : a) if (std::find(b.begin(),b.end(),x)==b.end()) s+=fmt(" %d closed",x); return s; }
static std::atomic<int> sigpipes{0};
static void on_pipe(int) { sigpipes++; }

// ---------------------------------------------------------- network
static bool net=false; static vector<string> resolved; static int naddr=1, conn_fail=0, eintrs=0;
static vector<int> peers; static int family_used;
static sockaddr_in sa4; static sockaddr_in6 sa6;
static string connected;
extern "C" {
int __real_getaddrinfo(const char*,const char*,const addrinfo*,addrinfo**);
int __wrap_getaddrinfo(const char *h, const char *s, const addrinfo *hi, addrinfo **res)
{
    { Pause p; resolved.push_back(string(h?h:"(null)")+" "+(s?s:"(null)")); }
    if (fault(K_NET,"getaddrinfo")) return EAI_NONAME;
    if (!h||!*h) return EAI_NONAME;
    addrinfo *first=0, **q=&first;
    for (int i=0;i<naddr;i++) { addrinfo *a=(addrinfo*)calloc(1,sizeof *a+sizeof sa4); a->ai_family=AF_INET; a->ai_socktype=SOCK_STREAM; a->ai_protocol=hi?hi->ai_protocol:0; a->ai_addrlen=sizeof sa4; a->ai_addr=(sockaddr*)(a+1); ((sockaddr_in*)a->ai_addr)->sin_port=htons(s?atoi(s):0); ((sockaddr_in*)a->ai_addr)->sin_family=AF_INET; ((sockaddr_in*)a->ai_addr)->sin_addr.s_addr=htonl(0x7f000001+i); *q=a; q=&a->ai_next; }
    *res=first; return 0;
}
void __real_freeaddrinfo(addrinfo*);
void __wrap_freeaddrinfo(addrinfo *a) { while (a) { addrinfo *n=a->ai_next; free(a); a=n; } }
int __wrap_socket(int, int, int)
{
    if (fault(K_NET,"socket")) { errno=EMFILE; return -1; }
    int sv[2]; if (socketpair(AF_UNIX,SOCK_STREAM,0,sv)) { perror("socketpair"); _exit(2); }
    int hi=fcntl(sv[1],F_DUPFD,400); close(sv[1]); Pause p; peers.push_back(hi);   // the peer's end stays out of sight
    return sv[0];
}
int __wrap_connect(int fd, const sockaddr *a, socklen_t)
{
    if (eintrs>0) { eintrs--; errno=EINTR; return -1; }
    if (fault(K_NET,"connect") || conn_fail>0) { if (conn_fail>0) conn_fail--; errno=ECONNREFUSED; return -1; }
    Pause p; connected+=fmt("%08x:%d ",ntohl(((sockaddr_in*)a)->sin_addr.s_addr),ntohs(((sockaddr_in*)a)->sin_port));
    return 0;
}
}
// curl: a stand-in that reads its URL when it performs, and transfers a fixed text
typedef size_t (*curl_cb)(char*,size_t,size_t,void*);
struct Curl { const char *url; FILE *f; bool up; void *wd, *rd; curl_cb wf, rf; };
static string curl_urls, curl_sent; static bool curl_fails=false;
static string curl_text="text from afar"; static vector<size_t> curl_cuts; static std::map<string,std::pair<string,vector<size_t>>> curl_by; // by URL, where several transfers are open at once
static size_t curl_w_(char *b, size_t n, size_t m, void *f) { return fwrite(b,n,m,f?(FILE*)f:stdout); }
static size_t curl_r_(char *b, size_t n, size_t m, void *f) { return fread(b,n,m,f?(FILE*)f:stdin); }
extern "C" {
int __wrap_curl_global_init(long) { return 0; }
void *__wrap_curl_easy_init() { if (fault(K_NET,"curl_easy_init")) return 0; Pause p; return new Curl{0,0,false,0,0,curl_w_,curl_r_}; }
void __wrap_curl_easy_cleanup(void *c) { Pause p; delete (Curl*)c; }
int __wrap_curl_easy_setopt(void *h, int opt, ...)
{
    va_list ap; va_start(ap,opt); Curl *c=(Curl*)h; if (!c) return 43;
    if (opt==10002) c->url=va_arg(ap,const char*); else if (opt==10001) c->wd=va_arg(ap,void*); else if (opt==10009) c->rd=va_arg(ap,void*); else if (opt==20011) c->wf=va_arg(ap,curl_cb); else if (opt==20012) c->rf=va_arg(ap,curl_cb); else if (opt==46) c->up=va_arg(ap,long);
    va_end(ap); return 0;
}
int __wrap_curl_easy_perform(void *h)
{
    Curl *c=(Curl*)h; if (!c) return 43;
    usleep(2000);   // until the caller has gone on
    const string *tp=&curl_text; const vector<size_t> *cp=&curl_cuts; { Pause p; pthread_mutex_lock(&wm); auto q=curl_by.find(c->url); if (q!=curl_by.end()) tp=&q->second.first, cp=&q->second.second; curl_urls+=string(c->url)+" "; pthread_mutex_unlock(&wm); }
    const string &text=*tp; const vector<size_t> &cuts=*cp;
    if (c->up) { char b[1000]; size_t k; while ((k=c->rf(b,1,sizeof b,c->rd))>0 && k<=sizeof b) { Pause p; pthread_mutex_lock(&wm); curl_sent.append(b,k); pthread_mutex_unlock(&wm); } }
    else
    {
        size_t o=0; for (size_t i=0;i<=cuts.size();i++)
        {
            size_t e=i<cuts.size()?cuts[i]:text.size(); if (e>text.size()) e=text.size();
            while (o<e) { size_t n=std::min<size_t>(e-o,16384); if (c->wf((char*)text.data()+o,1,n,c->wd)!=n) return 23; o+=n; }
        }
    }
    if (curl_fails) return 7;
    return 0;
}
}
static void net_reset() { Pause p; for (int f : peers) close(f); peers.clear(); resolved.clear(); connected=curl_urls=curl_sent=""; curl_fails=false; { Pause p; curl_text="text from afar"; curl_cuts.clear(); curl_by.clear(); } naddr=1; conn_fail=0; eintrs=0; }

static string wdir;
// only the code under test counts: its worker threads, and this call
static int OPEN(int fd, const char *url, int mode, const char **err) { int was=tpause; tpause=0; int r=open_stream(fd,url,mode,err); tpause=was; return r; }
// like poll, but not interrupted by the watchdog's timer
static int epoll_(pollfd *p, int ms) { double e=mc::now()+ms/1000.0; int r; while ((r=poll(p,1,ms))<0 && errno==EINTR) { double l=e-mc::now(); ms=l>0?(int)(l*1000):0; } return r; }
static void put(const string &name, const string &s)
{ Pause p; int f=__real_open(name.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); size_t o=0; while (o<s.size()) { ssize_t k=syscall(SYS_write,f,s.data()+o,s.size()-o); if (k<=0) { perror("write"); _exit(2); } o+=k; } close(f); }
static string get(const string &name)
{ Pause p; int f=__real_open(name.c_str(),O_RDONLY,0); if (f<0) return "(missing)"; string s=fu::slurp(f); close(f); return s; }
// everything from a descriptor, giving up after a time
static string drain(int fd, bool *eof=0, int ms=20000)
{
    Pause p; string s; static char b[1<<17]; if (eof) *eof=false;
    while (1)
    {
        pollfd pf={fd,POLLIN,0}; int r=epoll_(&pf,ms); if (r<=0) return s;
        ssize_t k=syscall(SYS_read,fd,b,sizeof b); if (k<=0) { if (eof) *eof=k==0; return s; }
        s.append(b,k);
    }
}
static bool send_all(int fd, const string &s)
{ Pause p; size_t o=0; while (o<s.size()) { ssize_t k=syscall(SYS_write,fd,s.data()+o,s.size()-o); if (k<=0) return false; o+=k; } return true; }

// ---------------------------------------------------------- compression references
static const vector<string> EXT={".gz",".bz2",".xz",".zst"};
// one member, the way the standard library makes it
static string ref_comp(const string &ext, const string &d, const vector<size_t> &flush={})
{
    Pause p; string r;
    if (ext==".gz")
    {
        z_stream z={}; deflateInit2(&z,9,Z_DEFLATED,31,8,Z_DEFAULT_STRATEGY); r.resize(d.size()+d.size()/100+1000+flush.size()*50); z.next_in=(Bytef*)d.data(); z.next_out=(Bytef*)&r[0]; z.avail_out=r.size();
        size_t o=0; for (size_t f : flush) { z.avail_in=f-o; deflate(&z,Z_FULL_FLUSH); o=f; }
        z.avail_in=d.size()-o; deflate(&z,Z_FINISH); r.resize(z.total_out); deflateEnd(&z);
    }
    else if (ext==".bz2") { unsigned n=d.size()+d.size()/50+1000; r.resize(n); BZ2_bzBuffToBuffCompress(&r[0],&n,(char*)d.data(),d.size(),9,0,0); r.resize(n); }
    else if (ext==".xz")
    {
        lzma_stream x=LZMA_STREAM_INIT; lzma_easy_encoder(&x,0,LZMA_CHECK_CRC64); r.resize(d.size()+d.size()/20+2000+flush.size()*200); x.next_in=(uint8_t*)d.data(); x.next_out=(uint8_t*)&r[0]; x.avail_out=r.size();
        size_t o=0; for (size_t f : flush) { x.avail_in=f-o; while (lzma_code(&x,LZMA_FULL_FLUSH)==LZMA_OK) {} o=f; }
        x.avail_in=d.size()-o; while (lzma_code(&x,LZMA_FINISH)==LZMA_OK) {} r.resize(x.total_out); lzma_end(&x);
    }
    else
    {
        ZSTD_CCtx *c=ZSTD_createCCtx(); ZSTD_CCtx_setParameter(c,ZSTD_c_compressionLevel,3); r.resize(ZSTD_compressBound(d.size())+1000+flush.size()*50);
        ZSTD_outBuffer o={&r[0],r.size(),0}; size_t b=0; for (size_t f : flush) { ZSTD_inBuffer i={d.data()+b,f-b,0}; while (ZSTD_compressStream2(c,&o,&i,ZSTD_e_flush)) {} b=f; }
        ZSTD_inBuffer i={d.data()+b,d.size()-b,0}; while (ZSTD_compressStream2(c,&o,&i,ZSTD_e_end)) {} r.resize(o.pos); ZSTD_freeCCtx(c);
    }
    return r;
}
// all members; false if not well-formed or something is left over
static bool ref_decomp(const string &ext, const string &c, string &out)
{
    Pause p; out=""; static char b[1<<18];
    if (ext==".gz")
    {
        size_t o=0; while (o<c.size())
        {
            z_stream z={}; inflateInit2(&z,31); z.next_in=(Bytef*)c.data()+o; z.avail_in=c.size()-o; int r;
            do { z.next_out=(Bytef*)b; z.avail_out=sizeof b; r=inflate(&z,Z_NO_FLUSH); out.append(b,sizeof b-z.avail_out); } while (r==Z_OK);
            o+=z.total_in; inflateEnd(&z); if (r!=Z_STREAM_END) return false;
        }
        return c.size();
    }
    if (ext==".bz2")
    {
        size_t o=0; while (o<c.size())
        {
            bz_stream z={}; BZ2_bzDecompressInit(&z,0,0); z.next_in=(char*)c.data()+o; z.avail_in=c.size()-o; int r;
            do { z.next_out=b; z.avail_out=sizeof b; r=BZ2_bzDecompress(&z); out.append(b,sizeof b-z.avail_out); if (r==BZ_OK&&!z.avail_in&&z.avail_out) r=BZ_UNEXPECTED_EOF; } while (r==BZ_OK);
            o=c.size()-z.avail_in; BZ2_bzDecompressEnd(&z); if (r!=BZ_STREAM_END) return false;
        }
        return c.size();
    }
    if (ext==".xz")
    {
        lzma_stream x=LZMA_STREAM_INIT; lzma_stream_decoder(&x,UINT64_MAX,LZMA_CONCATENATED); x.next_in=(uint8_t*)c.data(); x.avail_in=c.size(); lzma_ret r;
        do { x.next_out=(uint8_t*)b; x.avail_out=sizeof b; r=lzma_code(&x,LZMA_FINISH); out.append(b,sizeof b-x.avail_out); } while (r==LZMA_OK);
        lzma_end(&x); return r==LZMA_STREAM_END;
    }
    ZSTD_DCtx *d=ZSTD_createDCtx(); ZSTD_inBuffer i={c.data(),c.size(),0}; size_t r=1; ZSTD_outBuffer o;
    do { o={b,sizeof b,0}; r=ZSTD_decompressStream(d,&o,&i); if (!ZSTD_isError(r)) out.append(b,o.pos); } while (!ZSTD_isError(r) && (i.pos<i.size || (r && o.pos==o.size)));
    ZSTD_freeDCtx(d); return !ZSTD_isError(r) && r==0 && c.size();
}
static string noise(size_t n, unsigned seed)    // incompressible
{ string s(n,0); uint64_t x=seed*0x9e3779b97f4a7c15ULL+1; for (auto &c : s) { x^=x<<13; x^=x>>7; x^=x<<17; c=x>>32; } return s; }
static string texty(size_t n, unsigned seed)    // compressible, no two alike
{ string s; s.reserve(n+64); unsigned k=seed*7919; while (s.size()<n) { s+=fmt("%u: the quick brown fox %x\r\n",k,k*2654435761u); k++; } s.resize(n); return s; }
static string dat(int kind, size_t n, unsigned seed) { return kind==0?texty(n,seed):kind==1?noise(n,seed):string(n,"\0z"[seed&1]); }

// ---------------------------------------------------------- common run
struct Before { vector<int> f; int sp; };
static Before before() { live=0; counting=true; Before b; b.f=open_fds(); b.sp=sigpipes; return b; }
static bool after(const Before &b, const char *what)
{
    if (!wait_workers()) { bad(string(what)+": a background worker never ends"); mc::finish(); }
    counting=false;
    string d=fds_diff(b.f,open_fds());
    if (d.size()) { bad(string(what)+": descriptors left behind:"+d); for (int x : open_fds()) if (std::find(b.f.begin(),b.f.end(),x)==b.f.end()) close(x); return false; }
    if (live!=0) { bad(string(what)+fmt(": %ld blocks of memory not released",live.load())); return false; }
    if (sigpipes!=b.sp) { bad(string(what)+": a worker raised SIGPIPE"); return false; }
    return true;
}
static string notice_strip(const string &s, const string &orig)
{ // what is left after the longest common part
    size_t i=fu::firstdiff(s,orig); return s.substr(i);
}
static bool is_notice(const string &s)
{
    size_t i=0; if (s.compare(0,4,"\e[0m")==0) i=4;
    if (i==s.size()) return s.empty();
    if (s.size()>200||s.back()!='\n') return false;
    for (;i+1<s.size();i++) if ((unsigned char)s[i]<32||(unsigned char)s[i]>126) return false;
    return true;
}

// write the pieces through a compressing stream
static bool write_stream(const string &file, int mode, const vector<string> &pieces, const char *what)
{
    Before b=before(); const char *err="(unset)";
    int fd=OPEN(-1,file.c_str(),mode,&err);
    if (fd==-1) { counting=false; bad(string(what)+": cannot open: "+(err?err:"(null)")); return false; }
    for (auto &p : pieces) if (!send_all(fd,p)) { close(fd); counting=false; bad(string(what)+": write failed"); return false; }
    close(fd);
    return after(b,what);
}
static bool read_stream(const string &file, string &out, const char *what, int mode=SM_READ)
{
    Before b=before(); const char *err="(unset)";
    int fd=OPEN(-1,file.c_str(),mode,&err);
    if (fd==-1) { counting=false; bad(string(what)+": cannot open: "+(err?err:"(null)")); return false; }
    bool eof; out=drain(fd,&eof); close(fd);
    if (!eof) { bad(string(what)+": no end of file"); return false; }
    return after(b,what);
}
// deliver bytes in pieces through a pipe, in lock-step with the worker's reads
static bool read_frag(const string &ext, const string &c, const vector<size_t> &cuts, string &out)
{
    Before b=before(); int p[2]; if (__real_pipe(p)) _exit(2);
    int wfd=fcntl(p[1],F_DUPFD,450); close(p[1]);
    const char *err=0; string name="x"+ext;
    int fd=OPEN(p[0],name.c_str(),SM_READ,&err);
    if (fd==-1) { counting=false; bad("cannot open"); return false; }
    out="";
    auto pump=[&](int ms){ Pause z; static char buf[1<<16]; pollfd pf={fd,POLLIN,0}; while (epoll_(&pf,ms)>0) { ssize_t k=syscall(SYS_read,fd,buf,sizeof buf); if (k<=0) return; out.append(buf,k); ms=0; } };
    size_t o=0;
    for (size_t i=0;i<=cuts.size();i++)
    {
        size_t e=i<cuts.size()?cuts[i]:c.size();
        while (o<e)
        {
            size_t n=std::min<size_t>(e-o,30000); send_all(wfd,c.substr(o,n)); o+=n;
            // wait until taken
            for (int k=0;k<200000;k++) { int left=0; ioctl(wfd,FIONREAD,&left); if (!left) break; pump(0); if (k>200) usleep(50); if (k==199999) { bad("the worker does not read its input"); mc::finish(); } }
        }
    }
    close(wfd);
    bool eof; out+=drain(fd,&eof); close(fd);
    if (!eof) { bad("no end of file"); return false; }
    return after(b,"fragmented reading");
}

// ---------------------------------------------------------- S01
static void s01_round(const string &ext, const vector<string> &pieces, const string &old, bool oldstd, const string &d)
{
    start_case(ext+" "+d);
    string f="f"+ext, all=old; for (auto &p : pieces) all+=p;
    unlink(f.c_str());
    string before_; if (oldstd) { before_=ext==".txt"?old:ref_comp(ext,old); put(f,before_); }
    else if (old.size()) { if (!write_stream(f,SM_WRITE,{old},"writing the old file")) return; before_=get(f); }
    if (!write_stream(f,old.size()||oldstd?SM_APPEND:SM_WRITE,pieces,"writing")) return;
    string c=get(f);
    if (c.compare(0,before_.size(),before_)) return bad("appending altered the old data");
    string ref; if (ext==".txt") ref=c; else if (!ref_decomp(ext,c,ref)) return bad(fmt("%zu bytes of file are not well-formed",c.size()));
    if (ref!=all) return bad("the standard decompressor gives "+fu::diffs(ref,all));
    string out; if (!read_stream(f,out,"reading")) return;
    if (out!=all) return bad("read back "+fu::diffs(out,all));
    unlink(f.c_str());
}
static void S01()
{
    vector<size_t> L={0,1,100,16383,32767,32768,32769,65535,65536,65537,98304,131071,131072,131073,131591,131592,262144,300000}; if (th()) for (size_t x : {2,511,512,4095,4096,4097,8192,65500,196608,900000,1048576,2000001}) L.push_back(x);
    vector<string> E=EXT; E.push_back(".txt");
    unsigned seed=1;
    for (auto &e : E) for (int k=0;k<3;k++)
    {
        for (size_t n : L) { seed++; if (turn()) s01_round(e,{dat(k,n,seed)},"",false,fmt("one write of %zu, data %d",n,k)); }
        for (size_t n : L) for (size_t m : L) { seed++; if (!th() && (n*31+m*17+k)%5 && n+m>70000) { cid++; continue; } if (turn()) s01_round(e,{dat(k,n,seed),dat((k+1)%3,m,seed+1)},"",false,fmt("writes of %zu, %zu, data %d",n,m,k)); }
        for (size_t n : {1,1000,32768,65536}) for (int c : {2,7,31}) { seed++; if (turn()) { vector<string> v; for (int i=0;i<c;i++) v.push_back(dat(k,n,seed+i)); s01_round(e,v,"",false,fmt("%d writes of %zu, data %d",c,n,k)); } }
        // appended
        for (size_t n : {0,1,100,32768,65536,131072,131073,200000}) for (size_t m : {0,1,100,32768,65536,131073}) for (int o=0;o<2;o++)
        { seed++; if (!n && !o) continue; if (turn()) s01_round(e,{dat(k,m,seed)},dat(k,n,seed+1),o,fmt("%zu appended to %zu made by %s, data %d",m,n,o?"the library":"ourselves",k)); }
        // several times
        for (int c : {2,3,5}) for (size_t n : {1,50,5000,40000}) { seed++; if (turn())
        {
            start_case(e+fmt(" %d members of %zu, data %d",c,n,k)); string f="m"+e, all; unlink(f.c_str()); bool ok=true;
            for (int i=0;i<c && ok;i++) { string s=dat(k,n+i,seed+i); all+=s; string was=i?get(f):""; ok=write_stream(f,SM_APPEND,{s},"appending"); if (ok && get(f).compare(0,was.size(),was)) bad("appending altered the old data"), ok=false; }
            string out; if (ok && read_stream(f,out,"reading")) { if (out!=all) bad("read back "+fu::diffs(out,all)); string r; if (e!=".txt") { if (!ref_decomp(e,get(f),r)) bad("not well-formed"); else if (r!=all) bad("standard decompressor gives "+fu::diffs(r,all)); } }
            unlink(f.c_str());
        } }
    }
    // files made by others: flushed at any place, many members, sparse; read whole
    for (auto &e : EXT) for (int k=0;k<3;k++)
    {
        auto rd=[&](const string &c, const string &all, const string &d){ start_case(e+" reading "+d); put("r"+e,c); string out; if (!read_stream("r"+e,out,"reading")) return; if (out!=all) bad("read "+fu::diffs(out,all)); };
        for (size_t n : {10,40000,131072,131172,140000,262144,263000}) for (size_t fl : {1,1000,32768,65535,131071,131072}) { seed++; if (fl<n && turn()) { string s=dat(k,n,seed); rd(ref_comp(e,s,{fl}),s,fmt("%zu flushed at %zu, data %d",n,fl,k)); } }
        for (size_t n : {131072,200000,262144,393216}) for (size_t fl : {5,1000}) for (int cnt : {2,3,20}) { seed++; if (turn()) { string s=dat(k,n,seed); vector<size_t> v; for (int i=1;i<=cnt;i++) v.push_back(fl*i); rd(ref_comp(e,s,v),s,fmt("%zu flushed %d times each %zu, data %d",n,cnt,fl,k)); } }
        for (int cnt : {2,3,10,100,1000}) for (size_t n : {0,1,30,600}) { seed++; if (turn()) { string c,all; for (int i=0;i<cnt;i++) { string s=dat(k,n,seed+i); all+=s; c+=ref_comp(e,s); } rd(c,all,fmt("%d members of %zu, data %d",cnt,n,k)); } }
        // member borders at every position around the buffer size
        for (int dlt=-8;dlt<=8;dlt++) for (size_t base : {32768,65536,131072,131591}) { seed++; if (turn()) { string c, all; unsigned q=seed; size_t goal=base+dlt; while (c.size()+400<goal) { size_t n=std::min<size_t>(3000,goal-c.size()-300); string s=noise(n,q++); all+=s; c+=ref_comp(e,s); }
            // pad to the exact place with a member of noise of the right size
            for (size_t n=1;n<600;n++) { string s=noise(n,q), m=ref_comp(e,s); if (c.size()+m.size()==goal) { c+=m; all+=s; break; } }
            string s=texty(500,q); c+=ref_comp(e,s); all+=s; rd(c,all,fmt("members border near %zu",goal)); } }
    }
    // reading through a pipe in pieces
    for (auto &e : EXT)
    {
        string s=texty(300,5), s2=noise(100,6), c=ref_comp(e,s)+ref_comp(e,s2), out;
        auto go=[&](const vector<size_t> &cuts, const string &all, const string &cc){ string d=e+fmt(" in pieces, %zu bytes, cut at",cc.size()); for (size_t x : cuts) d+=fmt(" %zu",x); start_case(d); if (read_frag(e,cc,cuts,out) && out!=all) bad("read "+fu::diffs(out,all)); };
        for (size_t i=1;i<c.size();i++) if (turn()) go({i},s+s2,c);
        for (size_t i=1;i<c.size();i+=th()?1:3) for (size_t j=i+1;j<c.size();j+=th()?2:5) if (turn()) go({i,j},s+s2,c);
        { vector<size_t> v; for (size_t i=1;i<c.size();i++) v.push_back(i); if (turn()) go(v,s+s2,c); }
        string b=noise(150000,9), bc=ref_comp(e,b);
        for (size_t base : {32768,65536,131072,131591}) for (int d=-2;d<=2;d++) if (turn()) go({base+d},b,bc);
    }
}

// ---------------------------------------------------------- S06
static void s06_damaged(const string &ext, const string &c, const string &orig, bool trunc, const string &d)
{
    start_case(ext+" "+d);
    int m=fu::memfile(c); Before b=before(); const char *err=0; string name="x"+ext;
    int in=fcntl(m,F_DUPFD,3); close(m); b.f=open_fds(); b.f.erase(std::find(b.f.begin(),b.f.end(),in));
    int fd=OPEN(in,name.c_str(),SM_READ,&err);
    if (fd==-1) { counting=false; return bad("cannot open"); }
    bool eof; string out=drain(fd,&eof); close(fd);
    if (!eof) { bad("no end of file"); mc::finish(); }
    if (!after(b,"reading")) return;
    if (trunc && ext==".gz" && c.size()==1 && out==c) {}    // not recognisable as compressed yet; passed through
    else if (trunc) { string r=notice_strip(out,orig); if (!is_notice(r)) return bad("delivered "+show(out,300)+" which is not a part of the data and a notice"); }
    else if (out.size()>orig.size()+c.size()+300+ (1<<17)) return bad(fmt("%zu bytes delivered",out.size()));
    mc::stats["bytes"]+=out.size();
}
static void S06()
{
    signal(SIGPIPE,on_pipe);
    for (auto &e : EXT)
    {
        vector<string> O={texty(20,3), texty(400,4), noise(60,5), "" }; if (th()) O.push_back(texty(3000,6)), O.push_back(noise(400,7));
        for (size_t q=0;q<O.size();q++)
        {
            auto &o=O[q]; string c=ref_comp(e,o), c2=c+ref_comp(e,texty(30,8));
            string o2=o+texty(30,8);
            for (size_t i=0;i<c2.size();i++) if (turn()) s06_damaged(e,c2.substr(0,i),o2,i!=0&&false||true,fmt("sample %zu, first %zu bytes of %zu",q,i,c2.size()));
            // bytes altered
            for (size_t i=0;i<c2.size();i++) for (int v=1;v<256;v++)
            {
                if (!th() && !(v==1||v==0x80||v==0xff||v==0x20||v==((i*37+q*11)&0xff))) { continue; }
                if (th() && q>2 && v%5) continue;
                if (turn()) { string x=c2; x[i]^=v; s06_damaged(e,x,o2,false,fmt("sample %zu, byte %zu of %zu xor %02x",q,i,c2.size(),v)); }
            }
            // bytes inserted, removed; cut and followed by junk
            for (size_t i=0;i<c2.size();i++) if (turn()) { string x=c2; x.erase(i,1); s06_damaged(e,x,o2,false,fmt("sample %zu, byte %zu removed",q,i)); }
            for (size_t i=0;i<c2.size();i+=th()?1:2) for (int v : {0,255,66}) if (turn()) { string x=c2; x.insert(i,1,v); s06_damaged(e,x,o2,false,fmt("sample %zu, byte %02x inserted at %zu",q,v,i)); }
            for (auto junk : {string("\0",1),string("junk"),string(600,'\0'),string("\x1f\x8b"),string("BZh9"),string("\xfd" "7zXZ"),string("\x28\xb5\x2f\xfd",4),noise(40000,3)}) if (turn()) s06_damaged(e,c2+junk,o2,false,fmt("sample %zu, followed by ",q)+show(junk,10));
        }
        for (auto junk : {string("x"),string("hello world\n"),string(100000,'a'),noise(50000,4),string(5,'\0'),string("\e[1mtext")}) if (turn()) s06_damaged(e,junk,junk,false,"not compressed: "+show(junk,12));
        for (auto &e2 : EXT) if (e2!=e && turn()) s06_damaged(e,ref_comp(e2,texty(50,1)),texty(50,1),false,"another compressor's file "+e2);
        // large files cut around buffers
        { string o=noise(200000,2), c=ref_comp(e,o); for (size_t base : {32768,65536,131072,131591,163840}) for (int d=-1;d<=1;d++) if (turn()) s06_damaged(e,c.substr(0,base+d),o,true,fmt("large, first %zu bytes",base+d));
          for (size_t p=0;p<c.size();p+=th()?997:9973) if (turn()) { string x=c; x[p]^=4; s06_damaged(e,x,o,false,fmt("large, byte %zu altered",p)); } }
        // the reader goes away after some bytes
        for (size_t n : {0,1,1000,32768,70000}) for (int big=0;big<2;big++) if (turn())
        {
            start_case(e+fmt(" reader leaves after %zu bytes",n)); string o=big?noise(400000,7):texty(400000,7); int m=fu::memfile(ref_comp(e,o)); Before b=before(); b.f.erase(std::find(b.f.begin(),b.f.end(),m));
            const char *err=0; int fd=OPEN(m,("x"+e).c_str(),SM_READ,&err); if (fd==-1) { counting=false; bad("cannot open"); continue; }
            { Pause p; string s(n,0); size_t k=0; while (k<n) { ssize_t r=syscall(SYS_read,fd,&s[k],n-k); if (r<=0) break; k+=r; } if (s.compare(0,n,o,0,n)) bad("wrong data"); }
            close(fd); after(b,"reader left");
        }
        // failing reads and writes, reading
        for (int big=0;big<2;big++) for (int kind : {K_READ,K_WRITE}) for (int shrt=0;shrt<(kind==K_WRITE?2:1);shrt++) for (int at=0;at<40;at++)
        {
            cid++; if (!(mc::O.replaying ? cid==want : mc::mix(cid)%mc::O.nshards==(unsigned)mc::O.shard)) continue;
            start_case(e+fmt(" reading, %s %d %s",kind==K_READ?"read":"write",at,shrt?"is short":"fails"));
            string o=big?noise(300000,7):texty(3000,7); int m=fu::memfile(ref_comp(e,o)); Before b=before(); b.f.erase(std::find(b.f.begin(),b.f.end(),m));
            arm(F_WORKER,kind,at,shrt); const char *err=0;
            int fd=OPEN(m,("x"+e).c_str(),SM_READ,&err); if (fd==-1) { disarm(); counting=false; bad("cannot open"); continue; }
            bool eof; string out=drain(fd,&eof); close(fd); if (!eof) { bad("no end of file"); mc::finish(); }
            bool ok=after(b,"reading"); disarm(); if (!ok) continue;
            if (f_hit.size()) mc::stats["faults"]++; else if (out!=o) { bad("read "+fu::diffs(out,o)); continue; }
            if (!is_notice(notice_strip(out,o))) bad("delivered "+fu::diffs(out,o));
        }
        // writing
        for (int big=0;big<2;big++) for (int kind : {K_READ,K_WRITE}) for (int shrt=0;shrt<(kind==K_WRITE?2:1);shrt++) for (int at=0;at<40;at++)
        {
            cid++; if (!(mc::O.replaying ? cid==want : mc::mix(cid)%mc::O.nshards==(unsigned)mc::O.shard)) continue;
            start_case(e+fmt(" writing, %s %d %s",kind==K_READ?"read":"write",at,shrt?"is short":"fails"));
            string o=big?noise(600000,7):texty(3000,7), f="w"+e; unlink(f.c_str()); Before b=before();
            arm(F_WORKER,kind,at,shrt); const char *err=0;
            int fd=OPEN(-1,f.c_str(),SM_WRITE,&err); if (fd==-1) { disarm(); counting=false; bad("cannot open"); continue; }
            signal(SIGPIPE,SIG_IGN);
            // the program writes everything; it must not block for ever
            { Pause p; size_t k=0; while (k<o.size()) { ssize_t r=syscall(SYS_write,fd,o.data()+k,std::min<size_t>(o.size()-k,5000)); if (r<=0) break; k+=r; } if (k<o.size() && !f_hit.size()) bad("the program's write failed"); }
            close(fd); bool ok=after(b,"writing"); disarm(); signal(SIGPIPE,on_pipe); if (!ok) continue;
            string c=get(f); if (f_hit.size()) { mc::stats["faults"]++; continue; }
            string r; if (!ref_decomp(e,c,r)||r!=o) bad("what was written is not what should be");
        }
        // a full disk, also for those that write through stdio
        for (int big=0;big<2;big++) for (ll lim : {0,1,10,100,4096,32768,65536,200000}) if (turn())
        {
            start_case(e+fmt(" writing, disk full after %lld bytes",lim)); string o=big?noise(600000,7):texty(3000,7), f="w"+e; unlink(f.c_str()); Before b=before(); const char *err=0;
            int fd=OPEN(-1,f.c_str(),SM_WRITE,&err); if (fd==-1) { counting=false; bad("cannot open"); continue; }
            signal(SIGPIPE,SIG_IGN); signal(SIGXFSZ,SIG_IGN); rlimit rl={(rlim_t)lim,RLIM_INFINITY}, no={RLIM_INFINITY,RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE,&rl);
            { Pause p; size_t k=0; while (k<o.size()) { ssize_t r=syscall(SYS_write,fd,o.data()+k,std::min<size_t>(o.size()-k,5000)); if (r<=0) break; k+=r; } }
            close(fd); wait_workers(); setrlimit(RLIMIT_FSIZE,&no); after(b,"writing"); signal(SIGPIPE,on_pipe);
            if ((ll)get(f).size()>lim) bad("more written than the disk takes");
        }
    }
}

// ---------------------------------------------------------- S04
// telnet() is run synchronously: recv gives the next piece, send and write are recorded
static vector<string> rq; static size_t rqi, rqo; static string replies; static int rq_sock=-1, sock_err=0; static bool rq_on=false; static int closed_sock, closed_fd;
extern "C" {
ssize_t __real_recv(int,void*,size_t,int); ssize_t __real_send(int,const void*,size_t,int);
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl)
{
    if (!rq_on||fd!=rq_sock) { if (fault(K_READ,"recv")) { errno=ECONNRESET; return -1; } return __real_recv(fd,b,n,fl); }
    if (rqi>=rq.size()) { if (sock_err) { errno=sock_err; return -1; } return 0; }
    size_t k=std::min(n,rq[rqi].size()-rqo); memcpy(b,rq[rqi].data()+rqo,k); rqo+=k; if (rqo>=rq[rqi].size()) rqi++, rqo=0;
    return k;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl)
{ if (!rq_on||fd!=rq_sock) { if (fault(K_WRITE,"send")) { errno=EPIPE; return -1; } return __real_send(fd,b,n,fl|MSG_NOSIGNAL); } replies.append((const char*)b,n); return n; }
int __real_close(int);
int __wrap_close(int fd) { if (rq_on && fd==rq_sock) { closed_sock++; return 0; } if (rq_on && fd==sink_fd) { closed_fd++; return 0; } return __real_close(fd); }
}
struct Neg { int verb, opt; };
static void ref_telnet(const string &s, string &data, vector<Neg> &neg)
{
    size_t i=0, n=s.size();
    while (i<n)
    {
        unsigned char c=s[i++];
        if (c!=255) { data+=c; continue; }
        if (i>=n) break;
        c=s[i++];
        if (c==255) data+=c;
        else if (c>=251&&c<=254) { if (i>=n) break; neg.push_back({c,(unsigned char)s[i++]}); }
        else if (c==250)
        {
            i++; // the option
            while (i<n) { if ((unsigned char)s[i]==255) { if (i+1<n && (unsigned char)s[i+1]==240) { i+=2; break; } i+=2; } else i++; }
        }
    }
}
static void s04_one(const string &s, const vector<size_t> &cuts, const string &d, int err=0, const string *ends=0)
{
    start_case(d);
    rq.clear(); size_t o=0; for (size_t c : cuts) { if (c>o) rq.push_back(s.substr(o,c-o)); o=c; } if (o<s.size()) rq.push_back(s.substr(o)); rqi=rqo=0;
    replies=""; sink=""; sink_on=true; sink_fd=990; rq_sock=991; rq_on=true; closed_sock=closed_fd=0; sock_err=err;
    telnet(rq_sock,990,0);
    rq_on=false; sink_on=false;
    string data; vector<Neg> neg; ref_telnet(s,data,neg);
    if (ends) { size_t k=sink.find('|'); if (sink.compare(0,5,"begin") || k==string::npos || sink.substr(5,k-5).find_first_not_of('q')!=string::npos || sink.substr(k)!=*ends) bad("delivered "+show(sink)+", not ending in "+show(*ends)); return; }
    if (sink!=data) return bad("delivered "+show(sink)+" instead of "+show(data));
    if (closed_sock!=1||closed_fd!=1) return bad(fmt("socket closed %d times, output %d times",closed_sock,closed_fd));
    // replies: at most one for each request, in order; one for each WILL and DO
    size_t r=0;
    if (replies.size()%3) return bad("ill-formed replies "+show(replies));
    for (auto &g : neg)
    {
        bool have=r+3<=replies.size();
        unsigned a= have?(unsigned char)replies[r]:0, v=have?(unsigned char)replies[r+1]:0, op=have?(unsigned char)replies[r+2]:0;
        bool fits=have && a==255 && (int)op==g.opt && ( g.verb==251 ? v==253||v==254 : g.verb==252 ? v==254 : g.verb==253 ? v==251||v==252 : v==252 );
        if (fits) { r+=3; continue; }
        if (g.verb==251||g.verb==253) return bad(fmt("request %d %d is not answered properly: ",g.verb,g.opt)+show(replies));
    }
    if (r!=replies.size()) return bad("replies to nothing: "+show(replies));
}
static void S04()
{
    vector<string> T={"a","\r\n","\e[1m",string("\0",1),"\xc3\xa9","\xf0","\xfa","\377\377","\377\361","\377\371","\377\360","\377\357","\377\366"};
    for (int v=251;v<=254;v++) for (int o : {0,1,3,5,24,25,31,200,240,250,255}) T.push_back(string("\377")+(char)v+(char)o);
    for (int o : {0,1,24,31,255}) { T.push_back(string("\377\372")+(char)o+"\377\360"); T.push_back(string("\377\372")+(char)o+"\1\377\360"); }
    T.push_back(string("\377\372\30")+"xterm\377\377-\360z\377\360"); T.push_back(string("\377\372\37\0\120\0\31\377\360",9)); T.push_back("\377\372\30\372\373\374\375\376\377\360"); T.push_back(string("\377\372\30")+string(60,'q')+"\377\360"); T.push_back("\377\372\30\377\377\377\377\377\360");
    vector<string> end={"","\377","\377\375","\377\372","\377\372\30","\377\372\30x","\377\372\30x\377"};
    auto frag=[&](const string &s, const string &d){
        if (turn()) s04_one(s,{},d+" whole");
        if (s.size()>1) { vector<size_t> v; for (size_t i=1;i<s.size();i++) v.push_back(i); if (turn()) s04_one(s,v,d+" byte by byte"); }
        for (size_t i=1;i<s.size();i++) if (turn()) s04_one(s,{i},d+fmt(" cut at %zu",i));
    };
    auto nm=[&](const string &s){ return show(s,60); };
    for (auto &e : end) frag(e,"end "+nm(e));
    for (auto &a : T) for (auto &e : end) frag(a+e,nm(a)+" "+nm(e));
    for (auto &a : T) for (auto &b : T) { frag(a+b,nm(a+b)); for (auto &e : end) if (e.size() && turn()) s04_one(a+b+e,{},nm(a+b+e)); }
    for (size_t i=0;i<T.size();i++) for (size_t j=0;j<T.size();j++) for (size_t k=0;k<T.size();k++)
    {
        string s=T[i]+T[j]+T[k];
        if (turn()) s04_one(s,{},nm(s)+" whole");
        if (turn()) { vector<size_t> v; for (size_t q=1;q<s.size();q++) v.push_back(q); s04_one(s,v,nm(s)+" byte by byte"); }
        if (th()) for (size_t q=1;q<s.size();q++) if (turn()) s04_one(s,{q},nm(s)+fmt(" cut at %zu",q));
    }
    // all single bytes after IAC and inside options
    for (int c=0;c<256;c++) { string s=string("x\377")+(char)c+"\1y"; if (c<250||c>255) frag(s,fmt("IAC %d",c)); for (int v=251;v<=254;v++) { s=string("x\377")+(char)v+(char)c+"y"; if (turn()) s04_one(s,{},fmt("IAC %d %d",v,c)); if (turn()) s04_one(s,{2},fmt("IAC %d %d cut",v,c)); if (turn()) s04_one(s,{3},fmt("IAC %d %d cut late",v,c)); } }
    for (int o=0;o<256;o++) for (int c=0;c<256;c+=1) if (c!=255) { if (!th()&&(o*7+c)%9) continue; if (turn()) s04_one(string("x\377\372")+(char)o+(char)c+"\377\360y",{},fmt("subnegotiation %d %d",o,c)); }
    // long data, everything at buffer borders
    for (auto &a : T) for (int base : {BUFSIZ,2*BUFSIZ,4096}) for (int d=-4;d<=2;d++) if (turn()) { string s=texty(base+d,3)+a+texty(50,4); s04_one(s,{},fmt("%d bytes, ",base+d)+nm(a)); }
    for (int n : {8191,8192,8193,16384,30000}) if (turn()) s04_one(string(n,'\377'),{},fmt("%d bytes of 255",n));
    for (int n : {100,5000}) if (turn()) { string s; for (int i=0;i<n;i++) s+="\377\375\1\377\373\1"; s04_one(s+"z",{},fmt("%d negotiations",2*n)); }
    // many subnegotiations; one without an end is given up, and all that follows is handled as usual
    for (size_t n : {1,5,20,60,64}) for (int k=1;k<=8;k++) for (int last=0;last<2;last++) if (turn()) { string s; for (int i=0;i<k;i++) s+="\377\372\30"+string(n,'q')+"\377\360"; if (last) s+="\377\375\1"; s04_one(s+"z",{},fmt("%d subnegotiations of %zu, %d",k,n,last)); }
    for (int n=66;n<=200;n+=th()?1:7) for (auto &a : T) for (int k=0;k<2;k++) if (turn())
    {
        string tail="|"+a+(k?string("\377\372\30")+string(60,'s')+"\377\360":"")+"e", u="begin\377\372\30"+string(n,'q'), d; vector<Neg> neg; ref_telnet(tail,d,neg);
        s04_one(u+tail,k?vector<size_t>{u.size(),u.size()+2}:vector<size_t>{},fmt("unterminated subnegotiation of %d, then ",n)+nm(tail),0,&d);
    }
    for (auto &a : T) for (int e : {ECONNRESET,EIO}) if (turn()) s04_one("begin"+a,{},nm(a)+" then an error",e);
}

// ---------------------------------------------------------- S05
struct Entry { string key, pre, name, post; };
// first place at which an entry for the name is complete
static char ref_pick(const string &out, const string &name, size_t *where=0)
{
    for (size_t i=0;i<out.size();i++)
    {
        size_t p=i; auto at=[&](size_t q)->int{ return q<out.size()?(unsigned char)out[q]:-1; };
        if (at(p)!='\r'||at(p+1)!='\n'||at(p+2)!='\e'||at(p+3)!='[') continue;
        p+=4; while (isdigit(at(p)) && at(p)>=0) p++;
        if (at(p)!='d') continue;
        p++; if (at(p)==' ') p++;
        int k=at(p++); if (k<=0||at(p++)!=')') continue;
        if (at(p++)!=' ') continue;
        auto colour=[&]{ if (at(p)!='\e') return true; p++; if (at(p++)!='[') return false; while ((at(p)>='0'&&at(p)<='9')||at(p)==';') p++; return at(p++)=='m'; };
        if (!colour()) continue;
        if (out.compare(p,name.size(),name)) continue;
        p+=name.size();
        if (!colour()) continue;
        if (at(p++)!=' ') continue;
        if (!colour()) continue;
        if (at(p)!='(') continue;
        if (where) *where=p+1;
        return k;
    }
    return 0;
}
static bool nodelay_read(int fd, string &s, size_t n, int ms)  // read exactly n more bytes
{
    Pause p; char b[70000]; size_t got=0;
    while (got<n) { pollfd pf={fd,POLLIN,0}; if (epoll_(&pf,ms)<=0) return false; ssize_t k=syscall(SYS_read,fd,b,std::min(sizeof b,n-got)); if (k<=0) return false; s.append(b,k); got+=k; }
    return true;
}
static void s05_one(const string &out, const vector<size_t> &cuts, const string &name, const string &session, int end, const string &d)
{
    start_case(d);
    net_reset(); Before b=before(); const char *err="(unset)";
    string url="termcast://server/"+name;
    int fd=OPEN(-1,url.c_str(),SM_READ,&err);
    if (fd==-1) { counting=false; return bad(string("cannot open: ")+(err?err:"(null)")); }
    int peer=peers[0]; string got; size_t o=0; bool ok=true;
    size_t where=0; char pick=ref_pick(out,name,&where);
    for (size_t i=0;i<=cuts.size() && ok;i++)
    {
        size_t e=i<cuts.size()?cuts[i]:out.size(); if (e<=o) continue;
        send_all(peer,out.substr(o,e-o)); ok=nodelay_read(fd,got,e-o,20000); o=e;
    }
    if (!ok) { bad("delivered "+show(got,300)+" of "+show(out,300)); mc::finish(); }
    if (got!=out) { bad("delivered "+fu::diffs(got,out)); mc::finish(); }
    if (pick)
    {
        string ans; if (!nodelay_read(peer,ans,1,5000)) { bad("no choice sent for an entry that is there"); mc::finish(); }
        if (ans[0]!=pick) { bad(fmt("chose %c instead of %c",ans[0],pick)); mc::finish(); }
        string g2; size_t half=session.size()/2;
        send_all(peer,session.substr(0,half)); if (!nodelay_read(fd,g2,half,20000)) { bad("session not delivered"); mc::finish(); }
        send_all(peer,session.substr(half)); if (!nodelay_read(fd,g2,session.size()-half,20000)) { bad("session not delivered"); mc::finish(); }
        if (g2!=session) bad("session delivered as "+fu::diffs(g2,session));
    }
    bool eof; string rest, sent;
    if (end==0) // the server ends
    {
        __real_close(peer); peers.clear(); rest=drain(fd,&eof); close(fd);
        if (!eof) { bad("no end after the server has gone"); mc::finish(); }
        if (pick ? rest.size()!=0 : rest.size()<=4||!is_notice(rest)) bad("after the end of the input: "+show(rest));
    }
    else // the viewer leaves; told at the next output
    {
        close(fd); for (int k=0;k<3;k++) { send(peer,"x",1,MSG_NOSIGNAL); usleep(k*2000); }
        sent=drain(peer,&eof,5000); if (!eof) { bad("the connection stays open after the viewer has left"); mc::finish(); }
        if (sent.size()) bad("sent to the server: "+show(sent));
    }
    if (end==0) {}
    after(b,"termcast"); net_reset();
}
static void S05()
{
    signal(SIGPIPE,on_pipe);
    vector<string> names={"bob","bobby","bo","b","bob2","xbob","Bob","bob(1)","a-b_c","o'neil"};
    vector<Entry> E;
    auto entry=[&](int row, char key, const string &name, int style){
        string s=fmt("\r\n\e[%dd",row);
        if (style==0) return s+fmt(" %c) ",key)+name+" (80x25) (idle 3s)";
        if (style==1) return s+fmt("%c) ",key)+"\e[1;33m"+name+"\e[0m (idle)";
        if (style==2) return s+fmt(" %c) \e[32m",key)+name+" \e[m(watchers 1)";
        if (style==3) return s+fmt(" %c) ",key)+name+"\e[0m \e[1m(x)";
        if (style==4) return s+fmt(" %c)  ",key)+name+" (two spaces)";      // not of that form
        if (style==5) return s+fmt(" %c) ",key)+name+"";                      // incomplete
        if (style==6) return s+fmt(" %c) \e[5;",key)+name+" (";               // broken colour
        return s+fmt("%c ",key)+name+" (";
    };
    string head="\e[2J\e[1;1HWelcome\r\nto termcast\r\n", foot="\r\n\e[24d Choose: ";
    string sess="\e[2J\e[Hgame \r\n\e[5d a) bob (fake) \xc3\xa9 \e[0m end";
    auto frags=[&](const string &o, const string &nm, const string &d, int depth){
        if (turn()) s05_one(o,{},nm,sess,0,d+" whole");
        if (turn()) s05_one(o,{},nm,sess,1,d+" whole, viewer leaves");
        { vector<size_t> v; for (size_t i=1;i<o.size();i++) v.push_back(i); if (turn()) s05_one(o,v,nm,sess,0,d+" byte by byte"); }
        for (size_t i=1;i<o.size();i+=depth) if (turn()) s05_one(o,{i},nm,sess,0,d+fmt(" cut at %zu",i));
        if (depth==1) for (size_t i=1;i<o.size();i+=3) for (size_t j=i+1;j<o.size();j+=th()?2:7) if (turn()) s05_one(o,{i,j},nm,sess,0,d+fmt(" cut at %zu %zu",i,j));
    };
    // every entry style, alone
    for (int st=0;st<8;st++) for (auto &n : names) frags(head+entry(2,'a',n,st)+foot,"bob",fmt("style %d, entry %s",st,n.c_str()),st<4&&n=="bob"?1:st<4?2:5);
    // two and three entries, all names, the one looked for
    for (size_t i=0;i<names.size();i++) for (size_t j=0;j<names.size();j++) for (auto nm : {"bob","b","bob2"}) for (int st=0;st<3;st++)
    {
        string o=head+entry(2,'a',names[i],st)+entry(3,'b',names[j],(st+1)%4)+foot;
        if (turn()) s05_one(o,{},nm,sess,(i+j)%2,fmt("entries %s, %s; wanted %s, style %d",names[i].c_str(),names[j].c_str(),nm,st));
        if (turn()) s05_one(o,{head.size()+10,o.size()-25},nm,sess,0,fmt("entries %s, %s; wanted %s, style %d, cut",names[i].c_str(),names[j].c_str(),nm,st));
    }
    // incomplete or odd entries before the good one
    for (int st=0;st<8;st++) for (int st2=0;st2<8;st2++) for (auto n : {"bob","bobby"})
        frags(head+entry(2,'a',n,st)+entry(13,'q',"bob",st2)+foot,"bob",fmt("style %d of %s, then style %d of bob",st,n,st2),9);
    // long menus: the entry around every border of the buffer
    for (int base : {4000,4096,BUFSIZ/2,BUFSIZ,BUFSIZ+4096,3*BUFSIZ}) for (int d=th()?-64:-40;d<=10;d+=th()?1:3) for (int cr=0;cr<2;cr++)
    {
        if (!turn()) continue;
        string pad; for (int i=0;(int)pad.size()<base+d;i++) pad+= cr?fmt("\r\n\e[%dd %c) player%d (80x25)",i%20+2,'a'+i%26,i):fmt("%d ",i); pad.resize(base+d);
        string o=pad+entry(9,'k',"bob",0)+foot; vector<size_t> v; for (size_t i=1000;i<o.size();i+=1000) v.push_back(i); v.push_back(o.size()-60); std::sort(v.begin(),v.end());
        s05_one(o,(base+d)%2?v:vector<size_t>{},"bob",sess,0,fmt("entry after %d bytes of %s",base+d,cr?"other entries":"text"));
    }
    // NULs, telnet negotiation inside the menu is not part of the output
    for (auto z : {string("\r\0\n",3),string("\0",1)}) for (size_t pos : {0ul,5ul}) { string h=head; h.insert(pos,z); frags(h+entry(2,'c',"bob",0)+foot,"bob","NULs",3); }
    // page changes: the menu is drawn again with the person on it
    for (int k=0;k<4;k++) frags(head+entry(2,'a',"x",0)+foot+head+entry(2,'a',"y",1)+entry(3,'b',"bob",k)+foot,"bob",fmt("second page, style %d",k),4);
    // nothing there
    for (auto o : {string(""),string("hello\r\n"),string("\r\n\e[2d"),string("\r\n\e[2d a) bob"),head+foot,string(9000,'x'),string(20000,'\r')}) for (int e=0;e<2;e++) if (turn()) s05_one(o,{},"bob",sess,e,"not there: "+show(o,30));
}

// ---------------------------------------------------------- S07
struct Url { bool err=false, either=false; string host; int port=0; };
static Url ref_url(const string &hp, int def)
{
    Url u; string port; bool hasport=false;
    if (hp.size()&&hp[0]=='[') { size_t k=hp.find(']'); if (k==string::npos) { u.err=true; return u; } u.host=hp.substr(1,k-1); string r=hp.substr(k+1); if (r.size()) { if (r[0]!=':') { u.err=true; return u; } hasport=true; port=r.substr(1); } }
    else { size_t k=hp.rfind(':'); u.host=hp.substr(0,k); if (k!=string::npos) hasport=true, port=hp.substr(k+1); }
    if (!hasport) { if (!def) u.err=true; u.port=def; }
    else
    {
        if (port.empty()) { u.err=true; return u; }
        for (char c : port) if (c<'0'||c>'9') { u.err=true; return u; }
        size_t z=0; while (z+1<port.size()&&port[z]=='0') z++;
        string q=port.substr(z); if (q.size()>5||atoi(q.c_str())<1||atoi(q.c_str())>65535) { u.err=true; return u; }
        u.port=atoi(q.c_str()); if (z) u.either=true; // leading zeros may be refused
    }
    if (u.host.empty()) u.err=true;
    return u;
}
static void s07_one(const char *proto, int def, const string &hp, const string &path)
{
    string url=string(proto)+hp+path;
    start_case(show(url,200)); net_reset(); Before b=before(); const char *err=0;
    int fd=OPEN(-1,url.c_str(),SM_READ,&err);
    Url u=ref_url(hp,def); bool tc=!strncasecmp(proto,"termcast",8); bool nopath=tc && path.size()<2;
    if (fd!=-1) { close(fd); }
    for (int f : peers) { send(f,"zz",2,MSG_NOSIGNAL); shutdown(f,SHUT_RDWR); }
    bool opened=fd!=-1; string r=resolved.size()?resolved[0]:"", con=connected; size_t nr=resolved.size();
    bool fine=after(b,"opening"); net_reset(); if (!fine) return;
    if (!opened && (!err||!*err)) return bad("failed without a reason");
    if (nr>1) return bad("resolved twice");
    string wantr=u.host+fmt(" %d",u.port);
    if (u.err && u.host.empty() && !nr) { if (opened) bad("opened"); return; }
    if (u.err && !u.host.empty()) { if (opened) return bad("opened, connected to "+con+r); if (nr) return bad("resolved "+r+" instead of reporting a malformed address"); return; }
    if (u.either && !opened && !nr) return;
    if (u.host.size()>255 && !opened && !nr) return;   // too long for a name may be refused
    if (u.err) return;
    if (r!=wantr) return bad("resolved "+show(r,300)+" instead of "+show(wantr,300));
    if (opened!=!nopath) return bad(opened?"opened without a name of a session":string("not opened: ")+err);
    if (con!=fmt("7f000001:%d ",u.port)) return bad("connected to "+con);
}
static void S07()
{
    signal(SIGPIPE,on_pipe);
    vector<string> H={"a","host","host.example","HOST","1.2.3.4","0","localhost","h_x-1","[::1]","[1:2::3]","[fe80::1%eth0]","[::ffff:1.2.3.4]","[host]","[1.2.3.4]","[]","[","]","[::1","::1]","[::1]x","[::1]]","[[::1]","[::1][::2]","","a b","h%20","user@host","\xc3\xa9.example"};
    for (size_t n : {63,100,117,118,119,120,121,126,127,128,129,200,250,253,255,300,1024,1025,1090,1099,1100,1101,2000}) { H.push_back(string(n,'h')); if (n<200||n>1000) H.push_back("["+string(n,'1')+"]"); }
    vector<string> P={"",":",":0",":1",":7",":23",":80",":443",":8080",":65535",":65536",":65537",":65559",":99999",":131095",":-1",":-23",":+5",":080",":0000080",":00000000000000000080",": 80",":80 ",":8x",":x",":0x17",":1e1",":2.3",":4294967297",":4294967319",":2147483648",":-4294967273",":18446744073709551615",":18446744073709551617",":99999999999999999999",":99999999999999999999999999",":80:90","::80",":\t80",":٣"};
    vector<string> path={"","/","/x","/bob","/a/b","/x:99","/[y]:5","/x@y","/:80"};
    struct { const char *p; int def; } PR[]={{"tcp://",0},{"telnet://",23},{"termcast://",23},{"TCP://",0},{"Telnet://",23}};
    for (auto &pr : PR) for (auto &h : H) for (auto &po : P) for (auto &pa : path)
    {
        if (!th() && h.size()>40 && (po.size()%3 || pa.size()>2)) { cid++; continue; }
        // an unbracketed host part ends at the first slash; colons inside the host make it ambiguous
        string hp=h+po; if (h.empty()||h[0]!='[') if (std::count(hp.begin(),hp.end(),':')>1) { cid++; continue; }
        if (turn()) s07_one(pr.p,pr.def,hp,pa);
    }
    // all ports
    for (int i=0;i<(th()?70000:0);i++) if (turn()) s07_one("tcp://",0,fmt("h:%d",i),"/p");
    for (int i=65500;i<65600;i++) if (turn()) s07_one("tcp://",0,fmt("h:%d",i),"/p"), s07_one("telnet://",23,fmt("[::1]:%d",i),"/p");
}

// ---------------------------------------------------------- S03
static vector<string> ls() { Pause p; vector<string> v; DIR *d=opendir("."); while (dirent *e=readdir(d)) { struct stat st; stat(e->d_name,&st); v.push_back(string(e->d_name)+fmt(" %lld",S_ISREG(st.st_mode)?(ll)st.st_size:-1)); } closedir(d); std::sort(v.begin(),v.end()); return v; }
static void s03_one(const string &u, int mode, int given, int at, int kinds, int na, int cf, const string &d)
{
    start_case(d);
    for (auto &n : ls()) { string f=n.substr(0,n.rfind(' ')); unlink(f.c_str()); }
    mkdir("dir",0700); put("old.txt","old text"); put("other.txt","other"); put("other.gz",ref_comp(".gz","other")); for (auto &e : EXT) put("old"+e,ref_comp(e,"old text"));
    auto l0=ls();
    net_reset(); naddr=na; conn_fail=cf;
    int gfd=-1; Before b;
    { Pause p; b.f=open_fds(); if (given) gfd=__real_open("/dev/null",O_RDWR,0); }
    live=0; counting=true; b.sp=sigpipes;
    const char *err=0; char *url=0; { Pause p; url=(char*)__real_malloc(u.size()+1); memcpy(url,u.c_str(),u.size()+1); }
    arm(F_MAIN,kinds,at);
    int fd=OPEN(gfd,url,mode,&err);
    disarm();
    { Pause p; memset(url,'#',u.size()); free(url); }
    bool hit=f_hit.size();
    if (hit) mc::stats["faults"]++;
    if (fd==-1)
    {
        if (!err||!*err) bad("failed without a reason ("+f_hit+" failed)");
        // a worker that had been started must end as soon as its peer says something
        for (int f : peers) send(f,"hello\r\n",7,MSG_NOSIGNAL);
        if (peers.size() && workers) { bool eof; for (int k=0;k<2000 && workers;k++) { usleep(1000); for (int f : peers) send(f,"x",1,MSG_NOSIGNAL); } }
        for (int f : peers) { bool eof; drain(f,&eof,2000); if (!eof) bad("connection not closed after a failure ("+f_hit+")"); }
        string what; { Pause p; what="failure of "+(hit?f_hit:string("opening")); }
        after(b,what.c_str()); { Pause p; what=""; what.shrink_to_fit(); }
        auto l1=ls(); string target=strncasecmp(u.c_str(),"file://",7)?u:u.substr(7);
        auto rest=[&](const vector<string> &v){ vector<string> r; for (auto &x : v) if (x.substr(0,x.rfind(' '))!=target) r.push_back(x); return r; };
        if (rest(l0)!=rest(l1)) bad("another file was touched");
        if (!(mode&SM_WRITE) && l0!=l1) bad("opening for reading changed a file");
        if (f_hit=="open" && l0!=l1) bad("a file that could not be opened was changed");
        // the failure is over
        const char *e2=0; int f2=OPEN(-1,"other.gz",SM_READ,&e2); if (f2==-1) bad("after the failure, another stream cannot be opened"); else { string t=drain(f2); close(f2); if (t!="other") bad("after the failure, another stream gives "+show(t)); wait_workers(); }
        mc::stats["failures"]++;
    }
    else
    {
        if (hit && at>=0 && !(f_hit=="socket"||f_hit=="connect")) bad("succeeded though "+f_hit+" failed");
        if (d.find("must fail")!=string::npos) bad("opened");
        // use it a little and close
        for (int f : peers) send(f,"hi",2,MSG_NOSIGNAL), shutdown(f,SHUT_WR);
        if (mode&SM_WRITE) { if (given) {} else send_all(fd,"more"); }
        bool cu=peers.empty() && u.find("://")!=string::npos && strncasecmp(u.c_str(),"file",4);
        if (cu && !(mode&SM_WRITE)) drain(fd);
        close(fd); for (int f : peers) shutdown(f,SHUT_RDWR);
        after(b,"opened and closed");
        if (!given && cu && curl_urls!=u+" ") bad("transferred "+show(curl_urls));
        if (!given && cu && mode==SM_WRITE && u.find(".gz")==string::npos && curl_sent!="more") bad("sent "+show(curl_sent));
        auto l1=ls(); string target=strncasecmp(u.c_str(),"file://",7)?u:u.substr(7);
        auto rest=[&](const vector<string> &v){ vector<string> r; for (auto &x : v) if (x.substr(0,x.rfind(' '))!=target) r.push_back(x); return r; };
        if (rest(l0)!=rest(l1)) bad("another file was touched");
        if (!(mode&SM_WRITE) && l0!=l1) bad("opening for reading changed a file");
        if (mode==SM_APPEND && target=="old.txt" && get("old.txt")!=(given?"old text":"old textmore")) bad("appending gave "+show(get("old.txt")));
        if (mode==SM_WRITE && !given && (target=="old.txt"||target=="new.txt") && get(target)!="more") bad("writing gave "+show(get(target)));
        mc::stats["successes"]++;
    }
    if (given && fd==-1 && fcntl(gfd,F_GETFD)!=-1) __real_close(gfd);
    net_reset();
}
static void S03()
{
    mc::hang_ticks=6;
    signal(SIGPIPE,on_pipe);
    vector<string> U={"old.txt","new.txt","file://old.txt","FILE://new.txt","-","old.gz","old.bz2","old.xz","old.zst","new.gz","new.bz2","new.xz","new.zst","file://old.gz","tcp://h:1","tcp://h:1/x.gz","tcp://[::1]:1","telnet://h","telnet://h:5/x.bz2","telnet://h/x","termcast://h/bob","termcast://h/bob.gz","termcast://h:99/b","http://h/x","ftp://h/x.gz"};
    int kinds=K_OPEN|K_ALLOC|K_NET|K_THREAD|K_DUP;
    for (auto &u : U) for (int mode=0;mode<4;mode++) for (int given=0;given<2;given++) for (int na=1;na<=3;na++)
    {
        bool isnet=u.find("://")!=string::npos && strncasecmp(u.c_str(),"file",4);
        if (na>1 && (!isnet||given||u[0]=='h'||u[0]=='f')) continue;
        for (int at=-1;at<12;at++) for (int cf=0;cf<=(isnet&&na>1?na:0);cf++)
            if (turn()) s03_one(u,mode,given,at,kinds,na,cf,u+fmt(" mode %d%s, call %d fails, %d addresses, %d refuse",mode,given?" with a descriptor":"",at,na,cf));
    }
    for (auto u : {"missing.txt","missing.gz","missing/new.txt","file://missing.txt","missing/file.bz2","dir","dir/","file://dir","old.txt/x","","tcp://","tcp://h","tcp://h:0","tcp://:5","telnet://","termcast://","termcast://h","termcast://h/","file://"})
        for (int mode : {0,2}) if (turn()) s03_one(u,mode,0,-1,0,1,0,string(u)+fmt(" mode %d, must fail",mode));
    for (auto u : {"missing/new.txt","dir","dir/","file://dir","old.txt/x","","telnet://h","termcast://h/b","telnet://","tcp://h","tcp://:5","file://missing/x.gz"})
        for (int mode : {1,3}) if (turn()) s03_one(u,mode,0,-1,0,1,0,string(u)+fmt(" mode %d, must fail",mode));
    // no url, no place for the error
    for (int given=0;given<2;given++) if (turn()) { start_case("no URL"); Before b=before(); int g=given?fcntl(2,F_DUPFD,3):-1; const char *e=0; int fd=OPEN(g,0,SM_READ,&e); if (!given && (fd!=-1||!e||!*e)) bad("not refused"); if (given && fd!=g) bad("refused"); if (fd!=-1) close(fd); after(b,"no URL"); }
    for (auto u : {"missing.txt","missing.gz","dir","tcp://h","telnet://h:x","termcast://h"}) for (int at=-1;at<4;at++) for (auto v : {"","old.gz"}) if (turn())
    { const char *n=*v?v:u; start_case(string("no place for the reason: ")+n+fmt(" call %d",at)); put("old.gz",ref_comp(".gz","x")); net_reset(); Before b=before(); arm(F_MAIN,kinds,at); int fd=OPEN(-1,n,SM_READ,0); disarm(); if (fd!=-1) close(fd); for (int f : peers) shutdown(f,SHUT_RDWR); after(b,"no reason wanted"); net_reset(); }
    if (mc::O.replaying||mc::O.shard==0) if (!mc::O.replaying && !mc::stats["failures"]) bad("no failure was explored");
}

// ---------------------------------------------------------- S08
// one kind of stream, as its other side sees it
struct Kind { const char *pre, *host; };     // the URL: pre + file or path
static const vector<Kind> KINDS={{"","f"},{"file://","f"},{"File://","f"},{"fd","f"},{"-",""},{"tcp://","h:1"},{"TCP://","[::1]:2"},{"telnet://","h"},{"Telnet://","h:24"},{"http://","h"},{"ftp://","u@h:2121"},{"HTTPS://","h"}};
static bool k_file(int k) { return k<3; }
static bool k_sock(int k) { return k>=5&&k<=8; }
static bool k_tel(int k) { return k==7||k==8; }
static bool k_curl(int k) { return k>=9; }
static string k_url(int k, const string &name) { if (k==4) return "-"; if (k<=2) return string(KINDS[k].pre)+name; if (k==3) return name; return string(KINDS[k].pre)+KINDS[k].host+"/"+name; }
static string k_esc(int k, const string &s) { if (!k_tel(k)) return s; string r; for (char c : s) { r+=c; if (c=='\377') r+=c; } return r; }
// the compression a name asks for
static string ref_ext(const string &url)
{ for (auto &e : EXT) if (url.size()>=e.size() && !strcasecmp(url.c_str()+url.size()-e.size(),e.c_str())) return e; return ""; }
// an open stream and what is behind it
struct Str { int k; string url, ext; int fd, src, peer; };  // src: our end of what the code reads or writes
static bool s8_open_r(Str &t, int k, const string &name, const string &raw, const vector<size_t> &cuts, int in)
{
    t.k=k; t.url=k_url(k,name); t.ext=ref_ext(t.url); t.src=t.peer=-1; const char *err="(unset)"; int g=-1;
    if (k_file(k)) put(name,raw);
    if (k==3||k==4)
    {
        Pause z; int p[2]; if (in==0) { if (__real_pipe(p)) _exit(2); t.src=fcntl(p[1],F_DUPFD,450); __real_close(p[1]); }
        else { put("behind",raw); p[0]=__real_open("behind",O_RDONLY,0); }
        if (k==3) g=p[0]; else { dup2(p[0],0); __real_close(p[0]); }
    }
    if (k_curl(k)) { Pause z; pthread_mutex_lock(&wm); curl_by[t.url]={raw,cuts}; pthread_mutex_unlock(&wm); }
    size_t np=peers.size();
    t.fd=OPEN(g,t.url.c_str(),SM_READ,&err);
    if (k==4) { Pause z; int n=__real_open("/dev/null",O_RDWR,0); dup2(n,0); __real_close(n); }
    if (t.fd==-1) { bad("cannot open "+t.url+": "+(err?err:"(null)")); return false; }
    if (k_sock(k)) { if (peers.size()!=np+1) { bad("no connection made"); return false; } t.src=peers.back(); }
    return true;
}
static void s8_pull(const Str &t, string &out, int ms) { Pause z; static char buf[1<<16]; pollfd pf={t.fd,POLLIN,0}; while (epoll_(&pf,ms)>0) { ssize_t k=syscall(SYS_read,t.fd,buf,sizeof buf); if (k<=0) return; out.append(buf,k); ms=0; } }
// deliver to the code and take what comes out
static bool s8_feed(const Str &t, const string &raw, size_t &o, size_t e, string &out)
{
    if (t.src==-1) { o=e; return true; }
    while (o<e)
    {
        size_t n=std::min<size_t>(e-o,30000); if (!send_all(t.src,raw.substr(o,n))) { bad("the reading end has gone"); return false; } o+=n;
        for (int k=0;k<200000;k++) { int left=0; ioctl(t.src,k_sock(t.k)?TIOCOUTQ:FIONREAD,&left); if (!left) break; s8_pull(t,out,0); if (k>200) usleep(50); if (k==199999) { bad("what was sent is not read"); mc::finish(); } }
    }
    return true;
}
static void s8_eof(const Str &t) { if (t.src==-1) return; if (k_sock(t.k)) shutdown(t.src,SHUT_WR); else __real_close(t.src); }
static void s8_read(int k, const string &name, const string &d, const vector<size_t> &cuts, int in, const string &what, bool raw_=false, int fail=0)
{
    start_case("read "+what+" from "+k_url(k,name));
    net_reset(); Before b=before(); string ext=ref_ext(k_url(k,name)), c=ext.size()&&!raw_?ref_comp(ext,d):d, raw=k_esc(k,c), out; Str t;
    vector<size_t> cu; for (size_t x : cuts) if (x<raw.size()) cu.push_back(x);
    curl_fails=fail;
    if (!s8_open_r(t,k,name,raw,cu,in)) { counting=false; return; }
    if (k_sock(k)) { char x; ssize_t n=syscall(SYS_recvfrom,t.src,&x,1,MSG_DONTWAIT,0,0); if (!k_tel(k) && n!=0) bad("the sending side of a stream that is only read is not shut"); if (n>0) bad("something was sent"); }
    size_t o=0; for (size_t i=0;i<=cu.size();i++) { size_t e=i<cu.size()?cu[i]:raw.size(); if (e>o && !s8_feed(t,raw,o,e,out)) { counting=false; return; } if (i==0&&cu.size()==1) s8_pull(t,out,2); }
    s8_eof(t); bool eof; out+=drain(t.fd,&eof); close(t.fd);
    if (!eof) { bad("no end of file"); mc::finish(); }
    if (!after(b,"reading")) return;
    if (fail) { size_t n=std::min(out.size(),d.size()); if (ext.empty() ? out.compare(0,d.size(),d) || !is_notice(out.substr(d.size())) || out.size()==d.size() : out.compare(0,n,d,0,n) || (out.size()>=d.size() && !is_notice(out.substr(d.size())))) bad("failed transfer gives "+fu::diffs(out,d)); }
    else if (out!=d) bad("delivered "+fu::diffs(out,d));
    if (k_curl(k) && curl_urls!=t.url+" ") bad("asked for "+show(curl_urls));
    if (k_file(k) && get(name)!=raw) bad("the file was changed");
    net_reset();
}
static void s8_write(int k, const string &name, const vector<string> &pieces, int mode, const string &old, const string &what)
{
    start_case((mode==SM_APPEND?"append ":"write ")+what+" to "+k_url(k,name));
    net_reset(); Before b=before(); string url=k_url(k,name), ext=ref_ext(url), got, d; for (auto &p : pieces) d+=p; const char *err="(unset)"; int g=-1, src=-1;
    if (k_file(k)) { Pause z; unlink(name.c_str()); if (old.size()) put(name,old); }
    if (k==3||k==4) { Pause z; put("behind",old); int p=__real_open("behind",O_WRONLY|(old.size()?O_APPEND:0),0); if (k==3) g=p; else { dup2(p,1); __real_close(p); } }
    int fd=OPEN(g,url.c_str(),mode,&err);
    if (k==4) { Pause z; int n=__real_open("/dev/null",O_RDWR,0); dup2(n,1); __real_close(n); }
    if (fd==-1)
    {
        counting=false;
        if (mode==SM_APPEND && k_curl(k)) { if (!err||!*err) bad("refused without a reason"); return; }
        if (k_tel(k)) { if (!err||!*err) bad("refused without a reason"); for (int f : peers) { bool e; drain(f,&e,2000); if (!e) bad("refused, but the connection stays"); } net_reset(); return; }
        return bad("cannot open: "+string(err?err:"(null)"));
    }
    if (k_sock(k)) { if (peers.size()!=1) { bad("no connection made"); mc::finish(); } src=peers[0]; }
    for (auto &p : pieces)
    {
        size_t o=0; while (o<p.size()) { size_t n=std::min<size_t>(p.size()-o,20000); if (!send_all(fd,p.substr(o,n))) { bad("write failed"); mc::finish(); } o+=n;
            if (src!=-1) { Pause z; static char buf[1<<16]; pollfd pf={src,POLLIN,0}; while (epoll_(&pf,0)>0) { ssize_t r=syscall(SYS_read,src,buf,sizeof buf); if (r<=0) break; got.append(buf,r); } } }
    }
    close(fd); bool eof=true; if (src!=-1) got+=drain(src,&eof);
    if (!eof) { bad("the other side sees no end"); mc::finish(); }
    if (!after(b,"writing")) return;
    if (k_file(k)) got=get(name); else if (k==3||k==4) got=get("behind"); else if (k_curl(k)) got=curl_sent;
    string keep= mode==SM_APPEND||k==3||k==4 ? old : "";
    if (got.compare(0,keep.size(),keep)) return bad("the old contents are damaged: "+fu::diffs(got,keep));
    got.erase(0,keep.size());
    string plain=got; if (ext.size() && !ref_decomp(ext,got,plain)) return bad(fmt("what arrived (%zu bytes) is not well-formed",got.size()));
    if (plain!=d) return bad("arrived: "+fu::diffs(plain,d));
    if (k_curl(k) && curl_urls!=url+" ") bad("sent to "+show(curl_urls));
    net_reset();
}
// two or three streams at once: every order of opening, delivering in two pieces, ending
static void s8_many(const vector<int> &ks, const vector<string> &names, const vector<int> &order, const string &what)
{
    start_case("at once: "+what);
    net_reset(); Before b=before(); size_t n=ks.size(); vector<Str> t(n); vector<string> d(n), raw(n), out(n); vector<int> st(n,0); vector<size_t> o(n,0);
    for (size_t i=0;i<n;i++) { d[i]=texty(3000+700*i,i+5)+noise(200,i)+string(10,'\377')+"end"; string e=ref_ext(k_url(ks[i],names[i])); raw[i]=k_esc(ks[i],e.size()?ref_comp(e,d[i]):d[i]); }
    for (int i : order)
    {
        if (st[i]==0) { if (!s8_open_r(t[i],ks[i],names[i],raw[i],{raw[i].size()/2},0)) { counting=false; mc::finish(); } if (k_curl(ks[i])) for (int q=0;q<40000;q++) { { Pause p; pthread_mutex_lock(&wm); bool in=curl_urls.find(t[i].url+" ")!=string::npos; pthread_mutex_unlock(&wm); if (in) break; } usleep(500); if (q==39999) { bad("no transfer of "+t[i].url); mc::finish(); } } }
        else if (st[i]==1) { size_t h=raw[i].size()/2; if (k_tel(ks[i])) { for (size_t x=0;x<raw[i].size();x++) if (raw[i][x]=='\377' && x++>=h) { h=x; break; } } /* in the middle of an escape */ if (!s8_feed(t[i],raw[i],o[i],h,out[i])) mc::finish(); }
        else if (st[i]==2) { if (!s8_feed(t[i],raw[i],o[i],raw[i].size(),out[i])) mc::finish(); s8_eof(t[i]); }
        else { bool eof; out[i]+=drain(t[i].fd,&eof); close(t[i].fd); if (!eof) { bad("no end of "+t[i].url); mc::finish(); } if (out[i]!=d[i]) bad(t[i].url+" delivered "+fu::diffs(out[i],d[i])); }
        st[i]++;
    }
    after(b,"several streams"); net_reset();
}
// the same for writing
static void s8_manyw(const vector<int> &ks, const vector<string> &names, const vector<int> &order, const string &what)
{
    start_case("written at once: "+what);
    net_reset(); Before b=before(); size_t n=ks.size(); vector<string> d(n); vector<int> st(n,0), fd(n,-1), peer(n,-1); const char *err="(unset)";
    for (size_t i=0;i<n;i++) { d[i]=texty(3000+700*i,i+5)+noise(200,i); if (k_file(ks[i])) unlink(names[i].c_str()); }
    for (int i : order)
    {
        string url=k_url(ks[i],names[i]);
        if (st[i]==0) { size_t np=peers.size(); if ((fd[i]=OPEN(-1,url.c_str(),SM_WRITE,&err))==-1) { bad("cannot open "+url); mc::finish(); } if (k_sock(ks[i])) { if (peers.size()!=np+1) { bad("no connection"); mc::finish(); } peer[i]=peers.back(); } }
        else if (st[i]<3) { if (!send_all(fd[i],st[i]==1?d[i].substr(0,1000):d[i].substr(1000))) { bad("write failed"); mc::finish(); } }
        else close(fd[i]);
        st[i]++;
    }
    vector<string> got(n); for (size_t i=0;i<n;i++) if (peer[i]!=-1) { bool eof; got[i]=drain(peer[i],&eof); if (!eof) { bad("no end on "+names[i]); mc::finish(); } }
    if (!after(b,"several streams")) return;
    for (size_t i=0;i<n;i++)
    {
        if (k_file(ks[i])) got[i]=get(names[i]); else if (k_curl(ks[i])) got[i]=curl_sent;
        string e=ref_ext(k_url(ks[i],names[i])), plain=got[i]; if (e.size() && !ref_decomp(e,got[i],plain)) { bad("what arrived on "+names[i]+" is not well-formed"); continue; }
        if (plain!=d[i]) bad(names[i]+" got "+fu::diffs(plain,d[i]));
    }
    net_reset();
}
static void S08()
{
    signal(SIGPIPE,on_pipe);
    vector<string> N={"x","x.gz","x.bz2","x.xz","x.zst","x.GZ","x.Bz2","x.gz.txt","xgz","x.txt.xZ","x.gz.bz2","x.gzip","x.z",".zst","x.ttyrec.gz"};
    vector<std::pair<string,string>> D; for (size_t n : {0,1,2,5,100,4096,8192,8193,40000,70000,200000}) for (int k=0;k<3;k++) if (n||!k) D.push_back({fmt("%zu bytes of kind %d",n,k),dat(k,n,n+k)});
    D.push_back({"255s",string(300,'\377')+"a\377\375\1b"}); D.push_back({"gzip magic","\x1f\x8b"}); D.push_back({"a short line","hello\r\n"});
    for (int k=0;k<(int)KINDS.size();k++) for (auto &n : N)
    {
        if (k==4 && n!="x") continue;
        string url=k_url(k,n), ext=ref_ext(url);
        for (auto &d : D) for (int in=0;in<2;in++)
        {
            if (in && k!=3 && k!=4) continue;
            if (n.size()>6 && d.second.size()>9000 && !th()) continue;
            if (ext.size() && d.second.empty() && k_sock(k)) {}
            if (turn()) s8_read(k,n,d.second,{},in,d.first+(in?", a file":""));
        }
        // every cut of a short text
        if (n.size()<=5) { string s="ab\377c\r\n\0d\x1f\x8b"; s.resize(10); size_t L=(ext.size()?ref_comp(ext,s).size():s.size())+6; for (size_t i=1;i<L;i++) { if (k_file(k)) break; if (turn()) s8_read(k,n,s,{i},0,fmt("10 bytes cut at %zu",i)); if (th()||i%5==1) for (size_t j=i+1;j<L;j+=th()?1:3) if (turn()) s8_read(k,n,s,{i,j},0,fmt("10 bytes cut at %zu, %zu",i,j)); } }
        if (k_curl(k)) for (auto &d : D) if (turn() && (ext.empty()||d.second.size())) s8_read(k,n,d.second,{d.second.size()/3},0,d.first+", then failing",false,1);
    }
    for (int k=0;k<(int)KINDS.size();k++) for (auto &n : N)
    {
        if (k==4 && n!="x") continue;
        string url=k_url(k,n), ext=ref_ext(url);
        for (auto &d : D) for (int md : {SM_WRITE,SM_APPEND}) for (int ol=0;ol<2;ol++)
        {
            if (n.size()>6 && d.second.size()>9000 && !th()) continue;
            string old= ol ? (ext.size()?ref_comp(ext,"old text\r\n"):"old text\r\n") : "";
            if (ol && k>4) continue;
            for (int sp=0;sp<2;sp++) if (turn()) s8_write(k,n,sp?vector<string>{d.second.substr(0,d.second.size()/3),d.second.substr(d.second.size()/3)}:vector<string>{d.second},md,old,d.first+(ol?", something there":"")+(sp?", two writes":""));
        }
    }
    // several at once
    vector<std::pair<int,string>> A={{0,"p"},{1,"q.gz"},{3,"r.bz2"},{5,"s"},{6,"t.zst"},{7,"u"},{8,"v.xz"},{9,"w"},{10,"y.gz"},{3,"z"}};
    vector<vector<int>> O2; { vector<int> v={0,0,0,0,1,1,1,1}; do O2.push_back(v); while (std::next_permutation(v.begin(),v.end())); }
    for (size_t i=0;i<A.size();i++) for (size_t j=0;j<A.size();j++) for (size_t q=0;q<O2.size();q++)
    { if (i==j||(!th()&&(q+i*3+j)%5)) continue; if (turn()) { string w; for (int x : O2[q]) w+='0'+x; s8_many({A[i].first,A[j].first},{A[i].second,A[j].second},O2[q],k_url(A[i].first,A[i].second)+" and "+k_url(A[j].first,A[j].second)+" "+w); } }
    vector<std::pair<int,string>> W={{0,"p"},{1,"q.gz"},{2,"r.bz2"},{5,"s"},{6,"t.zst"},{0,"v.xz"},{9,"w"},{5,"y.gz"}};
    for (size_t i=0;i<W.size();i++) for (size_t j=0;j<W.size();j++) for (size_t q=0;q<O2.size();q++)
    { if (i==j||(!th()&&(q+i*3+j)%5)) continue; if (turn()) { string w; for (int x : O2[q]) w+='0'+x; s8_manyw({W[i].first,W[j].first},{W[i].second,W[j].second},O2[q],k_url(W[i].first,W[i].second)+" and "+k_url(W[j].first,W[j].second)+" "+w); } }
    vector<vector<int>> O3={{0,1,2,0,1,2,0,1,2,0,1,2},{0,1,2,2,1,0,0,1,2,2,1,0},{0,0,0,1,1,1,2,2,2,0,1,2},{0,0,0,0,1,1,1,2,2,2,2,1},{2,1,1,1,0,0,0,0,1,2,2,2}};
    for (size_t i=0;i<A.size();i++) for (size_t j=0;j<i;j++) for (size_t l=0;l<j;l++) for (auto &o : O3) if (turn()) { string w; for (int x : o) w+='0'+x; s8_many({A[i].first,A[j].first,A[l].first},{A[i].second,A[j].second,A[l].second},o,k_url(A[i].first,A[i].second)+", "+k_url(A[j].first,A[j].second)+", "+k_url(A[l].first,A[l].second)+" "+w); }
}

int main(int argc, char **argv)
{
    mc::init(argc,argv);
    { int n=__real_open("/dev/null",O_RDWR,0); dup2(n,0); dup2(n,1); close(n); }   // "-" is written to
    if (fu::__sanitizer_install_malloc_and_free_hooks) fu::__sanitizer_install_malloc_and_free_hooks(on_malloc,on_free);
    if (mc::O.replaying) { size_t k=mc::O.replay.find('#'); mc::O.tier=mc::O.replay.substr(0,k); want=strtoull(mc::O.replay.c_str()+k+1,0,10); }
    const char *w=getenv("VERIF_WORK"); if (w) { if (chdir(w)) { perror(w); return 2; } }
    mkdir("d",0700); if (chdir("d")) { perror("d"); return 2; }
    // warm up what is allocated once
    { before(); int m=fu::memfile(ref_comp(".gz","x")); const char *e; int fd=OPEN(m,"x.gz",SM_READ,&e); if (fd!=-1) { drain(fd); close(fd); } wait_workers(); counting=false; }
    auto &M=mc::O.mode;
    if (M=="S01") S01(); else if (M=="S03") S03(); else if (M=="S04") S04(); else if (M=="S05") S05(); else if (M=="S06") S06(); else if (M=="S07") S07(); else if (M=="S08") S08();
    else { fprintf(stderr,"unknown mode\n"); return 2; }
    mc::finish();
}
