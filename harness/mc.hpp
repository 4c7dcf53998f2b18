// Common machinery of all harnesses: options, shards, case bookkeeping, crash
// and hang reporting, statistics.  Output protocol (stdout, one record a line):
//   STAT <name> <n>          counters, summed over shards by check.py
//   MAXSTAT <name> <n>       maximum over shards
//   SAMPLE <text>            an actual case of this run
//   FAIL\t<sig>\t<spec>\t<msg>   a violation; <spec> replays it
//   CRASH\t<spec>\t<why>     the case under way when the process died
//   DONE                     the shard finished its enumeration
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <time.h>

namespace mc {

struct Opts { std::string mode, tier="quick", replay; bool replaying=false; int shard=0, nshards=1;
    unsigned seed=1; double budget=0; };
inline Opts O;
inline bool thorough() { return O.tier=="thorough"; }

inline FILE *out;                       // private duplicate of stdout
inline std::map<std::string,uint64_t> stats, maxstats;
inline int nfail=0, maxfail=4;

inline char cur[65536];                 // spec of the case under way
inline volatile sig_atomic_t case_no=0; // progress counter for the hang watchdog
inline int hang_ticks=12;               // x5 s without progress = hang
inline std::string (*lazy_spec)()=0;

inline std::string esc(const std::string &s)
{
    std::string r; char b[8];
    for (unsigned char c : s)
        if (c>32 && c<127 && c!='\\' && c!='|') r+=c;
        else snprintf(b, sizeof b, "\\%02x", c), r+=b;
    return r;
}
inline std::string unesc(const std::string &s)
{
    std::string r;
    for (size_t i=0;i<s.size();i++)
        if (s[i]=='\\' && i+2<s.size()+0) r+=(char)strtol(s.substr(i+1,2).c_str(),0,16), i+=2;
        else r+=s[i];
    return r;
}
inline std::vector<std::string> split(const std::string &s, char d)
{
    std::vector<std::string> v; size_t p=0,q;
    while ((q=s.find(d,p))!=std::string::npos) v.push_back(s.substr(p,q-p)), p=q+1;
    v.push_back(s.substr(p)); return v;
}
inline std::string join(const std::vector<std::string> &v, const char *d)
{ std::string r; for (size_t i=0;i<v.size();i++) { if (i) r+=d; r+=v[i]; } return r; }

// some of the cases, farther and farther apart
inline std::vector<std::string> samples;
inline uint64_t ncases=0, next_sample=1;
inline void take(const char *s, size_t n)
{
    if (++ncases!=next_sample) return;
    next_sample*=4; std::string r; char b[8];
    for (size_t i=0;i<n && r.size()<300;i++) if (s[i]>=32 && s[i]<127) r+=s[i]; else snprintf(b, sizeof b, "\\%02x", (unsigned char)s[i]), r+=b;
    samples.push_back(r);
}

inline void begin_case(const std::string &spec)
{
    take(spec.data(), spec.size());
    size_t n=spec.size()<sizeof(cur)-1?spec.size():sizeof(cur)-1;
    memcpy(cur, spec.data(), n); cur[n]=0; case_no=case_no+1;
}
inline void begin_case(const char *spec, size_t n)
{ take(spec, n); if (n>sizeof(cur)-1) n=sizeof(cur)-1; memcpy(cur, spec, n); cur[n]=0; case_no=case_no+1; }

inline void wr(const char *s) { size_t n=strlen(s); while (n) { ssize_t k=::write(fileno(out), s, n); if (k<=0) break; s+=k; n-=k; } }
inline void crash(const char *why)
{
    fflush(out);
    wr("CRASH\t"); wr(cur); wr("\t"); wr(why); wr("\n");
}
[[noreturn]] inline void finish(int rc=0)
{
    for (auto &s : stats) fprintf(out, "STAT %s %llu\n", s.first.c_str(), (unsigned long long)s.second);
    for (auto &s : maxstats) fprintf(out, "MAXSTAT %s %llu\n", s.first.c_str(), (unsigned long long)s.second);
    for (size_t i=samples.size()<3?0:samples.size()-3; i<samples.size(); i++) fprintf(out, "SAMPLE %s\n", samples[i].c_str());
    fprintf(out, "DONE\n"); fflush(out); _exit(rc);
}
inline void fail(const std::string &sig, const std::string &spec, std::string msg)
{
    static std::map<std::string,int> kf;    // listed findings neither stop the enumeration nor fill the report
    for (auto &c : msg) if (c=='\n'||c=='\t') c=' ';
    bool k=!sig.compare(0,3,"kf:");
    if (k && kf[sig]++>=2 && !O.replaying) return;
    fprintf(out, "FAIL\t%s\t%s\t%s\n", sig.c_str(), spec.c_str(), msg.c_str()); fflush(out);
    if (!k && ++nfail>=maxfail) finish();
}
inline void fail(std::string msg) { fail("-", cur, msg); }

inline void on_sig(int s)
{
    static const char *names[]={0}; (void)names;
    if (s==SIGABRT) crash("abort (assertion or runtime check)");
    else if (s==SIGSEGV) crash("SIGSEGV"); else if (s==SIGPIPE) crash("SIGPIPE"); else crash("signal");
    _exit(99);
}
inline void on_tick(int)
{
    static sig_atomic_t last=-1; static int same=0;
    if (last==case_no) { if (++same>=hang_ticks) { crash("hang: no progress"); _exit(98); } }
    else last=case_no, same=0;
}
extern "C" void __sanitizer_set_death_callback(void (*cb)(void)) __attribute__((weak));
inline void on_death() { crash("sanitizer report"); }

inline bool mine(uint64_t n) { return O.replaying || (int)(n%O.nshards)==O.shard; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

inline void init(int argc, char **argv)
{
    for (int i=1;i<argc;i++)
    {
        std::string a=argv[i];
        auto val=[&]{ return std::string(i+1<argc?argv[++i]:""); };
        if (a=="--mode") O.mode=val();
        else if (a=="--tier") O.tier=val();
        else if (a=="--shard") { auto v=split(val(),'/'); O.shard=atoi(v[0].c_str()); O.nshards=atoi(v[1].c_str()); }
        else if (a=="--seed") O.seed=atoi(val().c_str());
        else if (a=="--replay") O.replay=val(), O.replaying=true;
        else if (a=="--replayfile") { FILE *f=fopen(val().c_str(),"r"); std::string s; int c; while (f && (c=getc(f))!=EOF && c!='\n') s+=c; if (f) fclose(f); O.replay=s; O.replaying=true; }
        else if (a=="--maxfail") maxfail=atoi(val().c_str());
        else { fprintf(stderr, "bad option %s\n", a.c_str()); exit(2); }
    }
    out=fdopen(dup(1), "w");
    setvbuf(out, 0, _IOFBF, 1<<16);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    else { signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); signal(SIGFPE, on_sig); signal(SIGILL, on_sig); }
    signal(SIGABRT, on_sig);
    signal(SIGALRM, on_tick);
    struct itimerval it={{5,0},{5,0}};
    setitimer(ITIMER_REAL, &it, 0);
}

// 128-bit hash of a byte string (two independent 64-bit mixes)
struct H128 { uint64_t a,b; bool operator==(const H128&o) const { return a==o.a&&b==o.b; } };
struct H128H { size_t operator()(const H128&h) const { return h.a; } };
inline uint64_t mix(uint64_t h) { h^=h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>33; h*=0xc4ceb9fe1a85ec53ULL; h^=h>>33; return h; }
struct Hasher
{
    uint64_t a=0x9e3779b97f4a7c15ULL, b=0xc2b2ae3d27d4eb4fULL;
    void u(uint64_t x) { a=mix(a^x); b=mix(b+x*0x9ddfea08eb382d69ULL+1); }
    void bytes(const void *p, size_t n)
    { const unsigned char *c=(const unsigned char*)p; u(n); while (n>=8) { uint64_t v; memcpy(&v,c,8); u(v); c+=8; n-=8; } uint64_t v=0; memcpy(&v,c,n); u(v); }
    void str(const std::string &s) { bytes(s.data(), s.size()); }
    H128 get() const { return {a,b}; }
};
using Seen = std::unordered_map<H128,int,H128H>;

inline std::string fmt(const char *f, ...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char *f, ...)
{
    va_list ap; va_start(ap,f); char *p; int n=vasprintf(&p,f,ap); va_end(ap);
    std::string s(p,n); free(p); return s;
}

// run f in a process of its own, where nothing has happened before
inline std::string apart(const std::function<std::string()> &f)
{
    int p[2]; if (pipe(p)) return "no pipe"; fflush(out);
    pid_t c=fork(); if (c==-1) return "no process";
    if (!c) { close(p[0]); std::string r="="+f(); for (size_t o=0;o<r.size();) { ssize_t k=write(p[1],r.data()+o,r.size()-o); if (k<=0) break; o+=k; } _exit(0); }
    close(p[1]); std::string r; char b[65536]; ssize_t k; while ((k=read(p[0],b,sizeof b))>0) r.append(b,k); close(p[0]);
    int st; while (waitpid(c,&st,0)==-1 && errno==EINTR) {}
    return r.empty()||st ? fmt("(died, %d)",st) : r.substr(1);
}
}
