// Helpers for recordings: playing through the public interface, reference
// encoders and decoders of the file formats, strict JSON.
#pragma once
#include "mc.hpp"
#include "vtmodel.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <errno.h>
extern "C" {
#include "tty.h"
#include "ttyrec.h"
}
namespace fu {
using std::string; using std::vector;
typedef long long ll;

// ---------------------------------------------------------- allocations
inline volatile long live=0; inline volatile bool counting=false;
inline volatile int cpause=0;   // volatile: the compiler thinks malloc and free do not look at it

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
inline void on_malloc(const volatile void*, size_t) { if (counting && !cpause) live=live+1; }
inline void on_free(const volatile void*p) { if (counting && !cpause && p) live=live-1; }
struct Nocount { Nocount() { cpause=cpause+1; } ~Nocount() { cpause=cpause-1; } };
inline int low_fd() { int f=open("/dev/null",O_RDONLY); close(f); return f; }

inline int memfile(const string &s)
{
    int fd=memfd_create("rec",0);
    if (fd<0) { perror("memfd"); exit(2); }
    size_t o=0; while (o<s.size()) { ssize_t k=write(fd,s.data()+o,s.size()-o); if (k<=0) { perror("memfd write"); exit(2); } o+=k; }
    lseek(fd,0,SEEK_SET);
    return fd;
}
inline string slurp(int fd)
{
    struct stat st; fstat(fd,&st); string s(st.st_size,0);
    size_t o=0; while (o<s.size()) { ssize_t k=pread(fd,&s[o],s.size()-o,o); if (k<=0) break; o+=k; }
    return s;
}

// ---------------------------------------------------------- playback
inline bool lenient=false;   // times of malformed files are not judged
// pieces of output with the time at which they are shown; adjacent pieces shown
// at one moment are one
struct Piece { ll t; string s; bool operator==(const Piece &o) const { return t==o.t && s==o.s; } };
struct Log
{
    bool inited=false; int ninit=0; ll start=0; ll t=0; ll lastwait=0; int nwait=0, nprint=0; bool negwait=false;
    vector<Piece> p; string bad; string lastprint;
    bool raw=false; vector<string> calls;
    string text() const { string s; for (auto &x : p) s+=x.s; return s; }
    void out(const char *b, int n)
    {
        if (n<0) { bad="print of negative length"; return; }
        if (n && p.size() && p.back().t==t) p.back().s.append(b,n);
        else if (n) p.push_back({t,string(b,n)});
    }
    bool operator==(const Log &o) const { return inited==o.inited && start==o.start && p==o.p; }
};
inline void cb_init(const struct timeval *ts, void *a)
{ Nocount n; Log *l=(Log*)a; l->ninit++; l->inited=true; l->start=(ll)ts->tv_sec*1000000+ts->tv_usec; if (l->nwait||l->nprint) l->bad="start announced after the first output"; if (l->raw) l->calls.push_back(mc::fmt("I%lld",l->start)); }
inline void cb_wait(const struct timeval *tv, void *a)
{
    Nocount n; Log *l=(Log*)a; l->nwait++; l->lastwait=(ll)tv->tv_sec*1000000+tv->tv_usec; l->t+=l->lastwait;
    if (!lenient) if (tv->tv_usec<0||tv->tv_usec>=1000000) l->bad=mc::fmt("delay not normalised: %lld s %lld us",(ll)tv->tv_sec,(ll)tv->tv_usec);
    if (l->lastwait<0) l->negwait=true;
    if (l->raw) l->calls.push_back(mc::fmt("W%lld",l->lastwait));
}
inline void cb_print(const char *b, int n, void *a)
{ Nocount c; Log *l=(Log*)a; l->nprint++; l->out(b,n); if (n>0) l->lastprint.assign(b,n); if (l->raw) l->calls.push_back("P"+string(b,n>0?n:0)); }

inline int play_ret;
inline Log play_fd(int fd, const char *format, const char *filename=0, bool raw=false)
{
    Log l; l.raw=raw;
    int lf=low_fd(); struct stat st; bool fdopen_=fstat(fd,&st)==0; (void)fdopen_;
    live=0; counting=true;
    play_ret=ttyrec_r_play(fd,format,filename,cb_init,cb_wait,cb_print,&l);
    counting=false;
    if (live && l.bad.empty()) l.bad=mc::fmt("%ld blocks of memory not released",live);
    if (fcntl(fd,F_GETFD)!=-1 && l.bad.empty()) l.bad="input left open";
    int l2=low_fd(); if (l2>lf && l.bad.empty()) l.bad="a file descriptor left open";
    if (l.ninit>1 && l.bad.empty()) l.bad="start announced twice";
    return l;
}
inline Log play(const string &file, const char *format, const char *filename=0, bool raw=false)
{ return play_fd(memfile(file),format,filename,raw); }

inline string show(const string &s, size_t max=60) { string r=mc::esc(s.substr(0,max)); if (s.size()>max) r+=mc::fmt("...(%zu bytes)",s.size()); return r; }
inline string show(const Log &l)
{
    string r=l.inited?mc::fmt("start %lld;",l.start):string("no start;");
    size_t n=0; for (auto &p : l.p) { if (++n>8) { r+=" ..."; break; } r+=mc::fmt(" @%lld ",p.t)+show(p.s); }
    return r;
}
inline size_t firstdiff(const string &a, const string &b) { size_t i=0; while (i<a.size()&&i<b.size()&&a[i]==b[i]) i++; return i; }
inline string diffs(const string &is, const string &should)
{
    size_t i=firstdiff(is,should), k=i>8?i-8:0;
    return mc::fmt("%zu bytes instead of %zu, first difference at %zu: ",is.size(),should.size(),i)+show(is.substr(k),40)+" should be "+show(should.substr(k),40);
}

// ---------------------------------------------------------- recording
struct Frame { ll t; string s; };      // absolute microseconds
inline struct timeval tv(ll t) { struct timeval v; v.tv_sec=t/1000000; v.tv_usec=t%1000000; if (v.tv_usec<0) v.tv_usec+=1000000, v.tv_sec--; return v; }
inline string rec_err;
// through the real recorder; start: date given, or null
inline string record(const char *format, const vector<Frame> &fr, const ll *start)
{
    rec_err="";
    int fd=memfile(""), keep=dup(fd);
    struct timeval st; if (start) st=tv(*start);
    int lf=low_fd();
    live=0; counting=true;
    recorder r=ttyrec_w_open(fd,format,0,start?&st:0);
    if (!r) { counting=false; rec_err="open failed"; close(keep); return ""; }
    for (auto &f : fr)
    {
        struct timeval t=tv(f.t);
        // an exact-size copy, so that any overrun is seen
        char *b; { Nocount n; b=(char*)malloc(f.s.size()?f.s.size():1); memcpy(b,f.s.data(),f.s.size()); }
        if (!ttyrec_w_write(r,&t,b,f.s.size())) rec_err="write reported failure";
        { Nocount n; free(b); }
    }
    if (!ttyrec_w_close(r)) rec_err="close reported failure";
    counting=false;
    if (live) rec_err=mc::fmt("%ld blocks of memory not released",live);
    if (fcntl(fd,F_GETFD)!=-1) rec_err="file left open", close(fd);
    (void)lf;
    string s=slurp(keep); close(keep);
    return s;
}
inline void le(string &s, uint64_t v, int n) { for (int i=0;i<n;i++) s+=(char)(v>>8*i); }
inline string enc_ttyrec(const vector<Frame> &fr)
{ string s; for (auto &f : fr) { struct timeval t=tv(f.t); le(s,t.tv_sec,4); le(s,t.tv_usec,4); le(s,f.s.size(),4); s+=f.s; } return s; }
inline string enc_nh(const vector<Frame> &fr, ll start)  // times floor-rounded to 10 ms
{ string s; for (auto &f : fr) { s+='\0'; ll d=f.t-start; ll c=d>=0?d/10000:-((-d+9999)/10000); le(s,(uint32_t)c,4); s+=f.s; } return s; }

// ---------------------------------------------------------- strict JSON
struct J { enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t=NUL; string s; vector<J> a; vector<std::pair<string,J>> o;
    const J *get(const char *k) const { for (auto &x : o) if (x.first==k) return &x.second; return 0; } };
inline bool utf8_ok(const string &s)
{
    for (size_t i=0;i<s.size();)
    {
        unsigned char c=s[i]; int n; uint32_t v, min;
        if (c<0x80) { i++; continue; }
        if (c>=0xc2&&c<0xe0) n=1,v=c&31,min=0x80; else if (c>=0xe0&&c<0xf0) n=2,v=c&15,min=0x800; else if (c>=0xf0&&c<0xf5) n=3,v=c&7,min=0x10000; else return false;
        if (i+n>=s.size()+0 && i+n>s.size()-1) return false;
        for (int k=1;k<=n;k++) { unsigned char d=s[i+k]; if ((d&0xc0)!=0x80) return false; v=v<<6|(d&63); }
        if (v<min||v>0x10ffff||(v>=0xd800&&v<0xe000)) return false;
        i+=n+1;
    }
    return true;
}
inline string utf8(uint32_t c)
{
    string s;
    if (c<0x80) s+=(char)c; else if (c<0x800) s+=(char)(0xc0|c>>6), s+=(char)(0x80|(c&63));
    else if (c<0x10000) s+=(char)(0xe0|c>>12), s+=(char)(0x80|(c>>6&63)), s+=(char)(0x80|(c&63));
    else s+=(char)(0xf0|c>>18), s+=(char)(0x80|(c>>12&63)), s+=(char)(0x80|(c>>6&63)), s+=(char)(0x80|(c&63));
    return s;
}
struct JP
{
    const string &s; size_t p=0; string err;
    JP(const string &x) : s(x) {}
    int c() { return p<s.size()?(unsigned char)s[p]:-1; }
    void ws() { while (c()==' '||c()=='\t'||c()=='\n'||c()=='\r') p++; }
    bool fail(const char *e) { if (err.empty()) err=mc::fmt("%s at byte %zu",e,p); return false; }
    bool str(string &r)
    {
        if (c()!='"') return fail("string expected");
        p++; uint32_t hi=0;
        for (;;)
        {
            int k=c(); p++;
            if (k<0) return fail("unterminated string");
            if (k!='\\' && hi) return fail("lone surrogate");
            if (k=='"') return true;
            if (k<32) return fail("raw control character in a string");
            if (k!='\\') { r+=(char)k; continue; }
            k=c(); p++;
            if (k!='u' && hi) return fail("lone surrogate");
            switch (k)
            {
            case '"': case '\\': case '/': r+=(char)k; break;
            case 'b': r+='\b'; break; case 'f': r+='\f'; break; case 'n': r+='\n'; break; case 'r': r+='\r'; break; case 't': r+='\t'; break;
            case 'u':
            {
                uint32_t v=0;
                for (int i=0;i<4;i++) { int d=c(); p++; if (!isxdigit(d)) return fail("bad \\u escape"); v=v*16+(d<='9'?d-'0':(d|32)-'a'+10); }
                if (v>=0xd800&&v<0xdc00) { if (hi) return fail("lone surrogate"); hi=v; }
                else if (v>=0xdc00&&v<0xe000) { if (!hi) return fail("lone surrogate"); r+=utf8(0x10000+((hi&0x3ff)<<10|(v&0x3ff))); hi=0; }
                else { if (hi) return fail("lone surrogate"); r+=utf8(v); }
                break;
            }
            default: return fail("bad escape");
            }
        }
    }
    bool val(J &j, int depth=0)
    {
        if (depth>50) return fail("too deep");
        ws(); int k=c();
        if (k=='"') { j.t=J::STR; return str(j.s); }
        if (k=='{')
        {
            j.t=J::OBJ; p++; ws(); if (c()=='}') { p++; return true; }
            for (;;) { ws(); string n; if (!str(n)) return false; ws(); if (c()!=':') return fail("colon expected"); p++; J v; if (!val(v,depth+1)) return false; j.o.push_back({n,v}); ws(); if (c()==',') { p++; continue; } if (c()=='}') { p++; return true; } return fail("comma or brace expected"); }
        }
        if (k=='[')
        {
            j.t=J::ARR; p++; ws(); if (c()==']') { p++; return true; }
            for (;;) { J v; if (!val(v,depth+1)) return false; j.a.push_back(v); ws(); if (c()==',') { p++; continue; } if (c()==']') { p++; return true; } return fail("comma or bracket expected"); }
        }
        if (k=='-'||isdigit(k))
        {
            j.t=J::NUM; size_t b=p; if (c()=='-') p++;
            if (c()=='0') p++; else if (isdigit(c())) while (isdigit(c())) p++; else return fail("bad number");
            if (c()=='.') { p++; if (!isdigit(c())) return fail("bad number"); while (isdigit(c())) p++; }
            if (c()=='e'||c()=='E') { p++; if (c()=='+'||c()=='-') p++; if (!isdigit(c())) return fail("bad number"); while (isdigit(c())) p++; }
            j.s=s.substr(b,p-b); return true;
        }
        for (auto w : {"true","false","null"}) if (s.compare(p,strlen(w),w)==0) { j.t=*w=='n'?J::NUL:J::BOOL; j.s=w; p+=strlen(w); return true; }
        return fail("value expected");
    }
};
// exact microseconds of a plain decimal number with at most 6 decimals
inline bool dec_us(const string &s, ll &r)
{
    size_t d=s.find('.'); string i=s.substr(0,d), f=d==string::npos?"":s.substr(d+1);
    bool neg=i.size()&&i[0]=='-'; if (neg) i=i.substr(1);
    if (i.empty()||i.size()>12||f.size()>6) return false;
    for (char c : i+f) if (!isdigit((unsigned char)c)) return false;
    while (f.size()<6) f+='0';
    r=atoll(i.c_str())*1000000+atoll(f.c_str()); if (neg) r=-r;
    return true;
}
struct Cast { int version=0; ll w=0,h=0; bool ts=false; ll timestamp=0; vector<Frame> ev; string err; };   // ev times from the start
// strict reading of an asciicast file as the specification says
inline Cast parse_cast(const string &file)
{
    Cast k;
    if (!utf8_ok(file)) { k.err="not valid UTF-8"; return k; }
    auto header=[&](const J &h) {
        const J *v=h.get("version"), *w=h.get("width"), *e=h.get("height"), *t=h.get("timestamp"); ll x;
        if (!v||v->t!=J::NUM||!w||w->t!=J::NUM||!e||e->t!=J::NUM) { k.err="header lacks version, width or height"; return; }
        k.version=atoi(v->s.c_str());
        if (!dec_us(w->s,x)||x%1000000) { k.err="width not a whole number"; return; } k.w=x/1000000;
        if (!dec_us(e->s,x)||x%1000000) { k.err="height not a whole number"; return; } k.h=x/1000000;
        if (t) { if (t->t!=J::NUM||!dec_us(t->s,x)) { k.err="bad timestamp"; return; } k.ts=true; k.timestamp=x; }
        for (size_t i=0;i<h.o.size();i++) for (size_t m=0;m<i;m++) if (h.o[i].first==h.o[m].first) k.err="field repeated";
    };
    JP p(file); J h; if (!p.val(h)||h.t!=J::OBJ) { k.err="header: "+p.err; return k; }
    header(h); if (k.err.size()) return k;
    if (k.version==1)
    {
        const J *so=h.get("stdout"); if (!so||so->t!=J::ARR) { k.err="no stdout array"; return k; }
        ll t=0;
        for (auto &e : so->a)
        {
            ll d; if (e.t!=J::ARR||e.a.size()!=2||e.a[0].t!=J::NUM||e.a[1].t!=J::STR||!dec_us(e.a[0].s,d)) { k.err="bad frame"; return k; }
            if (d<0) { k.err="negative delay"; return k; }
            k.ev.push_back({t+=d,e.a[1].s});
        }
        p.ws(); if (p.p!=file.size()) k.err="junk after the end";
        return k;
    }
    if (k.version!=2) { k.err="unknown version"; return k; }
    if (p.c()!='\n') { k.err="header not one line"; return k; }
    if (file.substr(0,p.p).find('\n')!=string::npos) { k.err="header not one line"; return k; }
    p.p++;
    ll last=0;
    while (p.p<file.size())
    {
        size_t nl=file.find('\n',p.p); if (nl==string::npos) { k.err="last line not terminated"; return k; }
        J e; ll t; if (!p.val(e)) { k.err="event: "+p.err; return k; }
        if (p.p!=nl) { k.err="event not one line"; return k; }
        p.p=nl+1;
        if (e.t!=J::ARR||e.a.size()!=3||e.a[0].t!=J::NUM||!dec_us(e.a[0].s,t)||e.a[1].t!=J::STR||e.a[2].t!=J::STR||e.a[1].s!="o") { k.err="bad event"; return k; }
        if (t<last) { k.err="time goes backwards"; return k; }
        last=t; k.ev.push_back({t,e.a[2].s});
    }
    return k;
}

// frame lists as text:  t:escaped,t:escaped
inline string fspec(const vector<Frame> &fr)
{
    string s; for (auto &f : fr)
    {
        // long runs compressed as #n,c
        string e;
        if (f.s.size()>64) { uint32_t n=f.s.size(); e=mc::fmt("#%u.%02x",n,(unsigned char)f.s[0]); }
        else e=mc::esc(f.s);
        for (auto &c : e) if (c==',') c=';';
        s+=(s.empty()?"":",")+mc::fmt("%lld:",f.t)+e;
    }
    return s;
}
// position-dependent data of a given length, no NUL, plain ASCII
inline string pattern(size_t n, int salt=0)
{ string s(n,0); for (size_t i=0;i<n;i++) s[i]="0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+-"[(i*7+i/61*13+i/4099*29+salt)&63]; return s; }
}
