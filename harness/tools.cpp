// U02, U03, U05: termcat, termtime and termrec's choice of its output, each run
// whole in a child process on files in a scratch directory.  A01, A02: time
// arithmetic and colour conversion.
#define _GNU_SOURCE 1
#include "fmtutil.hpp"
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <stdarg.h>
#include <dirent.h>
#include <algorithm>
#include <set>
#include <climits>
#include <bzlib.h>
#include <zlib.h>
#include <lzma.h>
#include <zstd.h>
using namespace fu;
extern "C" { int termcat_main(int, char**); int termtime_main(int, char**); int termrec_main(int, char**); extern int optind; }

static unsigned long long cid=0, want=0;
static bool turn()
{ cid++; return mc::O.replaying ? cid==want : mc::mix(cid)%mc::O.nshards==(unsigned)mc::O.shard; }
static void start_case(const string &d)
{ string s=mc::fmt("%s#%llu ",mc::O.tier.c_str(),cid)+d.substr(0,2000); for (auto &c : s) if (c=='\t'||c=='\n') c=' '; mc::begin_case(s); mc::stats["evals"]++; }
static const char *sig="-";
static void bad(const string &m) { mc::fail(sig,mc::cur,m); }
static bool th() { return mc::thorough(); }

// ---------------------------------------------------------- scratch files
static void wipe()
{
    DIR *d=opendir("."); if (!d) return; vector<string> v; while (dirent *e=readdir(d)) v.push_back(e->d_name); closedir(d);
    for (auto &f : v) if (f!="."&&f!="..") if (unlink(f.c_str())) rmdir(f.c_str());
}
static void put(const string &name, const string &data)
{
    int fd=open(name.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0666); if (fd<0) { perror(name.c_str()); exit(2); }
    size_t o=0; while (o<data.size()) { ssize_t k=write(fd,data.data()+o,data.size()-o); if (k<=0) { perror("write"); exit(2); } o+=k; }
    close(fd);
}
static bool get(const string &name, string &s) { int fd=open(name.c_str(),O_RDONLY); if (fd<0) return false; s=slurp(fd); close(fd); return true; }
static std::set<string> ls() { std::set<string> r; DIR *d=opendir("."); while (dirent *e=readdir(d)) if (e->d_name[0]!='.') r.insert(e->d_name); closedir(d); return r; }

// ---------------------------------------------------------- compression, by the libraries themselves
static const char *CX[]={"",".bz2",".gz",".xz",".zst"};
static string pack(int c, const string &s)
{
    string r;
    if (c==1) { unsigned n=s.size()*2+1000; r.resize(n); BZ2_bzBuffToBuffCompress(&r[0],&n,(char*)s.data(),s.size(),9,0,0); r.resize(n); }
    else if (c==2) { z_stream z; memset(&z,0,sizeof z); deflateInit2(&z,6,Z_DEFLATED,31,8,0); r.resize(s.size()*2+1000); z.next_in=(Bytef*)s.data(); z.avail_in=s.size(); z.next_out=(Bytef*)&r[0]; z.avail_out=r.size(); deflate(&z,Z_FINISH); r.resize(z.total_out); deflateEnd(&z); }
    else if (c==3) { r.resize(s.size()*2+1000); size_t o=0; lzma_easy_buffer_encode(0,LZMA_CHECK_CRC64,0,(uint8_t*)s.data(),s.size(),(uint8_t*)&r[0],&o,r.size()); r.resize(o); }
    else if (c==4) { r.resize(ZSTD_compressBound(s.size())); r.resize(ZSTD_compress(&r[0],r.size(),s.data(),s.size(),3)); }
    else r=s;
    return r;
}
// strict: the whole file is one or more complete streams
static bool unpack(int c, const string &s, string &r)
{
    r=""; char b[65536];
    if (c==0) { r=s; return true; }
    if (c==1)
    {
        size_t p=0; if (s.empty()) return false;
        while (p<s.size())
        {
            bz_stream z; memset(&z,0,sizeof z); BZ2_bzDecompressInit(&z,0,0); z.next_in=(char*)s.data()+p; z.avail_in=s.size()-p; int e;
            do { z.next_out=b; z.avail_out=sizeof b; e=BZ2_bzDecompress(&z); r.append(b,sizeof b-z.avail_out); } while (e==BZ_OK && (z.avail_in||!z.avail_out));
            p=s.size()-z.avail_in; BZ2_bzDecompressEnd(&z); if (e!=BZ_STREAM_END) return false;
        }
        return true;
    }
    if (c==2)
    {
        size_t p=0; if (s.empty()) return false;
        while (p<s.size())
        {
            z_stream z; memset(&z,0,sizeof z); inflateInit2(&z,31); z.next_in=(Bytef*)s.data()+p; z.avail_in=s.size()-p; int e;
            do { z.next_out=(Bytef*)b; z.avail_out=sizeof b; e=inflate(&z,Z_NO_FLUSH); r.append(b,sizeof b-z.avail_out); } while (e==Z_OK);
            p=s.size()-z.avail_in; inflateEnd(&z); if (e!=Z_STREAM_END) return false;
        }
        return true;
    }
    if (c==3)
    {
        lzma_stream z=LZMA_STREAM_INIT; if (lzma_stream_decoder(&z,UINT64_MAX,LZMA_CONCATENATED)) return false; z.next_in=(uint8_t*)s.data(); z.avail_in=s.size(); lzma_ret e;
        do { z.next_out=(uint8_t*)b; z.avail_out=sizeof b; e=lzma_code(&z,LZMA_FINISH); r.append(b,sizeof b-z.avail_out); } while (e==LZMA_OK);
        lzma_end(&z); return e==LZMA_STREAM_END;
    }
    ZSTD_DStream *z=ZSTD_createDStream(); ZSTD_initDStream(z); ZSTD_inBuffer in={s.data(),s.size(),0}; size_t e=1; if (s.empty()) { ZSTD_freeDStream(z); return false; }
    for (;;) { ZSTD_outBuffer o={b,sizeof b,0}; e=ZSTD_decompressStream(z,&o,&in); if (ZSTD_isError(e)) { ZSTD_freeDStream(z); return false; } r.append(b,o.pos); if (in.pos==in.size && o.pos<o.size) break; }
    ZSTD_freeDStream(z); return e==0;
}

// ---------------------------------------------------------- running a program
static volatile int *shared; // set by the stand-ins in the child
struct Res { int status; string out, err; };
struct RunOpt { string in; bool nostdin=false; ll fsize=-1; bool rmcwd=false; int closefd=-1; bool outfull=false; };
static Res run(int (*mn)(int,char**), const vector<string> &args, const RunOpt &o=RunOpt())
{
    static int fo=-1, fe=-1; if (fo<0) fo=memfd_create("out",0), fe=memfd_create("err",0);
    for (int f : {fo,fe}) { if (ftruncate(f,0)) exit(2); lseek(f,0,SEEK_SET); }
    int pi[2]; if (pipe(pi)) { perror("pipe"); exit(2); }
    shared[0]=shared[1]=shared[2]=0;
    fflush(mc::out);
    pid_t p=fork(); if (p<0) { perror("fork"); exit(2); }
    if (!p)
    {
        if (mc::__sanitizer_set_death_callback) mc::__sanitizer_set_death_callback([]{});
        for (int s : {SIGSEGV,SIGABRT,SIGBUS,SIGFPE,SIGILL,SIGALRM}) signal(s,SIG_DFL);
        alarm(30);
        if (o.nostdin) dup2(pi[0],0); else { int f=memfile(o.in); dup2(f,0); close(f); close(pi[1]); }
        if (o.nostdin && pi[1]>2) fcntl(pi[1],F_SETFD,FD_CLOEXEC);
        if (o.outfull) { int f=open("/dev/full",O_WRONLY); dup2(f,1); close(f); } else dup2(fo,1);
        dup2(fe,2); close(fo); close(fe); close(pi[0]); close(fileno(mc::out));
        if (o.fsize>=0) { signal(SIGXFSZ,SIG_IGN); struct rlimit r={(rlim_t)o.fsize,(rlim_t)o.fsize}; setrlimit(RLIMIT_FSIZE,&r); }
        if (o.rmcwd) { if (mkdir("gone",0777)||chdir("gone")||rmdir("../gone")) _exit(96); }
        optind=0;
        vector<char*> av; for (auto &a : args) av.push_back(strdup(a.c_str())); av.push_back(0);
        exit(mn(args.size(),av.data()));
    }
    close(pi[0]); close(pi[1]);
    Res r; int st; while (waitpid(p,&st,0)<0 && errno==EINTR) {}
    r.out=slurp(fo); r.err=slurp(fe);
    r.status=WIFEXITED(st)?WEXITSTATUS(st):1000+WTERMSIG(st);
    mc::stats["runs"]++;
    return r;
}
static bool crashed(const Res &r)
{
    if (r.status==97 || r.status==96) { size_t p=r.err.find("ERROR: "); bad("memory error: "+(p==string::npos?r.err.substr(0,300):r.err.substr(p,300))); return true; }
    if (r.status==1000+SIGALRM) { bad("does not end"); return true; }
    if (r.status>=1000) { bad(mc::fmt("killed by signal %d; ",r.status-1000)+r.err.substr(0,200)); return true; }
    return false;
}

// ---------------------------------------------------------- recordings
enum { ANSI, TTYREC, NH, CAST, CAST1, NFMT };
static const char *EXT[]={".txt",".ttyrec",".nh",".cast",".cast-v1"};
static string jstr(const string &s)
{
    string r="\""; for (unsigned char c : s) if (c=='"'||c=='\\') r+='\\', r+=c; else if (c<32) r+=mc::fmt("\\u%04x",c); else r+=c;
    return r+"\"";
}
static string dec(ll us) { return mc::fmt("%lld.%06lld",us/1000000,us%1000000); }
// what a recording amounts to: pieces with their times from its beginning, and its length
struct Rec { vector<Frame> f; ll len=0; };
// encodes frames (absolute times) by the definition of the format; what a player is to make of it
static string enc(int fm, const vector<Frame> &fr, Rec &r, int w=100, int h=30)
{
    r=Rec(); string s; ll t0=fr.size()?fr[0].t:0;
    switch (fm)
    {
    case ANSI:
        for (auto &x : fr) s+=x.s;
        for (size_t i=0;i<s.size();i+=60) r.f.push_back({r.len,s.substr(i,60)}), r.len+=200000;
        return s;
    case TTYREC:
        for (auto &x : fr) r.f.push_back({x.t-t0,x.s}), r.len=x.t-t0;
        return enc_ttyrec(fr);
    case NH:
        for (auto &x : fr) { ll d=x.t-t0; r.f.push_back({d/10000*10000,x.s}); r.len=d/10000*10000; }
        return enc_nh(fr,t0);
    case CAST: case CAST1:
        r.f.push_back({0,mc::fmt("\e%%G\e[8;%d;%dt",h,w)});
        s=mc::fmt("{\"version\": %d, \"width\": %d, \"height\": %d",fm==CAST?2:1,w,h);
        if (fm==CAST) { if (t0>=1000000) s+=mc::fmt(", \"timestamp\": %lld",t0/1000000); s+="}\n"; }
        else s+=", \"stdout\": [\n";
        ll b=t0/1000000*1000000, last=fm==CAST?0:b; b=fm==CAST?b:0;
        for (size_t i=0;i<fr.size();i++)
        {
            ll t=fr[i].t-(fm==CAST?b:t0/1000000*1000000); r.f.push_back({t,fr[i].s}); r.len=t;
            if (fm==CAST) s+="["+dec(t)+", \"o\", "+jstr(fr[i].s)+"]\n";
            else s+=(i?",\n":"")+("["+dec(fr[i].t-last)+", "+jstr(fr[i].s)+"]"), last=fr[i].t;
        }
        if (fm==CAST1) s+="\n]}\n";
        return s;
    }
    return s;
}
static Rec join(const vector<Rec> &v)
{ Rec r; for (auto &x : v) { for (auto &f : x.f) r.f.push_back({f.t+r.len,f.s}); r.len+=x.len; } return r; }
static void flat(const vector<Frame> &f, string &s, vector<ll> &t) { s=""; t.clear(); for (auto &x : f) { s+=x.s; for (size_t i=0;i<x.s.size();i++) t.push_back(x.t); } }
static size_t sizeseq(const string &s)
{
    const char *pre="\e%G\e[8;"; size_t p=strlen(pre); if (s.compare(0,p,pre)) return 0;
    while (p<s.size()&&isdigit((unsigned char)s[p])) p++;
    if (p>=s.size()||s[p]!=';') return 0;
    p++; while (p<s.size()&&isdigit((unsigned char)s[p])) p++;
    return p<s.size()&&s[p]=='t' ? p+1 : 0;
}
// reads a file strictly and compares it with what it should hold
static string judge(int fm, const string &file, const Rec &should)
{
    string want_s, got_s; vector<ll> want_t, got_t; ll tol=0;
    vector<Frame> sf; for (auto &x : should.f) if (x.s.size()) sf.push_back(x);
    flat(sf,want_s,want_t);
    switch (fm)
    {
    case ANSI:
        return file==want_s?"":"text differs: "+diffs(file,want_s);
    case TTYREC:
    {
        vector<Frame> f; size_t p=0; auto u=[&](size_t q){ return (ll)(uint32_t)((unsigned char)file[q]|(unsigned char)file[q+1]<<8|(unsigned char)file[q+2]<<16|(uint32_t)(unsigned char)file[q+3]<<24); };
        while (p<file.size())
        {
            if (p+12>file.size()) return "not a ttyrec file: incomplete header";
            ll us=u(p+4), n=u(p+8); if (us>=1000000) return "not a ttyrec file: microseconds out of range";
            if (p+12+n>(ll)file.size()) return "not a ttyrec file: incomplete frame";
            f.push_back({u(p)*1000000+us,file.substr(p+12,n)}); p+=12+n;
        }
        flat(f,got_s,got_t);
        if (f.size()) { ll b=f[0].t-(sf.size()?sf[0].t:0); (void)b; }
        break;
    }
    case NH:
    {
        ll t=0; tol=9999; for (size_t i=0;i<file.size();) if (!file[i]) { if (i+5>file.size()) return "not an nh_recorder file: incomplete time"; uint32_t v; memcpy(&v,&file[i+1],4); t=(ll)(int32_t)v*10000; i+=5; } else got_s+=file[i++], got_t.push_back(t);
        break;
    }
    default:
    {
        Cast k=parse_cast(file); if (k.err.size()) return "not a valid asciicast file: "+k.err+": "+show(file,120);
        if (k.version!=(fm==CAST?2:1)) return "wrong version of asciicast";
        vtm::Model m(80,25); if (sf.size()) m.write(sf[0].s);
        if (k.w!=m.sx||k.h!=m.sy) return mc::fmt("header says %lldx%lld, the recording starts with %dx%d",k.w,k.h,m.sx,m.sy);
        size_t n=sf.size()?sizeseq(sf[0].s):0;
        // a character in several pieces is there once its last byte is
        for (size_t i=want_s.size();i-->1;) if ((want_s[i]&0xc0)==0x80) want_t[i-1]=want_t[i];
        want_s.erase(0,n); want_t.erase(want_t.begin(),want_t.begin()+n);
        for (size_t i=1;i<want_t.size();i++) if (want_t[i]<want_t[i-1]) { ll d=want_t[i-1]-want_t[i]; for (size_t j=i;j<want_t.size();j++) want_t[j]+=d; }
        flat(k.ev,got_s,got_t); tol=1;
        if (k.ts) return "a date where none was given";
    }
    }
    if (got_s!=want_s) return "text differs: "+diffs(got_s,want_s);
    for (size_t i=0;i<got_s.size();i++) if (std::abs(got_t[i]-want_t[i])>tol) return mc::fmt("byte %zu (%s) at %lld instead of %lld",i,mc::esc(got_s.substr(i,1)).c_str(),got_t[i],want_t[i]);
    return "";
}

// the extension rules, written down independently
static int comp_of(const string &n) { for (int c=1;c<5;c++) { size_t l=strlen(CX[c]); if (n.size()>l && !strcasecmp(n.c_str()+n.size()-l,CX[c])) return c; } return 0; }
// ---------------------------------------------------------- U02
struct In { int fm, comp; vector<Frame> fr; int kind=0; };     // kind 0: a good file
static const char *BADIN[]={"","missing.ttyrec","missing.nh.gz","dir.ttyrec","dir.txt.bz2","nodir/x.cast","loop.ttyrec",""};
static string inname(size_t i, const In &x) { if (x.kind==7) return string(300,'n')+".ttyrec"; if (x.kind) return BADIN[x.kind]; return mc::fmt("in%zu%s%s",i,EXT[x.fm],CX[x.comp]); }
static bool okfor(int fm, const string &s, bool in)
{
    if (fm==NH && s.find('\0')!=string::npos) return false;
    if (fm>=CAST && !utf8_ok(s)) return false;
    (void)in; return true;
}
static string d_in(const vector<In> &v) { string s; for (size_t i=0;i<v.size();i++) s+=inname(i,v[i]).substr(0,40)+" "+(v[i].kind?"":"{"+fspec(v[i].fr)+"} "); return s; }
static void prepare(const vector<In> &v, vector<string> &args, Rec &should, bool &any)
{
    vector<Rec> rs; any=false;
    for (size_t i=0;i<v.size();i++)
    {
        string n=inname(i,v[i]); args.push_back(n);
        if (v[i].kind) { if (v[i].kind==3||v[i].kind==4) mkdir(n.c_str(),0777); if (v[i].kind==6) { if (symlink(n.c_str(),n.c_str())) {} } continue; }
        Rec r; put(n,pack(v[i].comp,enc(v[i].fm,v[i].fr,r))); rs.push_back(r); any=true;
    }
    should=join(rs);
}
static void u02(const vector<In> &in, int ofm, int ocomp, const char *oname=0)
{
    if (!turn()) return;
    string on=oname?oname:mc::fmt("out%s%s",EXT[ofm],CX[ocomp]);
    start_case("termcat "+d_in(in)+on);
    wipe();
    vector<string> args={"termcat"}; Rec should; bool any; prepare(in,args,should,any); args.push_back(on);
    Res r=run(termcat_main,args);
    if (crashed(r)) return;
    for (size_t i=0;i<in.size();i++)
    {
        bool named=r.err.find(args[i+1])!=string::npos;
        if (in[i].kind && !named) return bad("unreadable input "+args[i+1].substr(0,60)+" not mentioned: "+mc::esc(r.err.substr(0,200)));
        if (!in[i].kind && named) return bad("complaint about a good input: "+mc::esc(r.err.substr(0,200)));
    }
    if (any && r.status) return bad(mc::fmt("exit status %d: ",r.status)+mc::esc(r.err.substr(0,200)));
    if (!any && !r.status) return bad("exit status 0 although nothing could be read");
    string f=r.out, u;
    if (on!="-") { if (!get(on.compare(0,7,"file://")?on:on.substr(7),f)) return bad("no output file"); if (r.out.size()) return bad("output on standard output: "+show(r.out)); }
    if (!unpack(ocomp,f,u)) return bad("output is not a complete compressed file");
    string e=judge(ofm,u,should); if (e.size()) return bad(e);
    for (size_t i=0;i<in.size();i++) if (!in[i].kind) { string n; Rec x; if (!get(args[i+1],n)||n!=pack(in[i].comp,enc(in[i].fm,in[i].fr,x))) return bad("an input was changed"); }
}
// destinations that do not work
static void u02_dest(const vector<In> &in, const string &dest, bool open_ok, const char *what)
{
    if (!turn()) return;
    start_case(mc::fmt("termcat (%s) ",what)+d_in(in)+dest);
    wipe();
    vector<string> args={"termcat"}; Rec should; bool any; prepare(in,args,should,any); args.push_back(dest.substr(0,300));
    if (dest.find("full.")==0) { if (symlink("/dev/full",dest.c_str())) {} }
    if (dest=="dir.nh") mkdir("dir.nh",0777);
    auto before=ls();
    RunOpt o; if (dest=="-") o.outfull=true;
    Res r=run(termcat_main,args,o);
    if (r.status==1000+SIGPIPE) r.status=1, r.err="x";      // being killed is a failure well reported
    if (crashed(r)) return;
    bool nothing=open_ok&&ls()==before&&judge(ANSI,"",should).empty(); (void)nothing;
    if (!r.status) { if (dest.compare(0,5,"full.")==0 && comp_of(dest)) sig="kf:compressed-output-lost"; bad("exit status 0 although the output could not be written"); sig="-"; return; }
    if (!open_ok && r.err.empty()) return bad("no error message");
    if (!open_ok && ls()!=before) return bad("files created");
}
static void u02_limit(const vector<In> &in, int ofm, ll lim, size_t full)
{
    if (!turn()) return;
    start_case(mc::fmt("termcat, disk full after %lld of %zu bytes, ",lim,full)+d_in(in)+"out"+EXT[ofm]);
    wipe();
    vector<string> args={"termcat"}; Rec should; bool any; prepare(in,args,should,any); args.push_back(string("out")+EXT[ofm]);
    RunOpt o; o.fsize=lim; Res r=run(termcat_main,args,o);
    if (crashed(r)) return;
    if (lim<(ll)full && !r.status) return bad("exit status 0 although the output could not be written");
    if (lim>=(ll)full && r.status) return bad(mc::fmt("exit status %d although the output fits",r.status));
}
static void U02()
{
    const vector<string> T={"a","","\xc3\xa9","\xe4\xb8","\xad","\"\\\n","\e[1mb","\e%G\e[8;24;132t","\e[8;5;9tz","\r\n\x7f\x01",string(1,0),"\xff",pattern(61),pattern(130,3),"],[1.5"};
    const vector<ll> D={0,1,9999,10000,500000,999999,1000000,3600000001LL,-1,-600000};
    const vector<ll> S={0,1700000000999999LL};
    auto pair=[&](const vector<In> &in, int ocomp=0){
        string all; for (auto &x : in) for (auto &f : x.fr) all+=f.s;
        for (int o=0;o<NFMT;o++) if (okfor(o,all,false)) u02(in,o,ocomp);
    };
    auto forms=[&](const vector<Frame> &fr, std::function<void(const In&)> f){
        string all; for (auto &x : fr) all+=x.s; bool back=false; for (size_t i=1;i<fr.size();i++) if (fr[i].t<fr[i-1].t) back=true;
        for (int i=0;i<NFMT;i++)
        {
            if (!okfor(i,all,true)||(back && i!=TTYREC)) continue;
            if (i>=CAST) { bool ok=true; for (auto &x : fr) if (!utf8_ok(x.s)) ok=false; if (!ok) continue; }
            if (i==CAST1 && fr.empty()) {}
            f(In{i,0,fr});
        }
    };
    // no frames, one frame, two frames
    forms({},[&](const In &x){ pair({x}); });
    for (ll s : S) for (auto &a : T)
    {
        forms({{s,a}},[&](const In &x){ pair({x}); });
        for (ll d : D) for (auto &b : T)
        {
            if (s+d<0) continue;
            if (d<0 && s+d<s && !s) continue;
            if (!th() && (mc::mix(cid)%2)) { cid++; continue; }
            // running backwards past the beginning has no meaning without a date
            if (d<0) { forms({{s,a},{s+700000,b},{s+700000+d,a},{s+800000,"e"}},[&](const In &x){ pair({x}); }); continue; }
            forms({{s,a},{s+d,b}},[&](const In &x){ pair({x}); });
        }
    }
    // three frames
    for (auto &a : T) for (auto &b : T) for (auto &c : T) { if (!th() && mc::mix(++cid)%6) continue; forms({{0,a},{999999,b},{1000001,c}},[&](const In &x){ pair({x}); }); }
    // lengths around the buffers of everybody
    for (int n : {1,59,60,61,119,120,121,4083,4084,4085,4095,4096,4097,8192,32767,32768,32769,65535,65536,65537,100000}) for (int m : {1,60,4096,32768,32769,70000})
        forms({{5,pattern(n)},{1000000,pattern(m,7)}},[&](const In &x){ pair({x}); });
    // several inputs
    for (int a=0;a<NFMT;a++) for (int b=0;b<NFMT;b++) for (int k=0;k<6;k++)
    {
        const vector<vector<Frame>> F={{{0,"one"},{999999,"two"}},{{1700000000900000LL,"x"},{1700000003800001LL,"y"}},{},{{3,"z"}},{{0,""},{2000000,"late"},{2500000,""}},{{0,pattern(121)},{400000,"\e%G\e[8;30;90t"}}};
        for (int l=0;l<6;l++) { pair({In{a,0,F[k]},In{b,0,F[l]}}); for (int c=0;c<NFMT;c++) if (th()||mc::mix(cid+c)%4==0) pair({In{a,0,F[k]},In{b,0,F[l]},In{c,0,F[(k+l+1)%6]}}); else cid++; }
    }
    { vector<In> v; for (int i=0;i<12;i++) v.push_back(In{i%NFMT,i%5,{{i*999999LL,mc::fmt("part %d",i)},{i*1999999LL,"-"}}}); for (size_t n=4;n<=12;n++) pair(vector<In>(v.begin(),v.begin()+n),n%5); }
    // long: no accumulating error
    for (ll d : {1LL,3333LL,9999LL,10001LL,333333LL,999999LL,1000001LL}) for (int n : {50,th()?20000:2000})
    { vector<Frame> fr; for (int i=0;i<n;i++) fr.push_back({1000000000123456LL+i*d,string(1,'A'+i%26)}); forms(fr,[&](const In &x){ pair({x}); }); }
    // compression on both sides
    for (int ic=0;ic<5;ic++) for (int oc=0;oc<5;oc++) for (int a=0;a<NFMT;a++) for (int k=0;k<4;k++)
    {
        vector<Frame> fr; if (k==1) fr={{0,"short"},{1500000,"\xc3\xa9"}}; else if (k==2) fr={{0,pattern(40000)},{7,pattern(70000,5)}}; else if (k==3) for (int i=0;i<200;i++) fr.push_back({i*50000LL,pattern(i*11,i)});
        if (k==2 && a==ANSI) continue;
        pair({In{a,ic,fr}},oc);
    }
    // names: the format goes by the last extension, anything else is plain text; "-" is standard output
    for (auto n : {"out","out.ttyrec.old",".ttyrec.x","ttyrec","out.gz.txt","out.ttyrec.txt","-"}) { u02({In{TTYREC,0,{{0,"hello "},{1000000,"there"}}}},ANSI,0,n); }
    for (auto n : {"x.y.ttyrec","out.txt.ttyrec","file://out.ttyrec"}) u02({In{CAST,0,{{0,"hello "},{1000000,"there"}}}},TTYREC,0,n);
    // inputs that cannot be read, at any position
    {
        vector<In> K; K.push_back(In{TTYREC,0,{{0,"good"},{1000000,"bye"}}}); K.push_back(In{CAST,2,{{0,"fine"},{250000,"end"}}}); K.push_back(In{ANSI,0,{}});
        for (int k=1;k<=7;k++) { In x{TTYREC,0,{}}; x.kind=k; K.push_back(x); }
        for (auto &a : K) { pair({a}); for (auto &b : K) { if (a.kind && a.kind==b.kind) continue; pair({a,b}); for (auto &c : K) { if (c.kind && (a.kind==c.kind||b.kind==c.kind)) continue; u02({a,b,c},TTYREC,0); u02({a,b,c},NH,2); if (th()) pair({a,b,c},1); } } }
        vector<vector<In>> V={{K[0]},{K[0],K[1]},{K[0],K[3]},{K[3]},{K[3],K[0]}};
        for (auto &v : V)
        {
            for (auto d : {string("nodir/out.ttyrec"),string("nodir/out.txt.gz"),string("dir.nh"),string("."),string(""),string(300,'x')+".cast",string("in0.ttyrec/out.nh")}) u02_dest(v,d,false,"destination cannot be opened");
            for (auto d : {"full.txt","full.ttyrec","full.nh","full.cast","full.cast-v1","-"}) u02_dest(v,d,true,"disk full");
        }
        for (int n : {0,1,2,50,4095,4096,4097,8192,65536,200000}) for (auto d : {"full.txt","full.ttyrec","full.nh","full.cast","full.cast-v1","-"})
        { if (!n && (!strcmp(d,"full.txt")||!strcmp(d,"full.ttyrec")||!strcmp(d,"-"))) continue; vector<Frame> fr; if (n) fr={{0,pattern(n)}}; u02_dest({In{TTYREC,0,fr}},d,true,"disk full"); }
        for (int n : {1,5000,300000}) for (auto d : {"full.ttyrec.bz2","full.ttyrec.gz","full.ttyrec.xz","full.ttyrec.zst"}) u02_dest({In{TTYREC,0,{{0,pattern(n)}}}},d,true,"disk full");
    }
    // a disk that fills up at any point
    for (int o=0;o<NFMT;o++) for (int big=0;big<2;big++)
    {
        vector<Frame> fr={{0,"abc"},{1500000,"\xc3\xa9\"d"},{2000000,pattern(big?9000:7)},{2500000,"the end"}};
        In x{TTYREC,0,fr}; Rec r; string f=enc(TTYREC,fr,r); vector<string> args={"termcat","in0.ttyrec",string("out")+EXT[o]}; wipe(); put("in0.ttyrec",f);
        Res q=run(termcat_main,args); string g; if (q.status||!get(args[2],g)) { cid++; start_case("termcat, sample for the limits"); bad("conversion failed"); continue; }
        for (size_t l=0;l<=g.size();l++) { if (big && !th()) { size_t m=l%4096; if (m>20&&m<4076&&l+30<g.size()) continue; } u02_limit({x},o,l,g.size()); }
    }
    // too few arguments
    for (int n=0;n<2;n++) if (turn())
    {
        start_case(mc::fmt("termcat with %d arguments",n)); wipe(); vector<string> args={"termcat"}; if (n) args.push_back("only.ttyrec");
        Res r=run(termcat_main,args); if (crashed(r)) continue;
        if (!r.status) bad("exit status 0"); else if (r.err.empty()) bad("no error message"); else if (ls().size()) bad("files created");
    }
}

// ---------------------------------------------------------- U03
static void U03()
{
    const vector<ll> D={0,1,9999,10000,999999,1000000,1000001,59999999,60000000,3599999999LL,86400000000LL,864000000000LL-1,9999999999999LL,3000000000000001LL,-1,-500000,-1000001};
    struct F { string name, data; ll len; bool ok; };
    vector<F> batch; size_t per=1;
    auto flush=[&](bool force){
        if (batch.empty()||(!force && batch.size()<per)) return;
        bool mineis=turn();
        if (mineis)
        {
            string d="termtime"; for (auto &f : batch) d+=" "+f.name.substr(0,30)+mc::fmt("{%lld}",f.len);
            start_case(d); wipe();
            vector<string> args={"termtime"}; bool any=false;
            for (auto &f : batch) { args.push_back(f.name); if (f.ok) put(f.name,f.data), any=true; else if (f.name.compare(0,3,"dir")==0) mkdir(f.name.c_str(),0777); }
            Res r=run(termtime_main,args);
            if (!crashed(r))
            {
                auto lines=mc::split(r.out,'\n'); size_t l=0; bool good=true;
                if (lines.back()!="") bad("last line not terminated"), good=false; else lines.pop_back();
                for (auto &f : batch) if (good)
                {
                    if (!f.ok) { if (r.err.find(f.name)==string::npos) bad("unreadable file not mentioned"), good=false; continue; }
                    if (l>=lines.size()) { bad("no line for "+f.name); good=false; break; }
                    const string &s=lines[l++]; size_t p=0; while (p<s.size()&&s[p]==' ') p++; size_t q=p; while (q<s.size()&&!isspace((unsigned char)s[q])) q++;
                    ll v; string num=s.substr(p,q-p); size_t n=q; while (n<s.size()&&isspace((unsigned char)s[n])) n++;
                    if (s.substr(n)!=f.name) bad("line for another file: "+s), good=false;
                    else if (num.find('.')==string::npos||num.size()-num.find('.')!=7||!dec_us(num,v)) bad("not a time: "+s), good=false;
                    else if (v!=f.len) bad("says "+num+" instead of "+dec(f.len)), good=false;
                }
                bool allok=true; for (auto &f : batch) if (!f.ok) allok=false;
                if (good && l!=lines.size()) bad("additional output: "+lines[l]);
                else if (good && allok && r.err.size()) bad("complains: "+r.err);
                else if (good && r.status!=(any?0:1) && (any||!r.status)) bad(mc::fmt("exit status %d",r.status));
            }
        }
        batch.clear(); per=1+(per%5);
    };
    auto add=[&](int fm, int comp, const vector<Frame> &fr, const char *name=0){
        Rec r; string e=enc(fm,fr,r); if (r.len<0) return;
        batch.push_back({name?name:mc::fmt("f%zu%s%s",batch.size(),EXT[fm],CX[comp]),pack(comp,e),r.len,true}); flush(false);
    };
    auto seqs=[&](const vector<ll> &d, ll s){
        vector<Frame> fr; ll t=s; bool back=false; fr.push_back({t,"A"}); for (size_t i=0;i<d.size();i++) { t+=d[i]; if (d[i]<0) back=true; if (t<0||t>4294967295000000LL) return; fr.push_back({t,string(1,'B'+i%20)}); }
        for (int fm=0;fm<NFMT;fm++)
        {
            if (back && fm!=TTYREC) continue;
            if (fm==ANSI && d.size()>1) continue;
            if (fm==NH && t-s>20000000LL*1000000) continue;
            add(fm,0,fr);
        }
    };
    for (ll s : {0LL,1700000000999999LL,500000LL})
    {
        seqs({},s);
        for (ll a : D) { seqs({a},s); for (ll b : D) { seqs({a,b},s); for (ll c : D) { seqs({a,b,c},s); if (th()) for (ll d : D) seqs({a,b,c,d},s); } } }
    }
    flush(true);
    for (int n=0;n<700;n++) add(ANSI,0,{{0,pattern(n*13)}});
    for (ll d : {1LL,9999LL,10000LL,333333LL,999999LL,1000001LL,59000001LL}) for (int n : {2,10,100,1000,th()?50000:5000}) { vector<Frame> fr; for (int i=0;i<n;i++) fr.push_back({1000000000123456LL+d*i,"x"}); for (int fm=1;fm<NFMT;fm++) { if (fm==NH && d*n>20000000LL*1000000) continue; add(fm,0,fr); } }
    for (int c=0;c<5;c++) for (int fm=0;fm<NFMT;fm++) for (int k=0;k<3;k++) add(fm,c,k==0?vector<Frame>{}:k==1?vector<Frame>{{7,"a"},{8000000,"b"}}:vector<Frame>{{0,pattern(40000)},{86400000001LL,pattern(33000)}});
    flush(true);
    // unreadable files at any position
    vector<std::pair<string,bool>> K={{"a.ttyrec",true},{"b.cast.gz",true},{"c.txt",true},{"missing.ttyrec",false},{"dir.nh",false},{"gone.txt.xz",false},{string(300,'l')+".nh",false}};
    auto mk=[&](int i){
        Rec r; F f; f.name=K[i].first; f.ok=K[i].second; f.len=0;
        if (i==0) f.data=enc(TTYREC,{{0,"x"},{1700000,"y"}},r); else if (i==1) f.data=pack(2,enc(CAST,{{5000000,"x"},{9999999,"y"}},r)); else if (i==2) f.data=enc(ANSI,{},r);
        f.len=r.len; return f;
    };
    per=100;
    for (int a=0;a<7;a++) { batch={mk(a)}; flush(true); per=100; for (int b=0;b<7;b++) { if (a==b) continue; batch={mk(a),mk(b)}; flush(true); per=100; for (int c=0;c<7;c++) if (c!=a&&c!=b) { batch={mk(a),mk(b),mk(c)}; flush(true); per=100; } } }
    if (turn()) { start_case("termtime without arguments"); wipe(); Res r=run(termtime_main,{"termtime"}); if (!crashed(r)) { if (!r.status) bad("exit status 0"); else if (r.err.empty()) bad("no error message"); } }
}

// ---------------------------------------------------------- U05
static bool fixedtime=false; static const time_t NOW=1227790962; // 2008-11-26.23-02-42
extern "C" time_t __real_time(time_t*); extern "C" time_t __wrap_time(time_t *t) { if (!fixedtime) return __real_time(t); if (t) *t=NOW; return NOW; }
extern "C" int __real_gettimeofday(struct timeval*, void*); extern "C" int __wrap_gettimeofday(struct timeval *t, void *z) { if (!fixedtime) return __real_gettimeofday(t,z); t->tv_sec=NOW; t->tv_usec=250000; return 0; }
extern "C" int __real_clock_gettime(clockid_t, struct timespec*); extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!fixedtime||c!=CLOCK_REALTIME) return __real_clock_gettime(c,t); t->tv_sec=NOW; t->tv_nsec=250000000; return 0; }
extern "C" int __wrap_forkpty(int *m, char*, const struct termios*, const struct winsize*)
{
    shared[0]=shared[0]+1; int p[2]; if (pipe(p)) return -1;
    if (write(p[1],"hello\r\n",7)!=7) return -1;
    close(p[1]); *m=p[0]; return 0x3ffffff0;
}
// somebody else creates the chosen name just before the k-th attempt to
static int rival=0, rivalkind=0; // bit k: before attempt k;  0: a file, 1: a dangling link, 2: a directory
static void meddle(const char *p, int fl)
{
    if (!rival || !(fl&O_CREAT) || strncmp(p,"2008-",5)) return;
    int k=shared[1]; shared[1]=k+1; if (!(rival>>k&1)) return;
    if (rivalkind==1) { if (!symlink("elsewhere",p)) shared[2]=shared[2]+1; }
    else if (rivalkind==2) { if (!mkdir(p,0777)) shared[2]=shared[2]+1; }
    else { int fd=syscall(SYS_openat,AT_FDCWD,p,O_CREAT|O_EXCL|O_WRONLY,0600); if (fd>=0) { if (write(fd,"rival",5)==5) shared[2]=shared[2]+1; close(fd); } }
}
extern "C" int __real_open(const char*, int, ...); extern "C" int __wrap_open(const char *p, int fl, ...)
{ mode_t m=0; if (fl&O_CREAT) { va_list a; va_start(a,fl); m=va_arg(a,int); va_end(a); } meddle(p,fl); return __real_open(p,fl,m); }
extern "C" int __real_open64(const char*, int, ...); extern "C" int __wrap_open64(const char *p, int fl, ...)
{ mode_t m=0; if (fl&O_CREAT) { va_list a; va_start(a,fl); m=va_arg(a,int); va_end(a); } meddle(p,fl); return __real_open64(p,fl,m); }
extern "C" int __real_creat(const char*, mode_t); extern "C" int __wrap_creat(const char *p, mode_t m) { meddle(p,O_CREAT); return __real_creat(p,m); }
extern "C" int __real_rename(const char*, const char*); extern "C" int __wrap_rename(const char *p, const char *q) { meddle(q,O_CREAT); return __real_rename(p,q); }
extern "C" FILE *__real_fopen(const char*, const char*); extern "C" FILE *__wrap_fopen(const char *p, const char *m) { meddle(p,*m=='r'?0:O_CREAT); return __real_fopen(p,m); }
static bool dated(const string &n, const string &ext) // date, letters, extensions
{
    const string d="2008-11-26.23-02-42"; if (n.compare(0,d.size(),d)) return false;
    size_t p=d.size(); while (p<n.size()&&islower((unsigned char)n[p])) p++;
    return n.substr(p)==ext;
}
static string fmtext(const string &f) { if (f=="ansi") return ".txt"; if (f=="ttyrec") return ".ttyrec"; if (f=="nh_recorder") return ".nh"; if (f=="asciicast") return ".cast"; if (f=="asciicast-v1") return ".cast-v1"; return ""; }
static string text_of(const string &f, const string &file, bool &ok)
{
    ok=true; string s;
    if (f=="ttyrec") { size_t p=0; while (p<file.size()) { if (p+12>file.size()) { ok=false; return s; } uint32_t n; memcpy(&n,&file[p+8],4); if (p+12+n>file.size()) { ok=false; return s; } s+=file.substr(p+12,n); p+=12+n; } return s; }
    if (f=="nh_recorder") { if (file.empty()||file[0]) { ok=false; return s; } for (size_t i=0;i<file.size();) if (!file[i]) { i+=5; if (i>file.size()) ok=false; } else s+=file[i++]; return s; }
    if (f=="asciicast"||f=="asciicast-v1") { Cast k=parse_cast(file); if (k.err.size()||k.version!=(f=="asciicast"?2:1)) { ok=false; return s; } for (auto &e : k.ev) s+=e.s; return s; }
    if (f=="null") { ok=file.empty(); return s; }
    return file;
}
static string fmt_of(string n, const char *dflt) { int c=comp_of(n); n=n.substr(0,n.size()-strlen(CX[c])); for (auto f : {"ansi","ttyrec","nh_recorder","asciicast","asciicast-v1"}) { string e=fmtext(f); if (n.size()>=e.size() && n.substr(n.size()-e.size())==e) return f; } return dflt; }
struct U5 { vector<string> opts; string format; bool append=false, raw=false; string name; bool noname=true; int exist=0; string content; int openfail=0; bool usage=false; int usage_rc=1; string why; };
static string autoname(int k) { string a; if (k) { k--; int len=1; ll n=26; while (k>=n) k-=n, n*=26, len++; for (int i=0;i<len;i++) a.insert(a.begin(),'a'+k%26), k/=26; } return "2008-11-26.23-02-42"+a; }
static void u05(const U5 &u)
{
    if (!turn()) return;
    vector<string> args={"termrec"}; args.insert(args.end(),u.opts.begin(),u.opts.end()); if (!u.noname) { if (u.name[0]=='-'&&u.name!="-") args.push_back("--"); args.push_back(u.name); }
    string d; for (auto &a : args) d+=a.substr(0,60)+" ";
    start_case(d+mc::fmt("; %d names taken, %zu bytes there%s",u.exist,u.content.size(),u.why.c_str())); wipe();
    string format=u.format.size()?u.format:u.noname?"ttyrec":fmt_of(u.name,"ttyrec");
    string ext=fmtext(format);
    std::map<string,string> was;
    if (u.noname) for (int i=0;i<u.exist;i++) { string c= mc::fmt("old %d",i); string n=autoname(i)+ext; for (auto x : {"",".bz2"}) { put(n+x,c); was[n+x]=c; } }
    else if (u.exist) { string n=u.name.compare(0,7,"file://")?u.name:u.name.substr(7); put(n,u.content); was[n]=u.content; }
    if (u.openfail==3) mkdir("dir.nh",0777);
    fixedtime=true; RunOpt o; o.nostdin=true; o.rmcwd=u.openfail==1; if (u.why=="; disk full") o.outfull=true; Res r=run(termrec_main,args,o); fixedtime=false;
    if (crashed(r)) return;
    int started=shared[0]; auto files=ls();
    if (u.usage)
    {
        if (started) return bad("the program was started");
        if (files.size()!=was.size()) return bad("files created");
        if (u.usage_rc && !r.status) return bad("exit status 0");
        if (!u.usage_rc && r.status) return bad("exit status not 0");
        if ((u.usage_rc?r.err:r.out).empty()) return bad("no message");
        if (u.format.size() && r.err.find(u.format)==string::npos) return bad("the message does not name the format");
        return;
    }
    if (u.openfail)
    {
        if (started) return bad("the output cannot be opened, but the program was started");
        if (!r.status) return bad("the output cannot be opened, exit status 0");
        if (r.err.empty()) return bad("the output cannot be opened, no message");
        if (files.size()!=was.size()+(u.openfail==3)) return bad("files created");
        return;
    }
    if (started!=1) return bad(mc::fmt("the program was started %d times: ",started)+mc::esc(r.err.substr(0,200)));
    if (r.status) return bad(mc::fmt("exit status %d: ",r.status)+mc::esc(r.err.substr(0,200)));
    string file, nm=u.name;
    if (u.noname)
    {
        vector<string> fresh; for (auto &f : files) if (!was.count(f)) fresh.push_back(f);
        if (u.append && fresh.empty() && format=="null") return;
        if (u.append && fresh.empty()) // added to one that was there
        {
            for (auto &w : was) { string c; if (get(w.first,c) && c!=w.second && !c.compare(0,w.second.size(),w.second)) { fresh.push_back(w.first); file=c.substr(w.second.size()); } }
            if (fresh.size()==1) was.erase(fresh[0]);
        }
        if (fresh.size()!=1) return bad(mc::fmt("%zu new files",fresh.size()));
        nm=fresh[0];
        if (!dated(nm,ext+(u.append?"":".bz2")) && !dated(nm,ext+".bz2")) return bad("file named "+nm);
        if (file.empty()) get(nm,file);
    }
    else if (nm=="-") { file=r.out; if (files.size()) return bad("files created"); }
    else { if (nm.compare(0,7,"file://")==0) nm=nm.substr(7); if (!get(nm,file)) return bad("no file "+nm); if (files.size()!=1) return bad("other files created"); }
    for (auto &w : was) { string c; if (!get(w.first,c)) return bad(w.first+" is gone"); if ((u.noname) && c!=w.second) return bad("existing file "+w.first+" was changed"); }
    if (u.append && !u.noname && u.exist) { if (file.compare(0,u.content.size(),u.content)) return bad("what was in the file is gone"); file=file.substr(u.content.size()); }
    string plain; if (!unpack(comp_of(nm),file,plain)) return bad("the file is not compressed as its name says");
    if (nm=="-")
    {
        // both the recording and the program's output
        size_t p=plain.find("hello\r\n"); if (p==string::npos) return bad("no output"); 
        if (format=="ansi" || format=="live") { size_t q=plain.find("hello\r\n",p+1); if (q==string::npos) return bad("the recording is not on standard output"); }
        else { bool any=false; for (size_t q=0;q+7<=plain.size();q++) if (plain.compare(q,7,"hello\r\n")==0) { bool ok; string t=text_of(format,plain.substr(0,q)+plain.substr(q+7),ok); if (ok && t.find("hello\r\n")!=string::npos) any=true; } if (format=="null") any=true; if (!any) return bad("the recording is not on standard output"); }
        return;
    }
    bool ok; string t=text_of(format,plain,ok); if (!ok) return bad("not a valid "+format+" file: "+show(plain));
    if (format=="null") return;
    string rest=t; if (rest.compare(0,3,"\e%G")==0) { if (u.raw) return bad("UTF-8 announced although asked not to"); rest=rest.substr(3); }
    if (rest!="hello\r\n") return bad("recorded "+show(t));
}
static void U05()
{
    setenv("TZ","TST14",1); setenv("SHELL","/bin/sh",1);
    const vector<string> FS={"","ansi","ttyrec","nh_recorder","asciicast","asciicast-v1","live","null","TTYREC"};
    auto low=[](string s) { for (auto &c : s) c=tolower(c); return s; };
    // every order of options in several spellings
    struct Op { vector<string> a; int k; };
    auto opts=[&](const string &f, bool a, bool r, bool e, int style){
        vector<vector<string>> v;
        if (f.size()) v.push_back(style==0?vector<string>{"-f",f}:style==1?vector<string>{"--format="+f}:style==2?vector<string>{"-f"+f}:vector<string>{"--format",f});
        if (a) v.push_back({style&1?"--append":"-a"}); if (r) v.push_back({style&1?"--raw":"-r"}); if (e) v.push_back(style==0?vector<string>{"-e","true"}:style==1?vector<string>{"--exec=true"}:style==2?vector<string>{"-etrue"}:vector<string>{"--exec","true"});
        return v;
    };
    auto each=[&](U5 u, const string &f, bool a, bool r, bool e, bool allorders){
        u.format=low(f); u.append=a; u.raw=r;
        for (int st=0;st<4;st++)
        {
            auto v=opts(f,a,r,e,st); vector<int> ix; for (size_t i=0;i<v.size();i++) ix.push_back(i);
            do { u.opts.clear(); for (int i : ix) u.opts.insert(u.opts.end(),v[i].begin(),v[i].end()); u05(u); } while (allorders && std::next_permutation(ix.begin(),ix.end()));
        }
    };
    for (auto &f : FS) for (int m=0;m<8;m++)
    {
        bool a=m&1, r=m&2, e=m&4;
        U5 u; each(u,f,a,r,e,true);                                            // automatic name
        for (int k : {1,2,3,26,27,28,29}) { u=U5(); u.exist=k; if (th()||m<2) each(u,f,a,r,e,false); }
        for (auto n : {"x","x.ttyrec","x.txt","x.nh","x.cast","x.cast-v1","x.ttyrec.gz","x.nh.bz2","x.cast.xz","x.txt.zst","x.gz","x.ttyrec.old","a b.ttyrec","x.dm2","-x","-.nh","--","file:","tcp:x.gz","-","file://x.ttyrec","file://x.nh.gz","x.TTYREC.GZ"})
        {
            string nm=n; if (nm=="x.TTYREC.GZ") continue;
            for (int ex=0;ex<4;ex++)
            {
                if (ex && nm=="-") continue;
                u=U5(); u.noname=false; u.name=nm; u.exist=ex>0; u.content= ex==1?"":ex==2?"previous content\n":pattern(5000);
                if (!th() && m>=4 && ex>1) continue;
                each(u,f,a,r,e,false);
            }
        }
    }
    // one after another within one second: every one gets a file of its own
    for (auto f : {"","ansi","asciicast","live"}) for (int a=0;a<2;a++)
    {
        if (!turn()) continue;
        int n= !*f&&!a ? th()?19000:800 : 60;
        start_case(mc::fmt("termrec %s %s %d times within a second",a?"-a":"",f,n)); wipe(); std::map<string,string> was; fixedtime=true;
        for (int i=0;i<n;i++)
        {
            vector<string> args={"termrec"}; if (a) args.push_back("-a"); if (*f) args.push_back("-f"), args.push_back(f);
            RunOpt o; o.nostdin=true; Res r=run(termrec_main,args,o); mc::case_no=mc::case_no+1;
            if (crashed(r)) break;
            if (r.status) { bad(mc::fmt("run %d: exit status %d: ",i+1,r.status)+mc::esc(r.err.substr(0,200))); break; }
            auto l=ls(); if (!a && l.size()!=was.size()+1) { bad(mc::fmt("%zu files after %d runs",l.size(),i+1)); break; }
            bool full= i+1==n||i%50==49||i<40; string e;
            string ext=fmtext(*f?f:"ttyrec"); for (auto &x : l) if (!was.count(x) && !dated(x,ext+".bz2") && !(a && dated(x,ext))) e="file named "+x;
            for (auto &x : l) { auto w=was.find(x); if (w!=was.end() && !full) continue; string c; get(x,c); if (w!=was.end() && (a?c.compare(0,w->second.size(),w->second):c.compare(w->second))) e="run "+mc::fmt("%d",i+1)+" changed "+x; was[x]=c; }
            if (e.size()) { bad(e); break; }
        }
        fixedtime=false;
    }
    // somebody else takes the name in the meantime
    for (auto f : {"","ansi","asciicast","live"}) for (int taken : {0,1,3}) for (int kind=0;kind<4;kind++) for (int m=0;m<(th()?64:16);m++)
    {
        if (kind==3 && m>4) continue;
        if (!turn()) continue;
        start_case(mc::fmt("termrec %s, %d names taken, others create %s at attempts %x",f,taken,kind==1||kind==3?"links":kind?"directories":"files",m)); wipe();
        string ext=fmtext(*f?f:"ttyrec"); std::map<string,string> was; for (int i=0;i<taken;i++) { string n=autoname(i)+ext+".bz2"; was[n]="old"; put(n,"old"); }
        if (kind==3) for (int i=0;i<m;i++) { string n=autoname(taken+i)+ext+".bz2"; if (symlink("elsewhere",n.c_str())) exit(2); }
        rival=kind==3?0:m; rivalkind=kind; fixedtime=true; vector<string> args={"termrec"}; if (*f) args.push_back("-f"), args.push_back(f); RunOpt o; o.nostdin=true;
        Res r=run(termrec_main,args,o); fixedtime=false; rival=0; int links=kind==3?m:shared[2]; mc::stats["meddled"]+=links;
        if (!crashed(r))
        {
            if (r.status) { bad(mc::fmt("exit status %d: ",r.status)+mc::esc(r.err.substr(0,200))); continue; }
            int nr=0, nf=0;
            for (auto &n : ls())
            {
                struct stat st; string c; if (lstat(n.c_str(),&st)) continue;
                if (was.count(n)) { get(n,c); if (c!="old") bad("existing "+n+" was changed"); }
                else if (n=="elsewhere") bad("wrote through somebody else's link");
                else if (S_ISLNK(st.st_mode) || S_ISDIR(st.st_mode) || (get(n,c) && c=="rival")) nr++;
                else { nf++; string p; bool ok; if (!dated(n,ext+".bz2")) bad("file named "+n); if (!unpack(1,c,p) || text_of(*f?f:"ttyrec",p,ok).find("hello\r\n")==string::npos) bad(n+" holds something else: "+show(c)); }
            }
            if (nf!=1 || nr!=links) bad(mc::fmt("%d recordings and %d of the %d files of others",nf,nr,links));
        }
    }
    for (int k=0;k<(th()?2000:120);k++) { U5 u; u.exist=k; u05(u); }
    for (int k : {701,702,703,704,728,729}) { U5 u; u.exist=k; u05(u); u.format="ansi"; u.opts={"-f","ansi"}; u05(u); }
    if (th()) for (int k : {18277,18278,18279,18280}) { U5 u; u.exist=k; u05(u); }
    // outputs that cannot be opened
    for (auto &f : FS) for (int m=0;m<8;m++)
    {
        U5 u; u.openfail=1; each(u,f,m&1,m&2,m&4,false);
        for (auto n : {string("nodir/x.ttyrec"),string("nodir/x.nh.gz"),string("dir.nh"),string("."),string(300,'y')+".ttyrec",string("dir.nh/.."),string("dir.nh/no/x"),string("file://nodir/x"),string("tcp://"),string("tcp://:70000"),string("telnet://[::1")})
        { u=U5(); u.openfail=n.find("dir.nh")==0?3:2; u.noname=false; u.name=n; each(u,f,m&1,m&2,m&4,false); }
    }
    // wrong usage: nothing may be touched
    auto wrong=[&](const vector<string> &o, int rc, const char *exist=0){ U5 u; u.usage=true; u.usage_rc=rc; u.opts=o; if (o.size()==2 && o[0]=="-f") u.format=o[1]; else if (!o[0].compare(0,9,"--format=")) u.format=o[0].substr(9); if (exist) u.noname=false, u.name=exist, u.exist=1, u.content="precious"; u05(u); };
    for (auto ex : {(const char*)0,"keep.ttyrec"})
    {
        wrong({"-f","bogus"},1,ex); wrong({"-f",""},1,ex); wrong({"--format=ttyrecx"},1,ex); wrong({"-f","ttyrec","-f","ansi"},1,ex); wrong({"-f","ttyrec","-f","ttyrec"},1,ex); wrong({"-e","a","-e","b"},1,ex);
        wrong({"-q"},1,ex); wrong({"--nosuch"},1,ex); wrong({"-h"},0,ex); wrong({"--help"},0,ex); wrong({"-a","-h"},0,ex); if (ex) wrong({"other.ttyrec"},1,ex); else wrong({"one","two"},1), wrong({"one","two","three"},1), wrong({"-f"},1), wrong({"-e"},1);
        wrong({"-f","dosrecorder"},1,ex); wrong({"-f","auto"},1,ex); wrong({"-f","baudrate"},1,ex);
    }
}

// ---------------------------------------------------------- A01
static ll us(const struct timeval &t) { return (ll)t.tv_sec*1000000+t.tv_usec; }
static string st(ll x) { return mc::fmt("%lld us",x); }
static bool norm(const struct timeval &t) { return t.tv_usec>=0 && t.tv_usec<1000000; }
static void A01()
{
    vector<ll> V; std::set<ll> seen;
    auto add=[&](ll x){ for (ll s : {x,-x}) if (seen.insert(s).second) V.push_back(s); };
    for (ll s : {0LL,1LL,2LL,59LL,60LL,3600LL,86400LL,2147483646LL,2147483647LL,2147483648LL,4294967295LL,1700000000LL}) for (ll u : {0LL,1LL,2LL,499999LL,500000LL,500001LL,999998LL,999999LL}) add(s*1000000+u);
    for (ll x=1;x<1000000;x=x*7/4+1) add(x);
    for (ll x=3;x<4000000000000000LL;x=x*5/2+1) add(x), add(x/1000000*1000000);
    auto one=[&](ll x, ll y){
        struct timeval a=tv(x), b=tv(y), r;
        r=a; tadd(r,b); if (!norm(r)||us(r)!=x+y) { start_case("tadd"); bad(st(x)+" + "+st(y)+" = "+st(us(r))+(norm(r)?"":", not normalised")); }
        r=a; tsub(r,b); if (!norm(r)||us(r)!=x-y) { start_case("tsub"); bad(st(x)+" - "+st(y)+" = "+st(us(r))+(norm(r)?"":", not normalised")); }
        int c=tcmp(a,b); if (c!=(x>y)-(x<y)) { start_case("tcmp"); bad(st(x)+" compared with "+st(y)+" gives "+mc::fmt("%d",c)); }
        mc::stats["evals"]+=3;
    };
    for (ll x : V) { if (!turn()) continue; start_case(mc::fmt("all operands with %lld us",x)); for (ll y : V) one(x,y); }
    // everything around a second
    for (ll x=-1200;x<=1200;x++) { if (!turn()) continue; start_case(mc::fmt("around second borders, %lld",x)); for (ll y=-1200;y<=1200;y++) for (ll o : {0LL,1000000LL,-3000000LL}) one(x+o,y-1000000*(y&1)); }
    if (th()) for (ll x=0;x<1000000;x+=997) { if (!turn()) continue; start_case(mc::fmt("all microseconds with %lld",x)); for (ll y=0;y<1000000;y++) one(x,y); }
    // scaling, by the player's speeds and others
    vector<int> M={1,2,3,5,7,10,33,62,63,100,125,250,333,500,666,750,999,1000,1001,1250,1500,2000,3000,4000,5000,8000,10000,16000,32000,64000,99999,100000,1000000};
    for (int s=1000;s<=64000;s+=th()?1:97) M.push_back(s);
    for (int m : M)
    {
        if (!turn()) continue;
        start_case(mc::fmt("scaling by %d",m));
        auto chk=[&](ll x){
            if ((__int128)(x<0?-x:x)*(m>1000?m:1000)>(__int128)9000000000000000000LL) return;
            struct timeval r=tv(x); __int128 p=(__int128)x*m, e;
            tmul1000(r,m); e=(__int128)us(r)*1000-p; if (!norm(r)||e>=1000||e<=-1000) { start_case("tmul1000"); bad(st(x)+mc::fmt(" * %d / 1000 = ",m)+st(us(r))+(norm(r)?"":", not normalised")); }
            r=tv(x); tdiv1000(r,m); e=(__int128)us(r)*m-(__int128)x*1000; if (!norm(r)||e>=m||e<=-m) { start_case("tdiv1000"); bad(st(x)+mc::fmt(" * 1000 / %d = ",m)+st(us(r))+(norm(r)?"":", not normalised")); }
            mc::stats["evals"]+=2;
        };
        for (ll x : V) chk(x);
        for (ll x=-3000;x<3000;x++) chk(x), chk(x+1000000), chk(x-7000000);
        if (th()) for (ll x=0;x<1000000;x+=31) chk(x), chk(-x);
    }
}

// ---------------------------------------------------------- A02
static void A02()
{
    // the palette, from its definition
    uint32_t pal[256]; const uint32_t base[16]={0x000000,0xaa0000,0x00aa00,0xaa5500,0x0000aa,0xaa00aa,0x00aaaa,0xaaaaaa,0x555555,0xff5555,0x55ff55,0xffff55,0x5555ff,0xff55ff,0x55ffff,0xffffff};
    const int lev[6]={0,0x5f,0x87,0xaf,0xd7,0xff};
    for (int i=0;i<16;i++) pal[i]=base[i];
    for (int i=0;i<216;i++) pal[16+i]=lev[i/36]<<16|lev[i/6%6]<<8|lev[i%6];
    for (int i=0;i<24;i++) pal[232+i]=(8+10*i)*0x10101;
    const uint32_t T16=(uint32_t)VT100_COLOR_16<<24, T256=(uint32_t)VT100_COLOR_256<<24, TRGB=(uint32_t)VT100_COLOR_RGB<<24;
    auto conv=[&](uint32_t c, uint32_t to){ mc::stats["evals"]++; return tty_color_convert(c,to)&0xffffff; };
    if (turn())
    {
        start_case("palette entries");
        for (uint32_t ty : {T16,T256}) for (uint32_t i=0;i<(ty==T16?16u:256u);i++) for (uint32_t extra : {0u,VT100_ATTR_BOLD+0u,(uint32_t)VT100_ATTR_INVERSE,(uint32_t)(VT100_ATTR_UNDERLINE|VT100_ATTR_DIM)})
        {
            uint32_t c=ty|i|extra, r=conv(c,VT100_COLOR_RGB); const char *n=ty==T16?"16":"256";
            if (r!=pal[i]) bad(mc::fmt("colour %u of %s is %06x instead of %06x",i,n,r,pal[i]));
            uint32_t q=conv(c,VT100_COLOR_256); if (q>255||pal[q]!=pal[i]) bad(mc::fmt("colour %u of %s is %06x, becomes %u of 256",i,n,pal[i],q));
            q=conv(c,VT100_COLOR_16); if (q>15) bad(mc::fmt("colour %u of %s becomes %u of 16",i,n,q));
            if (i<16 && i!=3 && pal[q&15]!=pal[i]) bad(mc::fmt("colour %u of %s is %06x, becomes %u of 16",i,n,pal[i],q));
            if (ty==T16 && q!=i) bad(mc::fmt("colour %u of 16 becomes %u of 16",i,q));
            if (ty==T256 && conv(c,VT100_COLOR_256)!=i) bad(mc::fmt("colour %u of 256 becomes %u of 256",i,conv(c,VT100_COLOR_256)));
            if (tty_color_convert(c,VT100_COLOR_OFF)) bad("conversion to no colours");
            // brown, the one oddity, is only approximated
            q=conv(TRGB|pal[i],VT100_COLOR_256); if (q>255||(i!=3 && pal[q]!=pal[i])) bad(mc::fmt("%06x, which is colour %u of 256, becomes %u",pal[i],i,q));
        }
    }
    static int pr[256], pg[256], pb[256]; for (int i=0;i<256;i++) pr[i]=pal[i]>>16, pg[i]=pal[i]>>8&255, pb[i]=pal[i]&255;
    for (uint32_t b=0;b<256;b++)
    {
        if (!turn()) continue;
        start_case(mc::fmt("all RGB colours with red %u",b));
        for (uint32_t c=b<<16;c<(b+1)<<16;c++)
        {
            uint32_t a=conv(TRGB|c,VT100_COLOR_16), q=conv(TRGB|c,VT100_COLOR_256), r=conv(TRGB|c,VT100_COLOR_RGB);
            if (r!=c) { bad(mc::fmt("%06x becomes %06x",c,r)); break; }
            if (a>15||q>255) { bad(mc::fmt("%06x becomes %u of 16, %u of 256",c,a,q)); break; }
            auto ch=[](uint32_t x, int k){ return (int)(x>>k&255); };
            auto far=[&](uint32_t x){ int m=0; for (int k : {0,8,16}) m=std::max(m,std::abs(ch(x,k)-ch(c,k))); return m; };
            auto dist=[&](uint32_t x){ int d[3]; for (int k=0;k<3;k++) d[k]=std::abs(ch(x,k*8)-ch(c,k*8)); int rm=(ch(x,16)+ch(c,16))/2; return 2*d[2]+4*d[1]+3*d[0]+rm*(d[2]-d[0])/256; };
            if (far(pal[a])>128) { bad(mc::fmt("%06x becomes %u of 16, which is %06x",c,a,pal[a])); break; }
            if (far(pal[q])>112) { bad(mc::fmt("%06x becomes %u of 256, which is %06x",c,q,pal[q])); break; }
            if (dist(pal[q])>dist(pal[a])) { bad(mc::fmt("%06x becomes %u of 256, which is %06x; %u of 16, which is %06x, is closer",c,q,pal[q],a,pal[a])); break; }
            int best=1<<30; { int r=ch(c,16), g=ch(c,8), b=ch(c,0); for (int i=0;i<256;i++) { int dr=abs(pr[i]-r), dg=abs(pg[i]-g), db=abs(pb[i]-b); int d=2*dr+4*dg+3*db+(pr[i]+r)/2*(dr-db)/256; best=d<best?d:best; } }
            if (dist(pal[q])>best+300) { bad(mc::fmt("%06x becomes %u of 256, which is %06x, at a distance of %d while there is one at %d",c,q,pal[q],dist(pal[q]),best)); break; }
            if (c==(c&255)*0x10101u)
            {
                uint32_t g=pal[q]; if (g!=(g&255)*0x10101u) { bad(mc::fmt("%06x becomes %06x, not a grey",c,g)); break; }
                g=pal[a]; if (g!=(g&255)*0x10101u) { bad(mc::fmt("%06x becomes %06x of 16, not a grey",c,g)); break; }
                if (far(pal[q])>16) { bad(mc::fmt("%06x becomes %06x, a rather different grey",c,pal[q])); break; }
            }
        }
    }
}

// ---------------------------------------------------------- F10 recordings by name
// runs in the child: F10 <w|p|l|s> <fd or -> <format or 0> <name or 0> <mask of callbacks>
extern "C" { static FILE *f10_e; static ll f10_t; static void f10i(const struct timeval *t, void*) { fprintf(f10_e,"i %lld\n",(ll)t->tv_sec*1000000+t->tv_usec); } static void f10w(const struct timeval *t, void*) { f10_t+=(ll)t->tv_sec*1000000+t->tv_usec; fprintf(f10_e,"w %lld\n",f10_t); } static void f10p(const char *b, int n, void *a) { fprintf(f10_e,"%s %s\n",a==(void*)&f10_t?"p":"wrong argument",mc::esc(string(b,n)).c_str()); } }
static const vector<Frame> F10F={{0,"first \e[1m"},{1500000,"se\xe4\xb8\xad" "cond, a bit longer so that it makes more than sixty characters"},{4000000,"third\n"}};
static int f10_main(int, char **v)
{
    f10_e=fdopen(dup(2),"w"); char op=*v[1]; int fd=*v[2]=='-'?-1:open(v[2],op=='w'||op=='s'?O_RDWR|O_CREAT|O_TRUNC:O_RDONLY,0666); const char *fm=strcmp(v[3],"0")?v[3]:0, *nm=strcmp(v[4],"0")?v[4]:0; int mask=atoi(v[5]);
    if (*v[2]!='-'&&fd==-1) { perror(v[2]); return 9; }
    int low=low_fd();
    if (op=='w')
    {
        recorder r=ttyrec_w_open(fd,fm,nm,0); fprintf(f10_e,"open %d\n",!!r); int ok=1;
        if (r) { for (auto &f : F10F) { struct timeval t=tv(f.t); ok&=ttyrec_w_write(r,&t,f.s.data(),f.s.size()); } ok&=ttyrec_w_close(r); fprintf(f10_e,"ok %d\n",ok); }
    }
    else if (op=='p') { int r=ttyrec_r_play(fd,fm,nm,mask&1?f10i:0,mask&2?f10w:0,mask&4?f10p:0,&f10_t); fprintf(f10_e,"ok %d\n",r); }
    else if (op=='l')
    {
        ttyrec t=ttyrec_load(fd,fm,nm,mask?tty_init(30,5,1):0); fprintf(f10_e,"open %d\n",!!t);
        if (t) { ttyrec_frame f=ttyrec_seek(t,0,0); while (f) { if (f->len) f10_t=(ll)f->t.tv_sec*1000000+f->t.tv_usec, fprintf(f10_e,"w %lld\np %s\n",f10_t,mc::esc(string(f->data,f->len)).c_str()); f=ttyrec_next_frame(t,f); } ttyrec_free(t); }
    }
    else
    {
        ttyrec t=ttyrec_init(0); ll last=0; for (auto &f : F10F) { struct timeval d=tv(f.t-last); last=f.t; ttyrec_add_frame(t,&d,f.s.data(),f.s.size()); }
        fprintf(f10_e,"ok %d\n",ttyrec_save(t,fd,fm,nm,0,0)); ttyrec_free(t);
    }
    if (fd!=-1 && fcntl(fd,F_GETFD)!=-1) fprintf(f10_e,"left open\n");
    (void)low;
    fclose(f10_e); return 0;
}
static const char *f10_low(const string &n, int skip, const char *const *ext, int k) { string a=n.substr(0,n.size()-skip); for (int i=0;i<k;i++) { size_t l=strlen(ext[i]); if (a.size()>=l && !strcasecmp(a.c_str()+a.size()-l,ext[i])) return ext[i]; } return 0; }
static int f10_comp(const string &n) { for (int c=1;c<5;c++) { size_t l=strlen(CX[c]); if (n.size()>=l && !strcasecmp(n.c_str()+n.size()-l,CX[c])) return c; } return 0; }
static void F10()
{
    vector<string> N; for (auto st : {"x","sub/a b","./r.nh","file://z","FILE://q.gz"}) for (auto ex : {"",".txt",".ttyrec",".nh",".cast",".cast-v1",".TTYREC",".Nh",".foo",".nhx","nh",".ttyrec.txt",".dm2"}) for (auto cx : {"",".bz2",".gz",".xz",".zst",".GZ",".gz.bz2",".gzip"}) N.push_back(string(st)+ex+cx);
    const char *WN[]={"ansi","ttyrec","nh_recorder","asciicast","asciicast-v1"}, *RN[]={"baudrate","ttyrec","nh_recorder","asciicast","asciicast"};
    vector<string> FM={"0","ansi","ttyrec","TTYREC","nh_recorder","Asciicast","asciicast-v1","baudrate","auto","AUTO","","nonsense","ttyre","ttyrecc"};
    auto wfmt=[&](const string &fm, const string &nm)->int{ // -1: refused
        if (fm!="0") { for (int i=0;i<5;i++) if (!strcasecmp(WN[i],fm.c_str())) return i; return -1; }
        if (nm=="0") return ANSI;
        static const char *const E[]={".txt",".ttyrec",".nh",".cast",".cast-v1"}; int c=f10_comp(nm); const char *e=f10_low(nm,c?strlen(CX[c]):0,E,5); if (!e) return ANSI; for (int i=0;i<5;i++) if (e==E[i]) return i; return ANSI; };
    // what a reader makes of contents in a format; -1 refused, -2 detects, -3 something else (not judged)
    auto rfmt=[&](const string &fm, const string &nm)->int{
        if (fm!="0") { for (int i=0;i<4;i++) if (!strcasecmp(RN[i],fm.c_str())) return i; if (!strcasecmp(fm.c_str(),"auto")) return -2; return -1; }
        if (nm=="0") return -2;
        static const char *const E[]={".txt",".ttyrec",".nh",".cast",".dm2"}; int c=f10_comp(nm); const char *e=f10_low(nm,c?strlen(CX[c]):0,E,5); if (!e) return -2; for (int i=0;i<4;i++) if (e==E[i]) return i; return -3; };
    auto path=[](const string &n){ return strncasecmp(n.c_str(),"file://",7)?n:n.substr(7); };
    auto fresh=[&]{ wipe(); for (auto d : {"sub"}) { DIR *q=opendir(d); if (q) { vector<string> v; while (dirent *e=readdir(q)) v.push_back(e->d_name); closedir(q); for (auto &f : v) if (f!="."&&f!="..") unlink((string(d)+"/"+f).c_str()); } else mkdir(d,0777); } };
    Rec plain; enc(TTYREC,F10F,plain);
    auto has=[](const Res &r, const char *l){ string e="\n"+r.err; return e.find(string("\n")+l+"\n")!=string::npos; };
    auto parse=[](const string &e, string &text, vector<ll> &times, int &inits, ll &last){ text=""; times.clear(); inits=0; last=0; ll t=0; size_t p=0; while (p<e.size()) { size_t q=e.find('\n',p); if (q==string::npos) q=e.size(); string l=e.substr(p,q-p); p=q+1; if (l[0]=='w'&&l[1]==' ') last=t=atoll(l.c_str()+2); else if (l[0]=='i'&&l[1]==' ') inits++; else if (l[0]=='p'&&l[1]==' ') { string u=mc::unesc(l.substr(2)); text+=u; times.insert(times.end(),u.size(),t); } } };
    for (auto &n : N) for (auto &fm : FM) for (int op=0;op<2;op++) for (int given=0;given<2;given++) for (int old=0;old<2;old++)
    {
        if (old && (given || (&n-&N[0])%3)) continue;
        if (given && n.compare(0,2,"x.") && n!="x") continue;
        if (!th() && n[0]!='x' && fm!="0" && (&n-&N[0]+(&fm-&FM[0]))%7) continue;
        if (!turn()) continue;
        start_case(string(op?"save":"record")+" to "+n+", format "+fm+(given?", with a descriptor":"")+(old?", something there":""));
        fresh(); string pt=path(n); if (old) put(pt,string(100000,'o'));
        put("given","old contents, to be truncated by the caller"); auto l0=ls();
        Res r=run(f10_main,{"f10",op?"s":"w",given?"given":"-",fm,n,"7"});
        if (crashed(r)) continue;
        int f=wfmt(fm,n), c=given?0:f10_comp(n); string got;
        if (f==-1)
        {
            if (has(r,"open 1")||has(r,"ok 1")) { bad("an unknown format is accepted: "+r.err); continue; }
            if (given && has(r,"left open")) { bad("refused, but the descriptor stays open"); continue; }
            if (old ? !get(pt,got)||got!=string(100000,'o') : get(pt,got)) bad("refused, but the file was touched"); continue;
        }
        if (!has(r,"ok 1")) { bad("failed: "+show(r.err,300)); continue; }
        if (has(r,"left open")) { bad("the descriptor stays open"); continue; }
        if (!get(given?"given":pt,got)) { bad("no file"); continue; }
        if (given && get(pt,got)) { bad("a file of that name appeared though a descriptor was given"); continue; }
        if (given) get("given",got);
        string u; if (!unpack(c,got,u)) { bad("not properly compressed: "+show(got)); continue; }
        if (op && f>=CAST) { string e=judge(f,u,plain); if (e.size() && e!="a date where none was given") bad(e); continue; }
        string e=judge(f,u,plain); if (e.size()) bad(string(WN[f])+" expected: "+e);
    }
    for (auto &n : N) for (auto &fm : FM) for (int op=0;op<2;op++) for (int given=0;given<2;given++) for (int is=0;is<5;is++)
    {
        if (n.find("://")!=string::npos && given) continue;
        int rf=rfmt(fm,n); int want= rf==-2 ? (is==NH?ANSI:is==TTYREC||is==ANSI||is>=CAST?is:-3) : rf;
        if (want>=0 && want!=is && !(want==CAST&&is==CAST1) && want!=ANSI) continue;   // a reader given something else: F04
        if (want>=0 && is!=want && want==ANSI && is!=NH) continue;
        if (!th() && n[0]!='x' && fm!="0" && (&n-&N[0]+(&fm-&FM[0])+is)%7) continue;
        if (!th() && given && (&n-&N[0]+(&fm-&FM[0])+is)%3) continue;
        if (rf==-3) continue;
        if (!turn()) continue;
        start_case(string(op?"load":"play")+" "+n+" holding "+WN[is]+", format "+fm+(given?", with a descriptor":""));
        fresh(); Rec rec; string raw=enc(is,F10F,rec); if (want==ANSI && is!=ANSI) { rec=Rec(); for (size_t i=0;i<raw.size();i+=60) rec.f.push_back({rec.len,raw.substr(i,60)}), rec.len+=200000; }
        string pt=path(n); int c=f10_comp(n); put(given?"given":pt,given?raw:pack(c,raw)); if (given) put(pt,"decoy");
        int mask=op?(int)(&n-&N[0])%2:7-(int)((&n-&N[0])+is+(&fm-&FM[0]))%8;
        Res r=run(f10_main,{"f10",op?"l":"p",given?"given":"-",fm,n,mc::fmt("%d",mask)});
        if (crashed(r)) continue;
        if (has(r,"left open")) { bad("the descriptor stays open"); continue; }
        if (rf==-1) { if (has(r,"open 1")||has(r,"ok 1")||r.err.find("\np ")!=string::npos) bad("an unknown format is accepted: "+show(r.err,200)); continue; }
        if (!has(r,op?"open 1":"ok 1")) { bad("failed: "+show(r.err,200)); continue; }
        string t,ws; vector<ll> ti,wt; int in; ll last; parse(r.err,t,ti,in,last); flat(rec.f,ws,wt);
        if (r.err.find("wrong argument")!=string::npos) { bad("the callback's argument is lost"); continue; }
        if (op||(mask&4)) { if (t!=ws) { bad("text: "+diffs(t,ws)); continue; } } else if (t.size()) { bad("output without a callback?"); continue; }
        bool live=rf==-2 && want==ANSI; // shown verbatim as it arrives
        if (!live && (op||(mask&6)==6)) { size_t i=0; while (i<ti.size() && std::abs(ti[i]-wt[i])<=1) i++; if (i<ti.size()) { bad(mc::fmt("byte %zu at %lld instead of %lld",i,ti[i],wt[i])); continue; } }
        if (!op && (mask&2) && rf!=-2 && want!=ANSI && std::abs(last-rec.len)>1) { bad(mc::fmt("%lld us long instead of %lld",last,rec.len)); continue; }
        if (!op && want==TTYREC && (mask&1) && in!=1) { bad("the date is not told"); continue; }
    }
    // what cannot be opened
    for (auto n : {"missing","missing.nh.gz","sub","sub/","nodir/x.ttyrec","nodir/x.bz2","","0","file://","file://nodir/y"}) for (auto &fm : FM) for (auto op : {"w","s","p","l"}) if (turn())
    {
        bool wr=*op=='w'||*op=='s'; if (wr && !strncmp(n,"missing",7)) continue;
        start_case(string("cannot be opened: ")+op+" "+n+", format "+fm); fresh(); auto l0=ls();
        Res r=run(f10_main,{"f10",op,"-",fm,n,"7"}); if (crashed(r)) continue;
        if (has(r,"ok 1")||has(r,"open 1")) bad("reported as success: "+show(r.err,200)); if (r.err.find("p ")==0||r.err.find("\np ")!=string::npos) bad("something is played: "+show(r.err,200));
        if (ls()!=l0) bad("a file appeared");
    }
    // no name but a descriptor
    for (auto &fm : FM) for (auto op : {"w","s","p","l"}) for (int is=0;is<5;is++) if (turn())
    {
        bool wr=*op=='w'||*op=='s'; int f=wr?wfmt(fm,"0"):rfmt(fm,"0"); if (wr && is) continue; if (!wr && f>=0 && f!=is && !(f==CAST&&is==CAST1)) continue; if (!wr && f==-2 && is==NH) continue;
        start_case(string("a descriptor only: ")+op+", format "+fm+" "+WN[is]); fresh(); Rec rec; string raw=enc(is,F10F,rec); put("given",raw);
        Res r=run(f10_main,{"f10",op,"given",fm,"0","7"}); if (crashed(r)) continue;
        if (has(r,"left open")) { bad("the descriptor stays open"); continue; }
        if (f==-1) { if (has(r,"ok 1")||has(r,"open 1")) bad("an unknown format is accepted"); continue; }
        if (!has(r,*op=='l'?"open 1":"ok 1")) { bad("failed: "+show(r.err,200)); continue; }
        if (wr) { string g; get("given",g); string e=judge(f,g,plain); if (e.size() && e!="a date where none was given") bad(e); }
        else { string t,ws; vector<ll> ti,wt; int in; ll last; parse(r.err,t,ti,in,last); flat(rec.f,ws,wt); if (t!=ws) bad("text: "+diffs(t,ws)); }
    }
    // the lists of formats
    for (int w=0;w<2;w++) if (turn())
    {
        start_case(w?"formats for writing":"formats for reading"); auto nm=w?ttyrec_w_get_format_name:ttyrec_r_get_format_name; auto ex=w?ttyrec_w_get_format_ext:ttyrec_r_get_format_ext; auto fd=w?ttyrec_w_find_format:ttyrec_r_find_format;
        std::set<string> s; int n=0; while (nm(n)) { string a=nm(n); if (!s.insert(a).second) bad("twice: "+a); const char *f=fd(a.c_str(),0,0); if (!f||a!=f) bad("not found by its name: "+a); string up=a; for (auto &c : up) c=toupper(c); f=fd(up.c_str(),0,0); if (!f||a!=f) bad("not found in capitals: "+a); const char *e=ex(a.c_str()); if (e) { f=fd(0,(string("x")+e).c_str(),0); if (!f||a!=f) bad("not found by its extension: "+a); f=fd(0,(string("x")+e+".gz").c_str(),0); if (!f||a!=f) bad("not found by its extension and a suffix: "+a); } n++; }
        for (auto a : (w?vector<string>{"ansi","ttyrec","nh_recorder","asciicast","asciicast-v1"}:vector<string>{"baudrate","ttyrec","nh_recorder","asciicast","dosrecorder","live","auto"})) if (!s.count(a)) bad("missing: "+a);
        for (int i : {-1,-2,INT_MIN,n,n+1,1000,INT_MAX}) if (nm(i)) bad(mc::fmt("number %d is a format",i));
        for (auto a : {"nonsense","","ttyre","ttyrecc"}) if (ex(a)||fd(a,0,0)||fd(a,"x.ttyrec","ttyrec")||fd(0,"x.foo",a)) bad(string("found: ")+a);
        if (fd(0,0,0)) bad("nothing is found by nothing");
    }
}

int main(int argc, char **argv)
{
    mc::init(argc,argv);
    shared=(volatile int*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if (mc::O.replaying) { auto p=mc::O.replay.find('#'); mc::O.tier=mc::O.replay.substr(0,p); want=strtoull(mc::O.replay.c_str()+p+1,0,10); mc::maxfail=1; }
    signal(SIGPIPE,SIG_DFL); setenv("LC_ALL","C.utf8",1);
    string d=getenv("VERIF_WORK")?getenv("VERIF_WORK"):"", tmp;
    if (d.empty()) { char b[]="/tmp/tools.XXXXXX"; if (!mkdtemp(b)) { perror("mkdtemp"); return 2; } tmp=b; d=tmp; }
    d+="/scratch"; if ((mkdir(d.c_str(),0777)&&errno!=EEXIST)||chdir(d.c_str())) { perror(d.c_str()); return 2; }
    if (mc::O.mode=="U02") U02(); else if (mc::O.mode=="U03") U03(); else if (mc::O.mode=="U05") U05(); else if (mc::O.mode=="A01") A01(); else if (mc::O.mode=="F10") F10(); else if (mc::O.mode=="A02") A02();
    else { fprintf(stderr,"unknown mode\n"); return 2; }
    wipe(); if (chdir("/")) {} rmdir(d.c_str()); if (tmp.size()) rmdir(tmp.c_str());
    mc::finish();
}
