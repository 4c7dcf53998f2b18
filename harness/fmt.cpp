// F01-F09, M01, M02: recordings, through the public interface (ttyrec.h).
// Every mode is one deterministic enumeration of cases; a case is replayed by
// its number.
#define _GNU_SOURCE 1
#include <set>
#include "fmtutil.hpp"
#include <pthread.h>
#include <sched.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <algorithm>
#include <memory>
using namespace fu;

static unsigned long long cid=0, want=0;
static bool turn()
{ cid++; return mc::O.replaying ? cid==want : mc::mix(cid)%mc::O.nshards==(unsigned)mc::O.shard; }
static void start_case(const string &d)
{ string s=mc::fmt("%s#%llu ",mc::O.tier.c_str(),cid)+d.substr(0,2000); for (auto &c : s) if (c=='\t'||c=='\n') c=' '; mc::begin_case(s); mc::stats["evals"]++; }
static void bad(const string &m) { mc::fail(m); }
static bool th() { return mc::thorough(); }

// ---------------------------------------------------------- virtual clock
static bool vclock=false; static ll vnow;
extern "C" int __real_gettimeofday(struct timeval*, void*);
extern "C" int __wrap_gettimeofday(struct timeval *t, void *z)
{ if (!vclock) return __real_gettimeofday(t,z); *t=tv(vnow); return 0; }
extern "C" int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
extern "C" int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    if (!vclock||!t||r||w||e) return __real_select(n,r,w,e,t);
    if (t->tv_sec<0||t->tv_usec<0||t->tv_usec>=1000000) { bad("select called with an invalid timeout"); errno=EINVAL; return -1; }
    vnow+=(ll)t->tv_sec*1000000+t->tv_usec; return 0;
}
extern "C" int __real_nanosleep(const struct timespec*, struct timespec*);
extern "C" int __wrap_nanosleep(const struct timespec *t, struct timespec *r)
{ if (!vclock) return __real_nanosleep(t,r); vnow+=(ll)t->tv_sec*1000000+t->tv_nsec/1000; return 0; }
extern "C" int __real_usleep(useconds_t);
extern "C" int __wrap_usleep(useconds_t u) { if (!vclock) return __real_usleep(u); vnow+=u; return 0; }

// ---------------------------------------------------------- F01
static string strip_size(const string &s)   // length-checked \e%G\e[8;<n>;<n>t at the start
{
    const char *pre="\e%G\e[8;"; size_t p=strlen(pre);
    if (s.compare(0,p,pre)) return s;
    while (p<s.size()&&isdigit((unsigned char)s[p])) p++;
    if (p>=s.size()||s[p]!=';') return s;
    p++; while (p<s.size()&&isdigit((unsigned char)s[p])) p++;
    if (p>=s.size()||s[p]!='t') return s;
    return s.substr(p+1);
}
static string whole(const vector<Frame> &fr) { string s; for (auto &f : fr) s+=f.s; return s; }

static void f01_one(const char *fm, const vector<Frame> &fr, const ll *start)
{
    start_case(string(fm)+" "+fspec(fr));
    string all=whole(fr);
    bool cast=!strncmp(fm,"asciicast",9), v1=cast&&fm[9];
    string file=record(fm,fr,start);
    if (rec_err.size()) return bad(rec_err);
    string expect=all;
    if (cast)
    {
        vtm::Model m(80,25); if (fr.size()) m.write(fr[0].s);
        Cast k=parse_cast(file);
        if (k.err.size()) return bad("not a valid asciicast file: "+k.err+": "+show(file,200));
        if (k.version!=(v1?1:2)) return bad("wrong version");
        if (k.w!=m.sx||k.h!=m.sy) return bad(mc::fmt("header says %lldx%lld, first frame left the terminal %dx%d",k.w,k.h,m.sx,m.sy));
        string body=fr.size()?strip_size(fr[0].s):""; for (size_t i=1;i<fr.size();i++) body+=fr[i].s;
        string got; for (auto &e : k.ev) got+=e.s;
        if (got!=body) return bad("recorded text differs: "+diffs(got,body));
        expect=mc::fmt("\e%%G\e[8;%d;%dt",m.sy,m.sx)+body;
    }
    else if (!strcmp(fm,"ttyrec")) { string e=enc_ttyrec(fr); if (file!=e) return bad("not a valid ttyrec file: "+diffs(file,e)); }
    else if (!strcmp(fm,"nh_recorder"))
    {
        string got; for (size_t i=0;i<file.size();) if (!file[i]) i+=5; else got+=file[i++];
        if (got!=all) return bad("recorded text differs: "+diffs(got,all));
    }
    else if (file!=all) return bad("file differs: "+diffs(file,all));
    Log l=play(file,cast?"asciicast":!strcmp(fm,"ansi")?"baudrate":fm);
    if (!play_ret) return bad("playback failed");
    if (l.bad.size()) return bad(l.bad);
    if (l.text()!=expect) return bad("played text differs: "+diffs(l.text(),expect));
}
static const char *FM[]={"ansi","ttyrec","nh_recorder","asciicast","asciicast-v1","live"};
static void f01_all(const vector<string> &fs)
{
    vector<Frame> fr; ll t=1000000000500000LL; for (auto &s : fs) fr.push_back({t,s}), t+=100000;
    string all=whole(fr);
    for (auto fm : FM)
    {
        if (!strcmp(fm,"nh_recorder") && all.find('\0')!=string::npos) continue;
        if (!strncmp(fm,"asciicast",9) && !utf8_ok(all)) continue;
        if (!turn()) continue;
        ll st=fr.size()?fr[0].t:0;
        vclock=true; vnow=st;
        f01_one(fm,fr,cid%3==0?0:&st);
        vclock=false;
    }
}
static void F01()
{
    vector<string> tok={"","a","\n","\r","\e","\"","\\","/","\x7f","\x01","\x1f","\b\f\t","u0041","],[","\xc3\xa9","\xc3","\xa9","\xe4","\xb8\xad","\xe4\xb8","\xad","\xf0\x9f","\x98\x80","\xf0","\x9f\x98\x80",
        "\e%G\e[8;30;100t","\e%G\e[8;24;132tx","\e[8;24;132t","\e%G","\e%G\e[8;;t","\e%G\e[8;5;5","\xef\xbf\xbf","\xff"};
    tok.push_back(string(1,0));
    f01_all({});
    for (auto &a : tok) { f01_all({a}); for (auto &b : tok) { f01_all({a,b}); for (auto &c : tok) { f01_all({a,b,c}); if (th()) for (auto &d : tok) f01_all({a,b,c,d}); } } }
    vector<int> len={1,4,5,12,59,60,61,119,120,4083,4084,4085,4095,4096,4097,8191,8192,8193,32767,32768,32769,65535,65536,65537,100000};
    for (int n : len) { f01_all({pattern(n)}); for (int m : len) { if (!th() && n>40000 && m>40000) continue; f01_all({pattern(n),pattern(m,5)}); f01_all({pattern(n),"\xe4\xb8",string("\xad")+pattern(m,7)}); } }
    for (int n=32752;n<32772;n++) for (int m=32752;m<32772;m++) if (th()||(n>32757&&m>32757)) f01_all({pattern(n),pattern(m,3),"end"});
    for (int n=4060;n<4100;n++) f01_all({pattern(n),"\e[1m\"\\\n\xf0\x9f\x98\x80",pattern(50,1)});
    f01_all({pattern(1000000),"x",pattern(1048000,3)});
    for (int k=0;k<4;k++) // every byte value in every position of an escaping buffer
    { string s; for (int r=0;r<300;r++) for (int c=1;c<128;c++) s+=(char)c; f01_all({s.substr(k),s.substr(0,5000)}); }
    // all byte pairs, binary formats
    { string s; for (int a=0;a<256;a++) for (int b=0;b<256;b++) s+=(char)a, s+=(char)b; f01_all({s}); string z; for (char c : s) if (c) z+=c; f01_all({z}); f01_all({z.substr(1),z,"q"}); }
    // all code points, whole and one byte a frame
    for (uint32_t b=0x80;b<0x110000;b+=0x100)
    {
        vector<string> w, bytes; string s; vector<string> mixd;
        for (uint32_t c=b;c<b+0x100 && c<0x110000;c++) if (c<0xd800||c>0xdfff)
        { string u=utf8(c); s+=u; for (char ch : u) bytes.push_back(string(1,ch)); size_t k=1+c%(u.size()-1+(u.size()<2)); mixd.push_back(u.substr(0,k)); mixd.push_back(u.substr(k)); }
        if (s.empty()) continue;
        for (int k=0;k<(th()?3:1);k++)
        {
            const vector<string> &v= k==0?bytes : k==1?mixd : vector<string>{s};
            vector<Frame> fr; for (auto &x : v) fr.push_back({5000000,x});
            for (auto fm : {"asciicast","asciicast-v1"}) if (turn()) { ll st=5000000; f01_one(fm,fr,&st); }
        }
    }
}

// ---------------------------------------------------------- F02
// time at which each byte was shown
static vector<ll> times(const Log &l, const string &want_text, size_t skip)
{
    vector<ll> r; for (auto &p : l.p) for (size_t i=0;i<p.s.size();i++) r.push_back(p.t);
    if (l.text().substr(skip)!=want_text) r.clear(); else r.erase(r.begin(),r.begin()+skip);
    return r;
}
static void f02_case(const char *fm, const vector<Frame> &fr, const ll *start)
{
    start_case(mc::fmt("%s start %s ",fm,start?mc::fmt("%lld",*start).c_str():"none")+fspec(fr));
    string file=record(fm,fr,start); if (rec_err.size()) return bad(rec_err);
    bool cast=!strncmp(fm,"asciicast",9);
    Log l=play(file,cast?"asciicast":fm); if (!play_ret||l.bad.size()) return bad("playback: "+l.bad);
    string all=whole(fr); size_t skip=0;
    if (cast) { string t=l.text(); size_t e=t.find('t'); skip=e==string::npos?0:e+1; }
    vector<ll> ti=times(l,all,skip); if (ti.size()!=all.size()) return bad("text differs: "+show(l.text()));
    if (!strcmp(fm,"ttyrec"))
    {
        if (!l.inited || l.start!=fr[0].t) return bad(mc::fmt("date of the recording is %lld instead of %lld",l.start,fr[0].t));
        for (size_t i=0;i<fr.size();i++) if (ti[i]!=fr[i].t-fr[0].t) return bad(mc::fmt("frame %zu shown at %lld, recorded at %lld",i,ti[i],fr[i].t-fr[0].t));
    }
    else if (!strcmp(fm,"nh_recorder"))
    {
        ll s=start?*start:0;
        for (size_t i=0;i<fr.size();i++) { ll d=ti[i]-(fr[i].t-s); if (d<=-10000||d>=10000) return bad(mc::fmt("frame %zu shown at %lld, recorded at %lld",i,ti[i],fr[i].t-s)); }
    }
    else
    {
        ll s=start?*start/1000000*1000000:0, off=0, last=s;
        if (!l.inited || l.start!=s) return bad(mc::fmt("date of the recording is %lld instead of %lld",l.start,s));
        Cast k=parse_cast(file); if (k.err.size()) return bad(k.err);
        if (k.timestamp!=s) return bad("wrong date in the file");
        if (k.ev.size()!=fr.size()) return bad("frames merged or lost");
        for (size_t i=0;i<fr.size();i++)
        {
            if (fr[i].t<last) off+=last-fr[i].t;
            last=fr[i].t;
            ll e=fr[i].t+off-s;
            if (std::abs(ti[i]-e)>1) return bad(mc::fmt("frame %zu shown at %lld, recorded at %lld",i,ti[i],e));
            if (std::abs(k.ev[i].t-e)>1) return bad(mc::fmt("frame %zu has time %lld in the file, recorded at %lld",i,k.ev[i].t,e));
        }
    }
}
// text that arrives while it is played: each piece once the one before has been shown
struct LiveIn
{
    Log l; vector<ll> d; vector<string> pc; size_t next=0, got=0, sent=0; int wr=-1; bool first=false;
    void feed() { if (wr==-1) return; if (next==pc.size()) { close(wr); wr=-1; return; } vnow+=d[next]; if (write(wr,pc[next].data(),pc[next].size())<0) {} sent+=pc[next++].size(); }
    static void i(const struct timeval *t, void *a) { LiveIn *x=(LiveIn*)a; cb_init(t,&x->l); if (x->first) x->first=false, x->feed(); }
    static void w(const struct timeval *t, void *a) { cb_wait(t,&((LiveIn*)a)->l); }
    static void p(const char *b, int n, void *a) { LiveIn *x=(LiveIn*)a; cb_print(b,n,&x->l); x->got+=n; if (x->got==x->sent) x->feed(); }
};
static void F02()
{
    vector<ll> D={0,1,9999,10000,10001,500000,999999,1000000,1000001,59999999,3600000000LL,2592000000000LL,-1,-1000000,-1500000};
    vector<ll> S={0,1,999999,5500000,1000000000000000LL,1000000000999999LL,2147483647500000LL,4000000000250000LL};
    int dep=th()?4:3;
    std::function<void(vector<ll>&)> rec=[&](vector<ll> &d){
        if (d.size())
            for (size_t si=0;si<S.size();si++) for (int lead=0;lead<2;lead++)
            {
                vector<Frame> fr; ll t=S[si]; if (!lead) fr.push_back({t,"A"});
                bool ok=true, back=false; ll tot=0;
                for (size_t i=0;i<d.size();i++) { t+=d[i]; tot+=d[i]; if (t<0) ok=false; if (t-S[si]<0) back=true; fr.push_back({t,string(1,'B'+i)}); }
                (void)back;
                if (!ok || t>4294967290000000LL) continue;
                for (auto fm : {"ttyrec","nh_recorder","asciicast","asciicast-v1"})
                    for (int st=0;st<2;st++)
                    {
                        if (fm[0]=='t' && (st||lead)) continue;
                        if (fm[0]=='n' && ((!st && S[si]>5500000)||std::abs(tot)>2000000000LL*10000)) continue;
                        if (!th() && d.size()==3 && (cid%4)) { cid++; continue; }
                        if (!turn()) continue;
                        f02_case(fm,fr,st?&S[si]:0);
                    }
            }
        if ((int)d.size()<dep) for (ll x : D) { d.push_back(x); rec(d); d.pop_back(); }
    };
    vector<ll> d; rec(d);
    // frames which cut a character in half: its bytes are shown when the last one is there; an invisible frame disturbs no other's time
    {
        vector<vector<string>> pcs={{"A","\xe4","\xb8\xad","B"},{"A\xe4","\xb8","\xad","B"},{"\xe4","\xb8","\xad" "A","B"},{"A","\xc3","\xa9","B"},{"\e%G\e[8;25;80t","x","y","z"},{"\e%G\e[8;25;80tx","y","z","w"},{"\e%G\e[8;25;80t\xe4","\xb8","\xad" "z","w"},{"\e[8;25;80t","x","y","z"}};
        for (auto fm : {"asciicast","asciicast-v1"}) for (auto &pc : pcs) for (ll s0 : {0LL,5500000LL,1000000000999999LL}) for (ll a : D) for (ll b : D) for (ll c : D) for (int st=0;st<3;st++)
        {
            ll sg= st==2? s0-1700000 : s0; if (sg<0) continue;
            if (s0+a<0||s0+a+b<0||s0+a+b+c<0) continue;
            if (!turn()) continue;
            vector<Frame> fr={{s0,pc[0]},{s0+a,pc[1]},{s0+a+b,pc[2]},{s0+a+b+c,pc[3]}};
            start_case(mc::fmt("%s split, start %s ",fm,st==2?"earlier":st?"given":"none")+fspec(fr));
            string file=record(fm,fr,st?&sg:0); if (rec_err.size()) { bad(rec_err); continue; }
            Log l=play(file,"asciicast"); if (!play_ret||l.bad.size()) { bad("playback: "+l.bad); continue; }
            Cast k=parse_cast(file); if (k.err.size()) { bad(k.err); continue; }
            bool fwd=a>=0&&b>=0&&c>=0; ll start=st?sg/1000000*1000000:0;
            if (!fr[0].s.compare(0,3,"\e%G")) fr[0].s.erase(0,13);
            vector<std::pair<ll,string>> ev; string held; for (auto &f : fr) { held+=f.s; size_t n=held.size(), q=n; while (q && (held[q-1]&0xc0)==0x80) q--; if (q && n-(q-1)<(((unsigned char)held[q-1]>=0xe0)?3u:((unsigned char)held[q-1]>=0xc0)?2u:1u)) n=q-1; if (n) ev.push_back({f.t-start,held.substr(0,n)}), held.erase(0,n); }
            if (ev.size()!=k.ev.size()) { bad(mc::fmt("%zu events instead of %zu",k.ev.size(),ev.size())); continue; }
            ll last=0;
            for (size_t i=0;i<ev.size();i++)
            {
                if (k.ev[i].t<last) { bad(mc::fmt("event %zu is before the one before it",i)); break; }
                last=k.ev[i].t;
                if (fwd && std::abs(k.ev[i].t-ev[i].first)>1) { bad(mc::fmt("event %zu has time %lld instead of %lld",i,k.ev[i].t,ev[i].first)); break; }
            }
        }
    }
    // long recordings: no accumulating error
    for (ll x : {1LL,3333LL,9999LL,14999LL,333333LL,1000001LL}) for (auto fm : {"ttyrec","nh_recorder","asciicast","asciicast-v1"}) if (turn())
    { vector<Frame> fr; ll t=1000000000123456LL, st=t; for (int i=0;i<(th()?20000:3000);i++) fr.push_back({t,string(1,'A'+i%26)}), t+=x; f02_case(fm,fr,&st); }
    // plain text: constant rate
    for (int n=0;n<400;n++) if (turn())
    {
        int len= n<200?n : n<300?32768-50+(n-200) : 65536-50+(n-300);
        start_case(mc::fmt("baudrate, %d bytes",len));
        string s=pattern(len); Log l=play(s,"baudrate"); if (l.bad.size()) { bad(l.bad); continue; }
        vector<ll> ti=times(l,s,0); if ((int)ti.size()!=len) { bad("text differs"); continue; }
        for (int i=0;i<len;i++) if (ti[i]!=i/60*200000LL) { bad(mc::fmt("byte %d shown at %lld",i,ti[i])); break; }
    }
    // live: shown at the pace recorded, late output never hurried or delayed further
    vector<ll> LD={0,1,600000,999999,1000000,1700000,-400000}, LA={0,300000,2500000};
    for (ll s0 : {0LL,999999LL,1000000000700000LL}) for (ll n0 : {5000000LL,1700000000999999LL})
        for (ll a : LD) for (ll b : LD) for (ll la : LA) for (ll lb : LA) for (int st=0;st<2;st++) if (turn())
        {
            if (s0+a<0||s0+a+b<0) continue;
            start_case(mc::fmt("live, start %lld, clock %lld, delays %lld %lld, late by %lld %lld, start %s",s0,n0,a,b,la,lb,st?"given":"not given"));
            vclock=true; vnow=n0;
            int fd=memfile(""), keep=dup(fd); struct timeval s=tv(s0);
            recorder r=ttyrec_w_open(fd,"live",0,st?&s:0);
            ll org= st? n0-s0 : n0;        // recorded time + org = time it is due
            ll t=s0; if (!st) t=0;
            ll due; string e; bool ok=true;
            ll dl[3]={0,a,b}, late[3]={0,la,lb};
            for (int i=0;i<3 && ok;i++)
            {
                t+=dl[i]; if (t<0) break;
                vnow+=late[i];
                due=t+org; ll exp= due>vnow?due:vnow; if (due<vnow) org+=vnow-due;
                struct timeval x=tv(t); char c='A'+i; ttyrec_w_write(r,&x,&c,1); e+=c;
                if (vnow!=exp) { bad(mc::fmt("frame %d written at %lld, due at %lld",i,vnow-n0,exp-n0)); ok=false; }
                if (ok && slurp(keep)!=e) bad("not written at once"), ok=false;
            }
            ttyrec_w_close(r); close(keep); vclock=false;
        }
    // read live: the delays are those with which the text arrives
    vector<ll> RD={0,1,999999,1000000,5000001,86400000000LL};
    for (ll n0 : {0LL,999999LL,1700000000000001LL}) for (int au=0;au<2;au++) for (size_t big=0;big<4;big++)
        for (ll a : RD) for (ll b : RD) for (ll c : RD) if (turn())
        {
            start_case(mc::fmt("read %s, clock %lld, delays %lld %lld %lld, sizes %zu",au?"auto":"live",n0,a,b,c,big));
            LiveIn x; x.d={a,b,c}; x.pc={"first, and longer than twelve","2","third"}; if (big) x.pc[big-1]=pattern(40000,big);
            if (!au && big!=1) x.pc[0]="1"; else if (au && big%2==0) x.pc[0]="twelve bytes";
            int p[2]; if (pipe(p)) _exit(2); fcntl(p[1],F_SETPIPE_SZ,1<<17); x.wr=p[1]; vclock=true; vnow=n0; if (au) x.feed(); else x.first=true;
            ttyrec_r_play(p[0],au?"auto":"live",0,LiveIn::i,LiveIn::w,LiveIn::p,&x); vclock=false;
            string all; vector<ll> ex; ll t=0; for (int i=0;i<3;i++) { if (i||!au) t+=x.d[i]; ex.insert(ex.end(),x.pc[i].size(),t); all+=x.pc[i]; }
            if (x.l.bad.size()) { bad(x.l.bad); continue; }
            if (!x.l.inited || x.l.start!=n0+(au?a:0)) { bad(mc::fmt("said to start at %lld",x.l.start-n0)); continue; }
            vector<ll> ti=times(x.l,all,0); if (ti.size()!=ex.size()) { bad("text differs"); continue; }
            for (size_t i=0;i<ex.size();i++) if (ti[i]!=ex[i]) { bad(mc::fmt("byte %zu at %lld, arrived at %lld",i,ti[i],ex[i])); break; }
        }
}

// ---------------------------------------------------------- sample recordings
struct Rec { string fmt, name, file; vector<size_t> ends; vector<Frame> fr; string head; ll start=0; bool hasstart=false; };
// ends[i]: length of the file up to the end of frame i; fr: what is shown (times from the start)
static void dos_cell(string &s, unsigned char c, unsigned char a) { s+=(char)c; s+=(char)a; }
static Rec mk_ttyrec(const string &name, const vector<Frame> &fr)
{
    Rec r; r.fmt="ttyrec"; r.name=name; r.hasstart=true; r.start=fr.size()?fr[0].t:0;
    for (auto &f : fr) { r.file+=enc_ttyrec({f}); r.ends.push_back(r.file.size()); r.fr.push_back({f.t-fr[0].t,f.s}); }
    return r;
}
static Rec mk_nh(const string &name, const vector<Frame> &fr, ll start)
{
    Rec r; r.fmt="nh_recorder"; r.name=name; r.file=string(5,0); 
    for (auto &f : fr) { r.file+=enc_nh({f},start); r.ends.push_back(r.file.size()); r.fr.push_back({(f.t-start)/10000*10000,f.s}); }
    return r;
}
static string jstr(const string &s)
{
    string r="\"";
    for (unsigned char c : s) if (c=='"'||c=='\\') r+='\\', r+=(char)c; else if (c=='\n') r+="\\n"; else if (c<32) r+=mc::fmt("\\u%04x",c); else r+=(char)c;
    return r+"\"";
}
static Rec mk_cast(const string &name, int ver, const vector<Frame> &fr)   // times from the start
{
    Rec r; r.fmt="asciicast"; r.name=name; r.hasstart=true; r.start=1500000000LL*1000000;
    r.head="\e%G\e[8;24;100t";
    r.file=mc::fmt("{\"version\": %d, \"width\": 100, \"height\": 24, \"timestamp\": 1500000000",ver);
    r.file+= ver==1? ", \"stdout\": [\n" : "}\n";
    ll t=0;
    for (size_t i=0;i<fr.size();i++)
    {
        if (ver==1) { r.file+=mc::fmt("%s[%lld.%06lld, ",i?",\n":"",(fr[i].t-t)/1000000,(fr[i].t-t)%1000000)+jstr(fr[i].s)+"]"; }
        else r.file+=mc::fmt("[%lld.%06lld, \"o\", ",fr[i].t/1000000,fr[i].t%1000000)+jstr(fr[i].s)+"]\n";
        t=fr[i].t;
        r.ends.push_back(r.file.rfind('"')+1);      // the closing bracket carries nothing
        r.fr.push_back(fr[i]);
    }
    if (ver==1) r.file+="]}\n";
    return r;
}
static Rec mk_plain(const string &name, const string &s)
{
    Rec r; r.fmt="baudrate"; r.name=name; r.file=s;
    for (size_t i=0;i<s.size();i+=60) { r.fr.push_back({(ll)(i/60)*200000,s.substr(i,60)}); r.ends.push_back(std::min(i+60,s.size())); }
    return r;
}
struct DosFrame { uint32_t delay; int sscr, dscr; struct Ch { int pos; string cells; }; vector<Ch> ch; bool note=false; int x=0,y=0,w=0,h=0; string ncells, title; };
static string enc_dos(const vector<DosFrame> &v, vector<size_t> *ends=0)
{
    string s;
    for (auto &f : v)
    {
        le(s,f.delay,4); s+=(char)3; s+=(char)4; s+=(char)f.sscr; s+=(char)f.dscr; le(s,f.ch.size()|(f.note?0x8000:0),2);
        for (auto &c : f.ch) le(s,c.pos,2), le(s,c.cells.size()/2,2);
        for (auto &c : f.ch) s+=c.cells;
        if (f.note) { s+=(char)f.w; s+=(char)f.h; s+=(char)f.x; s+=(char)f.y; s+=(char)f.title.size(); s+=(char)0x1f; s+=(char)0; s+=f.ncells; s+=f.title; }
        if (ends) ends->push_back(s.size());
    }
    return s;
}
static string cells(int n, int salt, int attr=7) { string s; string p=pattern(n,salt); for (char c : p) dos_cell(s,c,attr); return s; }
static vector<DosFrame> dos_sample(bool note)
{
    vector<DosFrame> v;
    v.push_back({0,0,0,{{0,cells(30,1)},{200,cells(3,2,0x1e)}}});
    v.push_back({1500,0,1,{{1999,cells(1,3)}}});
    DosFrame f={70,1,0,{}}; if (note) { f.note=true; f.x=10;f.y=5;f.w=4;f.h=2; f.ncells=cells(8,9,0x1f); f.title="Title"; } v.push_back(f);
    v.push_back({0xffff,0,255,{{80,cells(5,4)}}});
    return v;
}
static vector<Frame> small_frames(ll t0=0) { return {{t0,"Hello\n"},{t0+1230000,"w\e[1mor"},{t0+1230000,"ld \xe4\xb8\xad"},{t0+9990000,"\"\\q"},{t0+10000000,"z"}}; }
static vector<Frame> big_frames(std::initializer_list<int> n, ll t0=0) { vector<Frame> v; int k=0; for (int x : n) v.push_back({t0,pattern(x,k++)}), t0+=70000; return v; }
static vector<Rec> samples(bool big)
{
    vector<Rec> v;
    v.push_back(mk_ttyrec("small",small_frames(1000000999999LL)));
    v.push_back(mk_nh("small",small_frames(0),0));
    v.push_back(mk_cast("small",2,small_frames(10000)));
    v.push_back(mk_cast("small v1",1,small_frames(10000)));
    v.push_back(mk_plain("small",pattern(200)));
    if (big)
    {
        v.push_back(mk_ttyrec("big",big_frames({32767,32768,32769,100,70000},1000000000000000LL)));
        v.push_back(mk_nh("big",big_frames({32757,32763,40000,5,65536}),0));
        v.push_back(mk_cast("big",2,big_frames({4000,40,32768,5000})));
        v.push_back(mk_cast("big v1",1,big_frames({4000,40,32768,5000})));
        v.push_back(mk_plain("big",pattern(70000)));
    }
    return v;
}

// ---------------------------------------------------------- F03
static void check_cut(const Rec &r, size_t cut)
{
    start_case(r.fmt+" "+r.name+mc::fmt(", cut at %zu of %zu",cut,r.file.size()));
    Log l=play(r.file.substr(0,cut),r.fmt.c_str());
    if (!play_ret||l.bad.size()) return bad("playback: "+l.bad);
    // expected: complete frames
    string exp; vector<ll> et; size_t k=0;
    while (k<r.ends.size() && r.ends[k]<=cut) { exp+=r.fr[k].s; for (size_t i=0;i<r.fr[k].s.size();i++) et.push_back(r.fr[k].t); k++; }
    string got=l.text(); vector<ll> gt; for (auto &p : l.p) for (size_t i=0;i<p.s.size();i++) gt.push_back(p.t);
    // asciicast: one diagnostic line at the end, if any
    if (r.fmt=="asciicast" && l.lastprint.size()>1 && l.lastprint.back()=='\n' && l.lastprint.find("asciicast")!=string::npos && got.size()>=l.lastprint.size())
    { size_t n=got.size()-l.lastprint.size(); got.resize(n); gt.resize(n); }
    if (r.head.size())
    {
        if (k || got.size()) { if (got.compare(0,r.head.size(),r.head)) return bad("size request missing: "+show(got)); got=got.substr(r.head.size()); gt.erase(gt.begin(),gt.begin()+r.head.size()); }
    }
    if (r.hasstart && k && (!l.inited||l.start!=r.start)) return bad("start time wrong");
    if (got.size()<exp.size() || got.compare(0,exp.size(),exp)) return bad(mc::fmt("%zu complete frames: ",k)+diffs(got,exp));
    for (size_t i=0;i<et.size();i++) if (gt[i]!=et[i]) return bad(mc::fmt("byte %zu shown at %lld instead of %lld",i,gt[i],et[i]));
    string rest=got.substr(exp.size());
    if (rest.size())
    {
        if (k>=r.fr.size() || r.fr[k].s.compare(0,rest.size(),rest)) return bad("after the complete frames: "+show(rest)+" was never recorded");
        for (size_t i=exp.size();i<gt.size();i++) if (gt[i]!=r.fr[k].t) return bad("part of the cut frame shown at a wrong time");
    }
}
static void F03()
{
    for (auto &r : samples(true))
    {
        bool small=r.file.size()<1000;
        vector<size_t> cuts;
        if (small || th()) for (size_t i=0;i<=r.file.size();i+= small?1:(th()?7:1)) cuts.push_back(i);
        if (!small)
        {
            auto around=[&](size_t c,int w){ for (int d=-w;d<=w;d++) if ((ll)c+d>=0 && c+d<=r.file.size()) cuts.push_back(c+d); };
            for (auto e : r.ends) if (r.ends.size()<50) around(e,20);
            for (size_t b=4096;b<=r.file.size();b+=4096) around(b,6);
            for (size_t b=32768;b<=r.file.size();b+=32768) around(b,14);
            around(0,30); around(r.file.size(),40);
        }
        for (auto c : cuts) if (turn()) check_cut(r,c);
    }
    // DosRecorder (not compressed): complete frames are the same as in the whole file
    for (int note=0;note<2;note++)
    {
        auto d=dos_sample(note); vector<size_t> ends; string f=enc_dos(d,&ends);
        for (size_t cut=0;cut<=f.size();cut++) if (turn())
        {
            start_case(mc::fmt("dosrecorder%s cut at %zu of %zu",note?" with a note":"",cut,f.size()));
            static Log w[2]; static bool have[2]; if (!have[note]) { w[note]=play(f,"dosrecorder",0,true); have[note]=true; }
            Log l=play(f.substr(0,cut),"dosrecorder",0,true);
            if (!play_ret||l.bad.size()) { bad("playback: "+l.bad); continue; }
            size_t k=0; while (k<ends.size()&&ends[k]<=cut) k++;
            if (w[note].calls.size()!=2*d.size()) { bad("whole file played wrongly"); continue; }
            for (size_t i=0;i<2*k;i++) if (i>=l.calls.size()||l.calls[i]!=w[note].calls[i]) { bad(mc::fmt("frame %zu, complete before the cut, shown differently",i/2)); break; }
            if (l.calls.size()>2*k+2) { bad("more frames than the file has"); continue; }
            if (l.calls.size()>2*k)
            {   // the frame that was cut: cells must come from the screen before it or from the frame
                vtm::Model a(80,25), b(80,25), p(80,25);
                for (auto &c : l.calls) if (c[0]=='P') a.write(c.substr(1));
                for (size_t i=0;i<2*k+2;i++) if (w[note].calls[i][0]=='P') b.write(w[note].calls[i].substr(1));
                // the source screen of the frame: play the frame without its chunks
                auto d2=d; d2.resize(k+1); d2[k].ch.clear(); d2[k].note=false;
                Log s=play(enc_dos(d2),"dosrecorder"); p.write(s.text());
                for (int i=0;i<2000;i++) if (!(a.scr[i]==b.scr[i]) && !(a.scr[i]==p.scr[i]) && !(a.scr[i].ch==b.scr[i].ch && a.scr[i].attr==p.scr[i].attr)) { bad(mc::fmt("cell %d,%d shows something never recorded",i%80,i/80)); break; }
                if (a.title.size() && a.title!=b.title) bad("title \""+mc::esc(a.title)+"\" never recorded");
            }
        }
    }
}

// ---------------------------------------------------------- F04
static void __attribute__((noinline)) poison(int v) { volatile char b[3<<20]; for (size_t i=0;i<sizeof b;i+=8) *(volatile uint64_t*)(b+i)=0x0101010101010101ULL*v; }
static void f04_one(const char *fm, const string &f, const string &desc)
{
    start_case(string(fm)+" "+desc);
    vclock=true; vnow=1000000;
    poison(0x35); Log a=play(f,fm);
    if (!play_ret||a.bad.size()) return bad("playback: "+a.bad);
    poison(0xca); Log b=play(f,fm);
    vclock=false;
    if (!(a==b)) return bad("result depends on uninitialised memory: "+show(a)+" or "+show(b));
    if (strcmp(fm,"dosrecorder") && a.text().size()>f.size()+200) return bad(mc::fmt("%zu bytes shown for a file of %zu",a.text().size(),f.size()));
}
static void F04()
{
    // short strings over the bytes that matter to each format
    auto strings=[&](const char *fm, const string &prefix, const vector<string> &al, int depth) {
        std::function<void(const string&,int)> go=[&](const string &s,int d){ if (turn()) f04_one(fm,prefix+s,show(prefix+s,300)); if (d) for (auto &x : al) go(s+x,d-1); };
        go("",depth);
    };
    vector<string> aj={"{","}","[","]","\"",":",",","\\","u","d83d","0041","-","1","2","e","E",".","9999999999999999999"," ","\n","true","null","version","stdout","\"o\"","\xff","x"};
    aj.push_back(string(1,0));
    strings("asciicast","",aj,th()?4:2);
    strings("asciicast","{\"version\":2,",aj,th()?3:2);
    strings("asciicast","{\"version\":1,\"stdout\":",aj,th()?3:2);
    strings("asciicast","{\"version\":2}\n[",aj,th()?4:3);
    strings("asciicast","{\"version\":2}\n[1,\"o\",\"",aj,2);
    strings("asciicast","{\"version\":2,\"width\":",aj,2);
    strings("auto","{",aj,2);
    strings("auto","{\"version\": ",aj,2);
    vector<string> ab={string(1,0),"\1","\x0c","\xff","\x7f","\x80","A",string(3,0),string("\1\0\0",3),string("\0\0\1",3)};
    for (auto fm : {"ttyrec","nh_recorder","auto","live","baudrate","dosrecorder"}) strings(fm,"",ab,th()?5:4);
    // boundary values in every field of every format
    vector<uint64_t> B={0,1,2,255,256,999999,1000000,32767,32768,32769,65535,65536,1999,2000,2001,0x7fff,0x8000,0xffff,0x7fffffff,0x80000000,0xfffffff0,0xffffffff};
    string body=pattern(33000);
    for (auto a : B) for (auto b : B) for (auto c : B) for (auto fm : {"ttyrec","auto"}) if (turn())
    { string f; le(f,a,4); le(f,b,4); le(f,c,4); f+=body; f04_one(fm,f,mc::fmt("header %llu %llu %llu",(ll)a,(ll)b,(ll)c)); }
    for (auto a : B) for (auto b : B) for (auto c : B) if (turn())
    { string f=enc_ttyrec({{5000000,"first"}}); le(f,a,4); le(f,b,4); le(f,c,4); f+=body; f04_one("ttyrec",f,mc::fmt("second header %llu %llu %llu",(ll)a,(ll)b,(ll)c)); }
    for (auto a : B) for (auto b : B) for (auto c : B) if (turn())
    { string f; for (auto x : {a,b,c}) f+='\0', le(f,x,4), f+="txt"; f04_one("nh_recorder",f,mc::fmt("times %llu %llu %llu",(ll)a,(ll)b,(ll)c)); }
    vector<int> P={0,1,79,80,1998,1999,2000,2001,32767,32768,65535}; vector<int> L={0,1,2,80,1999,2000,2001,32768,63536,65535};
    vector<int> K={0,1,2,1999,2000,2001,0x7fff};
    for (int p : P) for (int n : L) for (int k : K) for (int src : {0,255}) for (int nt=0;nt<2;nt++) if (turn())
    {
        string f; le(f,1000,4); f+=string(2,0); f+=(char)src; f+=(char)(255-src); le(f,k|(nt?0x8000:0),2);
        for (int i=0;i<k;i++) le(f,p,2), le(f,n,2);
        size_t want_len=std::min<size_t>((size_t)std::min(k,3)*n*2,9000); f+=cells(want_len/2,p);
        f04_one("dosrecorder",f,mc::fmt("pos %d len %d, %d chunks, screen %d note %d",p,n,k,src,nt));
    }
    vector<int> N={0,1,24,25,26,79,80,81,127,128,255};
    for (int w : N) for (int h : N) for (int x : N) for (int y : N) for (int t : {0,1,79,80,81,255}) if (th() || (w%2==0||h%2==0) ) if (turn())
    {
        string f; le(f,1,4); f+=string(4,0); le(f,0x8000,2);
        f+=(char)w; f+=(char)h; f+=(char)x; f+=(char)y; f+=(char)t; f+=string(2,0);
        if (x+w<=80&&y+h<=25) f+=cells(w*h,3); f+=pattern(t);
        le(f,1,4); f+=string(4,0); le(f,0,2);
        f04_one("dosrecorder",f,mc::fmt("note %dx%d at %d,%d, title %d",w,h,x,y,t));
    }
    // every byte of the samples replaced, removed or doubled
    for (auto &r : samples(false)) for (size_t i=0;i<r.file.size();i++)
    {
        for (int c : std::initializer_list<int>{0,1,0x7f,0x80,0xff,'"','\\','[',']','{','}',',',':','9','-','.','e',' ','u'}) if (turn()) { string f=r.file; f[i]=(char)c; f04_one(r.fmt.c_str(),f,r.name+mc::fmt(", byte %zu set to %02x",i,c)); }
        if (turn()) { string f=r.file; f.erase(i,1); f04_one(r.fmt.c_str(),f,r.name+mc::fmt(", byte %zu removed",i)); }
        if (turn()) { string f=r.file; f.insert(i,f.substr(i,1)); f04_one(r.fmt.c_str(),f,r.name+mc::fmt(", byte %zu doubled",i)); }
    }
    for (int note=0;note<2;note++) { string o=enc_dos(dos_sample(note)); for (size_t i=0;i<o.size();i++) for (int c : {0,1,0x7f,0x80,0xff}) if (turn()) { string f=o; f[i]=(char)c; f04_one("dosrecorder",f,mc::fmt("sample%d byte %zu set to %02x",note,i,c)); } }
    // compressed DosRecorder files, damaged
    {
        static const unsigned char gz[]={0x1f,0x8b,8,0,0,0,0,0,0,3,0x63,0x60,0x60,0x60,0x60,0x66,0x61,0x60,0x60,0x60,0x60,0,0,0,0,0,0,0,0,0};
        string g((const char*)gz,sizeof gz);
        for (size_t i=0;i<=g.size();i++) { if (turn()) f04_one("dosrecorder",g.substr(0,i),mc::fmt("gzip cut at %zu",i)); for (int c : {0,1,8,0xff}) if (i<g.size() && turn()) { string f=g; f[i]=(char)c; f04_one("dosrecorder",f,mc::fmt("gzip byte %zu set to %02x",i,c)); } }
    }
    // very long strings, numbers, nesting
    for (int n : {1048560,1048570,1048573,1048574,1048575,1048576,1048577,1048590,2097160}) for (int w=0;w<6;w++) if (turn())
    {
        string big=pattern(n), f;
        if (w==0) f="{\"version\":2}\n[1,\"o\",\""+big+"\"]\n[2,\"o\",\"end\"]\n";
        else if (w==1) f="{\"version\":2,\""+big+"\":1}\n";
        else if (w==2) f="{\"version\":2,\"x\":\""+big+"\"}\n";
        else if (w==3) f="{\"version\":2}\n[1,\""+big+"\",\"x\"]\n";
        else if (w==4) { string u; for (int i=0;i<n/3;i++) u+="\\u4e2d"; f="{\"version\":2}\n[1,\"o\",\"a"+u+"\"]\n"; }
        else { string u; for (int i=0;i<n/4;i++) u+="\\ud83d\\ude00"; f="{\"version\":1,\"stdout\":[[1,\"abc"+u+"\"]]}\n"; }
        f04_one("asciicast",f,mc::fmt("string of %d bytes, place %d",n,w));
    }
    for (int n : {10,1000,100000,3000000}) for (int w=0;w<4;w++) if (turn())
    {
        string f="{\"version\":2,\"x\":"; 
        if (w==0) f+=string(n,'['); else if (w==1) f+=string(n,'[')+string(n,']')+"}\n"; else if (w==2) f+=string(n,'9')+"}\n[1e"+string(n,'9')+",\"o\",\"x\"]"; else f+=string(n,' ')+"1}"+string(n,'\n');
        f04_one("asciicast",f,mc::fmt("%d repetitions, kind %d",n,w));
    }
}

// ---------------------------------------------------------- F05
struct Feed { int fd; const vector<string> *pieces; volatile bool stop; };
static void *feeder(void *a)
{
    Feed *f=(Feed*)a;
    for (auto &p : *f->pieces)
    {
        size_t o=0;
        while (o<p.size() && !f->stop)
        {
            int n=1; 
            for (int spin=0;;spin++) { if (ioctl(f->fd,FIONREAD,&n)<0) n=0; if (!n||f->stop) break; sched_yield(); }
            size_t k=std::min<size_t>(p.size()-o,60000);
            ssize_t w=write(f->fd,p.data()+o,k); if (w<=0) { f->stop=true; break; } o+=w;
        }
    }
    close(f->fd); return 0;
}
static Log play_pieces(const vector<string> &v, const char *fm)
{
    int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
    Feed f={p[1],&v,false}; pthread_t th;
    cpause=cpause+1; pthread_create(&th,0,feeder,&f);
    Log l; ttyrec_r_play(p[0],fm,0,cb_init,cb_wait,cb_print,&l);
    f.stop=true; pthread_join(th,0); cpause=cpause-1;
    return l;
}
static void f05_one(const Rec &r, const char *fm, const vector<string> &v, const Log &ref, const string &d)
{
    start_case(string(fm)+" "+r.name+" "+d);
    Log l=play_pieces(v,fm);
    if (l.bad.size()) return bad(l.bad);
    if (!strcmp(fm,"live")) { if (l.text()!=r.file) bad("bytes lost or altered: "+diffs(l.text(),r.file)); return; }
    bool live=!strcmp(fm,"auto") && r.fmt!="ttyrec" && r.fmt!="asciicast";
    if (live) { if (l.text()!=r.file) bad("bytes lost or altered: "+diffs(l.text(),r.file)); return; }
    if (!(l==ref)) bad("played "+show(l)+" instead of "+show(ref));
}
static void F05()
{
    signal(SIGPIPE,SIG_IGN);
    vector<Rec> v=samples(true);
    { Rec r; r.fmt="dosrecorder"; r.name="small"; r.file=enc_dos(dos_sample(true)); v.push_back(r); }
    for (auto x : {"{\"versio\": 2","{\"version\" ","{","hello, world\nxyz","short"}) { Rec r; r.fmt="live"; r.name=show(x); r.file=x; v.push_back(r); }
    for (auto &r : v) for (auto fm : {r.fmt.c_str(),"auto","live"})
    {
        if (!strcmp(fm,"live") && (r.fmt!="live" && r.fmt!="ttyrec")) continue;
        if (!strcmp(fm,"auto") && r.fmt=="dosrecorder") continue;
        Log ref=play(r.file,fm);
        size_t n=r.file.size(); bool small=n<1000;
        vector<size_t> cuts;
        if (small) for (size_t i=1;i<n;i++) cuts.push_back(i);
        else
        {
            auto around=[&](size_t c,int w){ for (int d=-w;d<=w;d++) if ((ll)c+d>0 && c+d<n) cuts.push_back(c+d); };
            for (auto e : r.ends) if (r.ends.size()<50) around(e,th()?16:7);
            for (size_t b=4096;b<n;b+=4096) around(b,th()?6:1);
            for (size_t b=32768;b<n;b+=32768) around(b,8);
            around(0,16);
        }
        for (size_t c : cuts) if (turn()) f05_one(r,fm,{r.file.substr(0,c),r.file.substr(c)},ref,mc::fmt("split at %zu of %zu",c,n));
        if (small) for (size_t c=1;c<n;c+= th()?1:3) for (size_t d : {c+1,c+2,c+5,c+12}) if (d<n && turn()) f05_one(r,fm,{r.file.substr(0,c),r.file.substr(c,d-c),r.file.substr(d)},ref,mc::fmt("split at %zu and %zu of %zu",c,d,n));
        for (int step : {1,2,3,5,7,11,12,13,60,61,4095,4096,4097,32767})
        {
            if ((size_t)step>=n || (!small && step<500 && !th()) || n/step>5000) continue;
            if (!turn()) continue;
            vector<string> p; for (size_t i=0;i<n;i+=step) p.push_back(r.file.substr(i,step));
            f05_one(r,fm,p,ref,mc::fmt("in pieces of %d",step));
        }
    }
}

// ---------------------------------------------------------- F06
// an asciicast file as a list of tokens, every one with alternative spellings
struct Alt { vector<string> v; };
static string hex4(uint32_t v, bool up) { return mc::fmt(up?"\\u%04X":"\\u%04x",v); }
static vector<string> spell(uint32_t c)      // spellings of one character inside a string
{
    vector<string> v;
    if (c>=32 && c!='"' && c!='\\') v.push_back(utf8(c));
    if (c<0x10000) v.push_back(hex4(c,false)), v.push_back(hex4(c,true));
    else { string a=hex4(0xd800+((c-0x10000)>>10),false), b=hex4(0xdc00+((c-0x10000)&0x3ff),true); v.push_back(a+b); }
    const char *e= c=='\b'?"\\b":c=='\f'?"\\f":c=='\n'?"\\n":c=='\r'?"\\r":c=='\t'?"\\t":c=='"'?"\\\"":c=='\\'?"\\\\":c=='/'?"\\/":0;
    if (e) v.push_back(e);
    return v;
}
static vector<string> spell_time(ll us)
{
    vector<string> v; ll s=us/1000000, f=us%1000000;
    string d=mc::fmt("%lld.%06lld",s,f); v.push_back(d); v.push_back(d+"000"); v.push_back(d+"49");
    string sh=d; while (sh.back()=='0') sh.pop_back(); if (sh.back()=='.') { sh.pop_back(); v.push_back(sh+"e0"); } v.push_back(sh);
    v.push_back(mc::fmt("%llde-6",us)); v.push_back(mc::fmt("%lldE-06",us)); v.push_back(mc::fmt("%lld0e-7",us));
    if (us%1000==0) v.push_back(mc::fmt("%lld.%03llde-3",us/1000,us%1000)), v.push_back(mc::fmt("%llde-3",us/1000));
    v.push_back(mc::fmt("0.%010lldE4",us)); v.push_back(mc::fmt("0.%010llde+4",us));
    v.push_back(mc::fmt("%lld.%06llde0",s,f));
    return v;
}
struct CastSpec { int ver; int w,h; ll ts; bool hw=true,hh=true; vector<Frame> ev; };    // ev absolute times; all output
static string f06_expect_head(const CastSpec &c) { return mc::fmt("\e%%G\e[8;%d;%dt",c.hh?c.h:25,c.hw?c.w:80); }
static void f06_check(const string &file, const string &head, ll start, const vector<Frame> &ev, const string &d)
{
    start_case(d+" "+show(file,400));
    Log l=play(file,"asciicast"); if (!play_ret||l.bad.size()) return bad("playback: "+l.bad);
    Log e; e.inited=true; e.start=start; e.out(head.data(),head.size());
    for (auto &f : ev) { e.t=f.t; e.out(f.s.data(),f.s.size()); }
    if (l.text()!=e.text()) return bad("shown "+show(l.text(),200)+" instead of "+show(e.text(),200));
    if (l.start!=start) return bad(mc::fmt("date %lld instead of %lld",l.start,start));
    vector<ll> a,b; for (auto &p : l.p) a.insert(a.end(),p.s.size(),p.t); for (auto &p : e.p) b.insert(b.end(),p.s.size(),p.t);
    for (size_t i=0;i<a.size();i++) if (std::abs(a[i]-b[i])>1) return bad(mc::fmt("byte %zu shown at %lld instead of %lld",i,a[i],b[i]));
}
static void F06()
{
    vector<string> WS={""," ","\n","\t","\r\n","  \t "};
    // tokens of the file; toks[i] alternatives, [0] is the plain one
    for (int ver=1;ver<=2;ver++)
    for (int shape=0;shape<6;shape++)
    {
        CastSpec c; c.ver=ver; c.w=132; c.h=43; c.ts=1500000000LL*1000000;
        vector<vector<string>> T;
        auto lit=[&](const char *s){ T.push_back({s}); };
        auto ws=[&]{ T.push_back(WS); };
        ws(); lit("{"); ws();
        bool first=true;
        vector<std::function<void()>> fields;
        auto num=[&](const char *k, string v){ fields.push_back([&,k,v]{ lit(k); ws(); lit(":"); ws(); lit(v.c_str()); }); };
        auto any=[&](vector<string> v){ fields.push_back([&,v]{ T.push_back({"\"extra\"","\"version2\"","\"stdou\"","\"\"","\"a\\\"b\\u0041\"","\"x\\\\\""}); ws(); lit(":"); ws(); T.push_back(v); }); };
        vector<string> vals={"null","true","false","0","-1","1.5","-1.5e+10","1E5","\"\"","\"a}b]\"","\"q\\\"}\"","\"\\\\\"","{}","[]","{\"a\":{\"b\":[1,2,{}]}}","[ [ ] , { } ]","[\"]\",\"\\\"\"]","{\"SHELL\": \"/bin/bash\", \"TERM\": null}","[-1,true,false,null]"," { } ","[\n1\n,\n2\n]"};
        // orders of fields
        if (shape==0) { num("\"version\"",ver==1?"1":"2"); num("\"width\"","132"); num("\"height\"","43"); }
        if (shape==1) { num("\"width\"","132"); num("\"height\"","43"); num("\"version\"",ver==1?"1":"2"); any(vals); }
        if (shape==2) { any(vals); num("\"height\"","43"); num("\"version\"",ver==1?"1":"2"); num("\"width\"","132"); }
        if (shape==3) { num("\"version\"",ver==1?"1":"2"); any(vals); any(vals); c.hw=c.hh=false; }
        if (shape==4) { num("\"version\"",ver==1?"1":"2"); num("\"width\"","132"); fields.push_back([&]{ lit("\"timestamp\""); ws(); lit(":"); ws(); T.push_back({"1500000000","1500000000.0","1.5e9","15E8","1500000000.000000"}); }); num("\"height\"","43"); }
        if (shape==5) { num("\"version\"",ver==1?"1":"2"); num("\"height\"","43"); num("\"width\"","132"); fields.push_back([&]{ lit("\"env\""); ws(); lit(":"); ws(); T.push_back({"{\"SHELL\":\"/bin/sh\",\"TERM\":\"xterm\"}","{ }","null"}); }); fields.push_back([&]{ lit("\"title\""); ws(); lit(":"); ws(); T.push_back({"\"t\"","\"\\u00e9\\n\""}); }); fields.push_back([&]{ lit("\"idle_time_limit\""); ws(); lit(":"); ws(); T.push_back({"1","0.5","2.50"}); }); }
        ll start= shape==4 ? c.ts : 0;
        for (auto &f : fields) { if (!first) { ws(); lit(","); ws(); } first=false; f(); }
        vector<uint32_t> chars; 
        vector<vector<uint32_t>> texts={{'H','"','\\','/',8,12},{10,13,9,27,'[',1},{0xe9,0x4e2d,0x1f600,0x7f},{},{0x2028,0xffff,0x10ffff,'u','0'},{'a',0x80,0x7ff,0x800,0xd7ff,0xe000,0x10000}};
        vector<ll> at={0,1,1500000,1500001,59999999,3600123456LL};
        if (shape==2) at={999999,1000000,1000000,2000000,100000000,100000001};
        if (ver==1) { ws(); lit(","); ws(); T.push_back({"\"stdout\""}); ws(); lit(":"); ws(); lit("["); } else { ws(); lit("}"); T.push_back({"\n","\r\n"," \n","\n\n","\n "}); }
        ll last=0; vector<Frame> ev;
        for (size_t i=0;i<texts.size();i++)
        {
            if (i && ver==1) { ws(); lit(","); ws(); } else if (ver==2 && i) T.push_back({"\n","\r\n","\n\n","\n "});
            lit("["); ws(); T.push_back(spell_time(ver==1?at[i]-last:at[i])); ws(); lit(","); ws();
            if (ver==2) { T.push_back({"\"o\"","\"\\u006f\""}); ws(); lit(","); ws(); }
            lit("\""); string s; for (auto ch : texts[i]) { T.push_back(spell(ch)); s+=utf8(ch); } lit("\""); ws(); lit("]");
            last=at[i]; ev.push_back({at[i],s});
            // events that are not output
            if (ver==2 && (i==1||i==3)) { T.push_back({"","\n[1500000,\"i\",\"typed\\u0041\\\"]\"]","\n[ 1.5e0 , \"r\" , \"100x30\" ]","\n[99, \"m\", \"\"]","\n[2,\"oo\",\"no\"]","\n[2,\"\",\"no\"]"}); }
        }
        if (ver==1) { ws(); lit("]"); ws(); T.push_back({"}","},"}); T.back().resize(1); T.push_back({"\n",""," \n\n"}); } else T.push_back({"\n","","\r\n","\n\n"});
        // one and two positions in other spellings
        vector<size_t> pos; for (size_t i=0;i<T.size();i++) if (T[i].size()>1) pos.push_back(i);
        auto build=[&](size_t p, size_t a, size_t q, size_t b){ string s; for (size_t i=0;i<T.size();i++) s+= i==p?T[i][a] : i==q?T[i][b] : T[i][0]; return s; };
        string head=f06_expect_head(c);
        if (turn()) f06_check(build(-1,0,-1,0),head,start,ev,mc::fmt("v%d shape %d",ver,shape));
        for (size_t w=0;w<WS.size();w++) if (turn()) { string s; for (auto &t : T) s+= t==WS?WS[w]:t[0]; f06_check(s,head,start,ev,mc::fmt("v%d shape %d, white space %zu everywhere",ver,shape,w)); }
        for (size_t k=0;k<12;k++) if (turn()) { string s; for (auto &t : T) s+= t[k%t.size()]; f06_check(s,head,start,ev,mc::fmt("v%d shape %d, variant %zu everywhere",ver,shape,k)); }
        for (size_t i=0;i<pos.size();i++) for (size_t a=1;a<T[pos[i]].size();a++)
        {
            if (turn()) f06_check(build(pos[i],a,-1,0),head,start,ev,mc::fmt("v%d shape %d",ver,shape));
            for (size_t j=i+1;j<pos.size();j++) for (size_t b=1;b<T[pos[j]].size();b++)
            {
                if (!th() && j>i+3 && (pos[i]*31+a*17+pos[j]*13+b*7)%11) { cid++; continue; }
                if (turn()) f06_check(build(pos[i],a,pos[j],b),head,start,ev,mc::fmt("v%d shape %d",ver,shape));
            }
        }
    }
    // all code points escaped, both cases
    for (uint32_t b=0;b<0x110000;b+=0x400) if (turn())
    {
        string f="{\"version\":2,\"width\":80,\"height\":25}\n[0.5,\"o\",\"", e;
        for (uint32_t c=b;c<b+0x400;c++) if (c<0xd800||c>0xdfff) { auto v=spell(c); f+=v[ (c>>4&1) && v.size()>1 ? v.size()-1 : v.size()>2?1:0 ]; if (c>=0x10000) f.erase(f.size()-(v[0].size()==12?0:0)); e+=utf8(c); }
        f+="\"]\n";
        f06_check(f,"\e%G\e[8;25;80t",0,{{500000,e}},mc::fmt("code points from U+%X",b));
    }
    for (uint32_t b=0x10000;b<0x110000;b+=0x400) for (int up=0;up<2;up++) if (turn())
    {
        string f="{\"version\":1,\"width\":80,\"height\":25,\"stdout\":[[0.5,\"", e;
        for (uint32_t c=b;c<b+0x400;c++) f+=hex4(0xd800+((c-0x10000)>>10),up)+hex4(0xdc00+((c-0x10000)&0x3ff),!up), e+=utf8(c);
        f06_check(f+"\"]]}\n","\e%G\e[8;25;80t",0,{{500000,e}},mc::fmt("surrogate pairs from U+%X",b));
    }
    // surrogates that are not pairs are left out, whatever is around them (a lead and a trail
    // separated by something may or may not be taken as a pair)
    for (int ver=1;ver<=2;ver++) for (int len=1;len<=(th()?6:5);len++)
    {
        const char *tk[]={"\\ud83d","\\udbff","\\ude01","\\uDC00","x","\\u00e9","\\n"}; const int nt=7;
        uint64_t tot=1; for (int i=0;i<len;i++) tot*=nt;
        for (uint64_t k=0;k<tot;k++)
        {
            if (!turn()) continue;
            int v[8]; uint64_t q=k; for (int i=0;i<len;i++) v[i]=q%nt, q/=nt;
            string in, e; bool sep=false, lead=false; uint32_t sur=0;
            for (int i=0;i<len;i++)
            {
                in+=tk[v[i]];
                if (v[i]<2) { if (lead) {} lead=true; sur=v[i]?0xdbff:0xd83d; if (i+1<len && v[i+1]>3) sep=true; }
                else if (v[i]<4)
                {
                    if (i && v[i-1]<2) { e+=utf8(0x10000+((sur-0xd800)<<10)+((v[i]==2?0xde01:0xdc00)-0xdc00)); lead=false; sep=false; }
                    else if (lead && sep) { e="?"; break; }
                }
                else e+= v[i]==4?"x":v[i]==5?"\xc3\xa9":"\n";
            }
            if (e=="?") continue;
            string f= ver==1 ? "{\"version\":1,\"width\":80,\"height\":25,\"stdout\":[[0.5,\"<"+in+">\"]]}\n" : "{\"version\":2,\"width\":80,\"height\":25}\n[0.5,\"o\",\"<"+in+">\"]\n";
            f06_check(f,"\e%G\e[8;25;80t",0,{{500000,"<"+e+">"}},"surrogates "+in);
        }
    }
    // long times
    vector<string> big={"86400","1e5","123456789.123456","0.000001","0.0000009","1e-7","1e-30","0e99","0.5e1","000000.5","5e-4294967296","3e-4294967302","0e4294967302","0.5e00000000001","00000000000000000000000000000000000000001.5","0.0000000000000000000000000000001e31","1000000000000000000000000000000e-30","123456789012345678901234567890e-29","1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000.0e-300","0.0000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001e+301"}; vector<ll> bus={86400000000LL,100000000000LL,123456789123456LL,1,0,0,0,0,5000000,500000,0,0,0,5000000,1500000,1000000,1000000,1234567,1000000,1000000};
    for (size_t i=0;i<big.size();i++) if (turn()) f06_check("{\"version\":2,\"width\":80,\"height\":25}\n["+big[i]+",\"o\",\"x\"]\n","\e%G\e[8;25;80t",0,{{bus[i],"x"}},"time "+big[i]);
    // input events do not disturb timing, whatever their times
    for (auto pat : {"oiio","ioio","iooi","oooo","iiio"}) for (int k=0;k<27;k++) if (turn())
    {
        string f="{\"version\":2,\"width\":80,\"height\":25}\n"; ll t=0; vector<Frame> ev; int dd[3]={0,700000,3000000}, kk=k;
        for (int i=0;pat[i];i++) { t+=i?dd[kk%3]:500000; if (i) kk/=3; f+=mc::fmt("[%lld.%06lld,\"%c\",\"%c\"]\n",t/1000000,t%1000000,pat[i],'A'+i); if (pat[i]=='o') ev.push_back({t,string(1,'A'+i)}); }
        f06_check(f,"\e%G\e[8;25;80t",0,ev,string("events ")+pat);
    }
    // reported, not shown as data: unsupported or malformed
    struct Mal { string f; int good; };  // good: number of events before the fault
    string H="{\"version\": 2, \"width\": 80, \"height\": 25}\n", A="[1.0, \"o\", \"AAA\"]\n", B="[2.0, \"o\", \"BBB\"]\n";
    vector<Mal> mal={{"",-1},{"   \n",-1},{"[1,2]",-1},{"hello",-1},{"\"x\"",-1},{"{",-1},{"{}",-1},{"{ }\n"+A,-1},{"{\"width\": 80}\n"+A,-1},{"{\"version\": 0}\n"+A,-1},{"{\"version\": 3}\n"+A,-1},{"{\"version\": 22}\n"+A,-1},{"{\"version\": 12}\n"+A,-1},{"{\"version\": \"2\"}\n"+A,-1},{"{\"version\": null}\n"+A,-1},{"{\"version\": -2}\n"+A,-1},{"{\"version\" 2}\n"+A,-1},{"{version: 2}\n"+A,-1},{"{\"version\": 2 \"width\": 80}\n"+A,-1},{"{\"version\": 2,, \"width\": 80}\n"+A,-1},{"{\"version\": 2, \"width\": 80",-1},{"{\"version\": 2, \"env\": {\"a\":1}",-1},{"{\"version\": 2, \"env\": [1,2",-1},{"{\"version\": 2, \"env\": {\"a",-1},{"{\"version\": 2, \"x\": }\n"+A,-1},{"{\"version\": 2, \"x\": @}\n"+A,-1},{"{\"version\": 2, \"x\"",-1},{"{\"version\": 1, \"stdout\": 5}",-1},{"{\"version\": 1, \"stdout\": {}}",-1},{"{\"version\": 1, \"width\": 80}\n"+A,-1},{"{\"version\": 1}\n",-1},{"{\"stdout\": [[1,\"x\"]], \"width\": 3}",-1},
        {H+A+"oops\n"+B,1},{H+A+"\"o\"\n"+B,1},{H+A+"{}\n"+B,1},{H+A+"5\n"+B,1},{H+A+"[\"o\", 2.0, \"BBB\"]\n",1},{H+A+"[2.0 \"o\", \"BBB\"]\n",1},{H+A+"[2.0, \"o\" \"BBB\"]\n",1},{H+A+"[2.0, o, \"BBB\"]\n",1},{H+A+"[2.0, \"o\", BBB]\n",1},{H+A+"[2.0, \"o\", 7]\n",1},{H+A+"[2.0, \"o\"]\n",1},{H+A+"[2.0]\n",1},{H+A+"[]\n",1},{H+A+"[null, \"o\", \"BBB\"]\n",1},{H+A+"[2.0, \"o\", \"BBB\"\n",2},{H+A+"[2.0, \"o\", \"BBB\", 5]\n",2},{H+A+"[2.0, \"o\", \"BBB\"}\n",2},{H+A+"[",1},{H+A+"[2.0, ",1},{H+A+"[2.0, \"o\", ",1},{H+A+"[2.0x, \"o\", \"BBB\"]\n",1},{H+A+"[2.0, 3, \"BBB\"]\n",1}};
    for (auto &m : mal) for (auto fm : {"asciicast","auto"}) if (turn())
    {
        if (!strcmp(fm,"auto") && m.good<0) continue;
        start_case(string(fm)+" malformed "+show(m.f,200));
        Log l=play(m.f,fm,0,true); if (!play_ret||l.bad.size()) { bad("playback: "+l.bad); continue; }
        string e= m.good<0?"":"\e%G\e[8;25;80t"; if (m.good>0) e+="AAA"; if (m.good>1) e+="BBB";
        string t=l.text(), last=l.lastprint;
        if (last.empty()||last.back()!='\n'||last.find("asciicast")==string::npos) { bad("not reported; shown: "+show(t,200)); continue; }
        if (t!=e+last) bad("shown "+show(t,200)+" instead of "+show(e,200)+" and a report");
    }
}

// ---------------------------------------------------------- F07
static string lower(string s) { for (auto &c : s) c=tolower((unsigned char)c); return s; }
struct Fm { const char *name,*ext; };
static const vector<Fm> WF={{"ansi",".txt"},{"ttyrec",".ttyrec"},{"nh_recorder",".nh"},{"asciicast",".cast"},{"asciicast-v1",".cast-v1"},{"live",0},{"null",0}},
    RF={{"baudrate",".txt"},{"ttyrec",".ttyrec"},{"nh_recorder",".nh"},{"dosrecorder",".dm2"},{"asciicast",".cast"},{"live",0},{"auto",0}};
static bool ends(const string &s, const string &e) { return s.size()>=e.size() && lower(s.substr(s.size()-e.size()))==lower(e); }
static const char *ref_find(const vector<Fm> &F, const char *format, const char *file, const char *fb)
{
    if (format) { for (auto &f : F) if (lower(format)==f.name) return f.name; return 0; }
    if (file)
    {
        string s=file; for (auto x : {".gz",".bz2",".xz",".zst"}) if (ends(s,x)) { s.resize(s.size()-strlen(x)); break; }
        for (auto &f : F) if (f.ext && ends(s,f.ext)) return f.name;
    }
    if (fb) for (auto &f : F) if (lower(fb)==f.name) return f.name;
    return 0;
}
static void F07()
{
    for (int w=0;w<2;w++)
    {
        auto &F=w?WF:RF; 
        vector<const char*> names={0,"","ansi","baudrate","ttyrec","nh_recorder","asciicast","asciicast-v1","live","null","auto","dosrecorder","TTYREC","TtyRec","Ansi","ASCIICAST-V1","ttyre","ttyrecx","asciicas","nh","xyzzy"," ttyrec","ttyrec "};
        vector<string> stems={"a","","a.b","/tmp/x.cast/y","x.gz","http://h/p?q=a","a.txt.ttyrec","-","x.ttyrec/a","cast","txt","a.cast-v"};
        vector<string> ext={"",".txt",".ttyrec",".nh",".cast",".cast-v1",".dm2",".TXT",".TtyRec",".cASt",".NH",".ttyre",".ttyrecx",".json","txt","ttyrec",".txt."};
        vector<string> comp={"",".gz",".bz2",".xz",".zst",".GZ",".Bz2",".Z",".lzma",".gz.xz",".gz2","gz",".xz.gz"};
        for (auto n : names) for (auto fb : names)
        {
            if (turn())
            {
                start_case(mc::fmt("%s format %s, no file, fallback %s",w?"write":"read",n?n:"none",fb?fb:"none"));
                const char *g=w?ttyrec_w_find_format(n,0,fb):ttyrec_r_find_format(n,0,fb), *e=ref_find(F,n,0,fb);
                if (!!g!=!!e || (g && strcmp(g,e))) bad(mc::fmt("%s instead of %s",g?g:"none",e?e:"none"));
            }
            for (auto &s : stems) for (auto &x : ext)
            {
                if (!turn()) continue;
                for (auto &c : comp)
                {
                    if ((s+x+c).empty()) continue;
                    string file=s+x+c;
                    start_case(mc::fmt("%s format %s, file %s, fallback %s",w?"write":"read",n?n:"none",file.c_str(),fb?fb:"none"));
                    std::unique_ptr<char,void(*)(void*)> hf(strdup(file.c_str()),free); const char *fn=hf.get(); // its own block, so that reading around it shows
                    const char *g=w?ttyrec_w_find_format(n,fn,fb):ttyrec_r_find_format(n,fn,fb), *e=ref_find(F,n,file.c_str(),fb);
                    if (!!g!=!!e || (g && strcmp(g,e))) bad(mc::fmt("%s instead of %s",g?g:"none",e?e:"none"));
                }
            }
        }
        // names and extensions listed
        if (turn())
        {
            start_case("list of formats");
            for (int i=-2;i<12;i++) { const char *g=w?ttyrec_w_get_format_name(i):ttyrec_r_get_format_name(i); const char *e= i>=0&&i<(int)F.size()?F[i].name:0; if (!!g!=!!e||(g&&strcmp(g,e))) bad(mc::fmt("format %d is %s instead of %s",i,g?g:"none",e?e:"none")); }
            for (auto n : names) if (n) { const char *g=w?ttyrec_w_get_format_ext(n):ttyrec_r_get_format_ext(n), *e=0; for (auto &f : F) if (lower(n)==f.name) e=f.ext; if (!!g!=!!e||(g&&strcmp(g,e))) bad(mc::fmt("extension of %s is %s instead of %s",n,g?g:"none",e?e:"none")); }
        }
        // the format chosen is the one used; unknown ones open nothing
        for (auto n : names) for (auto x : ext) if (turn())
        {
            string file="f"+x; const char *e=ref_find(F,n,file.c_str(),w?"ansi":"auto");
            start_case(mc::fmt("%s with format %s, file %s",w?"recorded":"played",n?n:"none",file.c_str()));
            if (w)
            {
                int fd=memfile(""), keep=dup(fd); struct timeval t0=tv(5000000), t1=tv(6250000);
                vclock=true; vnow=5000000;
                recorder r=ttyrec_w_open(fd,n,file.c_str(),&t0);
                if (!!r!=!!e) { bad(r?"opened with an unknown format":"not opened"); if (r) ttyrec_w_close(r); close(keep); vclock=false; continue; }
                if (!r && fcntl(fd,F_GETFD)!=-1) bad("descriptor not closed");
                if (r)
                {
                    ttyrec_w_write(r,&t0,"ab",2); ttyrec_w_write(r,&t1,"c",1); ttyrec_w_close(r); string s=slurp(keep), k;
                    string en=e;
                    if (en=="ansi"||en=="live") k="abc"; else if (en=="ttyrec") k=enc_ttyrec({{5000000,"ab"},{6250000,"c"}});
                    else if (en=="nh_recorder") k=string(5,0)+enc_nh({{5000000,"ab"},{6250000,"c"}},5000000);
                    else if (en=="null") k=""; 
                    if (en.substr(0,9)=="asciicast") { Cast c=parse_cast(s); if (c.err.size()||c.version!=(en=="asciicast"?2:1)) bad("not "+en+": "+show(s)); }
                    else if (s!=k) bad("not "+en+": "+show(s));
                }
                close(keep); vclock=false;
            }
            else
            {
                string f=string("\0\0\0\0\0",5)+enc_ttyrec({{1000000,"x"}});
                Log l=play(f,n,file.c_str()); 
                if (!!play_ret!=!!e) { bad(play_ret?"played with an unknown format":"not played"); continue; }
                if (l.bad.size()) { bad(l.bad); continue; }
                if (e && strcmp(e,"live") && strcmp(e,"auto")) { Log k=play(f,e); if (!(k==l)) bad(mc::fmt("not played as %s",e)); }
            }
        }
    }
    // automatic detection
    vector<Rec> v=samples(true);
    for (ll s : {0LL,1LL,1000000000LL,4294967295LL}) for (int us : {0,1,999999}) for (int len : {1,2,255,256,32767,32768,32769,65534,65535})
        v.push_back(mk_ttyrec(mc::fmt("%lld.%06d %d bytes",s,us,len),{{s*1000000+us,pattern(len)},{s*1000000+us+(s<4294967295LL?500000:0),"second"}}));
    for (int ver=1;ver<=2;ver++) for (auto h : {"{\"version\":V","{\"version\": V","{ \"version\":V","{ \"version\" : V","{\n\"version\":V","{\n  \"version\": V","{\t\"version\"\t:\tV","{\"version\":  V","{\"version\"   :   V","{      \"version\":V","{            \"version\":V"})
    {
        string s=h; s.back()='0'+ver; Rec r; r.fmt="asciicast"; r.name=show(s);
        r.file=s+",\"width\":90,\"height\":30"+(ver==2?"}\n[0.25,\"o\",\"text\"]\n[1,\"o\",\"more\"]\n":",\"stdout\":[[0.25,\"text\"],[1,\"more\"]]}\n"); v.push_back(r);
    }
    { // whitespace: all of it up to 3 characters in one place, up to 1 (2) in each
        auto cast=[&](const string &x, const string &y, const string &z, int ver){ Rec r; r.fmt="asciicast"; string h="{"+x+"\"version\""+y+":"+z+mc::fmt("%d",ver); r.name=show(h);
            r.file=h+",\"width\":90,\"height\":30"+(ver==2?"}\n[0.25,\"o\",\"text\"]\n[1,\"o\",\"more\"]\n":",\"stdout\":[[0.25,\"text\"],[1,\"more\"]]}\n"); v.push_back(r); };
        vector<vector<string>> ws={{""}}; for (int n=1;n<=4;n++) { ws.push_back({}); for (auto &x : ws[n-1]) for (char c : {' ','\t','\n','\r'}) ws[n].push_back(x+c); }
        vector<string> few; for (int n=0;n<=(th()?2:1);n++) few.insert(few.end(),ws[n].begin(),ws[n].end());
        for (int ver=1;ver<=2;ver++) { for (auto &x : few) for (auto &y : few) for (auto &z : few) cast(x,y,z,ver); for (int n=2;n<=(th()?4:3);n++) for (auto &x : ws[n]) cast(x,"","",ver), cast("",x,"",ver), cast("","",x,ver); }
    }
    for (auto &r : v) if ((r.fmt=="ttyrec"||r.fmt=="asciicast") && turn())
    {
        start_case("auto: "+r.fmt+" "+r.name);
        Log a=play(r.file,"auto"), b=play(r.file,r.fmt.c_str());
        if (a.bad.size()) bad(a.bad); else if (!(a==b)) bad("played as "+show(a)+" instead of "+show(b));
        Log c=play(r.file,0,"noext"); if (!(c==b)) bad("without a format: played as "+show(c)+" instead of "+show(b));
    }
    // anything else is shown verbatim
    vclock=true; vnow=77000000;
    auto verb=[&](const string &s){ start_case("auto: "+show(s,100)); Log l=play(s,"auto"); if (l.bad.size()) return bad(l.bad); if (l.text()!=s) bad("shown "+show(l.text(),100)); };
    vector<string> al={"\e","[","m","\n","A","\xe4\xb8\xad","{","\"","version",":","2"," "}; al.push_back(string(1,0)); al.push_back("\xff");
    std::function<void(string,int)> go=[&](string s,int d){
        // skip what is a ttyrec header or an asciicast
        bool tt=false; if (s.size()>=12) { auto u=[&](int o){ uint32_t x=0; for (int i=3;i>=0;i--) x=x<<8|(unsigned char)s[o+i]; return x; }; tt=u(4)<1000000&&u(8)>0&&u(8)<65536; }
        size_t i=0; auto sk=[&]{ while (i<s.size()&&strchr(" \t\r\n",s[i])&&s[i]) i++; }; bool ac=true; auto w=[&](const char *x){ while (*x) { if (i>=s.size()||i>=12) return; if (s[i++]!=*x++) { ac=false; return; } } };
        w("{"); sk(); if (ac) w("\"version\""); if (ac) { sk(); w(":"); } if (ac) { sk(); if (i<12&&i<s.size()&&s[i]!='1'&&s[i]!='2') ac=false; } if (s.size()<12) ac=false;
        if (!tt && !ac && turn()) verb(s);
        if (d) for (auto &x : al) go(s+x,d-1); };
    go("",th()?5:4);
    for (int n=1;n<200;n++) if (turn()) verb(pattern(n)); 
    for (int n : {4095,4096,4097,32767,32768,32769,32780,65536,100000}) if (turn()) verb(pattern(n));
    { // ttyrec-like with a wrong length or microseconds
        for (uint32_t us : {1000000u,0xffffffffu}) for (uint32_t n : {5u,65535u}) if (turn()) { string s; le(s,1,4); le(s,us,4); le(s,n,4); verb(s+pattern(100)); }
        for (uint32_t n : {0u,65536u,0x7fffffffu,0xffffffffu}) if (turn()) { string s; le(s,1,4); le(s,5,4); le(s,n,4); verb(s+pattern(100)); }
    }
    vclock=false;
}

// ---------------------------------------------------------- F08
struct DosRef { vector<string> scr; DosRef() : scr(256,string()) { for (auto &s : scr) for (int i=0;i<2000;i++) dos_cell(s,' ',7); } };
static uint64_t dos_attr(unsigned char a)
{
    static const int m[8]={0,4,2,6,1,5,3,7};
    uint64_t r=0; r=vtm::Model::bg(r,1,m[a>>4&7]); r=vtm::Model::fg(r,1,m[a&7]); if (a&8) r|=vtm::BOLD; if (a&0x80) r|=vtm::BLINK; return r;
}
// plays and compares after each frame; returns frames shown
static void f08_one(const vector<DosFrame> &v, const string &d, int valid=-1)
{
    start_case(d);
    if (valid<0) valid=v.size();
    Log l=play(enc_dos(v),"dosrecorder",0,true); if (!play_ret||l.bad.size()) return bad("playback: "+l.bad);
    vector<string> out; vector<ll> wait; ll w=0;
    for (auto &c : l.calls) if (c[0]=='W') w+=atoll(c.c_str()+1); else if (c[0]=='P') out.push_back(c.substr(1)), wait.push_back(w), w=0;
    if ((int)out.size()!=valid) return bad(mc::fmt("%zu frames shown instead of %d",out.size(),valid));
    vtm::Model m(80,25); DosRef ref; string title;
    for (int i=0;i<valid;i++)
    {
        auto &f=v[i];
        if (wait[i]!=(ll)f.delay*1000) return bad(mc::fmt("frame %d after %lld instead of %lld",i,wait[i],(ll)f.delay*1000));
        string s=ref.scr[f.sscr]; for (auto &c : f.ch) s.replace(c.pos*2,c.cells.size(),c.cells);
        ref.scr[f.dscr]=s;
        if (f.note) { for (int y=0;y<f.h;y++) s.replace(((f.y+y)*80+f.x)*2,f.w*2,f.ncells.substr(y*f.w*2,f.w*2)); title=f.title; }
        m.write(out[i]);
        if (m.sx!=80||m.sy!=25) return bad("terminal not 80x25");
        if (m.title!=title) return bad("title "+show(m.title)+" instead of "+show(title));
        for (int k=0;k<2000;k++)
        {
            unsigned char c=s[k*2], a=s[k*2+1]; vtm::Cell e; e.ch=c?ref_cp437(c):' '; e.attr=dos_attr(a);
            if (!(m.scr[k]==e)) return bad(mc::fmt("frame %d, cell %d,%d shows U+%X attributes %llx instead of U+%X %llx",i,k%80,k/80,m.scr[k].ch,(ll)m.scr[k].attr,e.ch,(ll)e.attr));
        }
    }
}
static void F08()
{
    auto full=[&](std::function<std::pair<int,int>(int)> f){ string s; for (int i=0;i<2000;i++) { auto p=f(i); dos_cell(s,p.first,p.second); } return s; };
    // all characters with all attributes
    for (int k=0;k<34;k++) if (turn()) f08_one({{0,0,0,{{0,full([&](int i){ int n=(k*2000+i)&0xffff; return std::pair<int,int>(n&255,n>>8); })}}}},mc::fmt("characters and attributes from %d",k*2000));
    for (int k=0;k<34;k++) if (turn()) f08_one({{7,0,0,{{0,full([&](int i){ int n=(k*2000+i)&0xffff; return std::pair<int,int>(n>>8,n&255); })}}}},mc::fmt("attributes and characters from %d",k*2000));
    // runs of blanks: every start and length, on 25 rows at a time
    int q=0; vector<std::pair<int,int>> runs; for (int x=0;x<80;x++) for (int n=1;x+n<=80;n++) runs.push_back({x,n});
    for (q=0;q<(int)runs.size();q+=25) for (int kind=0;kind<(th()?4:2);kind++) if (turn())
    {
        string s; for (int y=0;y<25;y++) { auto r=q+y<(int)runs.size()?runs[q+y]:runs[0]; for (int x=0;x<80;x++) { bool in=x>=r.first&&x<r.first+r.second; dos_cell(s,in?' ':'a'+x%26, kind==0?7 : kind==1?(in?0x17:0x2e) : kind==2?(in&&x>r.first+r.second/2?0x9f:0x17) : (x/3%2?7:0x70)); } }
        f08_one({{1,0,0,{{0,s}}},{2,0,0,{{0,s}}}},mc::fmt("runs of blanks %d, kind %d",q,kind));
    }
    // sequences of frames
    vector<DosFrame> al; 
    vector<vector<DosFrame::Ch>> chs={{},{{0,cells(1,1)}},{{79,cells(2,2,0x4f)}},{{1999,cells(1,3)}},{{0,cells(2000,4,0x1e)}},{{5,cells(3,5)},{6,cells(3,6,0x87)},{1000,cells(0,1)}},{{160,string()}},{{100,[]{ string s; for (int i=0;i<60;i++) dos_cell(s,' ',0x30); return s; }()}}};
    int sd[][2]={{0,0},{0,1},{1,0},{1,1},{255,0},{0,255},{7,7}};
    for (size_t c=0;c<chs.size();c++) for (auto &p : sd) { DosFrame f={(uint32_t)(c*333+p[0]),p[0],p[1],chs[c]}; al.push_back(f); }
    auto note=[&](int x,int y,int w,int h,string t,int s,int d,const vector<DosFrame::Ch> &c){ DosFrame f={40,s,d,c}; f.note=true; f.x=x;f.y=y;f.w=w;f.h=h; f.ncells=cells(w*h,x+w,0x5a); f.title=t; return f; };
    for (auto &p : sd) if (p[0]<8 && p[1]<8) { al.push_back(note(3,2,10,3,"note",p[0],p[1],chs[1])); al.push_back(note(0,0,80,25,"",p[0],p[1],{})); al.push_back(note(79,24,1,1,string(80,'t'),p[0],p[1],chs[5])); al.push_back(note(0,0,0,0,"e",p[0],p[1],{})); }
    for (size_t a=0;a<al.size();a++) { if (turn()) f08_one({al[a]},mc::fmt("frame kind %zu",a)); for (size_t b=0;b<al.size();b++) { if (turn()) f08_one({al[a],al[b]},mc::fmt("frame kinds %zu %zu",a,b)); for (size_t c=0;c<al.size();c++) { if (!th() && (a*7+b*3+c)%23) { cid++; continue; } if (turn()) f08_one({al[a],al[b],al[c]},mc::fmt("frame kinds %zu %zu %zu",a,b,c)); } } }
    for (uint32_t d : {0u,1u,999u,1000u,1001u,60000u,4294967295u}) if (turn()) { DosFrame f={d,0,0,{}}; f08_one({f,f},mc::fmt("delay %u",d)); }
    // many chunks
    for (int n : {1,500,1999,2000}) if (turn()) { DosFrame f={1,0,0,{}}; for (int i=0;i<n;i++) f.ch.push_back({(i*7)%2000,cells(1,i,i&255)}); f08_one({f},mc::fmt("%d chunks",n)); }
    // playback ends at a frame that reaches outside the screen
    DosFrame ok={5,0,0,chs[1]};
    for (int p : {0,1,1999,2000,2001,40000,65535}) for (int n : {0,1,2,1999,2000,2001}) if (turn())
    { DosFrame f={1,0,0,{{p,cells(n,3)}}}; bool v=p<2000&&p+n<=2000; f08_one({ok,f,ok},mc::fmt("delta at %d of %d",p,n),v?3:1); }
    for (int x : {0,1,79,80,255}) for (int w : {0,1,79,80,81,255}) for (int y : {0,24,25,255}) for (int h : {0,1,25,26}) if (turn())
    { DosFrame f=note(x,y,w,h,"t",0,0,{}); bool v=x+w<=80&&y+h<=25; f08_one({ok,f,ok},mc::fmt("note %dx%d at %d,%d",w,h,x,y),v?3:1); }
}

// ---------------------------------------------------------- F09
static void f09_one(const char *fm, const vector<Frame> &fr, ll limit, ll total, bool save)
{
    start_case(mc::fmt("%s%s, device full after %lld of %lld bytes: ",save?"saved as ":"",fm,limit,total)+fspec(fr));
    int fd=memfile(""), keep=dup(fd); ll s0=fr.size()?fr[0].t:0; struct timeval st=tv(s0);
    bool ok=true; int when=-1;
    ttyrec tr=0;
    if (save) { tr=ttyrec_init(0); ll p=0; for (auto &f : fr) { struct timeval d=tv(f.t-p); ttyrec_add_frame(tr,&d,f.s.data(),f.s.size()); p=f.t; } }
    struct rlimit old, lim; getrlimit(RLIMIT_FSIZE,&old); lim=old; if (limit>=0) lim.rlim_cur=limit;
    setrlimit(RLIMIT_FSIZE,&lim);
    if (save) ok=ttyrec_save(tr,fd,fm,0,0,0);
    else
    {
        recorder r=ttyrec_w_open(fd,fm,0,&st);
        if (!r) ok=false;
        else { int i=0; for (auto &f : fr) { struct timeval t=tv(f.t); if (!ttyrec_w_write(r,&t,f.s.data(),f.s.size()) && when<0) when=i; i++; } int c=ttyrec_w_close(r); ok= when<0 && c; }
    }
    setrlimit(RLIMIT_FSIZE,&old);
    if (tr) ttyrec_free(tr);
    string got=slurp(keep); close(keep);
    bool complete= limit<0 || limit>=total;
    if (complete && !ok) bad("everything was written, but failure reported");
    if (!complete && ok) bad(mc::fmt("only %zu of %lld bytes were written, but success reported",got.size(),total));
}
static void F09()
{
    signal(SIGXFSZ,SIG_IGN);
    vector<vector<Frame>> R={{},{{1000000,"a"}},{{1000000,"hello"},{1500000,"w\"orld"},{3000000,"x\xe4\xb8"},{3000001,"\xad!"}},
        {{0,pattern(4000)},{1,pattern(90)},{2,pattern(4096)},{3,pattern(3)}},{{0,pattern(9000)}},{{0,pattern(100)},{500000,pattern(40000)},{600000,"tail"}},{{0,pattern(4084)}},{{0,pattern(4096)}},{{0,pattern(8192)},{1,""}}};
    for (int i=0;i<2;i++) { vector<Frame> v; for (int k=0;k<300;k++) v.push_back({k*1000,pattern(i?37:13,k)}); R.push_back(v); }
    for (auto fm : {"ansi","ttyrec","nh_recorder","asciicast","asciicast-v1","live"}) for (int save=0;save<2;save++) for (auto &fr : R)
    {
        // times before 5 s so that saving keeps them
        vclock=true; vnow=1000000;
        string whole_; 
        { int fd=memfile(""), keep=dup(fd);
          if (save) { ttyrec tr=ttyrec_init(0); ll p=0; for (auto &f : fr) { struct timeval d=tv(f.t-p); ttyrec_add_frame(tr,&d,f.s.data(),f.s.size()); p=f.t; } ttyrec_save(tr,fd,fm,0,0,0); ttyrec_free(tr); whole_=slurp(keep); }
          else { close(fd); ll s0=fr.size()?fr[0].t:0; whole_=record(fm,fr,&s0); }
          close(keep); }
        ll n=whole_.size(); vector<ll> lim;
        if (n<400) for (ll i=0;i<=n;i++) lim.push_back(i);
        else { for (ll i=0;i<40;i++) lim.push_back(i); for (ll b=1024;b<=n;b+=1024) for (int d=-2;d<=2;d++) if (b+d<=n) lim.push_back(b+d); for (ll i=n-100;i<=n;i++) lim.push_back(i); if (th()) for (ll i=0;i<n;i+=13) lim.push_back(i); }
        lim.push_back(n+1); lim.push_back(-1);
        for (ll x : lim) if (turn()) { vnow=1000000; f09_one(fm,fr,x,n,save); }
        vclock=false;
    }
    // recordings which end anywhere relative to a buffer's border, full just there or near the end
    for (auto fm : {"ansi","ttyrec","nh_recorder","asciicast","asciicast-v1","live"}) for (int save=0;save<2;save++) for (int len=th()?3000:3940;len<=(th()?8300:4110);len++) if (turn())
    {
        vector<Frame> fr={{1000000,pattern(len)}}; vclock=true; vnow=1000000; string w;
        { int fd=memfile(""), keep=dup(fd); if (save) { ttyrec tr=ttyrec_init(0); struct timeval d=tv(1000000); ttyrec_add_frame(tr,&d,fr[0].s.data(),len); ttyrec_save(tr,fd,fm,0,0,0); ttyrec_free(tr); w=slurp(keep); } else { close(fd); ll s0=1000000; w=record(fm,fr,&s0); } close(keep); }
        ll n=w.size(); std::set<ll> lim; for (ll d=-2;d<=2;d++) lim.insert(4096+d), lim.insert(8192+d); for (ll i=n-7;i<=n;i++) lim.insert(i);
        for (ll x : lim) if (x>=0&&x<=n) { vnow=1000000; f09_one(fm,fr,x,n,save); }
        vclock=false;
    }
}

// ---------------------------------------------------------- M01, M02
static bool same_tty(tty a, tty b, string &d)
{
    if (a->sx!=b->sx||a->sy!=b->sy) { d=mc::fmt("size %dx%d instead of %dx%d",a->sx,a->sy,b->sx,b->sy); return false; }
    if (a->cx!=b->cx||a->cy!=b->cy) { d=mc::fmt("cursor at %d,%d instead of %d,%d",a->cx,a->cy,b->cx,b->cy); return false; }
    if (a->attr!=b->attr||a->s1!=b->s1||a->s2!=b->s2||a->opt_auto_wrap!=b->opt_auto_wrap||a->opt_cursor!=b->opt_cursor||a->opt_kpad!=b->opt_kpad) { d="attribute, region or mode differs"; return false; }
    if (string(a->title?a->title:"")!=(b->title?b->title:"")) { d="title differs"; return false; }
    for (int i=0;i<a->sx*a->sy;i++)
    {
        if (a->scr[i].ch!=b->scr[i].ch||a->scr[i].attr!=b->scr[i].attr) { d=mc::fmt("cell %d,%d is U+%X instead of U+%X",i%a->sx,i/a->sx,a->scr[i].ch,b->scr[i].ch); return false; }
        uint32_t x=a->scr[i].comb, y=b->scr[i].comb; int g=0;
        while (x&&y&&g++<9) { if (a->combs[x].ch!=b->combs[y].ch) break; x=a->combs[x].next; y=b->combs[y].next; }
        if (x||y) { d=mc::fmt("combining marks of cell %d,%d differ",i%a->sx,i/a->sx); return false; }
    }
    return true;
}
static string screenful(int n, int salt)  // n bytes of moving output
{
    string s; int k=salt;
    while ((int)s.size()<n) { s+=mc::fmt("\e[%d;%dH\e[3%dm",k%25+1,k*7%80+1,k%8)+pattern(20,k)+(k%5?"":"\xe4\xb8\xad\xcc\x81\n"); k++; }
    s.resize(n); return s;
}
static void m01_one(const vector<Frame> &fr, int vtkind, const string &desc)
{
    auto mkvt=[&]()->tty { if (vtkind==0) return 0; tty v=tty_init(vtkind==1?40:100,vtkind==1?10:30,1); tty_write(v,"start \e[1;32m\e[3;4Hx\e[2;5r",26); return v; };
    start_case(desc);
    ttyrec tr=ttyrec_init(mkvt()); if (!tr) return bad("not created");
    ll now=0; vector<ll> at;
    for (auto &f : fr) { struct timeval d=tv(f.t); ll dd=f.t>=5000000||f.t<0?5000000:f.t; now+=dd; at.push_back(now); ttyrec_add_frame(tr,&d,f.s.data(),f.s.size()); }
    vector<ll> q; q.push_back(-1000000); q.push_back(-1); q.push_back(0); for (ll a : at) q.push_back(a-1), q.push_back(a), q.push_back(a+1); q.push_back(now+100000000);
    std::sort(q.begin(),q.end()); q.erase(std::unique(q.begin(),q.end()),q.end());
    tty ref=mkvt(); if (!ref) ref=tty_init(80,25,1);
    size_t k=0; string d; tty v=tty_init(7,3,1);
    auto one=[&](const struct timeval *t, size_t n, const char *what) {
        // with a terminal, and without
        ttyrec_frame f=ttyrec_seek(tr,t,&v), g=ttyrec_seek(tr,t,0);
        if (f!=g) { bad(string(what)+": another frame with and without a terminal"); return false; }
        if (!f) { bad(string(what)+": no frame"); return false; }
        if (n==0 ? f->len!=0 : f->len!=(int)fr[n-1].s.size()||memcmp(f->data,fr[n-1].s.data(),f->len)) { bad(string(what)+mc::fmt(": not frame %zu",n)); return false; }
        if (n && (ll)f->t.tv_sec*1000000+f->t.tv_usec!=at[n-1]) { bad(string(what)+": wrong time"); return false; }
        size_t m=0; for (ttyrec_frame x=f; (x=ttyrec_next_frame(tr,x));) m++;
        if (m!=fr.size()-n) { bad(string(what)+mc::fmt(": %zu frames follow instead of %zu",m,fr.size()-n)); return false; }
        if (!same_tty(v,ref,d)) { bad(string(what)+": "+d); return false; }
        tty c1=tty_copy(v), c2=tty_copy(ref); const char *pr="\xad" "1;3mQ\xcc\x81\e8R\n\e[0mx\a"; tty_write(c1,pr,strlen(pr)); tty_write(c2,pr,strlen(pr));
        bool s=same_tty(c1,c2,d); tty_free(c1); tty_free(c2);
        if (!s) { bad(string(what)+": reacts differently to what follows: "+d); return false; }
        return true;
    };
    bool ok=true;
    for (ll x : q) { while (k<at.size()&&at[k]<=x) tty_write(ref,fr[k].s.data(),fr[k].s.size()), k++; struct timeval t=tv(x); if (!(ok=one(&t,k,mc::fmt("seek to %lld",x).c_str()))) break; }
    // going back gives the same again
    if (ok)
    {
        tty_free(ref); ref=mkvt(); if (!ref) ref=tty_init(80,25,1);
        if (fr.size()) tty_write(ref,fr[0].s.data(),fr[0].s.size());
        one(0,fr.size()?1:0,"seek to the start");
    }
    tty_free(v); tty_free(ref); ttyrec_free(tr);
}
// any sequence of operations on one recording: seeks of two terminals, which their owner may change in between, and additions
static void m01_ops(int rec, int depth)
{
    vector<Frame> base; if (rec==0) base={{100000,"ab"},{300000,"\e[1;31mc\e["},{0,"2;2Hd"}}; else base={{0,screenful(65530,1)},{200000,"\e[2;1Hxyz\xe4"},{100000,"\xb8\xad\e7"}};
    const vector<ll> pos={-1,50000,rec?199999:399999,rec?200000:400000,1000000}; const int P=pos.size()+1; // the last one: the start
    const int NOP=2*P+5; vector<int> op(depth);
    auto name=[&](int o){ return o<2*P? mc::fmt("seek%d:%s",o/P+1,o%P<(int)pos.size()?mc::fmt("%lld",(long long)pos[o%P]).c_str():"start") : string(vector<string>{"write","resize","add","next","drop"}[o-2*P]); };
    unsigned long n=1; for (int i=0;i<depth;i++) n*=NOP;
    for (unsigned long q=0;q<n;q++)
    {
        unsigned long r=q; for (int i=0;i<depth;i++) op[depth-1-i]=r%NOP, r/=NOP;
        if (op[depth-1]>=2*P) continue;         // only seeks are checked
        if (!turn()) continue;
        string d=mc::fmt("recording %d:",rec); for (int o : op) d+=" "+name(o); start_case(d);
        auto mk=[]{ return tty_init(12,4,1); };
        ttyrec tr=ttyrec_init(mk()); vector<Frame> fr; vector<ll> at; ll now=0;
        auto add=[&](const Frame &f){ struct timeval t=tv(f.t); now+=f.t; fr.push_back(f); at.push_back(now); ttyrec_add_frame(tr,&t,f.s.data(),f.s.size()); };
        for (auto &f : base) add(f);
        tty v[2]={0,tty_init(3,2,0)}; ttyrec_frame cur=0; string why;
        for (int i=0;i<depth && why.empty();i++)
        {
            int o=op[i];
            if (o<2*P)
            {
                tty &t=v[o/P]; struct timeval x=tv(o%P<(int)pos.size()?pos[o%P]:0); bool st=o%P==(int)pos.size();
                size_t k=st?1:0; if (!st) while (k<at.size() && at[k]<=pos[o%P]) k++;
                cur=ttyrec_seek(tr,st?0:&x,&t); if (!cur) { why="no frame"; break; }
                if (k ? cur->len!=(int)fr[k-1].s.size()||memcmp(cur->data,fr[k-1].s.data(),cur->len) : cur->len!=0) { why=mc::fmt("not frame %zu",k); break; }
                tty ref=mk(); for (size_t j=0;j<k;j++) tty_write(ref,fr[j].s.data(),fr[j].s.size());
                if (!same_tty(t,ref,why)) why=name(o)+": "+why; 
                else { tty c1=tty_copy(t); tty_write(c1,"3mQ\xad\e8R",8); tty_write(ref,"3mQ\xad\e8R",8); if (!same_tty(c1,ref,why)) why=name(o)+", what follows: "+why; tty_free(c1); }
                tty_free(ref);
            }
            else if (o==2*P) { for (auto t : v) if (t) tty_write(t,"\e[3;3H#junk\e]0;x",15); }
            else if (o==2*P+1) { for (auto t : v) if (t) tty_resize(t,5,3); }
            else if (o==2*P+2) { if (fr.size()<6) add({150000,mc::fmt("+%zu",fr.size())}); }
            else if (o==2*P+3) { if (cur) if (ttyrec_frame g=ttyrec_next_frame(tr,cur)) { cur=g; if (v[0]) tty_write(v[0],cur->data,cur->len); } }
            else { tty_free(v[0]); v[0]=0; }
        }
        tty_free(v[0]); tty_free(v[1]); ttyrec_free(tr);
        if (why.size()) bad(why);
    }
}
static void M01()
{
    vector<int> len={1,1000,32768,65535,65536,65537,131072};
    vector<ll> dl={0,500000,7000000};
    for (int a=0;a<(int)len.size();a++) for (int b=0;b<(int)len.size();b++) for (int c=0;c<(int)len.size();c++) for (int vk=0;vk<3;vk++) for (int e=0;e<(th()?9:3);e++)
    {
        if (!th() && vk && (a+b+c+e)%3) { cid++; continue; }
        if (!turn()) continue;
        vector<Frame> fr={{dl[(e+a)%3],screenful(len[a],a)},{dl[e%3],screenful(len[b],b*50)},{dl[(e/3+c)%3],screenful(len[c],c*90)},{300000,"\e[1;1Hend\e[3"},{0,"1mred"}};
        m01_one(fr,vk,mc::fmt("frames of %d %d %d, terminal %d, delays %d",len[a],len[b],len[c],vk,e));
    }
    // short frames that stop inside a sequence or a character, around a snapshot
    vector<string> tk={"a","\e","[","1;31","m","\xe4","\xb8","\xad","\e]0;ti","tle\a","\e[8;10;20t","\e[2;4r","\n","\e(0","\xcc\x81","\e7","\ec","\e8",""};
    for (auto &x : tk) for (auto &y : tk) for (auto &z : tk) for (int big=0;big<3;big++)
    {
        if (!th() && big && (cid%3)) { cid++; continue; }
        if (!turn()) continue;
        vector<Frame> fr={{100000,x},{100000,y},{0,z}};
        if (big==1) fr.insert(fr.begin(),{100000,screenful(65536-(int)x.size()-(int)y.size(),3)}); if (big==2) fr[1].s=screenful(65530,1)+fr[1].s;
        m01_one(fr,big==0?cid%3:0,"frames "+show(x)+" "+show(y)+" "+show(z)+mc::fmt(" %d",big));
    }
    m01_ops(0,th()?5:4); m01_ops(1,th()?3:2);
    if (turn()) m01_one({},0,"no frames"); 
    if (turn()) m01_one({},1,"no frames, own terminal");
    for (int n : {400,2000}) if (turn()) { vector<Frame> fr; for (int i=0;i<n;i++) fr.push_back({(i%7)*300000,screenful(1+i*37%1000,i)}); m01_one(fr,1,mc::fmt("%d frames",n)); }
}
// frames of a loaded recording as a timeline
static Log walk(ttyrec tr, ll *first=0)
{
    Log l; ttyrec_frame f=ttyrec_seek(tr,0,0); bool any=false;
    struct timeval z; z.tv_sec=-1000000000000LL; z.tv_usec=0; ttyrec_frame h=ttyrec_seek(tr,&z,0);
    if (first) *first=(ll)h->t.tv_sec*1000000+h->t.tv_usec;
    if (f==h) return l;
    for (;f;f=ttyrec_next_frame(tr,f)) { ll t=(ll)f->t.tv_sec*1000000+f->t.tv_usec; if (f->t.tv_usec<0||f->t.tv_usec>=1000000) l.bad="frame time not normalised"; if (any && t<l.t) l.bad="times go backwards"; l.t=t; l.out(f->data,f->len); any=true; }
    return l;
}
static void m02_one(const string &fmt, const vector<Frame> &fr, ll start, const string &desc)
{
    start_case(desc);
    // file by the reference encoder; expected times
    string file; vector<Frame> e; bool cast=fmt=="asciicast";
    ll org=0;
    auto clampd=[](ll d){ return d>=5000000||d<0?5000000:d; };
    if (fmt=="ttyrec") { file=enc_ttyrec(fr); org=fr.size()?fr[0].t:0; ll p=org, t=org; for (auto &f : fr) { t+=clampd(f.t-p); p=f.t; e.push_back({t,f.s}); } }
    else if (fmt=="nh_recorder") { file=string(5,0)+enc_nh(fr,start); ll p=0,t=0; for (auto &f : fr) { ll x=f.t-start; x=x>=0?x/10000*10000:-((-x+9999)/10000)*10000; t+=clampd(x-p); p=x; e.push_back({t,f.s}); } }
    else
    {
        Rec r; vector<Frame> rel; ll s=start/1000000*1000000; for (auto &f : fr) rel.push_back({f.t-s,f.s});
        file=mc::fmt("{\"version\":2,\"width\":80,\"height\":25,\"timestamp\":%lld}\n",s/1000000);
        ll p=0,t=s; e.push_back({s,"\e%G\e[8;25;80t"}); org=s;
        for (auto &f : rel) { file+=mc::fmt("[%lld.%06lld,\"o\",",f.t/1000000,f.t%1000000)+jstr(f.s)+"]\n"; t+=clampd(f.t-p); p=f.t; e.push_back({t,f.s}); }
    }
    ttyrec tr=ttyrec_load(memfile(file),fmt.c_str(),0,0); if (!tr) return bad("not loaded");
    // additions
    ll t=e.size()?e.back().t:org; int k=0;
    for (ll d : {250000LL,0LL,4999999LL}) { struct timeval x=tv(d); string s=mc::fmt("<added %d>",k++); ttyrec_add_frame(tr,&x,s.data(),s.size()); t+=d; e.push_back({t,s}); }
    { ttyrec_add_frame(tr,0,"<now>",5); e.push_back({t,"<now>"}); }
    ll h; Log w=walk(tr,&h), x; for (auto &f : e) x.t=f.t, x.out(f.s.data(),f.s.size());
    if (w.bad.size()) { bad(w.bad); ttyrec_free(tr); return; }
    if (h!=org) { bad(mc::fmt("recording starts at %lld instead of %lld",h,org)); ttyrec_free(tr); return; }
    if (!(w.p==x.p)) { bad("loaded "+show(w)+" instead of "+show(x)); ttyrec_free(tr); return; }
    // saving selections; large frames may have been loaded in several pieces
    { vector<Frame> raw; struct timeval z; z.tv_sec=-1000000000000LL; z.tv_usec=0; for (ttyrec_frame f=ttyrec_next_frame(tr,ttyrec_seek(tr,&z,0));f;f=ttyrec_next_frame(tr,f)) raw.push_back({(ll)f->t.tv_sec*1000000+f->t.tv_usec,string(f->data,f->len)}); e=raw; }
    vector<ll> sel; for (auto &f : e) { sel.push_back(f.t); sel.push_back(f.t-1); sel.push_back(f.t+1); } sel.push_back(e.back().t+5000000);
    std::sort(sel.begin(),sel.end()); sel.erase(std::unique(sel.begin(),sel.end()),sel.end());
    if (!th() && sel.size()>9) { vector<ll> s2; for (size_t i=0;i<sel.size();i+=2) s2.push_back(sel[i]); sel=s2; }
    static const char *OF[]={"ttyrec","nh_recorder","asciicast","asciicast-v1","ansi"}; int rot=cid;
    for (int a=-1;a<(int)sel.size();a++) for (int b=-1;b<(int)sel.size();b++)
    {
        const char *of=OF[rot++%5];
        bool ascii=!strncmp(of,"asciicast",9);
        size_t lo=0; if (a>=0) while (lo+1<e.size() && e[lo+1].t<=sel[a]) lo++;
        // expected frames; the one shown at the start of the selection and everything up to its end
        if (a>=0 && e[0].t>sel[a]) lo=0;
        vector<Frame> ex; for (size_t i=lo;i<e.size() && (b<0||e[i].t<=sel[b]);i++) ex.push_back(e[i]);
        int fd=memfile(""), keep=dup(fd); struct timeval t0=tv(a>=0?sel[a]:0), t1=tv(b>=0?sel[b]:0);
        int ret=ttyrec_save(tr,fd,of,0,a>=0?&t0:0,b>=0?&t1:0);
        string f=slurp(keep); close(keep);
        string wh=mc::fmt("saved as %s from %s to %s",of,a<0?"start":mc::fmt("%lld",sel[a]).c_str(),b<0?"end":mc::fmt("%lld",sel[b]).c_str());
        if (!ret) { bad(wh+": failure reported"); break; }
        string got; Log l;
        if (!strcmp(of,"ttyrec")) { string k=enc_ttyrec({}); l=play(f,"ttyrec"); l.t=0; for (auto &p : l.p) p.t+=l.start; }
        else if (!strcmp(of,"ansi")) { l=Log(); l.out(f.data(),f.size()); }
        else if (ascii) { Cast c=parse_cast(f); if (c.err.size()) { bad(wh+": "+c.err); break; } for (auto &p : c.ev) l.t=p.t+c.timestamp, l.out(p.s.data(),p.s.size()); }
        else { l=play(f,"nh_recorder"); }
        Log k; ll base= ex.size()?ex[0].t:0; (void)base;
        for (size_t i=0;i<ex.size();i++)
        {
            string s=ex[i].s; if (ascii && i==0) s=strip_size(s);
            k.t= !strcmp(of,"ansi")?0 : ex[i].t; k.out(s.data(),s.size());
        }
        if (l.text()!=k.text()) { bad(wh+": "+diffs(l.text(),k.text())); break; }
        if (!strcmp(of,"nh_recorder"))
        {
            // relative to the frame shown at the start
            vector<ll> A,B; for (auto &p : l.p) A.insert(A.end(),p.s.size(),p.t); for (auto &p : k.p) B.insert(B.end(),p.s.size(),p.t);
            ll b0= a>=0 && e[0].t>sel[a] ? h : ex.size()?ex[0].t:0; if (a<0) b0=ex.size()?ex[0].t:0;
            for (size_t i=0;i<A.size();i++) if (std::abs(A[i]-(B[i]-b0))>=10000) { bad(wh+mc::fmt(": byte %zu at %lld instead of %lld",i,A[i],B[i]-b0)); break; }
        }
        else if (!(l.p==k.p))
        {
            bool okk=l.p.size()==k.p.size(); if (okk) for (size_t i=0;i<l.p.size();i++) if (l.p[i].s!=k.p[i].s||std::abs(l.p[i].t-k.p[i].t)>1) okk=false;
            if (!okk) { bad(wh+": "+show(l)+" instead of "+show(k)); break; }
        }
        mc::stats["saves"]++;
    }
    ttyrec_free(tr);
}
static void M02()
{
    vector<ll> D={0,1,10000,999999,4999999,5000000,5000001,100000000,-1,-3000000};
    for (auto fm : {"ttyrec","nh_recorder","asciicast"}) for (ll s : {0LL,1000000000999999LL}) for (size_t n=0;n<=(size_t)(th()?3:2);n++)
    {
        size_t tot=1; for (size_t i=0;i<n;i++) tot*=D.size();
        for (size_t c=0;c<tot;c++)
        {
            vector<Frame> fr; ll t=s+ (n?0:0); size_t x=c; bool ok=true;
            if (n||c==0) fr.push_back({t,"first "});
            for (size_t i=0;i<n;i++) { t+=D[x%D.size()]; x/=D.size(); if (t<0||t<s/1000000*1000000) ok=false; fr.push_back({t,mc::fmt("frame%zu",i)}); }
            if (!ok) continue;
            if (!strcmp(fm,"asciicast")) { bool back=false; for (size_t i=1;i<fr.size();i++) if (fr[i].t<fr[i-1].t) back=true; (void)back; }
            if (turn()) m02_one(fm,fr,s,mc::fmt("%s at %lld ",fm,s)+fspec(fr));
        }
    }
    for (auto fm : {"ttyrec","nh_recorder","asciicast"}) if (turn()) m02_one(fm,{},1000000000LL*1000000,string(fm)+" empty");
    for (auto fm : {"ttyrec","nh_recorder","asciicast"}) if (turn()) m02_one(fm,{{0,pattern(70000)},{400000,pattern(40000)},{400000,pattern(10)}},0,string(fm)+" with large frames");
    // failures
    for (auto fm : {"ttyrec","nh_recorder","asciicast","asciicast-v1","ansi"}) if (turn())
    {
        start_case(string("save failing, ")+fm);
        ttyrec tr=ttyrec_init(0); struct timeval d=tv(1000); ttyrec_add_frame(tr,&d,"hello",5);
        if (ttyrec_save(tr,memfile(""),"nonsense",0,0,0)) bad("unknown format accepted");
        if (ttyrec_save(tr,-1,fm,"/nonexistent/dir/file",0,0)) bad("saving to a file that cannot be created reported as success");
        ttyrec_free(tr);
        if (ttyrec_load(memfile("x"),"nonsense",0,0)) bad("loaded with an unknown format");
        if (ttyrec_load(-1,fm[0]=='a'&&fm[1]=='n'?"baudrate":!strcmp(fm,"asciicast-v1")?"asciicast":fm,"/nonexistent/dir/file",0)) bad("loaded a missing file");
    }
}

// ---------------------------------------------------------- I01 independence
struct Op { int who, n; };
static const vector<string> I01F={"ttyrec","nh_recorder","asciicast","asciicast-v1","ansi"};
static vector<Frame> i01_frames(int v)
{
    if (v==0) return {{1000000,"\e%G\e[8;30;100tone"},{2345678,"tw\xe4\xb8"},{2345678,"\xado \"\\"}};
    if (v==1) return {{500,"first \xf0\x9f"},{7000500,"\x98\x80 x"},{7990500,"last\n"}};
    return {{0,""},{3000000,pattern(9000,5)},{3000001,"e\xcc"}};
}
struct RecRun
{
    string fm; vector<Frame> fr; bool dated; recorder r=0; int keep=-1; int st=0; string res;
    void go()
    {
        struct timeval d=tv(1234567890000000LL);
        if (st==0) { int fd=memfile(""); keep=dup(fd); r=ttyrec_w_open(fd,fm.c_str(),0,dated?&d:0); if (!r) res="not opened"; }
        else if (st<=(int)fr.size()) { if (r) { struct timeval t=tv(fr[st-1].t); string c=fr[st-1].s; if (!ttyrec_w_write(r,&t,c.data(),c.size())) res+="write failed "; } }
        else if (r) { if (!ttyrec_w_close(r)) res+="close failed "; res+=slurp(keep); close(keep); }
        st++;
    }
    bool done() { return st>(int)fr.size()+1; }
};
// a player that does something else in the middle
struct Nest { Log l; std::function<void()> f; int at, n; void tick() { if (n++==at && f) f(); } };
static void ni(const struct timeval *t, void *a) { cb_init(t,&((Nest*)a)->l); ((Nest*)a)->tick(); }
static void nw(const struct timeval *t, void *a) { cb_wait(t,&((Nest*)a)->l); ((Nest*)a)->tick(); }
static void np(const char *b, int n, void *a) { cb_print(b,n,&((Nest*)a)->l); ((Nest*)a)->tick(); }
static Nest nplay(const Rec &r, const char *fm, int at, std::function<void()> f)
{ Nest x; x.at=at; x.n=0; x.f=f; ttyrec_r_play(memfile(r.file),fm,0,ni,nw,np,&x); return x; }
struct Line
{
    int kind; ttyrec tr=0; int st=0; string res;
    static string look(tty v) { string s=mc::fmt("%dx%d %d,%d ",v->sx,v->sy,v->cx,v->cy); for (int i=0;i<v->sx*v->sy;i++) s+=mc::fmt("%x.%llx ",v->scr[i].ch,(unsigned long long)v->scr[i].attr); return s; }
    void seek(ll t) { tty v=0; struct timeval q=tv(t); ttyrec_frame f=ttyrec_seek(tr,t<0?0:&q,&v); res+=f?mc::fmt("[%d %lld.%06lld %s]",f->len,(ll)f->t.tv_sec,(ll)f->t.tv_usec,string(f->data?f->data:"",f->len>20?20:f->len).c_str()):"[none]"; if (v) { mc::Hasher h; string s=look(v); for (char c : s) h.u((unsigned char)c); auto k=h.get(); res+=mc::fmt("%llx ",(unsigned long long)k.a); tty_free(v); } }
    void add(ll t, const string &s) { struct timeval d=tv(t); ttyrec_add_frame(tr,&d,s.data(),s.size()); }
    void go()
    {
        int k=kind%3;
        if (st==0) { if (k==2) tr=ttyrec_load(memfile(enc_ttyrec({{0,"L1\e[31m"},{2000000,screenful(70000,3)},{9000000,"L2"}})),"ttyrec",0,0); else { tty v=0; if (k==1) { v=tty_init(20,4,1); tty_write(v,"start\e[2;3r",11); } tr=ttyrec_init(v); } }
        else if (st==1) add(1000000,kind<3?"one \e[1m":"uno \e[2;5H");
        else if (st==2) { add(2000000,screenful(66000,kind)); seek(1500000); }
        else if (st==3) { add(500000,"three\xe4\xb8"); seek(99000000); seek(-1); }
        else { int fd=memfile(""), keep=dup(fd); bool ok=ttyrec_save(tr,fd,kind&1?"asciicast":"ttyrec",0,0,0); string s=slurp(keep); close(keep); mc::Hasher h; for (char c : s) h.u((unsigned char)c); res+=mc::fmt("saved %d %zu %llx",ok,s.size(),(unsigned long long)h.get().a); seek(3000000); ttyrec_free(tr); }
        st++;
    }
    bool done() { return st>4; }
};
template<class T> static void two(T a, T b, const vector<int> &order, const string &ra, const string &rb)
{
    for (int w : order) if (w) b.go(); else a.go();
    if (a.res!=ra) bad("the first one comes to "+diffs(a.res,ra)); else if (b.res!=rb) bad("the second one comes to "+diffs(b.res,rb));
}
static void I01()
{
    vector<vector<int>> O; { vector<int> v={0,0,0,0,0,1,1,1,1,1}; do O.push_back(v); while (std::next_permutation(v.begin(),v.end())); }
    auto os=[](const vector<int> &o){ string s; for (int x : o) s+='1'+x; return s; };
    // recorders
    vector<RecRun> R; for (auto &f : I01F) for (int v=0;v<3;v++) { RecRun r; r.fm=f; r.fr=i01_frames(v); r.dated=v==1; R.push_back(r); }
    vector<string> solo; for (auto r : R) solo.push_back(mc::apart([&]{ while (!r.done()) r.go(); return r.res; }));
    for (size_t i=0;i<R.size();i++) for (size_t j=0;j<R.size();j++) for (size_t q=0;q<O.size();q++) if (turn())
    { start_case("recording "+R[i].fm+mc::fmt(" %zu and ",i)+R[j].fm+mc::fmt(" %zu in order ",j)+os(O[q])); two(R[i],R[j],O[q],solo[i],solo[j]); }
    // recordings in memory
    vector<string> ls; for (int k=0;k<6;k++) ls.push_back(mc::apart([&]{ Line l; l.kind=k; while (!l.done()) l.go(); return l.res; }));
    for (int i=0;i<6;i++) for (int j=0;j<6;j++) for (size_t q=0;q<O.size();q++) if ((th()||(q+i+2*j)%3==0) && turn())
    { start_case(mc::fmt("recordings %d and %d in memory, in order ",i,j)+os(O[q])); Line a,b; a.kind=i; b.kind=j; two(a,b,O[q],ls[i],ls[j]); }
    // a player stopped at every step while something else runs
    auto S=samples(false); S.push_back({}); S.back()=S[0]; S.back().file=enc_dos(dos_sample(true)); S.back().fmt="dosrecorder";
    auto fmof=[&](const Rec &r)->const char*{ return r.fmt.c_str(); };
    auto all=[](const Log &l){ string s=mc::fmt("%d %lld",l.inited,l.start); for (auto &x : l.p) s+=mc::fmt(" %lld ",(ll)x.t)+mc::esc(x.s); return s; };
    vector<Log> sl; vector<int> cnt; for (auto &r : S) { Nest n=nplay(r,fmof(r),-1,0); sl.push_back(n.l); cnt.push_back(n.n); if (!n.l.nprint) { bad("nothing played alone: "+r.name); } string h=all(n.l), a=mc::apart([&]{ return all(nplay(r,fmof(r),-1,0).l); }); if (h!=a) { start_case(r.fmt+" "+r.name+" after other uses"); bad("played as "+show(n.l)+", first of all as "+a.substr(0,300)); } }
    for (size_t i=0;i<S.size();i++) for (size_t j=0;j<S.size();j++) for (int at=0;at<cnt[i];at++)
    {
        if (turn())
        {
            start_case(S[i].fmt+" "+S[i].name+mc::fmt(" stopped at step %d while ",at)+S[j].fmt+" "+S[j].name+" is played");
            Nest in; Nest a=nplay(S[i],fmof(S[i]),at,[&]{ in=nplay(S[j],fmof(S[j]),-1,0); });
            if (!(a.l==sl[i])) bad("the outer one plays "+show(a.l)+" instead of "+show(sl[i])); else if (!(in.l==sl[j])) bad("the inner one plays "+show(in.l)+" instead of "+show(sl[j]));
        }
        if (th()||S.size()) for (int k=0;k<cnt[j];k+= th()?1:5) if (turn())
        {   // the inner one also stopped, for a third
            start_case(S[i].fmt+mc::fmt(" stopped at step %d while ",at)+S[j].fmt+mc::fmt(" is stopped at step %d",k));
            Nest in,in2; size_t x=(i+j+k)%S.size(); Nest a=nplay(S[i],fmof(S[i]),at,[&]{ in=nplay(S[j],fmof(S[j]),k,[&]{ in2=nplay(S[x],fmof(S[x]),-1,0); }); });
            if (!(a.l==sl[i])) bad("the outer one plays "+show(a.l)+" instead of "+show(sl[i])); else if (!(in.l==sl[j])||!(in2.l==sl[x])) bad("an inner one plays "+show(in.l)+", "+show(in2.l));
        }
    }
    for (size_t i=0;i<S.size();i++) for (int at=0;at<cnt[i];at++) for (size_t j=0;j<R.size();j++) if (turn())
    {
        start_case(S[i].fmt+" "+S[i].name+mc::fmt(" stopped at step %d while a ",at)+R[j].fm+mc::fmt(" %zu is recorded",j));
        RecRun r=R[j]; Nest a=nplay(S[i],fmof(S[i]),at,[&]{ while (!r.done()) r.go(); });
        if (!(a.l==sl[i])) bad("plays "+show(a.l)+" instead of "+show(sl[i])); else if (r.res!=solo[j]) bad("records "+diffs(r.res,solo[j]));
    }
    // converting: every step of the player makes one of a recorder
    for (size_t i=0;i<S.size();i++) for (size_t j=0;j<R.size();j++) for (size_t k=0;k<R.size();k++) if (turn())
    {
        start_case(S[i].fmt+" "+S[i].name+mc::fmt(" played while %zu and %zu are recorded step by step",j,k));
        RecRun a=R[j], b=R[k]; std::function<void()> st=[&]{ if (!a.done()) a.go(); if (!b.done()) b.go(); };
        struct N2 : Nest {} x; x.at=-1; x.n=0; Nest *n=&x; n->f=0;
        struct H { static void w(const struct timeval *t, void *p) { auto *q=(std::pair<Nest*,std::function<void()>*>*)p; cb_wait(t,&q->first->l); (*q->second)(); } static void p(const char *s, int n, void *p) { auto *q=(std::pair<Nest*,std::function<void()>*>*)p; cb_print(s,n,&q->first->l); (*q->second)(); } static void i(const struct timeval *t, void *p) { auto *q=(std::pair<Nest*,std::function<void()>*>*)p; cb_init(t,&q->first->l); (*q->second)(); } };
        std::pair<Nest*,std::function<void()>*> pr{n,&st};
        ttyrec_r_play(memfile(S[i].file),fmof(S[i]),0,H::i,H::w,H::p,&pr); while (!a.done()||!b.done()) st();
        if (!(n->l==sl[i])) bad("plays "+show(n->l)); else if (a.res!=solo[j]) bad("the first records "+diffs(a.res,solo[j])); else if (b.res!=solo[k]) bad("the second records "+diffs(b.res,solo[k]));
    }
}

int main(int argc, char **argv)
{
    mc::init(argc,argv);
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc,on_free);
    if (mc::O.replaying) { size_t h=mc::O.replay.find('#'); mc::O.tier=mc::O.replay.substr(0,h); want=strtoull(mc::O.replay.c_str()+h+1,0,10); }
    struct rlimit st={64<<20,64<<20}; (void)st;
    const string &M=mc::O.mode;
    if (M=="F01") F01(); else if (M=="F02") F02(); else if (M=="F03") F03(); else if (M=="F04") lenient=true, F04(); else if (M=="F05") F05();
    else if (M=="F06") F06(); else if (M=="F07") F07(); else if (M=="F08") F08(); else if (M=="F09") F09(); else if (M=="M01") M01(); else if (M=="M02") M02(); else if (M=="I01") I01();
    else return 2;
    mc::finish();
}
