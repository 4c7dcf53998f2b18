// S02, M03, U04: the threads of the program under every schedule (up to a
// number of preemptions), with virtual time.
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>
#include "vsched.hpp"
#include "vtutil.hpp"
#include <sys/ioctl.h>
#include <algorithm>
#include <set>
#include <cmath>
#include <fcntl.h>
#include <termios.h>
extern "C" {
#include "ttyrec.h"
#include "../libstream/stream.h"
int termplay_main(int, char**);
extern int optind;
}
using std::string; using std::vector; using mc::fmt;
typedef long long ll;

static unsigned long long cid=0, want=0;
static bool turn() { cid++; return mc::O.replaying ? cid==want : mc::mix(cid)%mc::O.nshards==(unsigned)mc::O.shard; }
static void start_case(const string &d)
{ string s=fmt("%s#%llu ",mc::O.tier.c_str(),cid)+d.substr(0,2000); for (auto &c : s) if (c=='\t'||c=='\n') c=' '; mc::begin_case(s); mc::stats["scenarios"]++; }
static bool th() { return mc::thorough(); }

// ------------------------------------------------ virtual descriptors
struct VPipe { string data; bool wr_open, rd_open; size_t cap; };
static vector<VPipe> vp;            // descriptors 1000+2i (read), 1001+2i (write)
static string stored; static vector<string> files;     // descriptors 2000+i: files
static bool can_read(void *a) { VPipe &p=vp[(size_t)a]; return p.data.size() || !p.wr_open; }
static bool can_write(void *a) { VPipe &p=vp[(size_t)a]; return p.data.size()<p.cap || !p.rd_open; }
static int pipe_fail=-1; static size_t pipe_cap=4;
extern "C" {
int __real_pipe(int*); int __wrap_pipe(int *p)
{
    if (!vs::in_run) return __real_pipe(p);
    vs::point("pipe"); if (pipe_fail>=0 && pipe_fail--==0) { errno=EMFILE; return -1; }
    vp.push_back({"",true,true,pipe_cap}); p[0]=1000+2*(vp.size()-1); p[1]=p[0]+1; return 0;
}
ssize_t __real_read(int,void*,size_t); ssize_t __wrap_read(int fd, void *b, size_t n)
{
    if (!vs::in_run) return __real_read(fd,b,n);
    if (fd<1000||fd>=2000||(fd&1)) { errno=EBADF; return -1; }
    size_t i=(fd-1000)/2; vs::point("read"); if (!vp[i].rd_open) { vs::report("read from a closed descriptor"); errno=EBADF; return -1; }
    vs::wait_for(can_read,(void*)i,-1,"read"); vs::acquire((void*)(i+1)); size_t k=std::min(n,vp[i].data.size()); memcpy(b,vp[i].data.data(),k); vp[i].data.erase(0,k); return k;
}
ssize_t __real_write(int,const void*,size_t); ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (!vs::in_run) return __real_write(fd,b,n);
    if (fd>=2000) { vs::point("write"); if (fd-2000>=(int)files.size()) { errno=EBADF; return -1; } files[fd-2000].append((const char*)b,n); return n; }
    if (fd<1000||!(fd&1)) { errno=EBADF; return -1; }
    size_t i=(fd-1001)/2; size_t o=0; if (!vp[i].wr_open) { vs::report("write to a closed descriptor"); errno=EBADF; return -1; }
    while (o<n)
    {
        vs::wait_for(can_write,(void*)i,-1,"write");
        if (!vp[i].rd_open) { if (!vs::fib[vs::cur].sigpipe_blocked) { vs::report("killed by SIGPIPE"); vs::stop_run(1); } errno=EPIPE; return -1; }
        size_t k=std::min(n-o,vp[i].cap-vp[i].data.size()); vp[i].data.append((const char*)b+o,k); o+=k; vs::release((void*)(i+1));
    }
    return n;
}
int __real_close(int); int __wrap_close(int fd)
{
    if (!vs::in_run) return __real_close(fd);
    vs::point("close"); if (fd>=2000) { return 0; } if (fd<1000 || fd>=1000+(int)vp.size()*2) { errno=EBADF; return -1; }
    VPipe &p=vp[(fd-1000)/2]; bool &o=(fd&1)?p.wr_open:p.rd_open; if (!o) vs::report("descriptor closed twice"); o=false; vs::release((void*)(size_t)((fd-1000)/2+1)); return 0;
}
static struct termios t_now, t_orig; static bool t_tty=true; static int t_sets;
int __wrap_isatty(int) { return vs::in_run && t_tty; }
int __wrap_tcdrain(int) { return 0; }
int __wrap_tcsetattr(int fd,int,const struct termios *t) { if (!t_tty) { errno=ENOTTY; return -1; } vs::point("tcsetattr"); t_now=*t; t_sets++; return 0; }
int __wrap_tcgetattr(int fd,struct termios *t) { if (!t_tty) { errno=ENOTTY; return -1; } *t=t_now; return 0; }
// signals: what would be done about each, and one sent at a given point of the run
static struct sigaction sg_h[65]; static int sg_in, sg_send, sg_at, sg_n; static unsigned long long sg_pend, sg_mask; static bool sg_sent, sg_ign;
static void sg_deliver(int s)
{
    struct sigaction h=sg_h[s];
    if (h.sa_handler==SIG_IGN) { if (!sg_ign && !sg_in) vs::report("the signal is ignored"); return; }
    if (h.sa_handler==SIG_DFL) { if (s==SIGCHLD||s==SIGWINCH||s==SIGURG||s==SIGCONT) return; vs_exit_code=128+s; vs::stop_run(0); }
    if (h.sa_flags&SA_RESETHAND) sg_h[s].sa_handler=SIG_DFL;
    unsigned long long old=sg_mask, m=0; for (int i=1;i<64;i++) if (sigismember(&h.sa_mask,i)>0) m|=1ULL<<i;
    sg_mask|=m; if (!(h.sa_flags&SA_NODEFER)) sg_mask|=1ULL<<s;
    sg_in++; if (h.sa_flags&SA_SIGINFO) { siginfo_t si; memset(&si,0,sizeof si); si.si_signo=s; h.sa_sigaction(s,&si,0); } else h.sa_handler(s);
    sg_in--; sg_mask=old; for (int i=1;i<64;i++) if (sg_pend&~sg_mask&1ULL<<i) { sg_pend&=~(1ULL<<i); sg_deliver(i); }
}
static void sg_raise(int s) { if (s<1||s>63) return; if (sg_mask&1ULL<<s) sg_pend|=1ULL<<s; else sg_deliver(s); }
static void sg_hook() { if (sg_send && !sg_sent && !sg_in && sg_n++==sg_at) { sg_sent=true; sg_raise(sg_send); } }
int __real_sigaction(int,const struct sigaction*,struct sigaction*);
int __wrap_sigaction(int s, const struct sigaction *n, struct sigaction *o) { if (!vs::in_run) return __real_sigaction(s,n,o); vs::point("sigaction"); if (s<1||s>63||s==SIGKILL||s==SIGSTOP) { errno=EINVAL; return -1; } if (o) *o=sg_h[s]; if (n) sg_h[s]=*n; return 0; }
sighandler_t __wrap_signal(int s, sighandler_t f) { struct sigaction n, o; memset(&n,0,sizeof n); n.sa_handler=f; n.sa_flags=SA_RESTART; return (vs::in_run?__wrap_sigaction(s,&n,&o):__real_sigaction(s,&n,&o))?SIG_ERR:o.sa_handler; }
int __real_raise(int); int __wrap_raise(int s) { if (!vs::in_run) return __real_raise(s); sg_raise(s); return 0; }
int __real_kill(pid_t,int); int __wrap_kill(pid_t p, int s) { if (!vs::in_run) return __real_kill(p,s); if (p==getpid()||p==0) sg_raise(s); return 0; }
int __wrap_pthread_kill(pthread_t, int s) { sg_raise(s); return 0; }
int __wrap_tgkill(int,int,int s) { sg_raise(s); return 0; }
static int win_x=12, win_y=3;
int __wrap_ioctl(int fd, unsigned long rq, ...)
{
    va_list ap; va_start(ap,rq); void *p=va_arg(ap,void*); va_end(ap);
    if (!t_tty) { errno=ENOTTY; return -1; }
    if (rq==TIOCGWINSZ) { struct winsize *w=(struct winsize*)p; memset(w,0,sizeof *w); w->ws_col=win_x; w->ws_row=win_y; return 0; }
    return 0;
}
}
static void reset_io()
{
    memset(sg_h,0,sizeof sg_h); sg_in=sg_n=0; sg_pend=sg_mask=0; sg_sent=false; if (sg_ign) sg_h[sg_send].sa_handler=SIG_IGN;
    memset(&t_orig,0,sizeof t_orig); t_orig.c_iflag=ICRNL|IXON|BRKINT; t_orig.c_oflag=OPOST|ONLCR; t_orig.c_cflag=CS8|CREAD|HUPCL; t_orig.c_lflag=ISIG|ICANON|ECHO|ECHOE|ECHOK|IEXTEN; t_orig.c_cc[VMIN]=7; t_orig.c_cc[VTIME]=3; t_orig.c_cc[VINTR]=3; t_now=t_orig; t_sets=0;
    vp.clear(); files.clear(); pipe_fail=-1; pipe_cap=4; vs_thread_fail=-1; vs_exit_code=-1; }

// ------------------------------------------------ S02
// Streams whose workers move bytes between a pipe and a "file", in steps.
struct Stream { bool wr; int steps; string in; };   // what is written to it, or what its worker delivers
static vector<Stream> strs; static vector<int> order; static int reads_before_close; static bool fail_thread_at; static int s2_fail;
static vector<bool> done; static vector<string> got;
static void s2_worker(int in, int out, const char *arg)
{
    int i=(int)(size_t)arg; char b[3]; ssize_t n;
    if (strs[i].wr)
    {
        while ((n=read(out,b,3))>0) { vs::point("work"); write(2000+i,b,n); }
        for (int k=0;k<strs[i].steps;k++) vs::point("finishing");
        write(2000+i,"$",1); close(out);
    }
    else
    {
        for (char c : strs[i].in) { vs::point("work"); if (write(out,&c,1)!=1) break; }
        for (int k=0;k<strs[i].steps;k++) vs::point("finishing");
        close(out);
    }
    done[i]=true;
}
static vector<int> failed;
static void *s2_main(void*)
{
    vector<int> fd(strs.size(),-1); const char *err=0;
    for (size_t i=0;i<strs.size();i++)
    {
        err=0; fd[i]=filter(s2_worker,-1,strs[i].wr,(const char*)i,&err);
        if (fd[i]==-1) { failed.push_back(i); done[i]=true; if (!err||!*err) vs::report("failed without a reason"); }
        else if (strs[i].wr && strs[i].in.size()>2) write(fd[i],strs[i].in.data(),1);
    }
    for (int i : order)
    {
        if (fd[i]==-1) continue;
        if (strs[i].wr) { size_t o=strs[i].in.size()>2; write(fd[i],strs[i].in.data()+o,strs[i].in.size()-o); }
        else for (int k=0;k<reads_before_close;k++) { char c; ssize_t n=read(fd[i],&c,1); if (n==1) got[i]+=c; }
        close(fd[i]);
    }
    exit(0); return 0;
}
static void s2_run(const string &d, int bound)
{
    if (!turn()) return;
    start_case(d); vs::bound=bound; vs::quiescent=0; vs::allow_adv=false;
    vs::explore(s2_main,0,[&]{ reset_io(); vs_thread_fail=s2_fail; files.assign(strs.size(),""); done.assign(strs.size(),false); got.assign(strs.size(),""); failed.clear(); },
    [&]{
        if (vs_exit_code!=0) return vs::report("the program did not exit by itself");
        for (size_t i=0;i<strs.size();i++)
        {
            if (std::find(failed.begin(),failed.end(),(int)i)!=failed.end()) continue;
            if (!done[i]) return vs::report(fmt("the program exited while the worker of stream %zu was at work",i));
            if (strs[i].wr && files[i]!=strs[i].in+"$") return vs::report(fmt("stream %zu stored ",i)+mc::esc(files[i])+" of "+mc::esc(strs[i].in));
            if (!strs[i].wr && got[i]!=strs[i].in.substr(0,got[i].size())) return vs::report("read other data");
        }
        if (s2_fail>=0 && s2_fail<(int)strs.size() && failed.empty()) vs::report("the failure to start a thread went unnoticed");
        for (auto &p : vp) if (p.wr_open||p.rd_open) return vs::report("a pipe was left open");
    });
}
static void S02()
{
    auto W=[](int steps, const char *s){ return Stream{true,steps,s}; }; auto R=[](int steps, const char *s){ return Stream{false,steps,s}; };
    int B=th()?5:4; s2_fail=-1; reads_before_close=0;
    vector<vector<Stream>> one={{W(0,"")},{W(0,"a")},{W(1,"abcd")},{W(2,"abcdefgh")},{R(0,"")},{R(1,"x")},{R(1,"xyzxyz")}};
    for (auto &s : one) for (int r=0;r<3;r++) { strs=s; order={0}; reads_before_close=r; if (s[0].wr && r) { cid++; continue; } s2_run(fmt("one %s stream of %zu, %d read",s[0].wr?"output":"input",s[0].in.size(),r),B+1); }
    reads_before_close=1;
    for (auto &a : {W(0,""),W(1,"a"),W(0,"abcde"),R(0,""),R(1,"xyzxyz")}) for (auto &b : {W(0,""),W(2,"b"),R(0,"x"),R(2,"xyzxyz")}) for (int o=0;o<2;o++) for (int f=-1;f<2;f++)
    { strs={a,b}; order= o?vector<int>{1,0}:vector<int>{0,1}; s2_fail=f; s2_run(fmt("two streams (%d %zu, %d %zu), closed in order %d, creation %d fails",a.wr,a.in.size(),b.wr,b.in.size(),o,f),B); }
    s2_fail=-1;
    vector<vector<int>> perm={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    for (auto &p : perm) for (int k=0;k<4;k++) for (int f=-1;f<3;f++) { strs={W(0,k&1?"ab":""),k&2?R(1,"xyzxyz"):W(1,"c"),W(0,"")}; order=p; s2_fail=f; s2_run(fmt("three streams %d, order %d%d%d, creation %d fails",k,p[0],p[1],p[2],f),th()?4:3); }
}

// ------------------------------------------------ M03
struct MF { ll delay; string data; };
static vector<MF> mf; static vector<ll> mt; static vector<string> mscr;   // expected times and screens
static int m_started, m_done; static ttyrec m_tr; static vector<std::pair<int,ll>> mops;   // 0 next, 1 seek, 2 seek without a time
static int mx=10, my=3;
static string screen_of(tty v)
{
    string s=fmt("%dx%d @%d,%d ",v->sx,v->sy,v->cx,v->cy);
    for (int i=0;i<v->sx*v->sy;i++) { unsigned c=v->scr[i].ch; s+= c>32&&c<127?string(1,(char)c):c==32||!c?string("_"):fmt("<%x>",c); if (v->scr[i].attr) s+=fmt("{%llx}",(unsigned long long)v->scr[i].attr); for (unsigned k=v->scr[i].comb;k;k=v->combs[k].next) s+=fmt("+%x",v->combs[k].ch); }
    return s;
}
static void *m_loader(void*)
{
    for (auto &f : mf) { struct timeval d={(time_t)(f.delay/1000000),(suseconds_t)(f.delay%1000000)}; vs::point("next frame"); m_started++; ttyrec_add_frame(m_tr,&d,f.data.data(),f.data.size()); m_done++; vs::point("added"); }
    return 0;
}
static int m_index(ttyrec_frame f) { struct FR { struct timeval t; int len; char *data; } *p=(FR*)f;  // the public beginning of a frame
    for (size_t i=0;i<mf.size();i++) if ((size_t)p->len==mf[i].data.size() && p->data && !memcmp(p->data,mf[i].data.data(),p->len) && p->t.tv_sec*1000000LL+p->t.tv_usec==mt[i]) return i+1;
    return -1; }
static vector<std::pair<int,ll>> mops2;    // those of another reader
static void m_read(const vector<std::pair<int,ll>> &ops)
{
    int at=0; ttyrec_frame fr=ttyrec_seek(m_tr,0,0); tty v=0; { int k=m_index(fr); if (k>0) at=k; else { struct timeval z={-1,0}; fr=ttyrec_seek(m_tr,&z,0); at=0; } }
    for (auto &op : ops)
    {
        int lo=m_done;
        if (op.first==0)
        {
            ttyrec_frame n=ttyrec_next_frame(m_tr,fr); int hi=m_started;
            if (!n) { if (at<lo) vs::report(fmt("no frame after the %dth though %d had been added",at,lo)); continue; }
            int k=m_index(n); if (k!=at+1) { vs::report(k<0?fmt("an incomplete or wrong frame after the %dth",at):fmt("frame %d follows frame %d",k,at)); break; }
            if (k>hi) { vs::report("a frame before it has been added"); break; }
            fr=n; at=k;
        }
        else
        {
            struct timeval tv={(time_t)(op.second/1000000),(suseconds_t)(op.second%1000000)};
            fr=ttyrec_seek(m_tr,op.first==1?&tv:0,&v); int hi=m_started, k;
            if (!fr||!v) { vs::report("seek failed"); break; }
            auto idx=[&](int n){ int i=0; if (op.first==2) return n?1:0; while (i<n && mt[i]<=op.second) i++; return i; };
            k=m_index(fr); if (k<0) k= ((struct timeval*)fr)->tv_sec==0 && ((struct timeval*)fr)->tv_usec==0 ? 0 : -1;
            if (k<0) { vs::report("seek returned an incomplete or wrong frame"); break; }
            if (k<idx(lo)||k>idx(hi)) { vs::report(fmt("seek returned frame %d, with between %d and %d frames added it is %d to %d",k,lo,hi,idx(lo),idx(hi))); break; }
            bool was=vs::in_run; vs::in_run=false; string s=screen_of(v); vs::in_run=was;
            if (s!=mscr[k]) { vs::report(fmt("screen of frame %d is ",k)+s+" instead of "+mscr[k]); break; }
            at=k;
        }
    }
    if (v) tty_free(v);
}
static void *m_reader2(void*) { m_read(mops2); return 0; }
static void *m_main(void*)
{
    m_tr=ttyrec_init(tty_init(mx,my,1));
    pthread_t t, t2; if (pthread_create(&t,0,m_loader,0)) return 0;
    bool two=mops2.size() && !pthread_create(&t2,0,m_reader2,0);
    m_read(mops);
    pthread_join(t,0); if (two) pthread_join(t2,0);
    // all is there in the end
    struct timeval z={-1,0}; int n=0; for (ttyrec_frame f=ttyrec_next_frame(m_tr,ttyrec_seek(m_tr,&z,0));f;f=ttyrec_next_frame(m_tr,f)) if (m_index(f)!=++n) vs::report("the list is wrong in the end");
    if (n!=(int)mf.size()) vs::report(fmt("%d of %zu frames in the end",n,mf.size()));
    ttyrec_free(m_tr); exit(0); return 0;
}
static void m_expect()
{
    mt.clear(); mscr.clear(); tty v=tty_init(mx,my,1); mscr.push_back(screen_of(v)); ll t=0;
    for (auto &f : mf) { t+= f.delay>=5000000?5000000:f.delay; mt.push_back(t); tty_write(v,f.data.data(),f.data.size()); mscr.push_back(screen_of(v)); }
    tty_free(v);
}
static void M03()
{
    vector<vector<MF>> R;
    R.push_back({{0,"a"}}); R.push_back({{1000000,"ab"},{1000000,"cd"}}); R.push_back({{500000,"\e[31mx"},{700000,"y\r\nz"},{600000,"\e[2;3Hw"}}); R.push_back({{9000000,"p"},{0,"q"}});
    R.push_back({{1,"\xe4"},{1,"\xbd\xa0\e"},{1,"[1mq"}});
    R.push_back({{0,"xyz\e[44m"},{1000000,"\e[1;2H\e[J"},{1000000,"\e[m\e[1K\e[3Bw"}}); R.push_back({{0,"a\xcc\x81\xe4\xb8\xad"},{1000000,"\xcc\x82\r\e[1@\e[2C"},{1000000,"\xcc\x83\e[38;5;99mQ\xcc\x84"}});
    // snapshots in between
    R.push_back({{1000000,"first"+string(65531,'\0')},{1000000,"b"},{1000000,"c"}}); R.push_back({{1000000,"a"},{1000000,"b"+string(65536,'\0')},{1000000,"c"}});
    if (th()) R.push_back({{1000000,"a"},{1000000,"b"+string(65536,'\0')},{1000000,"c"+string(65536,'\0')},{0,"d"}});
    vector<vector<std::pair<int,ll>>> Q; ll S=1000000;
    Q.push_back({{0,0},{0,0},{0,0}}); for (ll t : {-S,0LL,S/2,S,3*S/2,2*S,100*S}) { Q.push_back({{1,t}}); Q.push_back({{1,t},{0,0},{0,0}}); Q.push_back({{0,0},{1,t},{0,0}}); }
    for (ll t : {0LL,S,2*S,100*S}) for (ll u : {0LL,S,2*S,100*S}) Q.push_back({{1,t},{1,u},{0,0}});
    Q.push_back({{2,0}}); Q.push_back({{2,0},{0,0},{1,S}});
    for (size_t i=0;i<R.size();i++) for (size_t j=0;j<Q.size();j++)
    {
        if (!turn()) continue;
        mf=R[i]; mops=Q[j]; m_expect(); bool big=false; for (auto &f : mf) big|=f.data.size()>1000;
        mops2.clear();
        string d=fmt("recording %zu, operations",i); for (auto &o : mops) d+= o.first==0?string(" next"):o.first==1?fmt(" seek %lld",o.second):string(" seek to the first");
        start_case(d); vs::bound=big?(th()?3:2):(th()?4:3); vs::allow_adv=false; vs::quiescent=0;
        vs::explore(m_main,0,[&]{ reset_io(); m_started=m_done=0; m_tr=0; },[&]{ if (vs_exit_code!=0) vs::report("did not end"); });
    }
    // two readers
    vector<vector<std::pair<int,ll>>> Q2={{{1,-S}},{{1,2*S}},{{2,0},{0,0}},{{1,S},{0,0}},{{1,100*S}}};
    for (size_t i=0;i<R.size();i++) for (size_t j=0;j<Q2.size();j++) for (size_t k=0;k<=j;k++)
    {
        if (!turn()) continue;
        mf=R[i]; mops=Q2[j]; mops2=Q2[k]; m_expect(); bool big=false; for (auto &f : mf) big|=f.data.size()>1000;
        start_case(fmt("recording %zu, two readers %zu %zu",i,j,k)); vs::bound=big?(th()?2:1):(th()?3:2); vs::allow_adv=false; vs::quiescent=0;
        vs::explore(m_main,0,[&]{ reset_io(); m_started=m_done=0; m_tr=0; },[&]{ if (vs_exit_code!=0) vs::report("did not end"); });
    }
    mops2.clear();
}

// ------------------------------------------------ U04
struct UF { ll delay, arrive; string data; };       // arrive: wall time at which it can be read
struct Key { ll at; string keys, norm; };   // norm: another spelling of it, "x" for keys without a meaning
static vector<UF> uf; static vector<Key> uk; static ll u_loadend; static string u_speed;
static vector<ll> ut; static vector<string> uscr;   // uscr[i]: after i frames
// the monitor
static tty u_term; static string u_bytes; static int u_shown; static size_t u_ki, u_kj; static bool u_keyopen; static ll u_k1; static string u_key; static int u_pub_lo, u_pub_hi, u_k_publo; static bool u_loaded, u_over; static int u_key_shown; static bool u_key_loaded;
static double u_lo, u_hi, u_kslow, u_kold, u_spmax; static int u_knth; static ll u_b; static bool u_playing; static double u_sp; static int u_maxshown; static bool u_dirty; static bool u_seeky; static int u_frames_out; static bool u_rushed;
static int u_find(const string &s, int from=0) { for (size_t i=0;i<uscr.size();i++) if (uscr[i]==s) return i; return -1; }
static int u_changes; static double u_tol() { return 5+3*u_sp+u_changes*u_spmax; }
static int u_idx(double p, int n) { int i=0; while (i<n && ut[i]<=p) i++; return i; }
static void u_monitor_output()      // after something was written to the screen
{
    bool was=vs::in_run; vs::in_run=false;
    string s=screen_of(u_term); vs::in_run=was;
    int i=u_find(s);
    ll w=vs::now_us; double hi= u_playing? u_hi+(w-u_b)*u_sp : u_hi;
    if (i<0) { if (u_over) return; vs::report(fmt("at %lld us the screen is not one of the recording: ",w)+s); return; }
    if (u_over) return;
    if (u_keyopen) // judged when the key has been handled
    {
        if (vs::cur && i>u_shown && (u_kslow<0 || ut[i-1]<u_kslow)) u_kslow=ut[i-1];
        if (vs::cur && vs::cur<u_knth && i>u_shown && (u_kold<0 || ut[i-1]<u_kold)) u_kold=ut[i-1];    // by the player that was running when the key came
        u_shown=i; return;
    }
    if (i<u_shown) { vs::report(fmt("at %lld us the screen went back from frame %d to %d",w,u_shown,i)); return; }
    if (!u_playing && i!=u_shown) { vs::report(fmt("at %lld us frame %d appeared while paused",w,i)); return; }
    if (i>u_shown)
    {
        if (i>u_pub_hi) { vs::report("a frame before it was loaded"); return; }
        if (ut[i-1]>hi+u_tol()) { vs::report(fmt("frame %d of time %lld appeared at %lld us, when the position was at most %.0f",i,ut[i-1],w,hi)); return; }
        double lo=u_lo+(w-u_b)*u_sp;
        if ((hi-ut[i-1])/u_sp>=900000) { double nl=ut[i-1]-(w-u_b)*u_sp; if (nl<u_lo) u_lo=nl; }   // the clock may be slowed down when far behind
        if (!vs::advd && (lo-ut[i-1])/u_sp>=2100000) { u_hi=u_lo=ut[i-1]-(w-u_b)*u_sp; }            // ... and must be
        u_shown=i;
    }
}
static void u_quiescent()
{
    if (u_keyopen || u_over) return;
    if (!u_playing) return;
    ll w=vs::quiescent_until; // nothing happens before that
    double lo=u_lo+(w-u_b)*u_sp; int must=u_idx(lo-u_tol()-vs::late*u_spmax,u_pub_lo);   // (the system may hold a thread up)
    if (u_shown<must) vs::report(fmt("at %lld us the position is at least %.0f and %d frames are loaded, but frame %d is shown instead of %d",w,lo,u_pub_lo,u_shown,must));
}
static void u_key_done()        // the program asks for the next key
{
    ll w2=vs::now_us, w1=u_k1; string k=u_key; u_keyopen=false;
    double lo1= u_playing? u_lo+(w1-u_b)*u_sp : u_lo, hi2= u_playing? u_hi+(w2-u_b)*u_sp : u_hi;
    int n=uf.size(); double end=n?ut[n-1]:0;
    int a=u_key_shown, b=u_shown;
    auto stopped=[&]{ // stopping at the end of the recording stays there
        if (!u_playing || !u_loaded || u_pub_lo<n) return;
        if (a==n && u_key_loaded) lo1=hi2=end; else if (hi2+u_tol()>=end && lo1>end) lo1=end; };
    // a frame far behind has to slow the clock: what counts is when it was stopped, and it showed that frame before
    if (u_kold>=0 && u_playing && !vs::advd && (lo1-u_kold)/u_sp>=2100000 && hi2>u_kold) { hi2=u_kold; if (lo1>hi2) lo1=hi2; }
    // a late frame may have slowed the clock meanwhile
    if (u_kslow>=0 && u_playing && (hi2-u_kslow)/u_sp>=900000 && u_kslow<lo1) lo1=u_kslow;
    if (k==" ")
    {
        if (u_playing)
        {
            stopped();
            if (b<a || (b>a && ut[b-1]>hi2+u_tol())) vs::report(fmt("pausing at %lld changed the screen from frame %d to %d",w2,a,b));
            u_playing=false; u_lo=lo1; u_hi=hi2;
        }
        else { if (b<a || (b>a && ut[b-1]>hi2+(w2-w1)*u_sp+u_tol())) vs::report(fmt("starting at %lld changed the screen from frame %d to %d",w2,a,b)); u_playing=true; u_hi=hi2+(w2-w1)*u_sp; u_lo=lo1; u_b=w2; }
    }
    else if (k=="s"||k=="f"||k=="1")
    {
        double ns=k=="1"?1:k=="s"?u_sp/2:u_sp*2; if (ns>1000) ns=1000; ns=floor(ns*1000)/1000; if (ns<0.001) ns=0.001;
        if (u_playing) { stopped(); double m=ns>u_sp?ns:u_sp; hi2+=(w2-w1)*m; u_lo=lo1; u_hi=hi2; u_b=w2; if (b<a || (b>a && ut[b-1]>hi2+u_tol())) vs::report(fmt("a change of speed at %lld changed the screen from frame %d to %d",w2,a,b)); }
        else if (a!=b) vs::report("a change of speed while paused changed the screen");
        u_changes++; u_sp=ns; if (u_sp>u_spmax) u_spmax=u_sp;
    }
    else if (k.size()==3||k=="\e[5~"||k=="\e[6~"||k=="r")
    {
        double diff= k=="\e[C"?10e6:k=="\e[D"?-10e6:k=="\e[A"?60e6:k=="\e[B"?-60e6:k=="\e[5~"?600e6:-600e6;
        if (u_playing && k!="r") stopped();
        double lo=lo1+diff, hi=hi2+diff; if (lo<0) lo=0; if (hi<0) hi=0; if (k=="r") lo=hi=0;
        int ilo=u_idx(lo-u_tol(),u_k_publo), ihi=u_idx(hi+u_tol(),u_pub_hi);
        bool pl=u_playing && k!="r"; if (pl) { u_hi=hi+(w2-w1)*u_sp; ihi=u_idx(u_hi+u_tol(),u_pub_hi); } else u_hi=hi;
        u_lo=lo; u_b=w2; u_playing=pl;
        if (b<ilo||b>ihi) vs::report(fmt("after moving to position %.0f..%.0f at %lld us frame %d is shown instead of %d..%d",lo,hi,w2,b,ilo,ihi));
    }
    else if (k=="\n")
    {
        if (u_playing) { stopped(); }
        // one frame ahead of where it stopped; the player may have advanced until then
        int most=a; if (u_playing) while (most<u_pub_hi && ut[most]<=hi2+u_tol()) most++;
        bool moved = b>a; int adv= std::min(most+1,u_pub_hi);
        if (b<a||b>adv) vs::report(fmt("after one step from frame %d frame %d is shown",a,b));
        if (b==a && u_k_publo>a) vs::report(fmt("a step from frame %d did nothing",a));
        // without a further frame to show nothing happens, though the player may have shown one or more before it stopped
        bool idle= u_playing && u_k_publo<=b && b<=most;
        u_playing=false; if (!moved) u_lo=lo1, u_hi=hi2; else if (!idle) u_lo=u_hi=ut[b-1]; else u_lo=std::min(lo1,(double)ut[b-1]), u_hi=std::max(hi2,(double)ut[b-1]);
    }
    else if (k=="q") vs::report("the player was told to quit and asks for another key");
    else if (a!=b && !u_playing) vs::report("an unbound key changed the screen");
    // frames that came late slow the clock
    if (u_kslow>=0 && u_playing && (u_hi+(w2-u_b)*u_sp-u_kslow)/u_sp>=900000 && u_kslow-(w2-u_b)*u_sp<u_lo) u_lo=u_kslow-(w2-u_b)*u_sp;
}
static string u_text; static bool u_usage;
static bool key_ready(void*) { return u_ki>=uk.size() || uk[u_ki].at<=vs::now_us; }
static ssize_t in_read(void*, char *b, size_t n)
{
    if (u_ki<uk.size() && u_kj>=uk[u_ki].keys.size()) { u_key_done(); u_ki++; u_kj=0; }
    if (u_ki>=uk.size()) { u_over=true; u_keyopen=true; vs::point("end of keys"); return 0; }
    if (u_kj==0)
    {
        if (t_tty && ((t_now.c_lflag&(ICANON|ECHO)) || (t_now.c_iflag&ICRNL) || t_now.c_cc[VMIN]!=1 || t_now.c_cc[VTIME] || !(t_now.c_lflag&ISIG))) vs::report("waiting for a key with the terminal not set up for single keys");
        vs::wait_for(key_ready,0,uk[u_ki].at,"waiting for a key",false);
        u_key=uk[u_ki].norm.size()?uk[u_ki].norm:uk[u_ki].keys; u_k1=vs::now_us; u_keyopen=true; u_key_shown=u_shown; u_key_loaded=u_loaded; u_kslow=u_kold=-1; u_knth=vs::nf; u_k_publo=u_pub_lo; if (u_key=="q"||u_key=="Q") u_over=true;
    }
    vs::point("key"); b[0]=uk[u_ki].keys[u_kj++]; return 1;
}
static ssize_t out_write(void*, const char *b, size_t n)
{
    if (!vs::in_run) return n;
    if (u_usage) { u_text.append(b,n); return n; }
    vs::in_run=false; static bool dbg=getenv("DBG"); if (dbg) fprintf(stderr,"%lld thread %d: %s\n",vs::now_us,vs::cur,mc::esc(string(b,n)).c_str()); tty_write(u_term,b,n); vs::in_run=true;
    u_monitor_output();
    if (vs::may_cancel()) vs::cancel_now();
    return n;
}
static bool arrived(void *a) { return uf[(size_t)a].arrive<=vs::now_us; }
static bool lend(void*) { return u_loadend<=vs::now_us; }
extern "C" {
static string o_name; static int o_mode, o_count; static const char *o_fail; static string r_format, r_name; static int r_fd, r_count;
int __wrap_open_stream(int fd, const char *u, int m, const char **e) { vs::point("open_stream"); o_name=u?u:"(none)"; o_mode=m; o_count++; if (fd!=-1) vs::report("a descriptor to open a name"); if (t_sets) vs::report("the terminal was changed before the file was opened"); if (o_fail) { *e=o_fail; return -1; } return 900; }
int __wrap_ttyrec_r_play(int fd, const char *format, const char *filename, void (*iw)(const struct timeval*,void*), void (*wt)(const struct timeval*,void*), void (*pr)(const char*,int,void*), void *arg)
{
    r_fd=fd; r_format=format?format:"(none)"; r_name=filename?filename:"(none)"; r_count++;
    struct timeval z={1000,0}; if (iw) iw(&z,arg);
    for (size_t i=0;i<uf.size();i++)
    {
        vs::wait_for(arrived,(void*)i,uf[i].arrive,"waiting for data");
        struct timeval d={(time_t)(uf[i].delay/1000000),(suseconds_t)(uf[i].delay%1000000)};
        if (i||uf[i].delay) wt(&d,arg);
        u_pub_hi=i+1; vs::point("frame read"); pr(uf[i].data.data(),uf[i].data.size(),arg); u_pub_lo=i+1; vs::point("frame added");
    }
    vs::wait_for(lend,0,u_loadend,"waiting for the end");
    u_loaded=true;
    return 1;
}
}
static FILE *real_in, *real_out, *fin, *fout;
static vector<string> u_args; static string u_err;
static ssize_t err_write(void*, const char *b, size_t n) { u_err.append(b,n); return n; }
static void *u_main(void*)
{
    static char args[16][64]; static char *pav[17]; if (u_args.size()) { int n=0; for (auto &a : u_args) { snprintf(args[n],64,"%s",a.c_str()); pav[n]=args[n]; n++; } pav[n]=0; optind=0; int r=termplay_main(n,pav); exit(r); return 0; }
    static char a0[]="termplay", a1[]="file", a2[]="-s"; static char a3[20]; strcpy(a3,u_speed.c_str());
    char *av[]={a0,a1,0,0,0}; int n=2; if (u_speed.size()) av[n++]=a2, av[n++]=a3;
    optind=0;
    int r=termplay_main(n,av); exit(r); return 0;
}
static void u_run(const string &d, int bound, bool adv=true)
{
    if (!turn()) return;
    start_case(d);
    ut.clear(); uscr.clear(); tty v=tty_init(win_x,win_y,1); uscr.push_back(screen_of(v)); ll t=0;
    for (auto &f : uf) { t+=f.delay>=5000000?5000000:f.delay; ut.push_back(t); tty_write(v,f.data.data(),f.data.size()); uscr.push_back(screen_of(v)); }
    tty_free(v);
    vs::bound=bound; vs::allow_adv=adv; vs::quiescent=u_quiescent;
    vs::explore(u_main,0,[&]{
        reset_io(); if (u_term) tty_free(u_term); u_term=tty_init(win_x,win_y,1); u_shown=0; u_ki=u_kj=0; u_keyopen=false; u_pub_lo=u_pub_hi=0; u_loaded=u_over=false; u_sp=u_speed.size()?atof(u_speed.c_str()):1; u_lo=u_hi=0; u_b=0; u_playing=true; u_changes=0; u_spmax=u_sp;
        if (fin) fclose(fin); if (fout) fclose(fout);
        cookie_io_functions_t ci={in_read,0,0,0}, co={0,out_write,0,0}; fin=fopencookie(0,"r",ci); fout=fopencookie(0,"w",co); setvbuf(fin,0,_IONBF,0); stdin=fin; stdout=fout;
    },[&]{ if (vs_exit_code!=0) vs::report(fmt("exit code %d",vs_exit_code)); if (!u_over) vs::report("the player ended without being asked to"); if (memcmp(&t_now,&t_orig,sizeof t_now)) vs::report("the terminal's settings were not restored"); });
    stdin=real_in; stdout=real_out;
}
static void U04()
{
    real_in=stdin; real_out=stdout; ll S=1000000;
    struct Rec { const char *n; vector<UF> f; ll end; };
    vector<Rec> R={
        {"none",{},0}, {"one at 0",{{0,0,"A"}},0}, {"one at 1.5",{{1500000,0,"A"}},0}, {"0 1 2",{{0,0,"A"},{S,0,"B"},{S,0,"C"}},0}, {"1 3",{{S,0,"\e[31mA"},{2*S,0,"\r\nB"}},0},
        {"0 0 2.5",{{0,0,"A"},{0,0,"B"},{2500000,0,"C"}},0}, {"growing 0 1 2",{{0,0,"A"},{S,500000,"B"},{S,2*S,"C"}},3*S}, {"stalled 0 1 1.5",{{0,0,"A"},{S,6*S,"B"},{500000,6*S,"C"}},6*S},
        {"stalled by 3.5",{{S,4500000,"A"},{S,4500000,"B"}},7*S}, {"late end",{{0,0,"A"}},4*S}, {"long",{{0,0,"A"},{4*S,0,"B"},{4*S,0,"C"},{4*S,0,"D"},{4*S,0,"E"}},0},
        {"far late",{{0,0,"A"},{2*S,2*S+100000,"B"},{S,3*S+50000,"C"}},3*S+50000},
    };
    vector<string> K={" ","\e[C","\e[D","r","s","f","1","\n","\e[A","x"};
    vector<ll> T={0,700000,S,2300000};
    auto quit=[&](ll at){ uk.push_back({at,"q"}); };
    u_speed="";
    for (auto &r : R)
    {
        uf=r.f; u_loadend=r.end; string n=string(r.n)+": ";
        for (ll q : {0LL,S,2*S,20*S}) { uk.clear(); quit(q); u_run(n+fmt("quit at %lld",q),th()?3:2); }
        for (auto &k : K) for (ll t : T) { uk={{t,k}}; quit(20*S); u_run(n+mc::esc(k)+fmt(" at %lld",t),(th()?2:1)+(&r==&R[3]||&r==&R[6]||&r==&R[7])); }
        // keys that come with the late frames
        for (auto &k : K) for (ll t : {4500000LL,6*S}) if (r.end==t||r.f.size()&&r.f.back().arrive==t) { uk={{t,k}}; quit(20*S); u_run(n+mc::esc(k)+fmt(" at %lld",t),th()?3:2); }
        for (auto &k : K) for (auto &l : K) for (ll t : {500000LL,2*S}) for (ll u : {0LL,1200000LL}) { uk={{t,k},{t+u,l}}; quit(20*S); u_run(n+mc::esc(k)+fmt(" at %lld, ",t)+mc::esc(l)+fmt(" at %lld",t+u),th()&&(&r==&R[3]||&r==&R[6])?2:1); }
        for (auto &k : K) for (auto &l : K) for (auto &m : K) { uk={{700000,k},{1900000,l},{4200000,m}}; quit(30*S); u_run(n+mc::esc(k)+" "+mc::esc(l)+" "+mc::esc(m),th()?1:0); }
        for (auto sp : {"2","0.5","10","1000","0.001","0.333"}) { u_speed=sp; uk.clear(); quit(40*S); u_run(n+"speed "+sp,1); uk={{S,"\e[C"}}; quit(40*S); u_run(n+"speed "+sp+" and seek",1); uk={{S," "},{3*S," "}}; quit(40*S); u_run(n+"speed "+sp+" and pause",1); u_speed=""; }
        for (auto sp : {"0.005","0.004","0.003","0.001","999","501"}) for (auto k : {"s","f"}) for (auto l : {"s","f","1"}) { u_speed=sp; uk={{100000,k},{200000,l}}; quit(3000*S); u_run(n+"speed "+sp+" "+k+" "+l,0); u_speed=""; }
        if (&r==&R[3]) { uk.clear(); for (int i=0;i<12;i++) uk.push_back({100000+i*1000,"s"}); quit(3000*S); u_run(n+"s 12 times",0); uk.clear(); for (int i=0;i<12;i++) uk.push_back({100000+i*1000,"f"}); quit(30*S); u_run(n+"f 12 times",0); }
        if (th()) for (auto &k : K) { uk={{700000,k}}; uk.push_back({700000,"q"}); u_run(n+mc::esc(k)+" and quit at once",2); }
    }
}

// ------------------------------------------------ U06
// what terminals send for the documented keys, and what it means
static string u_meaning(const string &k)
{
    static const std::map<string,string> M={
        {"q","q"},{"Q","q"},{" "," "},{"r","r"},{"R","r"},{"1","1"},{"s","s"},{"S","s"},{"-","s"},{"f","f"},{"F","f"},{"+","f"},{"\n","\n"},{"\r","\n"},{"\eOM","\n"},
        {"\e[D","\e[D"},{"\eOD","\e[D"},{"\eOt","\e[D"},{"\e[C","\e[C"},{"\eOC","\e[C"},{"\eOv","\e[C"},{"\e[B","\e[B"},{"\eOB","\e[B"},{"\eOr","\e[B"},{"\e[A","\e[A"},{"\eOA","\e[A"},{"\eOx","\e[A"},
        {"\e[6~","\e[6~"},{"\eOs","\e[6~"},{"\e[5~","\e[5~"},{"\eOy","\e[5~"}};
    auto i=M.find(k); return i==M.end()?"x":i->second;
}
// one key from the front of a string of bytes; 0 if there's only a part of it
static size_t u_onekey(const string &s, size_t p)
{
    size_t n=s.size(), o=p; if (p>=n) return 0;
    if (s[p++]!='\e') return 1;
    if (p>=n) return 0;
    if (s[p]=='O') return p+1<n?3:0;
    if (s[p]!='[') return 2;
    if (++p>=n) return 0;
    if (s[p]=='O'||s[p]=='[') return p+1<n?4:0;
    while (p<n && isdigit((unsigned char)s[p])) p++;
    return p<n?p+1-o:0;
}
static void u_bytes_run(const string &s, int bound, const char *rec)
{
    uk.clear(); bool quit=false; size_t p=0, k;
    while (!quit && (k=u_onekey(s,p))) { string b=s.substr(p,k); uk.push_back({700000,b,u_meaning(b)}); if (uk.back().norm=="q") quit=true; p+=k; }
    if (p<s.size() && !quit) { uk.push_back({700000,s.substr(p),"x"}); }    // the input ends within a key
    if (uk.size()>1 && uk.back().norm=="q") uk.back().at=6700000;  // time to see at what speed
    u_run(fmt("%s: typing ",rec)+mc::esc(s),bound);
}
static void U06()
{
    real_in=stdin; real_out=stdout; ll S=1000000; u_speed="";
    vector<UF> A={{0,0,"A"},{S/2,0,"B"},{5*S,0,"C"},{5*S,0,"D"},{5*S,0,"E"},{5*S,0,"F"}}; vector<UF> B; for (int i=0;i<=150;i++) B.push_back({i?5*S:0,0,fmt("\r%d",i)});
    u_loadend=0;
    // every byte, alone, after ESC, after ESC O, after ESC [
    for (auto pre : {"","\e","\eO","\e[","\e[O","\e[[","\e[5","\e[6","\e[15","\e[5~"," "," \n\eO"," \n\n\e["}) for (int c=0;c<256;c++) for (auto post : {"q"," q","\nq","~q"}) { uf=A; u_bytes_run(string(pre)+char(c)+post,0,"short"); }
    // all sequences
    const string AL="\eO[DACBx56~ \nrq1s";
    auto all=[&](auto &&self, const string &s, int d)->void { if (s.size()) { uf=A; u_bytes_run(" "+s,0,"short"); u_bytes_run(s,0,"short"); } if (d && s.find('q')==string::npos) for (char c : AL) self(self,s+c,d-1); };
    all(all,"",th()?4:3);
    for (auto k : {"\e[A","\eOA","\eOx","\e[B","\eOB","\eOr","\e[C","\eOC","\eOv","\e[D","\eOD","\eOt","\e[5~","\eOy","\e[6~","\eOs","q","Q","\n","\r","\eOM","r","R","s","S","-","f","F","+","1"," ","x","\e[99~","\e[O?","\e[[A","\ex","\e[5A","\eO5"})
    {
        for (auto l : {"\e[A","\e[B","\e[C","\e[D","\e[5~","\e[6~","\n","r","s","f","1"," ","x","\e[[A","\ex"})
            for (auto m : {"","\eOC","\n","\e[6~"," ","\eOy"}) { string t=string(k)+l+m; uf=B; u_bytes_run(t+"q",0,"long"); u_bytes_run(" "+t+"q",0,"long"); uf=A; u_bytes_run(t+"q",0,"short"); }
        // cut off, whatever is there
        for (auto pre : {""," ","\e[5~","\eOA"}) { string t=string(pre)+k; for (size_t i=0;i<=t.size();i++) { uf=A; u_bytes_run(t.substr(0,i),0,"short"); } }
    }
    // up and down to the limits of speed
    for (int i=0;i<=13;i++) for (int j=0;j<=13;j++) for (int o=0;o<4;o++) for (ll end : {1700000LL,6700000LL,60*S,6000*S})
    {
        if (o<2 && i+j>9) continue; // (threads)
        uf=B; uk.clear(); string d; auto add=[&](const char *k, int n){ for (int x=0;x<n;x++) uk.push_back({700000,k,u_meaning(k)}); d+=fmt("%d %s ",n,k); };
        if (o>1) add(" ",1);
        if (o&1) add("+",i), add("-",j); else add("s",i), add("F",j);
        if (o>1) add(" ",1);
        uk.push_back({end,"Q","q"}); u_run(d+fmt("then Q at %lld",end),0);
    }
}

// ------------------------------------------------ U07
static string low(string s) { for (auto &c : s) c=tolower(c); return s; }
struct Opt { vector<string> a; int kind; string val; };      // kind f s p h ? (unknown) n (a name)
static bool u07_one(const vector<Opt> &v, const char *openfail, bool istty, const string &keys="");
static void u07(const vector<Opt> &v, const char *openfail=0, bool istty=true)
{
    if (turn()) u07_one(v,openfail,istty);
}
// interrupted by a signal at every point of a run
static void u07_sig(const vector<Opt> &v, int sig, bool ign, const string &keys)
{
    if (!turn()) return;
    sg_send=sig; sg_ign=ign; vs::at_point=sg_hook;
    for (sg_at=0;u07_one(v,0,true,keys)&&sg_at<20000;sg_at++);
    sg_send=0; sg_ign=false; vs::at_point=0;
}
static bool u07_one(const vector<Opt> &v, const char *openfail, bool istty, const string &keys)
{
    const std::set<string> fmts={"baudrate","ttyrec","nh_recorder","dosrecorder","asciicast","live","auto"};
    u_args={"termplay"}; string d; for (auto &o : v) for (auto &a : o.a) u_args.push_back(a), d+=" "+a;
    if (sg_send) d+=fmt(" (signal %d%s at point %d, keys ",sg_send,sg_ign?", which was ignored,":"",sg_at)+keys+")";
    start_case("termplay"+mc::esc(d)+(openfail?" (cannot be opened)":"")+(istty?"":" (no terminal)"));
    // what it means
    string format, name, badfmt; double sp=1; bool follow=false, err=false, help=false; int names=0;
    for (auto &o : v)
    {
        if (o.kind=='f') { if (format.size()||!fmts.count(low(o.val))) { err=true; if (format.empty()) badfmt=o.val; break; } format=low(o.val); }
        if (o.kind=='s') { char *e; sp=strtod(o.val.c_str(),&e); if (*e||e==o.val.c_str()||!(sp>=0.001&&sp<=1000)) { err=true; break; } }
        if (o.kind=='p') follow=true;
        if (o.kind=='h') { help=true; break; }
        if (o.kind=='?') { err=true; break; }
        if (o.kind=='n') { names++; if (names==1) name=o.val; }
    }
    if (!err && !help && names!=1) err=true;
    if (format.empty())
    {
        string n=low(name); for (auto x : {".gz",".bz2",".xz",".zst"}) { string e=x; if (n.size()>e.size() && n.substr(n.size()-e.size())==e) { n.resize(n.size()-e.size()); break; } }
        format="auto"; for (auto x : {std::pair<const char*,const char*>{"baudrate",".txt"},{"ttyrec",".ttyrec"},{"nh_recorder",".nh"},{"dosrecorder",".dm2"},{"asciicast",".cast"}}) { string e=x.second; if (n.size()>=e.size() && n.substr(n.size()-e.size())==e) format=x.first; }
    }
    o_fail=openfail; t_tty=istty; u_usage=err||help||openfail;
    vs::bound=0; vs::allow_adv=false; vs::quiescent=u_usage?0:u_quiescent;
    uf={{0,0,"A"},{500000,0,"B"},{5000000,0,"C"},{5000000,0,"D"},{5000000,0,"E"},{5000000,0,"F"}}; u_loadend=0; uk={{100000000,"q",""}}; if (sp<0.01) uk[0].at=30000000000LL; { auto k=uk; k.clear(); for (char c : keys) k.push_back({700000,string(1,c),u_meaning(string(1,c))}); uk.insert(uk.begin(),k.begin(),k.end()); }
    ut.clear(); uscr.clear(); tty vt=tty_init(istty?win_x:80,istty?win_y:25,1); uscr.push_back(screen_of(vt)); ll t=0;
    for (auto &f : uf) { t+=f.delay; ut.push_back(t); tty_write(vt,f.data.data(),f.data.size()); uscr.push_back(screen_of(vt)); }
    tty_free(vt); int wx=win_x, wy=win_y; if (!istty) win_x=80, win_y=25;
    static FILE *ferr; FILE *real_err=stderr;
    vs::explore(u_main,0,[&]{
        reset_io(); if (u_term) tty_free(u_term); u_term=tty_init(win_x,win_y,1); u_shown=0; u_ki=u_kj=0; u_keyopen=false; u_pub_lo=u_pub_hi=0; u_loaded=u_over=false; u_sp=sp; u_lo=u_hi=0; u_b=0; u_playing=true; u_changes=0; u_spmax=u_sp;
        o_name=r_format=r_name=u_text=u_err=""; o_count=r_count=0; o_mode=r_fd=-7; t_tty=istty;
        if (fin) fclose(fin); if (fout) fclose(fout); if (ferr) fclose(ferr);
        cookie_io_functions_t ci={in_read,0,0,0}, co={0,out_write,0,0}, ce={0,err_write,0,0}; fin=fopencookie(0,"r",ci); fout=fopencookie(0,"w",co); ferr=fopencookie(0,"w",ce); setvbuf(fin,0,_IONBF,0); setvbuf(ferr,0,_IONBF,0); if (u_usage) setvbuf(fout,0,_IONBF,0); stdin=fin; stdout=fout; stderr=ferr;
    },[&]{
        stderr=real_err;
        if (memcmp(&t_now,&t_orig,sizeof t_now)) return vs::report("the terminal's settings were not restored");
        if (sg_sent && vs_exit_code && !sg_ign) return;
        if (u_usage)
        {
            if (t_sets) return vs::report("the terminal was changed");
            if (r_count) return vs::report("something was played");
            if (help) { if (vs_exit_code!=0) return vs::report(fmt("exit code %d",vs_exit_code)); if (u_text.find("termplay")==string::npos) vs::report("no usage message"); return; }
            if (vs_exit_code<=0) return vs::report(fmt("exit code %d",vs_exit_code));
            if (u_err.empty()) return vs::report("no error message");
            if (badfmt.size() && u_err.find(badfmt)==string::npos) return vs::report("the message does not name the format: "+mc::esc(u_err));
            if (!err && openfail && (u_err.find(name)==string::npos || u_err.find(openfail)==string::npos)) return vs::report("the message does not say what failed: "+mc::esc(u_err));
            if (err && o_count) return vs::report("a file was opened");
            return;
        }
        if (vs_exit_code!=0) return vs::report(fmt("exit code %d: ",vs_exit_code)+mc::esc(u_err));
        if (!u_over) return vs::report("the player ended without being asked to");
        if (o_count!=1 || o_name!=name || (o_mode!=SM_READ && !(follow && o_mode==SM_REPREAD))) return vs::report(fmt("opened %d times, last %s in mode %d",o_count,mc::esc(o_name).c_str(),o_mode));
        if (follow && o_mode!=SM_REPREAD) return vs::report("-p was ignored");
        if (r_count!=1 || r_name!=name || r_format!=format || r_fd!=900) return vs::report(fmt("played %d times, last %s as %s",r_count,mc::esc(r_name).c_str(),mc::esc(r_format).c_str()));
        if (keys.empty() && u_shown!=(int)uf.size()) return vs::report(fmt("%d frames shown at the end",u_shown));
    });
    stdin=real_in; stdout=real_out; stderr=real_err; win_x=wx; win_y=wy; t_tty=true; o_fail=0; u_usage=false; u_args.clear();
    return sg_sent;
}
static void U07()
{
    real_in=stdin; real_out=stdout;
    auto N=[](const string &n){ return Opt{{n},'n',n}; };
    vector<Opt> F, S, O;
    for (auto f : {"baudrate","ttyrec","nh_recorder","dosrecorder","asciicast","live","auto","TTYREC","Live","ansi","null","asciicast-v1","","ttyre","ttyrecx","xyzzy"}) F.push_back({{"-f",f},'f',f});
    for (auto s : {"1","1.0","0.5","2","10","1000","0.001","1e3","5e-1","+3"," 4","0x10","999","0.333","1001","1000.1","0","0.0","-1","-0.5","nan","inf","-inf","1e30","-1e30","","x","1x","1 ","0.0001","0.0009","4294968","2147484","3000000"}) S.push_back({{"-s",s},'s',s});
    O={{{"-p"},'p',""},{{"--follow"},'p',""},{{"-h"},'h',""},{{"--help"},'h',""},{{"-q"},'?',""},{{"--nosuch"},'?',""},{{"-fttyrec"},'f',"ttyrec"},{{"--format=live"},'f',"live"},{{"--format","bogus"},'f',"bogus"},{{"-s2"},'s',"2"},{{"--speed=0.5"},'s',"0.5"},{{"--speed=0"},'s',"0"},{{"--speed","3"},'s',"3"},{{"-s","1x"},'s',"1x"}};
    for (auto &x : F) O.push_back(x); for (auto &x : S) O.push_back(x); vector<Opt> few={O[0],O[2],O[4],O[6],O[7],O[9],O[13],F[1],F[5],F[13],S[3],S[16]};
    vector<string> names={"x","x.ttyrec","x.nh","x.dm2","x.cast","x.txt","x.ttyrec.gz","x.cast.bz2","x.nh.xz","x.txt.zst","x.TTYREC.GZ","-","x.gz","ttyrec",".ttyrec","x.ttyrec.old","a b.cast","http://h/x.ttyrec","x.cast-v1","x.ttyrec.gz.gz"};
    u07({}); u07({N("x"),N("y")}); u07({N("x"),N("x.ttyrec"),N("z")}); u07({{{"-f"},'?',""}}); u07({N("x"),{{"-s"},'?',""}}); u07({N("x"),{{"--speed"},'?',""}});
    for (auto &n : names)
    {
        for (auto it : {true,false}) for (auto fail : {(const char*)0,"No such file or directory","No network today"}) { u07({N(n)},fail,it); for (auto &o : few) u07({o,N(n)},fail,it); }
        for (auto &o : O) { u07({o,N(n)}); u07({N(n),o}); }
    }
    for (auto &o : O) { u07({o}); for (auto &p : O) { u07({o,p,N("x.nh.gz")}); u07({o,N("x.nh.gz"),p}); } }
    for (auto &o : few) for (auto &p : few) for (auto &q : th()?O:few) { u07({o,p,q,N("x.cast")}); u07({o,p,q}); u07({o,p,N("x"),q,N("y")}); }
    for (int sig : {SIGINT,SIGTERM,SIGHUP,SIGQUIT}) for (int ign=0;ign<2;ign++) for (auto k : {""," "," \n","+ f","\ns "}) for (auto &o : {O[0],F[1],S[3]}) u07_sig({o,N("x")},sig,ign,k);
}

int main(int argc, char **argv)
{
    mc::init(argc,argv);
    vs::setup(); vs::spurious=true;
    if (mc::O.replaying) { size_t k=mc::O.replay.find('#'); mc::O.tier=mc::O.replay.substr(0,k); want=strtoull(mc::O.replay.c_str()+k+1,0,10); }
    auto &M=mc::O.mode;
    if (M=="S02") S02(); else if (M=="M03") M03(); else if (M=="U04") U04(); else if (M=="U06") U06(); else if (M=="U07") U07(); else { fprintf(stderr,"unknown mode\n"); return 2; }
    mc::finish();
}
