// U01: the recorder's own main() in a scripted environment.  Everything the
// environment may do - which descriptors become ready and when, how much a
// transfer moves, at which call a signal arrives, when the program ends - is
// a choice, and all of them are explored depth first.
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>
#include "mc.hpp"
#include <setjmp.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <algorithm>
#include <fcntl.h>
#include <poll.h>
#include <pty.h>
#include <termios.h>
#include <locale.h>
#include <set>
#include <numeric>
extern "C" {
extern char __start_vsdata[] __attribute__((weak)), __stop_vsdata[] __attribute__((weak)), __start_vsbss[] __attribute__((weak)), __stop_vsbss[] __attribute__((weak));
int termrec_main(int, char**);
extern int optind;
}
using std::string; using std::vector; using mc::fmt;
typedef long long ll;
static bool th() { return mc::thorough(); }
static unsigned long long cid=0, want=0;
static bool turn() { cid++; return mc::O.replaying ? cid==want : mc::mix(cid)%mc::O.nshards==(unsigned)mc::O.shard; }

// ------------------------------------------------ choices
struct Choice { int pick, n; };
static vector<Choice> path; static size_t pos;
static int choose(int n)
{
    if (n<=1) return 0;
    if (pos<path.size())
    {
        if (path[pos].n!=n) { fprintf(stderr,"%s: not deterministic (%d instead of %d at %zu)\n",mc::cur,n,path[pos].n,pos); mc::wr("ERROR\n"); _exit(2); }
        return path[pos++].pick;
    }
    path.push_back({0,n}); pos++; return 0;
}
static bool next_path()
{
    while (path.size() && path.back().pick+1>=path.back().n) path.pop_back();
    if (path.empty()) return false;
    path.back().pick++; return true;
}

// ------------------------------------------------ the scripted world
struct Sig { int sig, w, h; };
struct Scn { vector<string> out, keys; bool eof=false; vector<Sig> sigs; bool tty=true; int w=80, h=25; int dev=0; int wfail=-1, werr=EIO; int sfail=-1; int recbad=0; bool ptyfail=false, child=false, stubborn=false; bool end0=false; vector<string> args; bool raw=false; bool realstream=false; string cmd="prog a b"; int how=0; };
static Scn S;
static const int PTYM=700, PID=424242;
static bool in_run; static jmp_buf jb; static string trouble; static int xcode; static bool xnow;    // xnow: left by _exit
static void report(const string &s) { if (trouble.empty()) trouble=s; }
[[noreturn]] static void leave(int c, bool quick=false) { in_run=false; xcode=c; xnow=quick; longjmp(jb,1); }
static ll now_us; static size_t oi, ki, si; static string outq, inq; static bool ended, eof0; static int devleft, wcount, scount; static long steps;
static string term_out, pin, pin_want, out_read; static bool ptym_open, forked, waited; static int win_w, win_h, pty_w, pty_h; static bool raw_mode; static struct termios tio, tio0; static bool broke, killed_by;
static struct sigaction act[65]; static std::set<int> blocked, pend; static int recfd, recdup; static int nselect; static bool wfailed; static int in_handler, lag;
struct Tok { int kind; int a, b; ll t; };   // 0: byte a; 1: size a x b
static vector<Tok> expect;
static bool trc;
static void tr(const string &s) { if (trc) { bool w=in_run; in_run=false; fprintf(stderr,"%lld %s\n",now_us,s.c_str()); in_run=w; } }
static void deliver(int sig)
{
    if (blocked.count(sig)) { pend.insert(sig); return; }
    tr(fmt("signal %d",sig));
    struct sigaction &a=act[sig];
    if (a.sa_handler==SIG_IGN) return;
    if (a.sa_handler==SIG_DFL) { if (sig==SIGWINCH||sig==SIGCHLD||sig==SIGCONT) return; report(fmt("killed by signal %d",sig)); leave(-1); }
    in_handler++; if (a.sa_flags&SA_SIGINFO) { siginfo_t si; memset(&si,0,sizeof si); si.si_signo=sig; a.sa_sigaction(sig,&si,0); } else a.sa_handler(sig); in_handler--;
}
static bool can_signal() { return si<S.sigs.size() && act[S.sigs[si].sig].sa_handler!=SIG_DFL && !in_handler; }
static bool send_signal() { Sig g=S.sigs[si++]; if (g.sig==SIGWINCH) win_w=g.w, win_h=g.h; bool d=!blocked.count(g.sig); deliver(g.sig); return d; }
static void step() { if (++steps>3000) { report("runs without end"); leave(-1); } }
// a call is about to be made: a signal may arrive; true if one did and the call is not to be restarted
static bool boundary(const char *what)
{
    step(); bool r=false; tr(what);
    while (can_signal() && choose(2)) { int s=S.sigs[si].sig; if (send_signal() && !(act[s].sa_flags&SA_RESTART)) r=true; }
    return r;
}
static bool more_out() { return oi<S.out.size() || !ended; }
static void arrive_out() { if (oi<S.out.size()) outq+=S.out[oi++]; else ended=true; }
static bool more_keys() { return ki<S.keys.size() || (S.eof && !eof0); }
static void arrive_key() { if (ki<S.keys.size()) inq+=S.keys[ki++]; else eof0=true; }
static bool ready(int fd, bool wr)
{
    if (wr) return true;
    if (fd==0) return inq.size()||eof0;
    if (fd==PTYM) return outq.size()||ended;
    struct pollfd p={fd,POLLIN,0}; return poll(&p,1,0)>0 && p.revents;
}
// waits for descriptors; mask as with pselect; returns -1 with errno, or the number ready
static int wait_fds(const vector<int> &rd, const vector<int> &wd, ll timeout, const sigset_t *mask, vector<int> &rr, vector<int> &rw)
{
    if (boundary("select")) { errno=EINTR; return -1; }
    if (S.sfail>=0 && nselect==S.sfail) { nselect++; errno=ENOMEM; return -1; }
    nselect++; if (forked && S.tty && win_w && win_h && (win_w!=pty_w||win_h!=pty_h)) { if (++lag>1) report(fmt("the terminal is now %dx%d, the program is not told while it is busy",win_w,win_h)); } else lag=0;
    std::set<int> was=blocked; bool eintr=false;
    auto any=[&]{ for (int f : rd) if (ready(f,false)) return true; return wd.size()>0; };
    // a call that can return at once need not let pending signals in
    if (mask) { bool wd_=any(); for (int s=1;s<65;s++) if (sigismember(mask,s)==1) blocked.insert(s); else blocked.erase(s); auto p=pend; bool some=false; for (int s : p) if (!blocked.count(s)) some=true; if (some && (!wd_ || choose(2))) for (int s : p) if (!blocked.count(s)) { pend.erase(s); deliver(s); eintr=true; } }
    if (!eintr && !any() && timeout<0 && forked && S.tty && win_w && win_h && (win_w!=pty_w||win_h!=pty_h)) report(fmt("the terminal is now %dx%d, the program is not told and nothing wakes the recorder up",win_w,win_h));
    if (!eintr)
    {
        struct Opt { int o,k,s; }; vector<Opt> v; size_t soi=oi, ski=ki; string so=outq, sk=inq; bool se=ended, se0=eof0;
        for (int o=0;o<2;o++) for (int k=0;k<2;k++)
        {
            if ((o && !more_out())||(k && !more_keys())) continue;
            if (o) arrive_out(); if (k) arrive_key();
            if (any()) v.push_back({o,k,0});
            oi=soi; ki=ski; outq=so; inq=sk; ended=se; eof0=se0;
        }
        if (!any() && can_signal()) v.push_back({0,0,1});
        if (timeout>=0 && !any()) v.push_back({0,0,2});
        if (v.empty()) { report("waits for ever"); leave(-1); }
        std::stable_sort(v.begin(),v.end(),[](const Opt &a, const Opt &b){ return (a.s==2)<(b.s==2); });
        Opt c=v[choose(v.size())]; now_us+=1000+7*nselect;
        if (c.s==1) { int s=S.sigs[si].sig; (void)s; if (send_signal()) eintr=true; else { blocked=was; return wait_fds(rd,wd,timeout,mask,rr,rw); } }
        if (c.s==2) { now_us+=timeout; }
        if (c.o) arrive_out(); if (c.k) arrive_key();
    }
    blocked=was;
    if (eintr) { errno=EINTR; return -1; }
    for (int f : rd) if (ready(f,false)) rr.push_back(f);
    for (int f : wd) if (ready(f,true)) rw.push_back(f);
    return rr.size()+rw.size();
}
static int do_select(int n, fd_set *r, fd_set *w, ll to, const sigset_t *mask)
{
    vector<int> rd, wd, rr, rw; for (int i=0;i<n;i++) { if (r && FD_ISSET(i,r)) rd.push_back(i); if (w && FD_ISSET(i,w)) wd.push_back(i); }
    int k=wait_fds(rd,wd,to,mask,rr,rw); if (k<0) return k;
    if (r) { FD_ZERO(r); for (int f : rr) FD_SET(f,r); } if (w) { FD_ZERO(w); for (int f : rw) FD_SET(f,w); }
    tr(fmt("select gives %d",k));
    return k;
}
static size_t amount(size_t n) { if (n<2 || !devleft) return n; int c=choose(n>2?3:2); if (!c) return n; devleft--; return c==1?1:n-1; }
extern "C" {
int __real_select(int,fd_set*,fd_set*,fd_set*,struct timeval*);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { if (!in_run) return __real_select(n,r,w,e,t); return do_select(n,r,w,t?t->tv_sec*1000000LL+t->tv_usec:-1,0); }
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m) { return do_select(n,r,w,t?t->tv_sec*1000000LL+t->tv_nsec/1000:-1,m); }
int __real_poll(struct pollfd*,nfds_t,int);
static int do_poll(struct pollfd *p, nfds_t n, ll to, const sigset_t *m)
{
    vector<int> rd, wd, rr, rw; for (nfds_t i=0;i<n;i++) { p[i].revents=0; if (p[i].fd<0) continue; if (p[i].events&POLLIN) rd.push_back(p[i].fd); if (p[i].events&POLLOUT) wd.push_back(p[i].fd); }
    int k=wait_fds(rd,wd,to,m,rr,rw); if (k<0) return k; k=0;
    for (nfds_t i=0;i<n;i++) { for (int f : rr) if (f==p[i].fd && (p[i].events&POLLIN)) p[i].revents|= f==PTYM&&outq.empty()?POLLHUP:POLLIN; for (int f : rw) if (f==p[i].fd && (p[i].events&POLLOUT)) p[i].revents|=POLLOUT; if (p[i].revents) k++; }
    return k;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { if (!in_run) return __real_poll(p,n,t); bool s=false; for (nfds_t i=0;i<n;i++) if (p[i].fd==0||p[i].fd==PTYM) s=true; if (!s) return __real_poll(p,n,t); return do_poll(p,n,t<0?-1:t*1000LL,0); }
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *m) { return do_poll(p,n,t?t->tv_sec*1000000LL+t->tv_nsec/1000:-1,m); }
ssize_t __real_read(int,void*,size_t); ssize_t __wrap_read(int fd, void *b, size_t n)
{
    if (!in_run || (fd!=0 && fd!=PTYM)) return __real_read(fd,b,n);
    if (fd==PTYM && !ptym_open) { errno=EBADF; return -1; }
    if (boundary(fd?"read from the program":"read from the keyboard")) { errno=EINTR; return -1; }
    string &q=fd?outq:inq;
    if (q.empty())
    {
        if (fd==0 && eof0) return 0;
        if (fd && ended) { if (S.end0) return 0; errno=EIO; return -1; }
        report(fd?"blocks reading from the program while there is something else to do":"blocks reading from the keyboard"); leave(-1);
    }
    size_t k=amount(std::min(n,q.size())); memcpy(b,q.data(),k);
    if (fd) { for (size_t i=0;i<k;i++) expect.push_back({0,(unsigned char)q[i],0,now_us}); out_read.append(q,0,k); } else pin_want.append(q,0,k);
    q.erase(0,k); return k;
}
ssize_t __real_write(int,const void*,size_t); ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (!in_run || (fd!=1 && fd!=PTYM)) return __real_write(fd,b,n);
    if (fd==PTYM && !ptym_open) { errno=EBADF; return -1; }
    if (boundary(fd==1?"write to the terminal":"write to the program")) { errno=EINTR; return -1; }
    if (fd==1)
    {
        if (S.wfail>=0 && wcount++>=S.wfail) { wfailed=true; errno=S.werr; if (S.werr==EPIPE) { deliver(SIGPIPE); errno=EPIPE; } return -1; }
        size_t k=amount(n); term_out.append((const char*)b,k); return k;
    }
    if (oi==S.out.size() && !ended && S.keys.size() && choose(2)) ended=true;       // it ends just now
    if (ended) { errno=EIO; return -1; }
    size_t k=amount(n); pin.append((const char*)b,k); return k;
}
int __real_ioctl(int,unsigned long,void*); int __wrap_ioctl(int fd, unsigned long q, void *a)
{
    if (!in_run) return __real_ioctl(fd,q,a);
    boundary("ioctl");
    if (q==TIOCGWINSZ && fd>=0 && fd<=2) { if (!S.tty) { errno=ENOTTY; return -1; } struct winsize *w=(struct winsize*)a; memset(w,0,sizeof *w); w->ws_col=win_w; w->ws_row=win_h; return 0; }
    if (q==TIOCSWINSZ && fd==PTYM) { struct winsize *w=(struct winsize*)a; if (!w->ws_col||!w->ws_row) report("an unusable size is passed on"); pty_w=w->ws_col; pty_h=w->ws_row; lag=0; tr(fmt("program told of %dx%d",pty_w,pty_h)); expect.push_back({1,pty_w,pty_h,now_us}); return 0; }
    errno=EBADF; return -1;
}
int __real_tcgetattr(int,struct termios*); int __wrap_tcgetattr(int fd, struct termios *t) { if (!in_run) return __real_tcgetattr(fd,t); boundary("tcgetattr"); if (fd>2||!S.tty) { errno=ENOTTY; return -1; } *t=tio; return 0; }
int __wrap_tcsetattr(int fd, int, const struct termios *t) { if (!in_run) return -1; boundary("tcsetattr"); if (fd>2||!S.tty) { errno=ENOTTY; return -1; } tio=*t; return 0; }
int __wrap_gettimeofday(struct timeval *t, void*) { if (!in_run) { timespec s; syscall(228,0,&s); t->tv_sec=s.tv_sec; t->tv_usec=s.tv_nsec/1000; return 0; } boundary("gettimeofday"); t->tv_sec=1000000000+now_us/1000000; t->tv_usec=now_us%1000000; return 0; }
int __wrap_forkpty(int *m, char*, const struct termios*, const struct winsize *w)
{
    boundary("forkpty");
    if (S.ptyfail) { errno=ENOENT; return -1; }
    if (w) pty_w=w->ws_col, pty_h=w->ws_row; else pty_w=pty_h=0;
    forked=true; if (S.child) return 0;
    ptym_open=true; *m=PTYM; return PID;
}
static std::set<int> fd0;
static string ex_path, ex_cmd; static bool execed;
int __wrap_execve(const char *p, char *const *a, char *const *e)
{
    execed=true; ex_path=p; ex_cmd=""; for (int i=0;a[i];i++) ex_cmd+=(i?"|":"")+string(a[i]);
    if (e!=environ) report("another environment");
    // what the program inherits
    for (int f=3;f<64;f++) { if (fd0.count(f)) continue; int fl=fcntl(f,F_GETFD); if (fl<0||(fl&FD_CLOEXEC)) continue; struct stat st; if (fstat(f,&st)) continue; if (f==recfd) report("the program inherits the recording's descriptor, and keeps it open"); else if (S_ISFIFO(st.st_mode)||S_ISSOCK(st.st_mode)) report("the program inherits a pipe of the recorder"); }
    for (int s : {SIGINT,SIGHUP,SIGQUIT,SIGTERM,SIGTSTP,SIGWINCH,SIGPIPE,SIGCHLD}) { if (act[s].sa_handler==SIG_IGN) report(fmt("the program starts with signal %d ignored",s)); if (blocked.count(s)) report(fmt("the program starts with signal %d blocked",s)); }
    errno=ENOENT; return -1;
}
int __wrap_execv(const char *p, char *const *a) { return __wrap_execve(p,a,environ); }
static void killed(int pid, int sig) { tr(fmt("kill(%d,%d)",pid,sig)); if (pid!=PID && pid!=-PID) { report(fmt("signal %d is sent to process %d instead of the program",sig,pid)); return; } pin+=fmt("<signal %d>",sig); }
int __wrap_kill(int pid, int sig) { killed(pid,sig); return 0; }
int __wrap_killpg(int pg, int sig) { killed(-pg,sig); return 0; }
static int do_wait(int *st) { boundary("wait"); if (!forked||S.child||waited) { errno=ECHILD; return -1; } if (ptym_open && !ended) { report("waits for the program before hanging up"); leave(-1); } waited=true; if (st) *st=0; return PID; }
int __wrap_wait(int *st) { return do_wait(st); }
int __wrap_waitpid(int p, int *st, int o) { if ((o&WNOHANG) && !ended) return 0; return do_wait(st); }
int __real_sigaction(int,const struct sigaction*,struct sigaction*); int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (!in_run) return __real_sigaction(s,a,o); step(); if (o) *o=act[s]; if (a) act[s]=*a; return 0; }
sighandler_t __real_signal(int,sighandler_t); sighandler_t __wrap_signal(int s, sighandler_t h) { if (!in_run) return __real_signal(s,h); sighandler_t o=act[s].sa_handler; memset(&act[s],0,sizeof act[s]); act[s].sa_handler=h; act[s].sa_flags=SA_RESTART; return o; }
int __real_pthread_sigmask(int,const sigset_t*,sigset_t*);
int __wrap_sigprocmask(int how, const sigset_t *s, sigset_t *o)
{
    if (!in_run) return __real_pthread_sigmask(how,s,o);
    if (o) { sigemptyset(o); for (int x : blocked) sigaddset(o,x); }
    if (s) { if (how==SIG_SETMASK) blocked.clear(); for (int x=1;x<65;x++) if (sigismember(s,x)==1) { if (how==SIG_UNBLOCK) blocked.erase(x); else blocked.insert(x); } auto p=pend; for (int x : p) if (!blocked.count(x)) { pend.erase(x); deliver(x); } }
    return 0;
}
int __wrap_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { if (S.realstream) return __real_pthread_sigmask(how,s,o); return __wrap_sigprocmask(how,s,o); }
int __real_close(int); int __wrap_close(int fd) { if (in_run && fd==PTYM) { if (!ptym_open) report("closed twice"); ptym_open=false; return 0; } return __real_close(fd); }
void __real_exit(int) __attribute__((noreturn)); void __wrap_exit(int c) { if (!in_run) __real_exit(c); leave(c); }
void __real__exit(int) __attribute__((noreturn)); void __wrap__exit(int c) { if (!in_run) __real__exit(c); leave(c,true); }
int __real_open_stream(int,const char*,int,const char**); int __wrap_open_stream(int fd, const char *u, int m, const char **e)
{
    if (S.realstream) { recfd=__real_open_stream(fd,u,m,e); return recfd; }
    if (fd>=0) __real_close(fd);
    if (S.recbad==2) { int p[2]; if (pipe(p)) abort(); __real_close(p[0]); recfd=p[1]; recdup=-1; return recfd; }
    recfd=memfd_create("rec",MFD_ALLOW_SEALING); recdup=fcntl(recfd,F_DUPFD_CLOEXEC,500);
    if (S.recbad==1) fcntl(recfd,F_ADD_SEALS,F_SEAL_WRITE|F_SEAL_GROW);
    return recfd;
}
}
static void on_pipe(int) { if (in_run) deliver(SIGPIPE); }

static vector<char> save_d, save_b;
static void rep(char *d, const char *s, size_t n) { asm volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); }
static string toks(const vector<Tok> &v, size_t i) { string s; for (size_t k=i;k<v.size()&&k<i+12;k++) s+= v[k].kind?fmt("<%dx%d>",v[k].a,v[k].b):fmt("%c",v[k].a>31?v[k].a:'.'); return s; }
static void one(const string &d, vector<char*> &av)
{
    rep(__start_vsdata,save_d.data(),save_d.size()); rep(__start_vsbss,save_b.data(),save_b.size());
    now_us=5000000; oi=ki=si=0; outq=inq=term_out=pin=pin_want=out_read=""; ended=eof0=false; devleft=S.dev; wcount=scount=0; steps=0; ptym_open=forked=waited=false; win_w=S.w; win_h=S.h; pty_w=pty_h=-1; memset(act,0,sizeof act); blocked.clear(); pend.clear(); recfd=recdup=-1; nselect=0; lag=0; wfailed=false; in_handler=0; expect.clear(); trouble.clear(); execed=false; pos=0; xcode=-2; xnow=false;
    memset(&tio,0,sizeof tio); tio.c_iflag=ICRNL|IXON; tio.c_oflag=OPOST; tio.c_lflag=ECHO|ICANON|ISIG; tio.c_cflag=CS8|B9600; tio.c_cc[VINTR]=3; tio0=tio;
    optind=0;
    bool returned=false; if (S.child) { fd0.clear(); for (int f=3;f<64;f++) if (fcntl(f,F_GETFD)>=0) fd0.insert(f); }
    if (!setjmp(jb)) { in_run=true; int r=termrec_main(av.size()-1,av.data()); in_run=false; xcode=r; returned=true; }
    in_run=false; mc::case_no=mc::case_no+1; mc::stats["transitions"]+=steps; mc::stats["states"]++;
    if (!xnow) fflush(0);
    bool closed= recfd<0 || fcntl(recfd,F_GETFD)<0;
    string rec; if (recdup>=0) { off_t n=lseek(recdup,0,SEEK_END); rec.resize(n>0?n:0); if (n>0 && pread(recdup,&rec[0],n,0)!=n) {} __real_close(recdup); }
    if (!closed) __real_close(recfd);
    if (trouble.size()) return;
    if (S.child)
    {
        if (!execed) report("no program is run"); else if (ex_path!="/bin/sh" || ex_cmd!="sh|-c|exec "+(S.how==2?"/bin/sh":S.cmd)) report("runs "+ex_path+" "+ex_cmd);
        if (!xnow) report("when it can't be run, the copy of the recorder goes on to the recorder's own exit handlers"); else if (!xcode) report("failure to run the program is not reported"); return;
    }
    if (!closed) { report("the recording is left open at the end: its compressor would be waited for for ever"); return; }
    if (memcmp(&tio,&tio0,sizeof tio)) { report("the terminal is left in raw mode"); return; }
    bool bad= S.ptyfail || S.recbad || (S.sfail>=0 && nselect>S.sfail);
    if (bad && xcode==0) { report("exit status 0 despite a failure"); return; }
    if (wfailed && S.werr==EPIPE && xcode==0) { report("exit status 0 after a broken pipe"); return; }
    if (!bad && !wfailed && xcode!=0) { report(fmt("exit status %d",xcode)); return; }
    if (S.ptyfail) return;
    if (ptym_open && returned) { report("the program's terminal is left open"); return; }
    // what was typed
    string pw=pin_want, p2; for (size_t i=0;i<pin.size();) if (pin.compare(i,8,"<signal ")==0) i=pin.find('>',i)+1; else p2+=pin[i++];
    for (auto &g : S.sigs) if (g.sig!=SIGWINCH) { string w=fmt("<signal %d>",g.sig); size_t k=pin.find(w); int delivered=&g-&S.sigs[0]<(ll)si; if (delivered && !waited && k==string::npos) report(fmt("signal %d was not passed on",g.sig)); }
    if (!ended && p2!=pw) { report("typed: "+mc::esc(pw)+", the program got: "+mc::esc(p2)); return; }
    if (ended && pw.compare(0,p2.size(),p2)) { report("typed: "+mc::esc(pw)+", the program got: "+mc::esc(p2)); return; }
    if (!bad && !wfailed && !S.eof && (out_read!=std::accumulate(S.out.begin(),S.out.end(),string()))) { report("the program wrote "+mc::esc(std::accumulate(S.out.begin(),S.out.end(),string()))+", only read: "+mc::esc(out_read)); return; }
    if (!wfailed && !S.recbad ? term_out!=out_read : out_read.compare(0,term_out.size(),term_out)!=0) { report("the program wrote "+mc::esc(out_read)+", shown: "+mc::esc(term_out)); return; }
    if (S.recbad) return;
    // the recording
    vector<Tok> got; bool utf=false; size_t p=0;
    while (p<rec.size())
    {
        if (rec.size()-p<12) { report("the recording ends within a frame"); return; }
        unsigned h[3]; memcpy(h,&rec[p],12); p+=12; if (h[2]>rec.size()-p) { report("the recording ends within a frame"); return; }
        string f=rec.substr(p,h[2]); p+=h[2]; ll t=((ll)h[0]-1000000000)*1000000+h[1];
        for (size_t i=0;i<f.size();)
        {
            int w,hh,n=0; if (!f.compare(i,3,"\e%G")) { if (utf||got.size()) report("a second character set selection"); utf=true; i+=3; continue; }
            if (f[i]=='\e' && sscanf(f.c_str()+i,"\e[8;%d;%dt%n",&hh,&w,&n)==2 && n) { got.push_back({1,w,hh,t}); i+=n; continue; }
            got.push_back({0,(unsigned char)f[i],0,t}); i++;
        }
    }
    vector<Tok> ex, g2; bool tty=S.tty && !S.raw;
    if (tty && S.w) ex.push_back({1,S.w,S.h,5000000}); for (auto &x : expect) if (x.kind==0 || tty) ex.push_back(x);
    auto coll=[](vector<Tok> &v){ vector<Tok> o; int w=-1, h=-1; for (auto &x : v) { if (x.kind==1) { if (x.a==w && x.b==h) continue; w=x.a; h=x.b; } o.push_back(x); } v=o; };   // saying the same size again changes nothing
    coll(ex); coll(got);
    if (utf!=!S.raw) report(utf?"raw recordings have no character set":"the character set is not recorded");
    for (size_t i=0;i<ex.size()||i<got.size();i++)
    {
        if (i>=ex.size()||i>=got.size()||ex[i].kind!=got[i].kind||ex[i].a!=got[i].a||ex[i].b!=got[i].b) { report("the recording goes on with "+toks(got,i)+" instead of "+toks(ex,i)); return; }
        if (ex[i].t!=got[i].t) { report(fmt("recorded at %lld instead of %lld",got[i].t,ex[i].t)); return; }
    }
}
static void run(const string &d)
{
    if (!turn()) return;
    string s=fmt("%s#%llu ",mc::O.tier.c_str(),cid)+d; for (auto &c : s) if (c=='\t'||c=='\n') c=' '; mc::begin_case(s); mc::stats["scenarios"]++;
    vector<string> a={"termrec"}; if (!S.how) a.push_back("-e"), a.push_back(S.cmd); if (S.how==2) unsetenv("SHELL"); else setenv("SHELL",S.how?S.cmd.c_str():"/not/this",1);
    if (S.args.empty()) { a.push_back("-f"); a.push_back("ttyrec"); if (S.raw) a.push_back("-r"); a.push_back("/dev/null"); } else a.insert(a.end(),S.args.begin(),S.args.end());
    vector<char*> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(0);
    path.clear(); unsigned long n=0;
    do
    {
        one(d,av); n++;
        if (trouble.size()) { string c; for (auto &x : path) c+=fmt(" %d",x.pick); mc::fail("-",mc::cur,trouble+" [choices"+c.substr(0,400)+"]"); if (trc) fprintf(stderr,"FAILED %s\n",trouble.c_str()); return; }
        if (trc && mc::O.replaying && getenv("ONE")) return;
    } while (next_path());
    if (getenv("RUNS")) fprintf(stderr,"RUNS %lu %s\n",n,mc::cur);
}
static void U01()
{
    vector<vector<string>> outs={{},{"a"},{"hello","world"},{"ab","cd","ef"}}, keys={{},{"k"},{"xy","z"}};
    if (th()) outs.push_back({"a","bcd","e","f"}), keys.push_back({"p","qr","s"});
    auto name=[](const vector<string> &v){ return "["+mc::join(v," ")+"]"; };
    Sig W1={SIGWINCH,100,30}, W2={SIGWINCH,60,20};
    vector<vector<Sig>> sg={{},{W1},{W1,W2},{{SIGINT,0,0}},{{SIGTERM,0,0},W1},{{SIGHUP,0,0},{SIGQUIT,0,0}},{{SIGTSTP,0,0}},{{SIGWINCH,0,0}},{{SIGWINCH,70,0},W2},{{SIGWINCH,0,40}}};
    auto sname=[](const vector<Sig> &v){ string s; for (auto &g : v) s+=fmt(" signal %d",g.sig); return s; };
    for (auto &o : outs) for (auto &k : keys) for (auto &g : sg) for (int dev=0;dev<(th()?4:3);dev++) for (int v=0;v<7;v++)
    {
        int size=o.size()+k.size()+g.size()*2+dev; if (size>(th()?9:8) || (v && size>(th()?7:6))) continue;
        S=Scn(); S.out=o; S.keys=k; S.sigs=g; S.dev=dev;
        if (v==1) S.tty=false; if (v==2) S.eof=true; if (v==3) S.raw=true; if (v==4) S.end0=true; if (v==5) S.eof=true, S.tty=false; if (v==6) S.w=S.h=0;
        run("program writes "+name(o)+" keys "+name(k)+sname(g)+fmt(" %d short transfers variant %d",dev,v));
    }
    // failures
    for (auto &o : outs) for (auto &k : keys) for (int wf=0;wf<3;wf++) for (int e : {EIO,EPIPE}) { if (o.size()+k.size()>4) continue; S=Scn(); S.out=o; S.keys=k; S.dev=1; S.wfail=wf; S.werr=e; run("program writes "+name(o)+" keys "+name(k)+fmt(" terminal write %d fails with %s",wf,e==EIO?"EIO":"EPIPE")); }
    for (auto &o : outs) for (int sf=0;sf<4;sf++) { S=Scn(); S.out=o; S.sfail=sf; run("program writes "+name(o)+fmt(" select %d fails",sf)); }
    for (auto &o : outs) for (int rb=1;rb<3;rb++) for (int s=0;s<2;s++) { S=Scn(); S.out=o; if (s) for (auto &x : S.out) x+=string(5000,'x'); if (S.out.empty()) continue; S.recbad=rb; run("program writes "+name(o)+(s?" and much more":"")+(rb==1?" the recording can't be written":" the recording's compressor died")); }
    S=Scn(); S.ptyfail=true; run("no pseudoterminal");
    S=Scn(); S.child=true; run("the child's side");
    S=Scn(); S.child=true; S.tty=false; run("the child's side without a terminal");
    for (auto &c : {string("a"),string(" two  blanks "),string("a; b"),string("x 'q' \"r\" $V `w` \\n \\\\ |&&"),string("%s%n%d %%"),string("line\nline"),string("\xc3\xa9\xff"),string(127,'p'),string(128,'p'),string(4096,'p'),string(100000,'p'),string("--"),string("-e")}) for (int how=0;how<2;how++) { S=Scn(); S.child=true; S.cmd=c; S.how=how; run((how?"the shell from the environment: ":"the command: ")+c.substr(0,60)+fmt(" (%zu bytes)",c.size())); }
    S=Scn(); S.child=true; S.how=2; run("neither a command nor a shell is given");
    for (auto ext : {".gz",".bz2",".xz",".zst",""}) { S=Scn(); S.child=true; S.realstream=true; string w=getenv("VERIF_WORK")?getenv("VERIF_WORK"):"/tmp"; S.args={w+"/x.ttyrec"+ext}; run(string("the child's side, recording to x.ttyrec")+ext); }
    // large transfers
    for (size_t n : {65535,65536,65537,200000}) for (int dev=0;dev<2;dev++) { if (dev && n>100000 && !th()) continue; S=Scn(); S.out={string(n,'o')}; S.keys={string(n,'k')}; S.dev=dev; run(fmt("program writes %zu bytes, so many typed, %d short transfers",n,dev)); }
}
int main(int argc, char **argv)
{
    mc::init(argc,argv); trc=getenv("TRACE")!=0; setenv("LC_ALL","C.utf8",1); setlocale(LC_ALL,""); if (!getenv("DBG")) { int n=open("/dev/null",O_WRONLY); fcntl(2,F_DUPFD_CLOEXEC,20); if (!trc && !getenv("RUNS")) dup2(n,2); close(n); }
    signal(SIGPIPE,on_pipe);
    save_d.resize(__stop_vsdata-__start_vsdata); rep(save_d.data(),__start_vsdata,save_d.size()); save_b.resize(__stop_vsbss-__start_vsbss); rep(save_b.data(),__start_vsbss,save_b.size());
    if (mc::O.replaying) { size_t k=mc::O.replay.find('#'); mc::O.tier=mc::O.replay.substr(0,k); want=strtoull(mc::O.replay.c_str()+k+1,0,10); }
    U01();
    mc::finish();
}
