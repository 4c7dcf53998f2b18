// T01-T09: the terminal emulator under exhaustive token sequences.
#define _GNU_SOURCE 1
#include "vtutil.hpp"
#include <sys/ioctl.h>
#include <unistd.h>
#include <cstdarg>
#include <locale.h>
using namespace vtu;

static void begin(const Conf &c, const vector<const string*> &h)
{
    char *p=mc::cur, *e=mc::cur+sizeof(mc::cur)-8;
    static const char hex[]="0123456789abcdef";
    auto put=[&](const string &s){ for (unsigned char ch : s) { if (p>=e) return; if (ch>32&&ch<127&&ch!='\\'&&ch!='|') *p++=ch; else *p++='\\',*p++=hex[ch>>4],*p++=hex[ch&15]; } };
    p+=sprintf(p,"%d,%d,%d|",c.sx,c.sy,c.rs); put(c.sh.empty()?c.seed:c.sh);
    for (auto t : h) { *p++='|'; put(*t); }
    *p=0; mc::take(mc::cur,p-mc::cur); mc::case_no=mc::case_no+1;
}

// ---------------------------------------------------------- allocations
static long live=0; static bool counting=false;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static void on_malloc(const volatile void*, size_t) { if (counting) live++; }
static void on_free(const volatile void*p) { if (counting && p) live--; }

// ---------------------------------------------------------- T01 invariants
static const char *broken(tty vt)
{
    static char b[256];
    int X=vt->sx, Y=vt->sy;
    if (X<1||Y<1) return "size not positive";
    if (vt->cx<0||vt->cx>X||vt->cy<0||vt->cy>=Y) { sprintf(b,"cursor at %d,%d off the %dx%d screen",vt->cx,vt->cy,X,Y); return b; }
    if (vt->s1<0||vt->s1>=vt->s2||vt->s2>Y) { sprintf(b,"scrolling region %d-%d",vt->s1,vt->s2); return b; }
    uint32_t nc=vt->combs?vt->combs[0].ch:0;
    static vector<char> used; used.assign(nc,0);
    for (int i=0;i<X*Y;i++)
    {
        attrchar &a=vt->scr[i]; int x=i%X;
        bool cjk=!!(a.attr&VT100_ATTR_CJK);
        if (a.attr&0x7000000080000000ULL) { sprintf(b,"cell %d,%d has impossible attributes %llx",x,i/X,(unsigned long long)a.attr); return b; }
        if (a.ch==VT100_CJK_RIGHT)
        {
            if (!x || ref_width((&a)[-1].ch)!=2 || !cjk || !((&a)[-1].attr&VT100_ATTR_CJK)) { sprintf(b,"cell %d,%d is an orphaned right half",x,i/X); return b; }
            if (a.comb) { sprintf(b,"right half at %d,%d has combining marks",x,i/X); return b; }
        }
        else
        {
            int w=ref_width(a.ch);
            if (w!=1 && w!=2) { sprintf(b,"cell %d,%d holds unprintable U+%X",x,i/X,a.ch); return b; }
            if (w==2 && (!cjk || x+1>=X || (&a)[1].ch!=VT100_CJK_RIGHT)) { sprintf(b,"wide character at %d,%d lacks its right half",x,i/X); return b; }
            if (w==1 && cjk) { sprintf(b,"narrow cell %d,%d marked wide",x,i/X); return b; }
        }
        int n=0;
        for (uint32_t k=a.comb;k;k=vt->combs[k].next)
        {
            if (k>=nc) { sprintf(b,"cell %d,%d: mark index out of range",x,i/X); return b; }
            if (used[k]) { sprintf(b,"cell %d,%d: combining marks shared or cyclic",x,i/X); return b; }
            used[k]=1;
            if (++n>4) { sprintf(b,"cell %d,%d: more than four marks",x,i/X); return b; }
            if (ref_width(vt->combs[k].ch)!=0) { sprintf(b,"cell %d,%d: U+%X is not a combining mark",x,i/X,vt->combs[k].ch); return b; }
        }
    }
    if (nc)
    {
        uint32_t k=vt->combs[0].next; uint32_t cnt=0;
        while (k<nc)
        {
            if (!k || used[k]) return "free marks list overlaps marks in use";
            used[k]=2;
            if (++cnt>nc) return "free marks list cyclic";
            k=vt->combs[k].next;
        }
        for (uint32_t i=1;i<nc;i++) if (!used[i]) return "a combining mark leaked";
    }
    return 0;
}
static mc::H128 step_T01(const Conf &c, const vector<const string*> &h)
{
    begin(c,h);
    live=0; counting=true;
    tty vt=make(c);
    tty_write(vt,c.seed.data(),c.seed.size());
    for (size_t i=0;i+1<h.size();i++) apply(vt,*h[i]);
    const string &t=*h.back();
    const char *e=0;
    // heap-allocated exact-size copy so that reading past the buffer is caught
    if (special(t)) { apply(vt,t); counting=false; e=broken(vt); counting=true; }
    else
        for (size_t i=0;i<t.size() && !e;i++)
        {
            char *p=(char*)malloc(1); *p=t[i]; tty_write(vt,p,1); free(p);
            counting=false; e=broken(vt); counting=true;
        }
    counting=false;
    mc::H128 k;
    if (e) { mc::fail(e); k={live?1u:2u,(uint64_t)mc::case_no}; }
    else { mc::Hasher hs; key(hs,vt,true); k=hs.get(); }
    counting=true; tty_free(vt); counting=false;
    if (live) mc::fail(mc::fmt("%ld blocks still allocated after the terminal was freed",live));
    return k;
}

// ---------------------------------------------------------- T03 model
static mc::H128 step_T03(const Conf &c, const vector<const string*> &h)
{
    begin(c,h);
    static const Conf *mcf=0; static vtm::Model base(2,1); static string mseed;
    if (mcf!=&c || mseed!=c.seed || base.sx==0)
    { // the model's state after the seed is reused; the real one is rebuilt each time
        mcf=&c; mseed=c.seed; base=vtm::Model(c.sx,c.sy,c.rs); base.write(c.seed);
    }
    vtm::Model m=base;
    tty vt=make(c);
    tty_write(vt,c.seed.data(),c.seed.size());
    for (size_t i=0;i<h.size();i++) apply(vt,*h[i]), apply(m,*h[i]);
    if (!same(vt,m)) mc::fail(diff(observe(vt),observe(m)));
    mc::Hasher hs; key(hs,vt,false);
    tty_free(vt);
    return hs.get();
}

// ---------------------------------------------------------- event log
struct Ev { char k; int a,b,c; uint64_t d; string s;
    bool operator==(const Ev&o) const { return k==o.k&&a==o.a&&b==o.b&&c==o.c&&d==o.d&&s==o.s; } };
struct Log { vector<Ev> v; int flushes=0, frees=0; };
#define LOG ((Log*)vt->l_data)->v
static void lg_char(tty vt,int x,int y,ucs ch,uint64_t at,int w) { LOG.push_back({'c',x,y,(int)ch,at,string(1,'0'+w)}); }
static void lg_comb(tty vt,int x,int y,ucs ch,uint64_t at) { LOG.push_back({'m',x,y,(int)ch,at,""}); }
static void lg_cursor(tty vt,int x,int y) { LOG.push_back({'u',x,y,0,0,""}); }
static void lg_clear(tty vt,int x,int y,int l) { LOG.push_back({'e',x,y,l,vt->attr,""}); }
static void lg_scroll(tty vt,int nl) { LOG.push_back({'s',vt->s1,vt->s2,nl,vt->attr,""}); }
static void lg_flag(tty vt,int f,int v) { LOG.push_back({'f',f,v,0,0,""}); }
static void lg_osc(tty vt,int cmd,const char *s) { LOG.push_back({'o',cmd,0,0,0,s}); }
static void lg_resize(tty vt,int x,int y) { LOG.push_back({'r',x,y,0,0,""}); }
static void lg_flush(tty vt) { ((Log*)vt->l_data)->flushes++; }
static void lg_bell(tty vt) { LOG.push_back({'b',0,0,0,0,""}); }
static void lg_free(tty vt) { ((Log*)vt->l_data)->frees++; }
static void attach(tty vt, Log *l)
{
    vt->l_data=l; vt->l_char=lg_char; vt->l_comb=lg_comb; vt->l_cursor=lg_cursor; vt->l_clear=lg_clear; vt->l_scroll=lg_scroll;
    vt->l_flag=lg_flag; vt->l_osc=lg_osc; vt->l_resize=lg_resize; vt->l_flush=lg_flush; vt->l_bell=lg_bell; vt->l_free=lg_free;
}
static string evstr(const Ev &e) { return mc::fmt("%c(%d,%d,%d,%llx,%s)",e.k,e.a,e.b,e.c,(unsigned long long)e.d,mc::esc(e.s).c_str()); }

// ---------------------------------------------------------- T02 chunking
static string concat(const Conf &c, const vector<const string*> &h) { (void)c; string s; for (auto t : h) s+=*t; return s; }
static mc::H128 step_T02(const Conf &c, const vector<const string*> &h)
{
    begin(c,h);
    // reference: everything in one write
    string all=c.seed+concat(c,h);
    Log lw; tty w=make(c); attach(w,&lw);
    tty_write(w,all.data(),all.size());
    Obs ow=observe(w);
    if (lw.flushes!=1) mc::fail(mc::fmt("%d flushes for one write",lw.flushes));
    auto cmp=[&](tty vt, Log &l, const string &how){
        Obs o=observe(vt);
        if (!(o==ow)) { mc::fail(how+": "+diff(o,ow)); return; }
        if (!(l.v==lw.v))
        {
            size_t i=0; while (i<l.v.size()&&i<lw.v.size()&&l.v[i]==lw.v[i]) i++;
            mc::fail(how+": notification "+(i<l.v.size()?evstr(l.v[i]):"none")+", should be "+(i<lw.v.size()?evstr(lw.v[i]):"none"));
        }
    };
    // byte by byte
    Log l1; tty a=make(c); attach(a,&l1);
    for (char ch : all) tty_write(a,&ch,1);
    cmp(a,l1,"written byte by byte");
    // the last token split at every inner point, the rest in two writes
    const string &t=*h.back();
    size_t base=all.size()-t.size();
    for (size_t i=0;i<t.size();i++)
    {
        if (!i && !base) continue;
        Log l2; tty b=make(c); attach(b,&l2);
        tty_write(b,all.data(),base+i); tty_write(b,all.data()+base+i,t.size()-i);
        cmp(b,l2,mc::fmt("split %d bytes before the end",(int)(t.size()-i)));
        tty_free(b);
    }
    mc::stats["traces"]+=1+t.size();
    mc::Hasher hs; key(hs,w,false);
    tty_free(w); tty_free(a);
    return hs.get();
}

// ---------------------------------------------------------- T05 mirror
struct Mirror
{
    int sx,sy,cx=0,cy=0; vector<vtm::Cell> scr; bool cursor=true,kpad=true,wrap=true; string title; int bells=0; int flushes=0;
    string err; int resizes=0;
    vtm::Cell &at(int x,int y) { return scr[y*sx+x]; }
};
#define MI (*(Mirror*)vt->l_data)
static bool mchk(Mirror &m, bool ok, const string &s) { if (!ok && m.err.empty()) m.err=s; return ok; }
static void mi_char(tty vt,int x,int y,ucs ch,uint64_t at,int w)
{
    Mirror &m=MI;
    if (!mchk(m, (w==1||w==2) && x>=0&&x+w<=m.sx&&y>=0&&y<m.sy, mc::fmt("character notification U+%X width %d at %d,%d on a %dx%d screen",ch,w,x,y,m.sx,m.sy))) return;
    if (!mchk(m, ch!=VT100_CJK_RIGHT, "the right half of a wide character notified as a character")) return;
    // overwriting a half of a wide character blanks its other half, on any display
    if (x>0 && m.at(x,y).ch==vtm::RIGHT) { auto &c=m.at(x-1,y); c.ch=' '; c.attr&=~vtm::CJK; c.nc=0; }
    if (x+w<m.sx && m.at(x+w,y).ch==vtm::RIGHT) { auto &c=m.at(x+w,y); c.ch=' '; c.attr&=~vtm::CJK; c.nc=0; }
    vtm::Cell k; k.ch=ch; k.attr=(at&~vtm::CJK)|(w==2?vtm::CJK:0);
    m.at(x,y)=k;
    if (w==2) k.ch=vtm::RIGHT, m.at(x+1,y)=k;
    m.cx=x+w; m.cy=y;
}
static void mi_comb(tty vt,int x,int y,ucs ch,uint64_t)
{
    Mirror &m=MI;
    if (!mchk(m, x>=0&&x<m.sx&&y>=0&&y<m.sy, "combining mark off the screen")) return;
    auto &c=m.at(x,y);
    if (!mchk(m, c.nc<4, "a fifth combining mark was notified")) return;
    c.comb[c.nc++]=ch;
}
static void mi_cursor(tty vt,int x,int y) { Mirror &m=MI; mchk(m, x>=0&&x<=m.sx&&y>=0&&y<m.sy, "cursor notified off the screen"); m.cx=x; m.cy=y; }
static void mi_clear(tty vt,int x,int y,int l)
{
    Mirror &m=MI; int st=y*m.sx+x;
    if (!mchk(m, l>=0&&st>=0&&st+l<=m.sx*m.sy, mc::fmt("clear of %d cells from %d,%d",l,x,y))) return;
    mchk(m, x+l<=m.sx || st+l==m.sx*m.sy || st==0, "a clear that spills over its line does not reach an end of the screen");
    vtm::Cell b; b.attr=vt->attr;
    for (int i=st;i<st+l;i++) m.scr[i]=b;
    m.cx=vt->cx; m.cy=vt->cy;       // documented: already in place
}
static void mi_scroll(tty vt,int nl)
{
    Mirror &m=MI; int a=vt->s1,b=vt->s2;
    if (!mchk(m, a>=0&&a<b&&b<=m.sy&&nl, "scroll of an impossible region")) return;
    if (nl>b-a) nl=b-a;
    if (nl<a-b) nl=a-b;
    vtm::Cell bl; bl.attr=vt->attr;
    vector<vtm::Cell> o=m.scr;
    for (int y=a;y<b;y++) for (int x=0;x<m.sx;x++) m.at(x,y)= (y+nl>=a&&y+nl<b) ? o[(y+nl)*m.sx+x] : bl;
    m.cx=vt->cx; m.cy=vt->cy;       // documented: already moved
}
static void mi_flag(tty vt,int f,int v)
{
    Mirror &m=MI;
    if (f==VT100_FLAG_CURSOR) m.cursor=!!v; else if (f==VT100_FLAG_KPAD) m.kpad=!!v; else if (f==VT100_FLAG_AUTO_WRAP) m.wrap=!!v;
    else mchk(m,false,"unknown flag notified");
}
static void mi_osc(tty vt,int cmd,const char *s) { if (cmd==0) MI.title=s; }
static void mi_resize(tty vt,int x,int y)
{
    Mirror &m=MI; m.resizes++;
    vector<vtm::Cell> n(x*y); vtm::Cell b; b.attr=vt->attr; for (auto &c : n) c=b;
    for (int j=0;j<y&&j<m.sy;j++) for (int i=0;i<x&&i<m.sx;i++)
    {
        n[j*x+i]=m.at(i,j);
        if (i==x-1 && i+1<m.sx && m.at(i+1,j).ch==vtm::RIGHT) n[j*x+i].ch=' ', n[j*x+i].attr&=~vtm::CJK, n[j*x+i].nc=0;
    }
    m.scr.swap(n); m.sx=x; m.sy=y; if (m.cx>x) m.cx=x; if (m.cy>=y) m.cy=y-1;
}
static void mi_flush(tty vt) { MI.flushes++; }
static void mi_bell(tty vt) { MI.bells++; }
static Obs mobs(const Mirror &m, tty vt)
{
    Obs o; o.sx=m.sx;o.sy=m.sy;o.cx=m.cx;o.cy=m.cy;o.s1=vt->s1;o.s2=vt->s2;o.attr=vt->attr;o.wrap=m.wrap;o.cursor=m.cursor;o.kpad=m.kpad;o.title=m.title;o.scr=m.scr;
    return o;
}
static mc::H128 step_T05(const Conf &c, const vector<const string*> &h)
{
    begin(c,h);
    Mirror m; m.sx=c.sx; m.sy=c.sy; m.scr.resize(c.sx*c.sy); m.kpad=false;
    vtm::Model ref(c.sx,c.sy,c.rs);
    tty vt=make(c);
    vt->l_data=&m; vt->l_char=mi_char; vt->l_comb=mi_comb; vt->l_cursor=mi_cursor; vt->l_clear=mi_clear; vt->l_scroll=mi_scroll; vt->l_flag=mi_flag;
    vt->l_osc=mi_osc; vt->l_resize=mi_resize; vt->l_flush=mi_flush; vt->l_bell=mi_bell;
    tty_write(vt,c.seed.data(),c.seed.size()); ref.write(c.seed);
    int writes=1;
    auto chk=[&]{
        if (m.err.size()) { mc::fail(m.err); return false; }
        Obs a=mobs(m,vt), b=observe(vt);
        if (!(a==b)) { mc::fail("rebuilt from notifications: "+diff(a,b)); return false; }
        if (m.flushes!=writes) { mc::fail(mc::fmt("%d flushes for %d writes",m.flushes,writes)); return false; }
        return true;
    };
    bool ok=true;
    if (h.size()==1 ) ok=chk();
    for (size_t i=0;ok && i<h.size();i++)
    {
        apply(vt,*h[i]); writes++;
        ref.write(*h[i]);
        if (i+1==h.size()) ok=chk();
    }
    // bells are the one thing not visible in the terminal's own state
    if (ok && m.bells!=ref.bells) mc::fail(mc::fmt("%d bells notified for %d rung",m.bells,ref.bells));
    mc::Hasher hs; key(hs,vt,false);
    tty_free(vt);
    return hs.get();
}

// ---------------------------------------------------------- T06 vt on vt
static string rendered;
static ssize_t ck_write(void *, const char *b, size_t n) { rendered.append(b,n); return n; }
static FILE *rf()
{
    static FILE *f=0;
    if (!f) { cookie_io_functions_t io={0,ck_write,0,0}; f=fopencookie(0,"w",io); }
    return f;
}
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *p) __attribute__((weak));
// what a display that knows no characters above ASCII can show: a ? for each column, or on an 8-bit terminal its own line graphics
static void ascii_only(Obs &b, bool graphics)
{
    for (int i=0;i<(int)b.scr.size();i++)
    {
        vtm::Cell &c=b.scr[i];
        c.nc=0;
        bool wide=i+1<(int)b.scr.size() && b.scr[i+1].ch==VT100_CJK_RIGHT;
        if (wide) { c.attr&=~VT100_ATTR_CJK; b.scr[i+1].ch='?'; b.scr[i+1].nc=0; b.scr[i+1].attr=c.attr; c.ch='?'; i++; continue; }
        if (c.ch<128) continue;
        bool has=false; if (graphics) for (int k=32;k<127;k++) has|=ref_vt100(k)==c.ch;
        if (!has) c.ch='?';
    }
}
static bool t06_ascii;
static void t06_locale(bool ascii) { static int loc=-1; t06_ascii=ascii; if (loc!=(int)ascii) loc=ascii, setlocale(LC_CTYPE,ascii? "C" : "C.utf8"); }
static string screen_diff(tty vt, const vtm::Model &r)
{
    if (vt->sx!=r.sx||vt->sy!=r.sy) return mc::fmt("the display is %dx%d, the terminal %dx%d",r.sx,r.sy,vt->sx,vt->sy);
    Obs a=observe(r), b=observe(vt);
    a.attr=b.attr; a.s1=b.s1; a.s2=b.s2; a.wrap=b.wrap; a.cursor=b.cursor; a.kpad=b.kpad;
    if (t06_ascii) ascii_only(b,vt->cp437);
    // the column past the right edge exists only inside the emulator
    if (a.cx>=a.sx) a.cx=a.sx-1;
    if (b.cx>=b.sx) b.cx=b.sx-1;
    if (a==b) return "";
    return diff(a,b);
}
static int t06_start=0;     // 0: attached from the beginning; 1: dump of a non-empty screen
// the output stream has no descriptor; let it look like a terminal of the wanted size
static int disp_x, disp_y;
extern "C" {
int __real_isatty(int fd);
int __wrap_isatty(int fd) { return fd<0 && disp_x ? 1 : __real_isatty(fd); }
int __real_ioctl(int fd, unsigned long req, ...);
int __wrap_ioctl(int fd, unsigned long req, ...)
{
    va_list ap; va_start(ap,req); void *p=va_arg(ap,void*); va_end(ap);
    if (fd<0 && disp_x && req==TIOCGWINSZ) { struct winsize w; memset(&w,0,sizeof w); w.ws_col=disp_x; w.ws_row=disp_y; memcpy(p,&w,sizeof w); return 0; }
    return __real_ioctl(fd,req,p);
}
}
static mc::H128 step_T06(const Conf &c, const vector<const string*> &h)
{
    begin(c,h);
    mc::cur[0]=mc::cur[0]; // spec shared; the start kind is in rs
    int start=(c.rs>>1)&1;
    t06_locale(c.rs&4);
    Conf k=c; k.rs=1;
    vtm::Model real(c.sx,c.sy,true), ref(c.sx,c.sy,true);
    rendered.clear();
    tty vt=make(k);
    auto flush=[&](bool must){ if (must) fflush(rf()); real.write(rendered); rendered.clear(); };
    if (start==0) { vtvt_attach(vt,rf(),0); vtvt_resize(vt,c.sx,c.sy); }
    tty_write(vt,c.seed.data(),c.seed.size()); ref.write(c.seed);
    if (start==1) { disp_x=c.sx; disp_y=c.sy; vtvt_attach(vt,rf(),1); disp_x=0; flush(false); vtvt_resize(vt,c.sx,c.sy); real.title=ref.title; }
    int bells0 = start==1 ? ref.bells : 0;
    flush(false);                           // the library flushes by itself after a write or dump
    string e;
    if (h.size()==1) { e=screen_diff(vt,real); if (e.size()) mc::fail("before the first token: display's "+e); }
    for (size_t i=0;e.empty() && i<h.size();i++)
    {
        int ox=vt->sx, oy=vt->sy;
        apply(vt,*h[i]); ref.write(*h[i]);
        flush(false);
        if (vt->sx!=ox||vt->sy!=oy) vtvt_resize(vt,real.sx,real.sy);    // what a SIGWINCH handler does
        if (i+1==h.size())
        {
            e=screen_diff(vt,real);
            if (e.empty() && real.bells!=ref.bells-bells0) e=mc::fmt("%d bells for %d rung",real.bells,ref.bells-bells0);
            if (e.size()) mc::fail("display's "+e);
        }
    }
    mc::Hasher hs; key(hs,vt,false);
    Obs ro=observe(real); hs.u(real.cx); hs.u(real.cy); hs.u(real.pen);
    if (vt->l_data && __sanitizer_get_allocated_size) hs.bytes(vt->l_data,__sanitizer_get_allocated_size(vt->l_data));
    hs.u(start);
    tty_free(vt);
    return hs.get();
}
// a display smaller than the emulated terminal: nothing outside it is touched
static mc::H128 step_T06s(const Conf &c, const vector<const string*> &h)
{
    begin(c,h);
    t06_locale(false);
    Conf k=c; k.rs=0;
    int dx=(c.rs>>8)&15, dy=(c.rs>>12)&15;
    vtm::Model real(dx,dy,false);
    rendered.clear();
    tty vt=make(k);
    disp_x=dx; disp_y=dy; vtvt_attach(vt,rf(),0); disp_x=0;
    tty_write(vt,c.seed.data(),c.seed.size());
    for (auto t : h) apply(vt,*t);
    fflush(rf()); real.write(rendered);
    Obs o=observe(vt);
    for (int y=0;y<dy && y<c.sy;y++) for (int x=0;x<dx && x<c.sx;x++)
    {
        vtm::Cell &is=real.at(x,y), &be=o.scr[y*c.sx+x];
        if (is==be) continue;
        if (x==dx-1 && x+1<c.sx && o.scr[y*c.sx+x+1].ch==VT100_CJK_RIGHT) continue;    // half of it does not fit
        mc::fail(mc::fmt("%dx%d display's cell %d,%d is ",dx,dy,x,y)+cellstr(is)+", should be "+cellstr(be)); y=dy; break;
    }
    mc::Hasher hs; key(hs,vt,false); hs.u(c.rs);
    Obs ro=observe(real); hs.u(ro.cx); hs.u(ro.cy); hs.u(ro.attr); 
    if (vt->l_data && __sanitizer_get_allocated_size) hs.bytes(vt->l_data,__sanitizer_get_allocated_size(vt->l_data));
    tty_free(vt);
    return hs.get();
}

// ---------------------------------------------------------- T07 copies
static vector<string> t07_probe;
static mc::H128 step_T07(const Conf &c, const vector<const string*> &h)
{
    begin(c,h);
    live=0; counting=true;
    Log *la=new Log, *lb=new Log;
    tty a=make(c), b=make(c);
    attach(a,la); attach(b,lb);
    tty_write(a,c.seed.data(),c.seed.size()); tty_write(b,c.seed.data(),c.seed.size());
    for (auto t : h) apply(a,*t), apply(b,*t);
    Obs *o0=new Obs(observe(a));
    tty cp=tty_copy(a);
    if (!cp) { counting=false; mc::fail("copy failed"); mc::finish(); }
    string e;
    {
        Obs oc=observe(cp);
        if (!(oc==*o0)) e="copy: "+diff(oc,*o0);
        if (e.empty() && (cp->l_char||cp->l_comb||cp->l_cursor||cp->l_clear||cp->l_scroll||cp->l_flag||cp->l_osc||cp->l_resize||cp->l_flush||cp->l_bell||cp->l_free))
            e="the copy carries the original's listeners";
    }
    static unsigned rot=0; rot++;
    const string &p=t07_probe[rot%t07_probe.size()], &q=t07_probe[(rot/t07_probe.size())%t07_probe.size()];
    if (e.empty())
    {
        size_t na=la->v.size();
        apply(cp,p); apply(b,p);
        Obs oc=observe(cp), ob=observe(b), oa=observe(a);
        if (!(oc==ob)) e="copy after \""+mc::esc(p)+"\": "+diff(oc,ob);
        else if (!(oa==*o0)) e="original changed by writing \""+mc::esc(p)+"\" to the copy: "+diff(oa,*o0);
        else if (la->v.size()!=na) e="writing to the copy notified the original's listeners";
        if (e.empty())
        {   // the other way round, then a shared continuation
            tty cp2=tty_copy(a); Obs o2=observe(cp2);
            apply(a,q);
            Obs o3=observe(cp2);
            if (!(o3==o2)) e="copy changed by writing \""+mc::esc(q)+"\" to the original: "+diff(o3,o2);
            apply(cp2,q);
            Obs o4=observe(cp2), o5=observe(a);
            if (e.empty() && !(o4==o5)) e="copy after \""+mc::esc(q)+"\": "+diff(o4,o5);
            int fr=la->frees;
            tty_free(cp2);
            if (e.empty() && la->frees!=fr) e="freeing the copy notified the original's listeners";
            // freeing the original leaves the copy usable
            Obs oc2=observe(cp);
            tty_free(a); a=0;
            Obs oc3=observe(cp);
            if (e.empty() && !(oc2==oc3)) e="copy changed by freeing the original: "+diff(oc3,oc2);
            apply(cp,q); apply(b,q);
            Obs oc4=observe(cp), ob4=observe(b);
            if (e.empty() && !(oc4==ob4)) e="copy after \""+mc::esc(p+q)+"\": "+diff(oc4,ob4);
        }
    }
    mc::H128 k;
    { counting=false; mc::Hasher hs; key(hs,cp,false); k=hs.get(); counting=true; }
    if (a) tty_free(a);
    tty_free(cp); tty_free(b);
    delete la; delete lb; delete o0;
    counting=false;
    mc::Hasher hs; hs.u(k.a); for (auto t : h) hs.str(*t);
    if (e.size()) mc::fail(e+" (probe "+mc::esc(p)+" / "+mc::esc(q)+")");
    mc::stats["traces"]+=3;
    return hs.get();
}

// ---------------------------------------------------------- T04 characters
static bool cell_is(tty vt, const vtm::Model &m) { return same(vt,m); }
static void one_string(tty vt0, const string &s, const char *after)
{ (void)vt0; (void)after; }
static void t04_case(const Conf &c, const string &s)
{
    vector<string> v={s}; vector<const string*> h={&v[0]};
    begin(c,h);
    tty vt=make(c); vtm::Model m(c.sx,c.sy,c.rs);
    tty_write(vt,c.seed.data(),c.seed.size()); m.write(c.seed);
    tty_write(vt,s.data(),s.size()); m.write(s);
    if (!same(vt,m)) mc::fail(diff(observe(vt),observe(m)));
    tty_free(vt);
    mc::stats["evals"]++;
}
static string utf8(uint32_t c)
{
    string s;
    if (c<0x80) s+=(char)c;
    else if (c<0x800) s+=(char)(0xc0|c>>6), s+=(char)(0x80|(c&63));
    else if (c<0x10000) s+=(char)(0xe0|c>>12), s+=(char)(0x80|(c>>6&63)), s+=(char)(0x80|(c&63));
    else if (c<0x200000) s+=(char)(0xf0|c>>18), s+=(char)(0x80|(c>>12&63)), s+=(char)(0x80|(c>>6&63)), s+=(char)(0x80|(c&63));
    else if (c<0x4000000) s+=(char)(0xf8|c>>24), s+=(char)(0x80|(c>>18&63)), s+=(char)(0x80|(c>>12&63)), s+=(char)(0x80|(c>>6&63)), s+=(char)(0x80|(c&63));
    else s+=(char)(0xfc|c>>30), s+=(char)(0x80|(c>>24&63)), s+=(char)(0x80|(c>>18&63)), s+=(char)(0x80|(c>>12&63)), s+=(char)(0x80|(c>>6&63)), s+=(char)(0x80|(c&63));
    return s;
}
static void run_T04()
{
    Conf c; c.sx=6; c.sy=2; c.rs=0; c.seed="";
    if (mc::O.replaying)
    {
        vector<string> h; parse(mc::O.replay,c,h); t04_case(c,h[0]); return;
    }
    uint64_t n=0;
    // every code point (including surrogates and beyond Unicode) between two letters
    for (uint32_t p=0x80;p<0x110000+0x2000;p++)
        if (mc::mine(n++/64)) t04_case(c,"x"+utf8(p)+"y");
    for (uint32_t p : {0x1fffffu,0x200000u,0x3ffffffu,0x4000000u,0x7fffffffu,0x7ffffffeu}) if (mc::mine(n++)) t04_case(c,"x"+utf8(p)+"y");
    for (int p=0;p<256;p++) if (mc::mine(n++)) t04_case(c,"x"+string(1,(char)p)+"y");
    // the width decides wrapping: every code point again in the last column
    for (uint32_t p=0xa0;p<0x30000;p++) if (mc::mine(n++/64)) { Conf d=c; d.seed="\e[1;6H"; t04_case(d,utf8(p)+"y"); }
    // overlong forms of every length
    for (uint32_t p=0;p<0x800;p++) if (mc::mine(n++/16))
    {
        t04_case(c,string("x")+(char)0xe0+(char)(0x80|p>>6)+(char)(0x80|(p&63))+"y");
        t04_case(c,string("x")+(char)0xf0+(char)0x80+(char)(0x80|p>>6)+(char)(0x80|(p&63))+"y");
        t04_case(c,string("x")+(char)0xf8+(char)0x80+(char)0x80+(char)(0x80|p>>6)+(char)(0x80|(p&63))+"y");
        t04_case(c,string("x")+(char)0xfc+(char)0x80+(char)0x80+(char)0x80+(char)(0x80|p>>6)+(char)(0x80|(p&63))+"y");
        if (p<0x80) t04_case(c,string("x")+(char)(0xc0|p>>6)+(char)(0x80|(p&63))+"y");
    }
    // all 2-byte strings, all 3-byte strings over boundary bytes
    for (int a=0;a<256;a++) for (int b=0;b<256;b++) if (mc::mine(n++/256)) t04_case(c,string("x")+(char)a+(char)b+"yz");
    vector<unsigned char> B={0x0a,0x1b,0x41,0x7f,0x80,0x8f,0x90,0x9f,0xa0,0xad,0xb8,0xbf,0xc0,0xc1,0xc2,0xcc,0xdf,0xe0,0xe2,0xe4,0xed,0xef,0xf0,0xf4,0xf7,0xf8,0xfb,0xfc,0xfd,0xfe,0xff};
    size_t N=B.size();
    for (size_t i=0;i<N*N*N;i++) if (mc::mine(n++/64)) t04_case(c,string("x")+(char)B[i%N]+(char)B[i/N%N]+(char)B[i/N/N]+"yz");
    if (mc::thorough())
        for (size_t i=0;i<N*N*N*N;i++) if (mc::mine(n++/64)) t04_case(c,string("x")+(char)B[i%N]+(char)B[i/N%N]+(char)B[i/N/N%N]+(char)B[i/N/N/N]+"yz");
    // 4-6 byte class combinations: lead, continuation, ascii, control, second lead
    vector<string> K={"\xc3","\xe4","\xf0","\xf8","\xfc","\xff","\xb8","\x81","\xbf","A","\n","\e[m","\xed\xa0\xbd","\xed\xb8\x80","\xef\xbb\xbf"};
    size_t kn=K.size(); int D=mc::thorough()?6:5; uint64_t tot=1; for (int i=0;i<D;i++) tot*=kn;
    for (uint64_t i=0;i<tot;i++) if (mc::mine(n++/64)) { string s="x"; uint64_t j=i; for (int d=0;d<D;d++) s+=K[j%kn], j/=kn; t04_case(c,s+"yz"); }
    // 8-bit mode and line drawing: all pairs of bytes, each set in each slot
    for (const char *sd : {"\e%@","\e(0","\e)0\x0e","\x0e","\e%@\e(0","\e)B\x0e","\e(0\e(B","\e(0\x0e\x0f"})
        for (int a=0;a<256;a++)
        {
            if (mc::mine(n++)) { Conf d=c; d.seed=sd; t04_case(d,string(1,(char)a)+"z"); }
            for (int b : {0,10,27,65,0x6a,0x80,0xb3,0xe4,0xff}) if (mc::mine(n++)) { Conf d=c; d.seed=sd; t04_case(d,string(1,(char)a)+(char)b+"z"); }
        }
    // surrogates: every pair, and pairs with something between
    for (uint32_t h=0xd800;h<0xdc00;h++) for (uint32_t l=0xdc00;l<0xe000;l++)
    {
        if (mc::mine(n++/64)) t04_case(c,"x"+utf8(h)+utf8(l)+"y");
    }
    for (const char *m : {"a","\n","\e[m","\a","\b","\x0e","\xe4","\xc3\xa9","\xe4\xb8\xad","\xcc\x81","\xed\xa0\x81","\xed\xb0\x81","\xef\xbb\xbf","\xff","\x80"}) for (const char *h : {"\xed\xa0\xbd","\xed\xa0\x80"}) for (const char *l : {"\xed\xb8\x80","\xed\xbf\xbf"}) if (mc::mine(n++)) { t04_case(c,string("x")+h+m+l+"y"); t04_case(c,string("x")+h+m+m+l+"y"+l+"z"); }
    // marks: up to six of them on narrow, wide, edge and wrapped cells
    for (const char *b : {"","a","\xe4\xb8\xad","abcdef","abcde","abcde\xe4\xb8\xad","ab\r","ab\n","\e[6G"})
        for (int k=0;k<7;k++) for (int z=0;z<2;z++) if (mc::mine(n++)) { string s=b; for (int i=0;i<k;i++) s+= (i+z)%2?"\xcc\x81":"\xe2\x83\x9d"; t04_case(c,s); t04_case(c,s+"y\xcc\x80"); }
}

// ---------------------------------------------------------- T09 formatted output
static void t09_case(int kind, int len)
{
    string sp=mc::fmt("%d|%d",kind,len); mc::begin_case(sp);
    string s; s.resize(len);
    for (int i=0;i<len;i++) s[i]= i%41==40 ? '\n' : "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJ"[(i*7+i/41)%46];
    if (kind==2) for (int i=0;i+3<=len;i+=3) memcpy(&s[i],"\xe4\xb8\xad",3);
    tty a=tty_init(41,8,0), b=tty_init(41,8,0);
    Log la, lb; attach(a,&la); attach(b,&lb);
    switch (kind)
    {
    case 0: tty_printf(a,"%s",s.c_str()); tty_write(b,s.data(),len); break;
    case 1: tty_printf(a,"%d:%s:%c%%%5.2f|%lx",len,s.c_str(),'Q',3.14159,(unsigned long)len);
            { string t=mc::fmt("%d:%s:%c%%%5.2f|%lx",len,s.c_str(),'Q',3.14159,(unsigned long)len); tty_write(b,t.data(),t.size()); } break;
    case 2: tty_printf(a,"%s",s.c_str()); tty_write(b,s.data(),len); break;
    case 3: tty_printf(a,"%*d",len,42); { string t=mc::fmt("%*d",len,42); tty_write(b,t.data(),t.size()); } break;
    case 4: tty_printf(a,"\e[%d;%dH%s",len%8+1,len%41+1,s.c_str()); { string t=mc::fmt("\e[%d;%dH%s",len%8+1,len%41+1,s.c_str()); tty_write(b,t.data(),t.size()); } break;
    }
    Obs oa=observe(a), ob=observe(b);
    if (!(oa==ob)) mc::fail(diff(oa,ob));
    else if (!(la.v==lb.v)) mc::fail("not the same output as writing the same text");
    tty_free(a); tty_free(b);
    mc::stats["evals"]++; if (len) mc::stats["nontrivial"]++;
}
static void run_T09()
{
    if (mc::O.replaying) { int k,l; sscanf(mc::O.replay.c_str(),"%d|%d",&k,&l); t09_case(k,l); return; }
    vector<int> L;
    for (int i=0;i<=130;i++) L.push_back(i);
    for (int p : {256,512,1000,1024,2048,4096,8192,16384,32768,65536,131072}) for (int d=-24;d<=24;d++) L.push_back(p+d);
    int stepn=mc::thorough()?37:997;
    for (int i=200;i<140000;i+=stepn) L.push_back(i);
    if (mc::thorough()) for (int i=16000;i<17000;i++) L.push_back(i);
    L.push_back(1000000);
    uint64_t n=0;
    for (int k=0;k<5;k++) for (int l : L) if (mc::mine(n++)) t09_case(k,l);
}

// ---------------------------------------------------------- drivers
static vector<Conf> plain(std::initializer_list<std::pair<int,int>> l, const char *seed="")
{ vector<Conf> v; for (auto p : l) { Conf c; c.sx=p.first; c.sy=p.second; c.seed=seed; v.push_back(c); } return v; }
template<class T> static void app(vector<T> &a, const vector<T> &b) { a.insert(a.end(),b.begin(),b.end()); }
static vector<Conf> prefixed(vector<Conf> v, const char *s) { for (auto &c : v) c.seed=s+c.seed; return v; }

static vector<string> tok_third()    // a small set for the third position
{ return {"a","\xe4\xb8\xad","\xcc\x81","\b","\n","\t","\eM","\e8","\e[J","\e[1J","\e[K","\e[1K","\e[P","\e[@","\e[X","\e[L","\e[M","\e[99C","\e[2;3r"}; }

static vector<string> noresize(vector<string> v)
{ vector<string> r; for (auto &s : v) if (s.find('t')==string::npos || s.find("\e[")!=0) r.push_back(s); return r; }

// the quick tier of all but T02 and T05 is already deep; the thorough one goes further
static bool deep() { return mc::thorough(); }
static bool wide() { return mc::thorough() || (mc::O.mode!="T02" && mc::O.mode!="T05"); }

static void search(const Step &step, int scale, bool bytes)
{
    // scale: 0 cheap oracle .. 2 expensive oracle
    Search se;
    bool th=wide();
    auto full=tok_full(), core=tok_core(), third=tok_third();
    // 1. every token from every seeded state
    vector<Conf> sd;
    for (auto p : {std::pair<int,int>{5,3},{2,1},{2,2},{3,1},{4,4}}) app(sd, seeds(p.first,p.second,th?1:0));
    app(sd, prefixed(seeds(3,2,1),"\e[?7l"));
    app(sd, seeds(9,2,0)); app(sd, seeds(17,1,0));
    se.run(sd,{full},step);
    { auto t2=third; for (const char *x : {"\xcc\x81\xcc\x81","\xed\xb8\x80","\xed\xbf\xbf","\x80","\xad","xy\a","\a","\e\\","\e[c"}) t2.push_back(x); se.run(edge_seeds(),{th?full:core,t2},step,2); auto t3=t2; if (th||scale<2) se.run(vector<Conf>(edge_seeds()),{t2,t2,{"\xed\xb8\x80","\xcc\x81","\a","\xad"}},step,4); }
    {   // large screens
        vector<string> t=core; for (const char *x : {"\e[7L","\e[7M","\e[9@","\e[9P","\n\n\n","xyz\xcc\x81\xcc\x88\xcc\x81\xcc\x88","\e[999;999H\n","\eM\eM","\e[30X"}) t.push_back(x);
        se.run(full_seeds({{80,25},{132,50},{300,4}},{"@0e","@0h","@0r","@0m","@1e","@1m"}),{t},step,1);
        se.run(full_seeds({{300,220},{512,130},{20,600}},{"@0e","@0h","@0r","@1m"}),{{"aZ\xcc\x81","\n","\eM","\e[2J","\e[1J","\e[L","\e[3M","\e[P","\e[5@","\e[K","\e[r\e[999H\n"}},step,2);
        if (th) se.run(full_seeds({{80,25}},{"@0r","@1m"}),{third,third},step,4);
    }
    // 2. pairs: core x core from seeded states, full x full from plain ones
    if (scale<2 || th)
    {
        vector<Conf> s2=seeds(4,3,0);
        if (!th) { vector<Conf> r; for (size_t i=0;i<s2.size();i+= (scale==0?1:3)) r.push_back(s2[i]); s2=r; }
        se.run(s2,{core,core},step);
    }
    vector<Conf> pl=plain({{5,3},{2,1},{3,2},{9,2}});
    auto pl2=plain({{4,3}},"\e[2;3r\e[3;4H\xe4\xb8\xad\e[44m"); app(pl,pl2);
    app(pl,plain({{4,3}},"\e%@ab")); app(pl,plain({{6,2}},"\e(0\e7\e[3;2Hxyz\e[7m")); app(pl,plain({{4,2}},"abcdefgh\xcc\x81"));
    app(pl,plain({{3,4}},"\e[1;2r\e[4;3H"));
    if (scale==2 && !th) pl.resize(4);
    // spread one configuration's pairs over the shards by splitting the first token
    auto by_first=[&](const vector<Conf> &cs, const vector<vector<string>> &al, uint64_t off)
    {
        uint64_t n=off;
        for (auto &c : cs) for (auto &t : al[0])
        {
            if (!mc::mine(n++)) continue;
            auto b=al; b[0]={t};
            // run() shards by configuration index; this one is ours
            Search *s=&se; int sh=mc::O.shard, ns=mc::O.nshards; mc::O.shard=0; mc::O.nshards=1;
            s->run({c},b,step);
            mc::O.shard=sh; mc::O.nshards=ns;
        }
    };
    by_first(pl,{full,full},0);
    // 3. triples
    vector<Conf> p3=plain({{4,2},{3,3}});
    if (scale==0 || th) app(p3,plain({{4,3}},"AB\xe4\xb8\xad\e[2;1Hw\xe4\xb8\xad\xcc\x81z\e[3;1H1234\e[2;3r\e[41m\e[2;2H"));
    if (scale<2 || th) by_first(p3,{core,core,th?core:third},3);
    if (th) by_first(p3,{full,core,full},5);
    if (th) by_first(plain({{3,2}}),{core,core,core,third},7);
    if (deep()) by_first(plain({{3,2}}),{core,core,core,core},7), by_first(p3,{full,full,core},9), by_first(plain({{2,2},{5,2}},"\e[2;2H"),{full,full,third},9);
    // 4. raw bytes
    if (bytes)
    {
        auto by=bytes_alpha();
        vector<Conf> pb=plain({{3,2}}); app(pb,plain({{4,3}},"ab\xe4\xb8\xad" "c\xcc\x81\e[2;3r\e[2;2H\e[1;42m"));
        int d = deep()?5:th?4:3;
        by_first(pb,vector<vector<string>>(d,by),11);
        by_first(plain({{3,2}},"\e["),vector<vector<string>>(d,by),13);
        by_first(plain({{3,2}},"\e]0;"),vector<vector<string>>(2,by),17);
        by_first(plain({{3,2}},"\e[2;"),vector<vector<string>>(2,by),19);
    }
    se.stats();
}

static vector<string> resizes(int mx, int my, bool inband)
{
    vector<string> v;
    for (int w=2;w<=mx;w++) for (int h=1;h<=my;h++)
    {
        v.push_back(string("\0R",2)+mc::fmt("%d,%d",w,h));
        if (inband) v.push_back(mc::fmt("\e[8;%d;%dt",h,w));
    }
    return v;
}
static void search_T08()
{
    Search se; bool th=wide();
    vector<string> rz=resizes(7,5,true), small=resizes(5,3,false);
    vector<string> lim;
    for (int h : {0,1,2,255,256,257,1000}) for (int w : {0,1,2,3,511,512,513,10000}) lim.push_back(mc::fmt("\e[8;%d;%dt",h,w));
    for (const char *s : {"\e[8t","\e[8;t","\e[8;;t","\e[8;3t","\e[8;3;t","\e[8;;3t","\e[8;2;3;4t","\e[8;999999999;5t","\e[8;5;999999999t","\e[18t","\e[t","\e[4;3;3t"}) lim.push_back(s);
    string Z("\0Z",2);
    vector<string> all=rz; app(all,lim); all.push_back(Z); all.push_back("\e[c");
    vector<Conf> sd;
    for (auto p : {std::pair<int,int>{5,3},{2,1},{3,2},{4,4},{6,2}}) app(sd,seeds(p.first,p.second,1));
    // states in the middle of a sequence, with saved cursors, charsets, modes, titles
    vector<Conf> odd;
    for (const char *s : {"\e[31","\e]0;ab","\e[?2","\e","\e(","\xe4\xb8","\xed\xa0\xbd","\e[3;5H\e[1;31m\x0e\e7\e[m\x0f\e[H","\e)B\e(0\e7","\e[?7l\e[?25l\e=","\e]0;T\a\e[45m","\e%@","\e[2;3r\e[3;5Hx\e[A","\e[5;5H\e7\e[r","abcde\xcc\x81" "fgh\xe4\xb8\xad\xcc\x88"})
        app(odd,plain({{5,3},{4,4}},s));
    app(sd,odd);
    se.run(sd,{all},step_T03);
    // fixed size: nothing in-band may change it
    auto fx=plain({{5,3},{2,1}},"ab\xe4\xb8\xad\e[2;2H"); for (auto &c : fx) c.rs=0;
    se.run(fx,{lim},step_T03); se.run(fx,{rz},step_T03);
    {   // large screens
        vector<string> lg; for (auto p : {std::pair<int,int>{79,25},{80,24},{81,25},{80,26},{40,12},{132,50},{300,250},{2,1},{1000,3}}) lg.push_back(string("\0R",2)+mc::fmt("%d,%d",p.first,p.second)), lg.push_back(mc::fmt("\e[8;%d;%dt",p.second,p.first));
        lg.push_back(Z); lg.push_back("\e[c");
        se.run(full_seeds({{80,25},{132,50},{300,220}},{"@0e","@0r","@0m","@1e","@1m"}),{lg},step_T03,5);
        se.run(full_seeds({{80,25}},{"@0r","@1m"}),{lg,{"a\xcc\x81","\n","\eM","\e[2J","\e[3L","\e8X",Z,lg[0],lg[10]}},step_T03,5);
    }
    // resize, then use: twice resized, then every probe
    vector<string> probe={"\e8","\e8X","\eM","\n","\e[99;99HX\n","\xe4\xb8\xad\xe4\xb8\xad","\xcc\x81","a\xcc\x81","\e[L","\e[M","\e[J","\e[1J","\e[@","\e[2P","m","b\a","\xad","\xed\xb8\x80","2;1Hq","\x0ejx","\e[2;2r\n","\t","\e7\e[H\e8"};
    vector<Conf> s2; { auto q=seeds(5,3,0); for (size_t i=0;i<q.size();i+= th?1:5) s2.push_back(q[i]); } app(s2,odd);
    vector<string> first=small; first.push_back(Z); first.push_back("\e[c"); first.push_back("\e[8;2;4t"); first.push_back("\e[8;5;7t");
    vector<string> second=probe; app(second,first);
    se.run(s2,{first,second},step_T03,1);
    { vector<Conf> s3; for (size_t i=0;i<s2.size();i+= th?2:17) s3.push_back(s2[i]); se.run(s3,{first,second,probe},step_T03,2); }
    if (deep()) se.run(s2,{first,second,second},step_T03,5);
    // reset from everything reachable
    { vector<string> zz={Z,"\e[c"}; auto full=tok_full(); auto c2=plain({{5,3}},"\e[41mA\xe4\xb8\xad\e[2;3r");
      se.run(c2,{full,zz,probe},step_T03,3); se.run(plain({{4,2}}),{full,zz,full},step_T03,4); }
    se.stats();
}

// ---------------------------------------------------------- I01 independence
// two terminals (with all listeners, or shown on a display each) fed in turns
struct Solo { tty vt=0; Log l; string out; FILE *f=0; int mode=0; };
static ssize_t ck_own(void *a, const char *b, size_t n) { ((string*)a)->append(b,n); return n; }
static void solo_open(Solo &s, int sx, int sy, int mode, const string &seed)
{
    s.mode=mode; s.vt=tty_init(sx,sy,1);
    if (mode==0) attach(s.vt,&s.l);
    else { cookie_io_functions_t io={0,ck_own,0,0}; s.f=fopencookie(&s.out,"w",io); disp_x=sx; disp_y=sy; if (mode==1) vtvt_attach(s.vt,s.f,0), vtvt_resize(s.vt,sx,sy); }
    tty_write(s.vt,seed.data(),seed.size());
    if (mode==2) { vtvt_attach(s.vt,s.f,1); vtvt_resize(s.vt,sx,sy); }
    disp_x=disp_y=0;
}
static string solo_close(Solo &s)    // what it all came to
{
    Obs o=observe(s.vt); string r; for (auto &e : s.l.v) r+=evstr(e);
    mc::Hasher h; key(h,s.vt,true); mc::H128 k=h.get();
    tty_free(s.vt); if (s.f) fclose(s.f);
    return mc::fmt("%016llx%016llx ",(unsigned long long)k.a,(unsigned long long)k.b)+mc::fmt("%d,%d %d ",o.cx,o.cy,s.l.frees)+r+"|"+mc::esc(s.out);
}
static void run_I01()
{
    auto full=tok_full(), core=tok_core(); bool th=mc::thorough();
    static const int SZ[2][2]={{5,3},{4,4}};
    static const string SEED[2]={"ab\xe4\xb8\xad\e[2;3r\e[4;32m\e7\e[3;4H","\e]0;T\a\e(0q\e[7mw\xcc\x81\n\e[1;31mxyz\e[2;4H"}, PROBE[2]={"Qq\xc3\xa9\e8R\n\e[mS","\e[Az\x0e" "aW\e[1KV\e8U"};
    unsigned long long cid=0, want=mc::O.replaying?strtoull(mc::O.replay.c_str()+mc::O.replay.find('#')+1,0,10):0;
    if (mc::O.replaying) { mc::O.tier=mc::O.replay.substr(0,mc::O.replay.find('#')); th=mc::thorough(); }
    // alone
    auto alone=[&](int who, int mode, const string &t){
        Solo s; solo_open(s,SZ[who][0],SZ[who][1],mode,SEED[who]); tty_write(s.vt,t.data(),t.size()); tty_write(s.vt,PROBE[who].data(),PROBE[who].size()); return solo_close(s); };
    auto strip=[](string r, int mode){ (void)mode; return r; };
    std::map<std::pair<int,string>,string> memo[2];
    auto ref=[&](int who, int mode, const string &t)->const string& { string &r=memo[who][{mode,t}]; if (r.empty()) r=mc::apart([&]{ return alone(who,mode,t); }); return r; };
    auto &A=full, &B=th?full:core;
    for (auto &a : A) for (auto &b : B) for (int mode=0;mode<3;mode++)
    {
        if (special(a)||special(b)) continue;
        if (mode==2 && !th && (&a-&A[0]+(&b-&B[0]))%4) continue;
        cid++;
        if (mc::O.replaying ? cid!=want : mc::mix(cid)%mc::O.nshards!=(unsigned)mc::O.shard) continue;
        string sp=mc::fmt("%s#%llu ",mc::O.tier.c_str(),cid)+mc::esc(a)+" and "+mc::esc(b)+mc::fmt(", mode %d",mode); for (auto &c : sp) if (c=='\t'||c=='\n') c=' ';
        mc::begin_case(sp);
        const string &ra=ref(0,mode,a), &rb=ref(1,mode,b);
        for (size_t i=0;i<=a.size();i++) for (int o=0;o<3;o++)
        {
            size_t j= o==0?b.size():b.size()/2;
            // A's first part, B's first part, then the rest in either order; o=2: one is freed before the other goes on
            Solo x,y; solo_open(x,SZ[0][0],SZ[0][1],mode,SEED[0]); solo_open(y,SZ[1][0],SZ[1][1],mode,SEED[1]);
            tty_write(x.vt,a.data(),i); tty_write(y.vt,b.data(),j);
            auto rx=[&]{ tty_write(x.vt,a.data()+i,a.size()-i); tty_write(x.vt,PROBE[0].data(),PROBE[0].size()); }; auto ry=[&]{ tty_write(y.vt,b.data()+j,b.size()-j); tty_write(y.vt,PROBE[1].data(),PROBE[1].size()); };
            string gx,gy;
            if (o==2) { ry(); gy=solo_close(y); rx(); gx=solo_close(x); } else { rx(); ry(); gx=solo_close(x); gy=solo_close(y); }
            mc::stats["states"]+=2; mc::stats["transitions"]+=8; mc::stats["traces"]++;
            if (strip(gx,mode)!=strip(ra,mode)) { mc::fail(mc::fmt("the first, stopped after %zu bytes, comes to %s instead of %s",i,gx.substr(0,600).c_str(),ra.substr(0,600).c_str())); break; }
            if (strip(gy,mode)!=strip(rb,mode)) { mc::fail(mc::fmt("the second, while the first was stopped after %zu bytes, comes to %s instead of %s",i,gy.substr(0,600).c_str(),rb.substr(0,600).c_str())); break; }
        }
    }
}

static Step step_for(const string &m)
{
    if (m=="T01") return step_T01;
    if (m=="T02") return step_T02;
    if (m=="T03"||m=="T08") return step_T03;
    if (m=="T05") return step_T05;
    if (m=="T06") return step_T06;
    if (m=="T07") return step_T07;
    return nullptr;
}
int main(int argc, char **argv)
{
    setlocale(LC_ALL,"C.utf8");
    mc::init(argc,argv);
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc,on_free);
    const string &M=mc::O.mode;
    t07_probe=tok_core(); for (const char *s : {"m","2m","x\a","\xad","\x81","\e[8;2;3t","\e[8;5;9t","\e\\","\e]0;N\a","8;2;4t","h"}) t07_probe.push_back(s);
    if (M=="T04") { run_T04(); mc::finish(); }
    if (M=="T09") { run_T09(); mc::finish(); }
    if (M=="I01") { run_I01(); mc::finish(); }
    Step st=step_for(M);
    if (!st) { fprintf(stderr,"unknown mode\n"); return 2; }
    if (mc::O.replaying)
    {
        Conf c; vector<string> hs; parse(mc::O.replay,c,hs);
        vector<const string*> h; for (auto &s : hs) h.push_back(&s);
        if (M=="T07") for (size_t i=0;i<t07_probe.size()*t07_probe.size();i++) step_T07(c,h);
        else if (M=="T06" && c.rs>>8) step_T06s(c,h);
        else st(c,h);
        mc::finish();
    }
    if (M=="T08") search_T08();
    else if (M=="T06")
    {
        // rs carries how the renderer is attached (bit 1) so that it is part of the spec
        auto wrap=[&](const Conf &c, const vector<const string*> &h){ Conf k=c; return step_T06(k,h); };
        (void)wrap;
        Search se; bool th=wide();
        auto full=tok_full(), core=tok_core(), third=tok_third();
        vector<Conf> sd; for (auto p : {std::pair<int,int>{5,3},{2,2},{4,4},{9,2}}) app(sd,seeds(p.first,p.second,th?1:0));
        vector<Conf> dump=sd; for (auto &c : dump) c.rs=3;
        se.run(sd,{full},st); se.run(dump,{th?full:core},st,1);
        { vector<Conf> s2=seeds(4,3,0), r; for (size_t i=0;i<s2.size();i+= th?1:4) r.push_back(s2[i]); for (size_t i=1;i<s2.size();i+= th?2:9) r.push_back(s2[i]), r.back().rs=3; se.run(r,{core,core},st,2); }
        vector<Conf> pl=plain({{5,3},{3,2}},""); app(pl,plain({{4,3}},"\e[2;3r\e[3;4H\xe4\xb8\xad\e[44m")); 
        uint64_t n=0;
        for (auto &c : pl) for (auto &t : full) if (mc::mine(n++)) { int sh=mc::O.shard,ns=mc::O.nshards; mc::O.shard=0; mc::O.nshards=1; se.run({c},{{t},full},st); if (th || c.sx==3) se.run({c},{{t},core,th?core:third},st); mc::O.shard=sh; mc::O.nshards=ns; }
        { auto e=edge_seeds(), e2=e; for (auto &c : e2) c.rs=3; app(e,e2); se.run(e,{core},st,5); }
        {
            auto f=full_seeds({{80,25},{132,50}},{"@0e","@0r","@0m","@1e","@1m"}), g=f; for (auto &c : g) c.rs=3; app(f,g);
            vector<string> t=core; for (const char *x : {"\e[7L","\e[7M","\e[9@","\e[9P","\n\n\n","\e[999;999H\n"}) t.push_back(x);
            se.run(f,{t},st,6);
        }
        if (deep()) for (auto &c : pl) for (auto &t : core) if (mc::mine(n++)) { int sh=mc::O.shard,ns=mc::O.nshards; mc::O.shard=0; mc::O.nshards=1; se.run({c},{{t},core,core,third},st); mc::O.shard=sh; mc::O.nshards=ns; }
        // a display without Unicode; nothing is known to it about wide characters, so they are not overwritten by halves here
        {
            auto keep=[](vector<string> v, bool wide){ vector<string> r; for (auto &s : v) if (s.find("\e%")==string::npos && (wide || s.find_first_of("\xe3\xe4\xe5\xe6\xe7\xe8\xe9\xf0")==string::npos)) r.push_back(s); return r; };
            vector<string> gr=full; for (const char *s : {"\xb1","\xc4\xda\xbf","\x80","\x01","\x04","\xfe","\xff","\x9c\xf8\xf1\xfa","\e(0q","\e(0`ax~","\x0ex","\xe2\x94\x80","\xc2\xb0","\xc2\xa3","\xe2\x99\xa6","\xe2\x99\xa7","\xc3\xa9\xcc\x81","\xe4\xb8\xad","\xf0\x9f\x98\x80"}) gr.push_back(s);
            for (int dos=0;dos<2;dos++)
            {
                vector<Conf> as, aw, a2;
                for (auto &c : sd) if (c.seed.find("\e%")==string::npos) for (int k=0;k<2;k++)
                {
                    Conf d=c; d.rs=k?7:5; if (dos) d.seed="\e%@"+d.seed+"\xb1\x9c\e(0q";
                    bool w=!dos && keep({d.seed},false).empty(); if (w) d.rs=7;
                    if (!w || !k) (w?aw:as).push_back(d);
                }
                se.run(as,{keep(gr,dos)},st,7); se.run(aw,{{"\a","\e[1;31m","\e[?7l","\n","\e[2J","\e]0;x\a"}},st,3);
                for (auto &c : plain({{4,2},{3,3}},"")) for (int k=0;k<2;k++) { Conf d=c; d.rs=k?7:5; d.seed=dos?"\e%@\xb1":"\xe2\x94\x80"; a2.push_back(d); }
                se.run(a2,{keep(gr,dos),keep(th?gr:core,dos)},st,8);
            }
        }
        // smaller displays
        vector<Conf> sm; for (auto &c : seeds(5,4,0)) for (auto d : {std::pair<int,int>{4,3},{3,4},{5,3},{2,2},{7,5}}) { Conf k=c; k.rs=d.first<<8|d.second<<12; sm.push_back(k); }
        se.run(sm,{noresize(core)},step_T06s,3);
        se.stats();
    }
    else if (M=="T07")
    {
        Search se; bool th=wide(); auto full=tok_full(), core=tok_core();
        vector<Conf> sd; for (auto p : {std::pair<int,int>{5,3},{2,1},{4,4}}) app(sd,seeds(p.first,p.second,0));
        se.run(edge_seeds(),{core},st,1);
        se.run(sd,{full},st);
        se.run(full_seeds({{80,25},{132,50},{300,220}},{"@0e","@0m","@1e","@1m"}),{{"a\xcc\x81","\n","\e[1J","\e[8;20;100t"}},st,2);
        vector<Conf> pl=plain({{5,3},{3,2}}); app(pl,plain({{4,3}},"a\xcc\x81\xe4\xb8\xad\xcc\x88\e[2;3r\e]0;Q\a\e[4m"));
        uint64_t n=0;
        for (auto &c : pl) for (auto &t : full) if (mc::mine(n++)) { int sh=mc::O.shard,ns=mc::O.nshards; mc::O.shard=0; mc::O.nshards=1; se.run({c},{{t},th?full:core},st); if (deep()) se.run({c},{{t},core,core},st); mc::O.shard=sh; mc::O.nshards=ns; }
        se.stats();
    }
    else search(st, M=="T01"?1 : M=="T03"?0 : M=="T05"?1 : 2, M=="T01"||M=="T02"||M=="T03");
    mc::finish();
}
