// Helpers around the real terminal object, through its public header only.
#pragma once
#include "mc.hpp"
#include "vtmodel.hpp"
extern "C" {
#include "tty.h"
}

namespace vtu {
using std::string; using std::vector;

// sh: short for a seed too long to be spelt out, see full_screen()
struct Conf { int sx=5, sy=3, rs=1; string seed, sh; };

// Fills the whole screen with text.  "@0x" mixes widths, colours and marks, "@1x"
// puts as many marks as fit on every cell; then, by x, comes the place to go on from.
inline string full_screen(const Conf &c)
{
    string s; bool dense=c.sh[1]=='1'; unsigned n=0;
    for (int y=0;y<c.sy;y++)
    {
        s+=mc::fmt("\e[%d;1H",y+1);
        for (int x=0;x<c.sx;x++,n++)
        {
            unsigned q=n*2654435761u>>16;
            if (dense) { s+=char('A'+q%26); for (int i=0;i<4;i++) s+= q>>(5+i)&1 ? "\xcc\x81" : "\xcc\x88"; continue; }
            if (q%11==3) s+=mc::fmt("\e[%d;%dm",30+q/11%8,40+q/88%8);
            if (q%7==2 && x+1<c.sx) s+="\xe4\xb8\xad", x++; else s+=char('!'+q%94);
            if (q%23==5) s+="\xcc\x81";
        }
    }
    switch (c.sh[2])
    {
    case 'h': s+="\e[H"; break;
    case 'r': s+=mc::fmt("\e[2;%dr\e[%d;%dH\e[0;42m",c.sy-1,c.sy-1,c.sx/2); break;
    case 'm': s+=mc::fmt("\e[%d;%dH\e[m",c.sy/2,c.sx/2); break;
    }
    return s;
}
inline vector<Conf> full_seeds(std::initializer_list<std::pair<int,int>> l, std::initializer_list<const char*> kinds)
{
    vector<Conf> v;
    for (auto p : l) for (auto k : kinds) { Conf c; c.sx=p.first; c.sy=p.second; c.sh=k; c.seed=full_screen(c); v.push_back(c); }
    return v;
}

// Tokens are byte strings; two special forms start with a NUL byte:
//   \0R<w>,<h>  call the resize function       \0Z  call the reset function
inline bool special(const string &t) { return t.size()>1 && !t[0]; }
inline void apply(tty vt, const string &t)
{
    if (special(t))
    {
        int w,h;
        if (t[1]=='Z') tty_reset(vt);
        else if (sscanf(t.c_str()+2, "%d,%d", &w,&h)==2) tty_resize(vt,w,h);
    }
    else tty_write(vt, t.data(), t.size());
}
inline void apply(vtm::Model &m, const string &t)
{
    if (special(t))
    {
        int w,h;
        if (t[1]=='Z') m.reset();
        else if (sscanf(t.c_str()+2, "%d,%d", &w,&h)==2) m.resize(w,h);
    }
    else m.write(t);
}
inline string spec(const Conf &c, const vector<const string*> &h)
{
    string s=mc::fmt("%d,%d,%d|", c.sx,c.sy,c.rs)+(c.sh.empty()?mc::esc(c.seed):c.sh);
    for (auto t : h) s+="|"+mc::esc(*t);
    return s;
}
inline void parse(const string &s, Conf &c, vector<string> &h)
{
    auto v=mc::split(s,'|');
    sscanf(v[0].c_str(), "%d,%d,%d", &c.sx,&c.sy,&c.rs);
    c.seed=v.size()>1 ? mc::unesc(v[1]) : "";
    if (c.seed.size()==3 && c.seed[0]=='@' && (c.seed[1]=='0' || c.seed[1]=='1')) c.sh=c.seed, c.seed=full_screen(c);
    for (size_t i=2;i<v.size();i++) h.push_back(mc::unesc(v[i]));
}
inline tty make(const Conf &c)
{
    tty vt=tty_init(c.sx,c.sy,c.rs);
    if (!vt) { mc::fail("tty_init failed"); mc::finish(); }
    return vt;
}

// combining marks of a cell; returns false if the chain is broken
inline bool marks(tty vt, const attrchar &a, uint32_t *m, int &n)
{
    n=0;
    uint32_t i=a.comb;
    while (i)
    {
        if (!vt->combs || i>=vt->combs[0].ch || n>=8) return false;
        m[n++]=vt->combs[i].ch; i=vt->combs[i].next;
    }
    return true;
}

// complete observable state, as text only when it differs
struct Obs
{
    int sx,sy,cx,cy,s1,s2; uint64_t attr; bool wrap,cursor,kpad; string title;
    vector<vtm::Cell> scr;
    bool operator==(const Obs &o) const
    { return sx==o.sx&&sy==o.sy&&cx==o.cx&&cy==o.cy&&s1==o.s1&&s2==o.s2&&attr==o.attr&&wrap==o.wrap&&
        cursor==o.cursor&&kpad==o.kpad&&title==o.title&&scr==o.scr; }
};
inline Obs observe(tty vt)
{
    Obs o; o.sx=vt->sx; o.sy=vt->sy; o.cx=vt->cx; o.cy=vt->cy; o.s1=vt->s1; o.s2=vt->s2; o.attr=vt->attr;
    o.wrap=!!vt->opt_auto_wrap; o.cursor=!!vt->opt_cursor; o.kpad=!!vt->opt_kpad; o.title=vt->title?vt->title:"";
    o.scr.resize(o.sx*o.sy);
    for (int i=0;i<o.sx*o.sy;i++)
    {
        vtm::Cell &c=o.scr[i]; const attrchar &a=vt->scr[i];
        c.ch=a.ch; c.attr=a.attr; uint32_t m[16]; int n;
        if (!marks(vt,a,m,n)) { n=1; m[0]=0xdeadbeef; }
        if (n>4) n=4, m[3]=0xdeadbeef;
        memcpy(c.comb,m,n*4); c.nc=n;
    }
    return o;
}
inline Obs observe(const vtm::Model &m)
{
    Obs o; o.sx=m.sx; o.sy=m.sy; o.cx=m.cx; o.cy=m.cy; o.s1=m.top; o.s2=m.bot; o.attr=m.pen;
    o.wrap=m.wrap; o.cursor=m.cursor; o.kpad=m.kpad; o.title=m.title; o.scr=m.scr;
    return o;
}
inline string cellstr(const vtm::Cell &c)
{
    string s=mc::fmt("U+%X attr %llx", c.ch, (unsigned long long)c.attr);
    for (int i=0;i<c.nc;i++) s+=mc::fmt(" +%X", c.comb[i]);
    return s;
}
// what differs first; names: a is "is", b is "should be"
inline string diff(const Obs &a, const Obs &b)
{
    if (a.sx!=b.sx||a.sy!=b.sy) return mc::fmt("size %dx%d, should be %dx%d", a.sx,a.sy,b.sx,b.sy);
    for (int i=0;i<a.sx*a.sy;i++) if (!(a.scr[i]==b.scr[i]))
        return mc::fmt("cell %d,%d is ", i%a.sx,i/a.sx)+cellstr(a.scr[i])+", should be "+cellstr(b.scr[i]);
    if (a.cx!=b.cx||a.cy!=b.cy) return mc::fmt("cursor at %d,%d, should be %d,%d", a.cx,a.cy,b.cx,b.cy);
    if (a.attr!=b.attr) return mc::fmt("current attribute %llx, should be %llx", (unsigned long long)a.attr, (unsigned long long)b.attr);
    if (a.s1!=b.s1||a.s2!=b.s2) return mc::fmt("scrolling region %d-%d, should be %d-%d", a.s1,a.s2,b.s1,b.s2);
    if (a.wrap!=b.wrap) return "auto wrap mode differs";
    if (a.cursor!=b.cursor) return "cursor visibility differs";
    if (a.kpad!=b.kpad) return "keypad mode differs";
    if (a.title!=b.title) return "title \""+mc::esc(a.title)+"\", should be \""+mc::esc(b.title)+"\"";
    return "";
}
// fast comparison of the real terminal with the model
inline bool same(tty vt, const vtm::Model &m)
{
    if (vt->sx!=m.sx||vt->sy!=m.sy||vt->cx!=m.cx||vt->cy!=m.cy||vt->s1!=m.top||vt->s2!=m.bot||vt->attr!=m.pen||
        !!vt->opt_auto_wrap!=m.wrap||!!vt->opt_cursor!=m.cursor||!!vt->opt_kpad!=m.kpad||m.title!=(vt->title?vt->title:"")) return false;
    for (int i=0;i<m.sx*m.sy;i++)
    {
        const vtm::Cell &c=m.scr[i]; const attrchar &a=vt->scr[i];
        if (c.ch!=a.ch || c.attr!=a.attr) return false;
        if (!a.comb) { if (c.nc) return false; continue; }
        uint32_t k[16]; int n;
        if (!marks(vt,a,k,n) || n!=c.nc || memcmp(k,c.comb,n*4)) return false;
    }
    return true;
}

// Canonical form for de-duplication: the raw object with every pointer replaced
// by what it points to.  Anything the future can depend on is in there.
inline void key(mc::Hasher &h, tty vt, bool pool)
{
    std::remove_pointer<tty>::type t; memcpy(&t, vt, sizeof t);
    t.scr=0; t.combs=0; t.title=0; t.oscbuf=0; t.l_data=0;
    t.l_char=0; t.l_comb=0; t.l_cursor=0; t.l_clear=0; t.l_scroll=0; t.l_flag=0; t.l_osc=0; t.l_resize=0; t.l_flush=0; t.l_bell=0; t.l_free=0;
    h.bytes(&t, sizeof t);
    for (int i=0;i<vt->sx*vt->sy;i++)
    {
        const attrchar &a=vt->scr[i]; h.u(a.ch); h.u(a.attr);
        if (pool) h.u(a.comb);
        else { uint32_t k[16]; int n; if (!marks(vt,a,k,n)) n=0; h.bytes(k,n*4); }
    }
    if (pool && vt->combs) for (uint32_t i=0;i<vt->combs[0].ch;i++) h.u(vt->combs[i].next);
    h.str(vt->title?vt->title:"\1none");
    if (vt->oscbuf) h.bytes(vt->oscbuf, vt->osclen); else h.u(7);
}

// ------------------------------------------------------------ alphabets
inline string S(const char *s) { return s; }
inline vector<string> chars_min() { return {"a","\xe4\xb8\xad","\xcc\x81"}; }
inline void add(vector<string> &v, std::initializer_list<const char*> l) { for (auto s : l) v.push_back(s); }

// core: one or two instances of everything
inline vector<string> tok_core()
{
    vector<string> v;
    add(v, {"a","\xe4\xb8\xad","\xcc\x81","\b","\t","\n","\v","\r","\x0e","\x0f",
        "\e7","\e8","\eD","\eE","\eM","\e(0","\e(B",
        "\e[A","\e[B","\e[2B","\e[C","\e[99C","\e[D","\e[E","\e[F","\e[G","\e[3G","\e[d","\e[2d","\e[H","\e[2;2H","\e[99;99H",
        "\e[J","\e[1J","\e[2J","\e[K","\e[1K","\e[2K","\e[L","\e[2L","\e[M","\e[2M","\e[P","\e[2P","\e[@","\e[2@","\e[X","\e[2X","\e[99X",
        "\e[m","\e[1;31m","\e[45m","\e[2;3r","\e[r","\e[?7l","\e[?7h","\e[c","\e]0;T\a"});
    return v;
}
inline vector<string> tok_full()
{
    vector<string> v=tok_core();
    add(v, {"b","q","\xc3\xa9","\xcc\x88","\xe2\x80\x8b","\xf0\xa0\x80\x80","\xc2\x85","\xef\xbf\xbf","\x7f","\a","\x05","\f","\x18","\x1a","\x01",
        "\e=","\e>","\e(U","\e(X","\e)0","\e)B","\e)X","\e%@","\e%G","\e%8","\e%x","\eZ","\ec","\e#8",
        "\e[0A","\e[2A","\e[99A","\e[99B","\e[0C","\e[2C","\e[a","\e[2D","\e[99D","\e[2E","\e[99E","\e[2F","\e[99F","\e[0G","\e[99G","\e[`","\e[2`","\e[0d","\e[99d",
        "\e[;H","\e[0;0H","\e[;2H","\e[2H","\e[2;H","\e[3;1f","\e[f","\e[1;99H","\e[2;3;4H",
        "\e[0J","\e[3J","\e[0K","\e[3K","\e[0L","\e[99L","\e[0M","\e[99M","\e[0P","\e[3P","\e[99P","\e[0@","\e[3@","\e[99@","\e[0X","\e[3X",
        "\e[1;2r","\e[2r","\e[;2r","\e[2;2r","\e[3;2r","\e[2;99r","\e[0;0r","\e[1;3r",
        "\e[0m","\e[2m","\e[3m","\e[4m","\e[5m","\e[7m","\e[9m","\e[21m","\e[22m","\e[23m","\e[24m","\e[25m","\e[27m","\e[29m","\e[37m","\e[39m","\e[40m","\e[49m",
        "\e[90m","\e[97m","\e[100m","\e[107m","\e[38;5;200m","\e[48;5;17m","\e[38;5;300m","\e[38;2;1;2;3m","\e[48;2;255;0;300m","\e[38m","\e[38;5m","\e[38;2;7m","\e[48;3;1;2;3;4m","\e[38;4;1;2;3;4;1m","\e[38;9;4m","\e[;;4m","\e[1;;4m","\e[6m","\e[8m","\e[98m","\e[108m",
        "\e[0;0;0;0;0;0;0;0;0;0;0;0;0;0;0;1m","\e[0;0;0;0;0;0;0;0;0;0;0;0;0;0;0;0;1m","\e[0;0;0;0;0;0;0;0;0;0;0;0;0;38;5;9m","\e[0;0;0;0;0;0;0;0;0;0;0;38;2;1;2;3m","\e[0;0;0;0;0;0;0;0;0;0;0;0;48;2;1;2m","\e[1;2;3;4;5;7;9;31;38;5;77m",
        "\e[?25l","\e[?25h","\e[?7;25l","\e[?25;7h","\e[?1h","\e[?;7l","\e[?x","\e[?7J","\e[7l","\e[25h",
        "\e[Z","\e[5n","\e[!p","\e[>c","\e[1 q","\e[s","\e[u",
        "\e[8;2;4t","\e[8;;t","\e[8t","\e[8;3t","\e[8;;3t","\e[8;1;1t","\e[8;999;5t","\e[8;2;999t","\e[9;1;1t","\e[18t",
        "\e]0;u\e\\","\e]2;x\a","\e]0\a","\e]0;\a","\e]x;y\a","\e]0x;y\a","\e]0;ab\x18","\e]0;c\x1a","\e]0;a\nb\a","\e]0;\xc3\xa9\a","\e]1;2;3\a",
        // unfinished
        "\e","\e[","\e[2","\e[?",";","2","7","h","m","H","C","K","t","[","]","0","(","%","\e]0;","\e]0","\e]","\xe4","\xb8","\xad","\xcc","\xed\xa0\xbd","\xed\xb8\x80","\xff","\xc1\x81","\xef\xbb\xbf","\xf4\x90\x80\x80","\xfd\xbf\xbf\xbf\xbf\xbf"});
    v.push_back(string(1,0));
    return v;
}
// raw bytes, one or more of every class the parser distinguishes
inline vector<string> bytes_alpha()
{
    vector<string> v;
    for (char c : string("\e[]?;(%078123mHKJPr@XLMDCthlcG\a\b\t\n\r\x18\x0e" "a\xe4\xb8\xad\xcc\x81\xed\xa0\xbf\xff\xc3")) v.push_back(string(1,c));
    return v;
}

// ------------------------------------------------------------ seeds
// contents x region x pen x cursor: states that short sequences do not reach
inline vector<string> contents(int sx, int sy)
{
    vector<string> v;
    string A,W,O,M,C;
    int k=0;
    for (int y=0;y<sy;y++)
    {
        string pos=mc::fmt("\e[%d;1H", y+1);
        A+=pos; W+=pos; O+=pos; M+=pos; C+=pos;
        for (int x=0;x<sx;x++) A+=char('A'+k++%26);
        for (int x=0;x+1<sx;x+=2) W+=mc::fmt("\xe4\xb8%c", 0x80+(y*sx+x)%60);
        O+='o'; for (int x=1;x+1<sx;x+=2) O+=mc::fmt("\xe4\xb8%c", 0x80+(y*sx+x)%60);
        for (int x=0;x<sx;x++) { M+=char('A'+k%26); M+= x%2 ? "\xcc\x81" : "\xcc\x88\xcc\x81\xcc\x80\xcc\x82"; k++; }
        C+=mc::fmt("\e[3%d;4%dm", y%8,(y+3)%8);
        for (int x=0;x<sx;x++) { if (x+1<sx && (x+y)%3==0) { C+="\xe4\xb8\xad\xcc\x81"; x++; } else C+=char('a'+(k++)%26), C+="\xcc\x88"; }
    }
    C+="\e[m";
    v={"",A,W,O,M,C};
    return v;
}
inline vector<Conf> seeds(int sx, int sy, int level)
{
    vector<Conf> v;
    auto ct=contents(sx,sy);
    vector<string> regs={""};
    if (sy>=3) regs.push_back("\e[2;3r");
    if (sy>=3 && level>0) regs.push_back("\e[1;2r"), regs.push_back(mc::fmt("\e[2;%dr",sy-1));
    if (sy==2 && level>0) regs.push_back("\e[1;2r");
    vector<string> pens={"","\e[1;34;41m"};
    for (size_t c=0;c<ct.size();c++) for (size_t r=0;r<regs.size();r++) for (size_t p=0;p<pens.size();p++)
    {
        if (level==0 && (p!=c%2)) continue;
        for (int y=0;y<sy;y++) for (int x=0;x<=sx;x++)
        {
            Conf k; k.sx=sx; k.sy=sy; k.rs=1;
            k.seed=ct[c]+regs[r]+pens[p]+mc::fmt("\e[%d;%dH", y+1, x+1);
            if (x==sx) k.seed=ct[c]+regs[r]+pens[p]+mc::fmt("\e[%d;%dH\e[C", y+1, sx);
            v.push_back(k);
        }
    }
    return v;
}

// states at the limits of what is allocated or remembered
inline vector<Conf> edge_seeds()
{
    vector<Conf> v;
    auto add=[&](int sx, int sy, const string &s){ Conf k; k.sx=sx; k.sy=sy; k.rs=1; k.seed=s; v.push_back(k); };
    // this many combining marks on the screen: the table grows by doubling
    for (int n : {30,31,32,33,62,63,64})
    {
        string s; int left=n;
        for (int i=0;i<18;i++) { s+=char('A'+i); for (int j=0;j<4 && left>0;j++,left--) s+= j%2?"\xcc\x81":"\xcc\x88"; if (i==8) s+="\e[2;1H"; }
        add(9,2,s+"\e[2;9H"); add(9,2,s+"\e[1;1H\e[2K\e[2;3H");
    }
    // titles as long as they may be, and longer
    for (int n : {4093,4094,4095,4096,5000}) { string t; for (int i=0;i<n;i++) t+=char('a'+i%26); add(4,2,"ab\e]0;"+t); add(4,2,"\e]0;"+t+"\a"); }
    for (const char *s : {"\xed\xa0\xbd","\xed\xaf\xbf","\xe4\xb8","\xf0\x9f\x98","ab\xed\xa0\xbd\e7"}) add(4,2,s);
    return v;
}

// ------------------------------------------------------------ search
// step(conf, history): run the real code on seed+history, check the last token,
// return the key of the state reached.  Breadth first, so the first failure of a
// configuration has the shortest history.
typedef std::function<mc::H128(const Conf&, const vector<const string*>&)> Step;
struct Search
{
    mc::Seen seen; uint64_t nstates=0, ntrans=0; bool capped=false;
    double deadline=0;
    void run(const vector<Conf> &confs, const vector<vector<string>> &alpha /* per depth */, const Step &step, uint64_t offset=0)
    {
        for (size_t ci=0;ci<confs.size();ci++)
        {
            if (!mc::mine(ci+offset)) continue;
            vector<vector<uint16_t>> front={{}};
            int D=alpha.size();
            for (int d=0;d<D && !front.empty();d++)
            {
                vector<vector<uint16_t>> next;
                for (auto &h : front)
                    for (size_t t=0;t<alpha[d].size();t++)
                    {
                        vector<const string*> hist;
                        for (int i=0;i<d;i++) hist.push_back(&alpha[i][h[i]]);
                        hist.push_back(&alpha[d][t]);
                        mc::H128 k=step(confs[ci],hist);
                        ntrans++;
                        int left=D-d-1;
                        auto it=seen.find(k);
                        if (it!=seen.end() && it->second>=left) continue;
                        if (it==seen.end()) { nstates++; if (seen.size()<3000000) seen.emplace(k,left); } else it->second=left;
                        if (left) { next.push_back(h); next.back().push_back(t); }
                    }
                front.swap(next);
            }
        }
    }
    void stats() { mc::stats["states"]+=nstates; mc::stats["transitions"]+=ntrans; }
};
}
