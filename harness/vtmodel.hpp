// Independent reference model of the emulated terminal.
// Written from the documented repertoire; shares no code or tables with /repo
// (bit values of attributes and the public constants come from tty.h).
#pragma once
#include <vector>
#include <string>
#include <cstdint>
#include <cstring>
#include "charref.hpp"

namespace vtm {

typedef uint32_t u32; typedef uint64_t u64;

// attribute bits, as published in tty.h
static const u64 BOLD=0x04000000, DIM=0x08000000, ITALIC=0x10000000, UNDERLINE=0x20000000,
    STRIKE=0x40000000, INVERSE=0x0400000000000000ULL, BLINK=0x0800000000000000ULL, CJK=0x8000000000000000ULL;
static const u32 RIGHT=0xffffffff;

struct Cell
{
    u32 ch=' '; u64 attr=0; u32 comb[4]={0,0,0,0}; int nc=0;
    bool operator==(const Cell &o) const
    { return ch==o.ch && attr==o.attr && nc==o.nc && !memcmp(comb,o.comb,nc*sizeof(u32)); }
};

struct Model
{
    int sx, sy, cx=0, cy=0;
    std::vector<Cell> scr;
    u64 pen=0;
    std::string title;
    int top, bot;                       // scrolling region, [top,bot)
    struct { int x=0,y=0; u64 pen=0; bool graph[2]={false,true}; int cur=0; } saved;
    bool graph[2]={false,true}; int cur=0;
    bool eightbit=false, resizable=true, wrap=true, cursor=true, kpad=false;
    int bells=0;
    // utf-8
    u32 uc=0, usur=0; int un=0;
    // parser
    enum St { NORMAL, ESC, CSI0, CSI, QUES, G0, G1, PCT, OSCN, OSCS } st=NORMAL;
    std::vector<u32> par;               // parameters; an omitted one is 0
    u32 oscnum=0; bool oscbad=false, oscstr=false; std::string osct;
    // strict mode: the model of a real terminal used as a display (see T06)

    Model(int x, int y, bool rs=true) : sx(x), sy(y), scr(x*y), top(0), bot(y), resizable(rs) {}
    Cell &at(int x, int y) { return scr[y*sx+x]; }
    const Cell &at(int x, int y) const { return scr[y*sx+x]; }

    Cell blank() const { Cell c; c.attr=pen; return c; }
    void damaged(Cell &c) { c.ch=' '; c.attr&=~CJK; c.nc=0; }
    // make sure no wide character straddles the edges of [a,b) in row y
    void cut(int y, int a, int b)
    {
        if (a>0 && a<sx && at(a,y).ch==RIGHT) damaged(at(a-1,y));
        if (b>0 && b<sx && at(b,y).ch==RIGHT) damaged(at(b,y));
    }
    void wipe(int y, int a, int b) { for (int x=a;x<b;x++) at(x,y)=blank(); }

    void scroll(int t, int b, int n)   // n>0: up
    {
        int h=b-t;
        if (n>h) n=h;
        if (n<-h) n=-h;
        if (n>0) for (int y=t;y<b;y++) for (int x=0;x<sx;x++) at(x,y)= y+n<b ? at(x,y+n) : blank();
        else     for (int y=b-1;y>=t;y--) for (int x=0;x<sx;x++) at(x,y)= y+n>=t ? at(x,y+n) : blank();
    }
    void linefeed()
    {
        if (cy==bot-1) scroll(top,bot,1);
        else if (cy<sy-1) cy++;
    }
    void reverse_lf()
    {
        if (cy==top) scroll(top,bot,-1);
        else if (cy>0) cy--;
    }
    void print(u32 c)
    {
        int w=ref_width(c);
        if (w<0) return;
        if (w==0)
        {
            if (!cx) return;
            int x=cx-1;
            if (at(x,cy).ch==RIGHT) x--;
            Cell &k=at(x,cy);
            if (k.nc<4) k.comb[k.nc++]=c;
            return;
        }
        if (c<128 && graph[cur]) c=ref_vt100(c);
        if (cx+w>sx)
        {
            if (wrap) { cx=0; linefeed(); }
            else cx=sx-w;
        }
        cut(cy,cx,cx+w);
        Cell k; k.ch=c; k.attr=pen|(w==2?CJK:0);
        at(cx,cy)=k;
        if (w==2) { k.ch=RIGHT; at(cx+1,cy)=k; }
        cx+=w;
    }
    void resize(int x, int y)
    {
        if (x==sx && y==sy) return;
        std::vector<Cell> n(x*y, blank());
        for (int j=0;j<y && j<sy;j++)
            for (int i=0;i<x && i<sx;i++)
            {
                n[j*x+i]=at(i,j);
                if (i==x-1 && i+1<sx && at(i+1,j).ch==RIGHT)
                { // the wide character cut in half becomes a blank
                    Cell &c=n[j*x+i]; c.ch=' '; c.attr&=~CJK;
                    cutcombs(c);
                }
            }
        scr.swap(n); sx=x; sy=y; top=0; bot=y;
        if (cx>x) cx=x;
        if (cy>=y) cy=y-1;
        if (saved.x>x) saved.x=x;
        if (saved.y>=y) saved.y=y-1;
    }
    void cutcombs(Cell &c) { c.nc=0; }
    void reset()
    {
        pen=0;
        for (auto &c : scr) c=Cell();
        cx=cy=0; top=0; bot=sy;
        saved={}; graph[0]=false; graph[1]=true; cur=0;
        wrap=true; cursor=true; kpad=false;
        un=0; usur=0; st=NORMAL;
    }
    static int cnt(u32 p) { return (int)p<1 ? 1 : (int)p; }
    u32 P(size_t i) const { return i<par.size() ? par[i] : 0; }

    static u64 fg(u64 a, u32 type, u32 v) { return (a&~0x3ffffffULL)|(u64)(type<<24|(v&0xffffff)); }
    static u64 bg(u64 a, u32 type, u32 v) { return (a&~(0x3ffffffULL<<32))|(u64)(type<<24|(v&0xffffff))<<32; }
    void sgr()
    {
        for (size_t i=0;i<par.size();i++)
        {
            u32 p=par[i];
            switch (p)
            {
            case 0: pen=0; break;
            case 1: pen=(pen|BOLD)&~DIM; break;
            case 2: pen=(pen|DIM)&~BOLD; break;
            case 3: pen|=ITALIC; break;
            case 4: pen|=UNDERLINE; break;
            case 5: pen|=BLINK; break;
            case 7: pen|=INVERSE; break;
            case 9: pen|=STRIKE; break;
            case 21: case 22: pen&=~(BOLD|DIM); break;
            case 23: pen&=~ITALIC; break;
            case 24: pen&=~UNDERLINE; break;
            case 25: pen&=~BLINK; break;
            case 27: pen&=~INVERSE; break;
            case 29: pen&=~STRIKE; break;
            case 39: pen=fg(pen,0,0); break;
            case 49: pen=bg(pen,0,0); break;
            case 38: case 48:
            {
                u32 kind=P(++i);
                bool f=p==38;
                if (kind==5) { u32 v=P(++i)&0xff; pen=f?fg(pen,2,v):bg(pen,2,v); }
                else if (kind==2)
                {
                    if (i+3>=16) { break; }   // no room for three components in a full parameter list
                    u32 v=(P(i+1)&0xff)<<16|(P(i+2)&0xff)<<8|(P(i+3)&0xff);
                    i+=3; pen=f?fg(pen,3,v):bg(pen,3,v);
                }
                else if (kind==3) i+=3;
                else if (kind==4) i+=4;
                break;
            }
            default:
                if (p>=30 && p<38) pen=fg(pen,1,p-30);
                else if (p>=40 && p<48) pen=bg(pen,1,p-40);
                else if (p>=90 && p<98) pen=fg(pen,2,p-90+8);
                else if (p>=100 && p<108) pen=bg(pen,2,p-100+8);
            }
        }
    }
    void wipe_range(int from, int to) { for (int i=from;i<to;i++) scr[i]=blank(); }
    bool csi(char f)
    {
        int n=cnt(P(0));
        switch (f)
        {
        case 'm': sgr(); return true;
        case 'D': cx = cx>n ? cx-n : 0; return true;
        case 'C': case 'a': cx = n<sx-cx ? cx+n : sx; return true;
        case 'F': cx=0; // fallthrough
        case 'A': cy = cy>n ? cy-n : 0; return true;
        case 'E': cx=0; // fallthrough
        case 'B': cy = n<sy-cy ? cy+n : sy-1; return true;
        case 'r':
        {
            u32 t=P(0), b=P(1);
            if (!t) t=1;
            if (!b) b=sy;
            if (b<=(u32)sy && t<b) { top=t-1; bot=b; cx=0; cy=top; }
            return true;
        }
        case 'J':
            switch (P(0))
            {
            case 0: if (cx<sx) cut(cy,cx,sx);
                    wipe_range(cy*sx+cx, sx*sy); break;
            case 1: { int e = cx<sx ? cx+1 : sx; cut(cy,0,e); wipe_range(0, cy*sx+e); break; }
            case 2: wipe_range(0, sx*sy); break;
            }
            return true;
        case 'K':
            switch (P(0))
            {
            case 0: if (cx<sx) cut(cy,cx,sx), wipe(cy,cx,sx); break;
            case 1: { int e = cx<sx ? cx+1 : sx; cut(cy,0,e); wipe(cy,0,e); break; }
            case 2: wipe(cy,0,sx); break;
            }
            return true;
        case 'L': if (cy>=top && cy<bot) scroll(cy,bot,-n); return true;
        case 'M': if (cy>=top && cy<bot) scroll(cy,bot,n); return true;
        case '@':
        {
            if (n>sx-cx) n=sx-cx;
            if (n<=0) return true;
            if (at(cx,cy).ch==RIGHT) damaged(at(cx-1,cy)), damaged(at(cx,cy));
            if (sx-n>cx && at(sx-n,cy).ch==RIGHT) damaged(at(sx-n-1,cy));
            for (int x=sx-1;x>=cx+n;x--) at(x,cy)=at(x-n,cy);
            wipe(cy,cx,cx+n);
            return true;
        }
        case 'P':
        {
            if (n>sx-cx) n=sx-cx;
            if (n<=0) return true;
            cut(cy,cx,cx+n);
            for (int x=cx;x+n<sx;x++) at(x,cy)=at(x+n,cy);
            wipe(cy,sx-n,sx);
            return true;
        }
        case 'X':
            if (n>sx-cx) n=sx-cx;
            if (n<=0) return true;
            cut(cy,cx,cx+n); wipe(cy,cx,cx+n);
            return true;
        case 'f': case 'H':
            cy=clamp(P(0),sy); cx=clamp(P(1),sx); return true;
        case 'G': case '`': cx=clamp(P(0),sx); return true;
        case 'd': cy=clamp(P(0),sy); return true;
        case 'c': reset(); return true;
        case 't':
            if (P(0)==8 && resizable)
            {
                u32 h=P(1), w=P(2);
                if (h>256 || w>512) return true;
                if (!h) h=sy;
                if (!w) w=sx;
                if (w<2) return true;
                resize(w,h);
            }
            return true;
        }
        return false;
    }
    static int clamp(u32 p, int lim) { int v=(int)p-1; return v<0 ? 0 : v>=lim ? lim-1 : v; }
    void osc_end()
    {
        if (!oscbad && oscnum==0) title = oscstr ? osct : "";
        osct.clear(); oscstr=false;
    }
    void utf(unsigned char b)
    {
        if (b<0x80) { un=0; return print(b); }
        if ((b&0xc0)==0x80)
        {
            if (un<=0) { un=0; return; }
            uc=uc<<6|(b&0x3f);
            if (--un) return;
            u32 c=uc;
            if (c<0xa0) c=0xfffd;
            if (c==0xfeff) return;
            if (c>=0xd800 && c<0xdc00) { usur=c; return; }
            if (c>=0xdc00 && c<0xe000)
            {
                if (usur) c=0x10000+((usur-0xd800)<<10)+(c-0xdc00), usur=0;
                else c=0xfffd;
            }
            if (c>0x10ffff || (c&0xfffe)==0xfffe || (c>=0xfdd0 && c<=0xfdef)) c=0xfffd;
            return print(c);
        }
        int lead=0; while (b&(0x80>>lead)) lead++;
        if (lead<=6) un=lead-1, uc=b&(0x7f>>lead);
        else un=0;
    }
    void byte(char ch)
    {
        unsigned char b=ch;
        switch (b)
        {
        case 0: case 5: case 127: return;
        case 7: if (st==OSCN||st==OSCS) osc_end(), st=NORMAL; else bells++; return;
        case 8: if (cx) cx--; return;
        case 9:
        {
            if (cx>=sx) return;
            int e=(cx/8+1)*8; if (e>sx) e=sx;
            cut(cy,cx,e); wipe(cy,cx,e); cx=e;
            return;
        }
        case 10: cx=0; linefeed(); return;
        case 11: linefeed(); return;
        case 12: cx=cy=0; wipe_range(0,sx*sy); return;
        case 13: cx=0; return;
        case 14: cur=1; return;
        case 15: cur=0; return;
        case 24: case 26: st=NORMAL; osct.clear(); oscstr=false; return;
        case 27: if (st==OSCN||st==OSCS) osc_end(); st=ESC; return;
        }
        switch (st)
        {
        case NORMAL:
            if (eightbit) print(ref_cp437(b)); else utf(b);
            return;
        case ESC:
            st=NORMAL;
            switch (ch)
            {
            case '[': st=CSI0; par.assign(1,0); return;
            case ']': st=OSCN; oscnum=0; oscbad=false; oscstr=false; osct.clear(); return;
            case '(': st=G0; return;
            case ')': st=G1; return;
            case '%': st=PCT; return;
            case '7': saved.x=cx; saved.y=cy; saved.pen=pen; saved.graph[0]=graph[0]; saved.graph[1]=graph[1]; saved.cur=cur; return;
            case '8': cx=saved.x; cy=saved.y; pen=saved.pen; graph[0]=saved.graph[0]; graph[1]=saved.graph[1]; cur=saved.cur; return;
            case 'D': linefeed_keep(); return;
            case 'E': cx=0; linefeed(); return;
            case 'M': reverse_lf(); return;
            case '=': kpad=true; return;
            case '>': kpad=false; return;
            }
            return;
        case CSI0:
            if (ch=='?') { st=QUES; return; }
            st=CSI; // fallthrough
        case CSI:
            if (ch>='0' && ch<='9') { par.back()=par.back()*10+(ch-'0'); return; }
            if (ch==';') { if (par.size()>=16) st=NORMAL; else par.push_back(0); return; }
            st=NORMAL; csi(ch);
            return;
        case QUES:
            if (ch>='0' && ch<='9') { par.back()=par.back()*10+(ch-'0'); return; }
            if (ch==';') { if (par.size()>=16) st=NORMAL; else par.push_back(0); return; }
            st=NORMAL;
            if (ch=='h' || ch=='l')
                for (u32 p : par)
                    if (p==7) wrap=ch=='h'; else if (p==25) cursor=ch=='h';
            return;
        case G0: case G1:
            if (ch=='0') graph[st-G0]=true;
            else if (ch=='B' || ch=='U') graph[st-G0]=false;
            st=NORMAL; return;
        case PCT:
            if (ch=='@') eightbit=true;
            else if (ch=='8' || ch=='G') eightbit=false;
            st=NORMAL; return;
        case OSCN:
            if (ch>='0' && ch<='9') oscnum=oscnum*10+(ch-'0');
            else if (ch==';') oscstr=true, osct.clear(), st=OSCS;
            else oscbad=true, st=OSCS;
            return;
        case OSCS:
            if (oscstr && osct.size()<4095) osct+=ch;
            return;
        }
    }
    void linefeed_keep() { linefeed(); }
    void write(const std::string &s) { for (char c : s) byte(c); }
};
}
