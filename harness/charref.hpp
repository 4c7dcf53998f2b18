// Reference character tables, independent of /repo: code page 437 (from the
// published mapping), DEC special graphics, and column widths (Unicode 5.0,
// Markus Kuhn's rules) as plain ranges.
#pragma once
#include <cstdint>
inline uint32_t ref_cp437(unsigned char c)
{
    static const uint16_t t[256]={0x0,0x263a,0x263b,0x2665,0x2666,0x2663,0x2660,0x2022,0x25d8,0x25cb,0x25d9,0x2642,0x2640,0x266a,0x266b,0x263c,0x25b6,0x25c0,0x2195,0x203c,0xb6,0xa7,0x25ac,0x21a8,0x2191,0x2193,0x2192,0x2190,0x221f,0x2194,0x25b2,0x25bc,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x60,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0x7e,0x2302,0xc7,0xfc,0xe9,0xe2,0xe4,0xe0,0xe5,0xe7,0xea,0xeb,0xe8,0xef,0xee,0xec,0xc4,0xc5,0xc9,0xe6,0xc6,0xf4,0xf6,0xf2,0xfb,0xf9,0xff,0xd6,0xdc,0xa2,0xa3,0xa5,0x20a7,0x192,0xe1,0xed,0xf3,0xfa,0xf1,0xd1,0xaa,0xba,0xbf,0x2310,0xac,0xbd,0xbc,0xa1,0xab,0xbb,0x2591,0x2592,0x2593,0x2502,0x2524,0x2561,0x2562,0x2556,0x2555,0x2563,0x2551,0x2557,0x255d,0x255c,0x255b,0x2510,0x2514,0x2534,0x252c,0x251c,0x2500,0x253c,0x255e,0x255f,0x255a,0x2554,0x2569,0x2566,0x2560,0x2550,0x256c,0x2567,0x2568,0x2564,0x2565,0x2559,0x2558,0x2552,0x2553,0x256b,0x256a,0x2518,0x250c,0x2588,0x2584,0x258c,0x2590,0x2580,0x3b1,0xdf,0x393,0x3c0,0x3a3,0x3c3,0xb5,0x3c4,0x3a6,0x398,0x3a9,0x3b4,0x221e,0x3c6,0x3b5,0x2229,0x2261,0xb1,0x2265,0x2264,0x2320,0x2321,0xf7,0x2248,0xb0,0x2219,0xb7,0x221a,0x207f,0xb2,0x25a0,0xa0};
    return t[c];
}
inline uint32_t ref_vt100(uint32_t c)
{
    switch (c)
    {
    case 0x2b: return 0x2192;
    case 0x2c: return 0x2190;
    case 0x2d: return 0x2191;
    case 0x2e: return 0x2193;
    case 0x30: return 0x2588;
    case 0x5f: return 0xa0;
    case 0x60: return 0x2666;
    case 0x61: return 0x2592;
    case 0x62: return 0x2409;
    case 0x63: return 0x240c;
    case 0x64: return 0x240d;
    case 0x65: return 0x240a;
    case 0x66: return 0xb0;
    case 0x67: return 0xb1;
    case 0x68: return 0x2424;
    case 0x69: return 0x240b;
    case 0x6a: return 0x2518;
    case 0x6b: return 0x2510;
    case 0x6c: return 0x250c;
    case 0x6d: return 0x2514;
    case 0x6e: return 0x253c;
    case 0x6f: return 0x23ba;
    case 0x70: return 0x23bb;
    case 0x71: return 0x2500;
    case 0x72: return 0x23bc;
    case 0x73: return 0x23bd;
    case 0x74: return 0x251c;
    case 0x75: return 0x2524;
    case 0x76: return 0x2534;
    case 0x77: return 0x252c;
    case 0x78: return 0x2502;
    case 0x79: return 0x2264;
    case 0x7a: return 0x2265;
    case 0x7b: return 0x3c0;
    case 0x7c: return 0x2260;
    case 0x7d: return 0xa3;
    case 0x7e: return 0xb7;
    }
    return c;
}
inline int ref_width(uint32_t c)
{
    static const struct { uint32_t a,b; int w; } R[]={
{0x0,0x0,0},
{0x1,0x1f,-1},
{0x7f,0x9f,-1},
{0x300,0x36f,0},
{0x483,0x486,0},
{0x488,0x489,0},
{0x591,0x5bd,0},
{0x5bf,0x5bf,0},
{0x5c1,0x5c2,0},
{0x5c4,0x5c5,0},
{0x5c7,0x5c7,0},
{0x600,0x603,0},
{0x610,0x615,0},
{0x64b,0x65e,0},
{0x670,0x670,0},
{0x6d6,0x6e4,0},
{0x6e7,0x6e8,0},
{0x6ea,0x6ed,0},
{0x70f,0x70f,0},
{0x711,0x711,0},
{0x730,0x74a,0},
{0x7a6,0x7b0,0},
{0x7eb,0x7f3,0},
{0x901,0x902,0},
{0x93c,0x93c,0},
{0x941,0x948,0},
{0x94d,0x94d,0},
{0x951,0x954,0},
{0x962,0x963,0},
{0x981,0x981,0},
{0x9bc,0x9bc,0},
{0x9c1,0x9c4,0},
{0x9cd,0x9cd,0},
{0x9e2,0x9e3,0},
{0xa01,0xa02,0},
{0xa3c,0xa3c,0},
{0xa41,0xa42,0},
{0xa47,0xa48,0},
{0xa4b,0xa4d,0},
{0xa70,0xa71,0},
{0xa81,0xa82,0},
{0xabc,0xabc,0},
{0xac1,0xac5,0},
{0xac7,0xac8,0},
{0xacd,0xacd,0},
{0xae2,0xae3,0},
{0xb01,0xb01,0},
{0xb3c,0xb3c,0},
{0xb3f,0xb3f,0},
{0xb41,0xb43,0},
{0xb4d,0xb4d,0},
{0xb56,0xb56,0},
{0xb82,0xb82,0},
{0xbc0,0xbc0,0},
{0xbcd,0xbcd,0},
{0xc3e,0xc40,0},
{0xc46,0xc48,0},
{0xc4a,0xc4d,0},
{0xc55,0xc56,0},
{0xcbc,0xcbc,0},
{0xcbf,0xcbf,0},
{0xcc6,0xcc6,0},
{0xccc,0xccd,0},
{0xce2,0xce3,0},
{0xd41,0xd43,0},
{0xd4d,0xd4d,0},
{0xdca,0xdca,0},
{0xdd2,0xdd4,0},
{0xdd6,0xdd6,0},
{0xe31,0xe31,0},
{0xe34,0xe3a,0},
{0xe47,0xe4e,0},
{0xeb1,0xeb1,0},
{0xeb4,0xeb9,0},
{0xebb,0xebc,0},
{0xec8,0xecd,0},
{0xf18,0xf19,0},
{0xf35,0xf35,0},
{0xf37,0xf37,0},
{0xf39,0xf39,0},
{0xf71,0xf7e,0},
{0xf80,0xf84,0},
{0xf86,0xf87,0},
{0xf90,0xf97,0},
{0xf99,0xfbc,0},
{0xfc6,0xfc6,0},
{0x102d,0x1030,0},
{0x1032,0x1032,0},
{0x1036,0x1037,0},
{0x1039,0x1039,0},
{0x1058,0x1059,0},
{0x1100,0x115f,2},
{0x1160,0x11ff,0},
{0x135f,0x135f,0},
{0x1712,0x1714,0},
{0x1732,0x1734,0},
{0x1752,0x1753,0},
{0x1772,0x1773,0},
{0x17b4,0x17b5,0},
{0x17b7,0x17bd,0},
{0x17c6,0x17c6,0},
{0x17c9,0x17d3,0},
{0x17dd,0x17dd,0},
{0x180b,0x180d,0},
{0x18a9,0x18a9,0},
{0x1920,0x1922,0},
{0x1927,0x1928,0},
{0x1932,0x1932,0},
{0x1939,0x193b,0},
{0x1a17,0x1a18,0},
{0x1b00,0x1b03,0},
{0x1b34,0x1b34,0},
{0x1b36,0x1b3a,0},
{0x1b3c,0x1b3c,0},
{0x1b42,0x1b42,0},
{0x1b6b,0x1b73,0},
{0x1dc0,0x1dca,0},
{0x1dfe,0x1dff,0},
{0x200b,0x200f,0},
{0x202a,0x202e,0},
{0x2060,0x2063,0},
{0x206a,0x206f,0},
{0x20d0,0x20ef,0},
{0x2329,0x232a,2},
{0x2e80,0x3029,2},
{0x302a,0x302f,0},
{0x3030,0x303e,2},
{0x3040,0x3098,2},
{0x3099,0x309a,0},
{0x309b,0xa4cf,2},
{0xa806,0xa806,0},
{0xa80b,0xa80b,0},
{0xa825,0xa826,0},
{0xac00,0xd7a3,2},
{0xf900,0xfaff,2},
{0xfb1e,0xfb1e,0},
{0xfe00,0xfe0f,0},
{0xfe10,0xfe19,2},
{0xfe20,0xfe23,0},
{0xfe30,0xfe6f,2},
{0xfeff,0xfeff,0},
{0xff00,0xff60,2},
{0xffe0,0xffe6,2},
{0xfff9,0xfffb,0},
{0x10a01,0x10a03,0},
{0x10a05,0x10a06,0},
{0x10a0c,0x10a0f,0},
{0x10a38,0x10a3a,0},
{0x10a3f,0x10a3f,0},
{0x1d167,0x1d169,0},
{0x1d173,0x1d182,0},
{0x1d185,0x1d18b,0},
{0x1d1aa,0x1d1ad,0},
{0x1d242,0x1d244,0},
{0x20000,0x2fffd,2},
{0x30000,0x3fffd,2},
{0xe0001,0xe0001,0},
{0xe0020,0xe007f,0},
{0xe0100,0xe01ef,0},
    };
    int lo=0, hi=sizeof(R)/sizeof(R[0])-1;
    while (lo<=hi) { int m=(lo+hi)/2; if (c<R[m].a) hi=m-1; else if (c>R[m].b) lo=m+1; else return R[m].w; }
    return 1;
}
