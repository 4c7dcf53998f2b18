From 03df867228bfd7a6074eb4d4b8548b42c3acc456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 01/66] fix: tty_printf: write the long output, not the
 truncated stack buffer

---
 libtty/tty.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 5133d26..33f4412 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1270,7 +1270,7 @@ export void tty_printf(tty vt, const char *fmt, ...)
         va_end(ap);
         if (len<=0 || !bigstr)
             return;
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else if (len>=BUFFER_SIZE)
@@ -1280,7 +1280,7 @@ export void tty_printf(tty vt, const char *fmt, ...)
         va_start(ap, fmt);
         len=vsnprintf(bigstr, len+1, fmt, ap);
         va_end(ap);
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else
-- 
2.43.0


From dc039fc877c2c7503694a9fc3f4f1a062db8b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 02/66] fix: tty_copy: don't attach the original's listeners to
 the copy

---
 libtty/tty.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 33f4412..1a63488 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -188,6 +188,19 @@ export tty tty_copy(tty vt)
     if (!nvt)
         return 0;
     memcpy(nvt, vt, sizeof(struct tty));
+    // listeners belong to the original only
+    nvt->l_data=0;
+    nvt->l_char=0;
+    nvt->l_comb=0;
+    nvt->l_cursor=0;
+    nvt->l_clear=0;
+    nvt->l_scroll=0;
+    nvt->l_flag=0;
+    nvt->l_osc=0;
+    nvt->l_resize=0;
+    nvt->l_flush=0;
+    nvt->l_bell=0;
+    nvt->l_free=0;
     if (!(nvt->scr=malloc(SX*SY*sizeof(attrchar))))
         goto drop_nvt;
     memcpy(nvt->scr, vt->scr, SX*SY*sizeof(attrchar));
-- 
2.43.0


From 14161d1ebc0067730a1f31d9b51cb3240c397c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 03/66] fix: tty_reset: clear with default attributes, forget
 the saved attribute and surrogate

---
 libtty/tty.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 1a63488..773b364 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -258,11 +258,11 @@ static void tty_kill_comb_region(tty vt, int st, int l)
 
 export void tty_reset(tty vt)
 {
+    vt->attr=vt->save_attr=0;
     tty_clear_region(vt, 0, SX*SY, true);
     CX=CY=vt->save_cx=vt->save_cy=0;
     vt->s1=0;
     vt->s2=SY;
-    vt->attr=0;
     vt->state=ESnormal;
     vt->opt_auto_wrap=1;
     vt->opt_cursor=1;
@@ -270,6 +270,7 @@ export void tty_reset(tty vt)
     vt->G=vt->save_G=1<<1; // G0: normal, G1: vt100 graphics
     vt->curG=vt->save_curG=0;
     vt->utf_count=0;
+    vt->utf_surrogate=0;
 }
 
 static void tty_scroll(tty vt, int nl)
-- 
2.43.0


From 5834ec376eda18df918d0420255e451bc8bca526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 04/66] fix: insert/delete characters past the right margin:
 leave the escape state

---
 libtty/tty.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 773b364..205abfc 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1021,6 +1021,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     i=1;
                 if (i>SX-CX)
                     i=SX-CX;
+                vt->state=ESnormal;
                 if (i<=0)
                     break;
                 cjk_damage_left(vt, CX, true);
@@ -1040,7 +1041,6 @@ export void tty_write(tty vt, const char *buf, int len)
                         vt->l_char(vt, j, CY, vt->scr[CY*SX+j].ch,
                                               vt->scr[CY*SX+j].attr,
                                               mk_wcwidth(vt->scr[CY*SX+j].ch));
-                vt->state=ESnormal;
                 break;
 
             case 'P':   // ESC[P -> delete characters
@@ -1049,6 +1049,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     i=1;
                 if (i>SX-CX)
                     i=SX-CX;
+                vt->state=ESnormal;
                 if (i<=0)
                     break;
                 cjk_damage_left(vt, CX, true);
@@ -1065,7 +1066,6 @@ export void tty_write(tty vt, const char *buf, int len)
                     }
                 }
                 tty_clear_region(vt, CY*SX+SX-i, i, false);
-                vt->state=ESnormal;
                 break;
 
             case 'X':   // ESC[X -> erase to the right
@@ -1074,12 +1074,12 @@ export void tty_write(tty vt, const char *buf, int len)
                     i=1;
                 if (i>SX-CX)
                     i=SX-CX;
+                vt->state=ESnormal;
                 if (!i)
                     break;
                 cjk_damage_left(vt, CX, true);
                 cjk_damage_right(vt, CX+i-1, true);
                 CLEAR(CX, CY, i);
-                vt->state=ESnormal;
                 break;
 
             case 'f': case 'H': // ESC[f, ESC[H -> move cursor
-- 
2.43.0


From 01ff5fc4909fd0fe6e49a7c605ca23b1e2a93389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 05/66] fix: insert/delete characters: notify of everything
 that changed

---
 libtty/tty.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 205abfc..13ed5a9 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -449,6 +449,24 @@ static inline void tty_write_char(tty vt, ucs c)
         vt->l_char(vt, CX-w, CY, c, vt->attr, w);
 }
 
+// tell listeners about the part of the current line from x on, after a shift
+static void notify_shifted(tty vt, int x)
+{
+    for (; x<SX; x++)
+    {
+        attrchar *ca = &vt->scr[CY*SX+x];
+        if (ca->ch==VT100_CJK_RIGHT)
+            continue; // a part of the preceding char
+        if (vt->l_char)
+            vt->l_char(vt, x, CY, ca->ch, ca->attr&~VT100_ATTR_CJK,
+                       ca->attr&VT100_ATTR_CJK? 2 : 1);
+        if (vt->l_comb)
+            for (uint32_t i=ca->comb; i; i=vt->combs[i].next)
+                vt->l_comb(vt, x, CY, vt->combs[i].ch, ca->attr);
+    }
+    L_CURSOR;
+}
+
 export void tty_write(tty vt, const char *buf, int len)
 {
     int i;
@@ -1036,11 +1054,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 for (int j=SX-CX-i-1;j>=0;j--)
                     vt->scr[CY*SX+CX+j+i]=vt->scr[CY*SX+CX+j];
                 tty_clear_region(vt, CY*SX+CX, i, false);
-                if (vt->l_char)
-                    for (int j=CX;j<SX;j++)
-                        vt->l_char(vt, j, CY, vt->scr[CY*SX+j].ch,
-                                              vt->scr[CY*SX+j].attr,
-                                              mk_wcwidth(vt->scr[CY*SX+j].ch));
+                notify_shifted(vt, CX);
                 break;
 
             case 'P':   // ESC[P -> delete characters
@@ -1056,16 +1070,9 @@ export void tty_write(tty vt, const char *buf, int len)
                 cjk_damage_right(vt, CX+i-1, true);
                 tty_kill_comb_region(vt, CY*SX+CX, i);
                 for (int j=CX+i;j<SX;j++)
-                {
                     vt->scr[CY*SX+j-i]=vt->scr[CY*SX+j];
-                    if (vt->l_char)
-                    {
-                        vt->l_char(vt, j-i, CY, vt->scr[CY*SX+j].ch,
-                                                vt->scr[CY*SX+j].attr,
-                                                mk_wcwidth(vt->scr[CY*SX+j].ch));
-                    }
-                }
                 tty_clear_region(vt, CY*SX+SX-i, i, false);
+                notify_shifted(vt, CX);
                 break;
 
             case 'X':   // ESC[X -> erase to the right
-- 
2.43.0


From 7f9e473aed35cda59b8ce22a48177afdbe130ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 06/66] fix: setting the scrolling region: notify of the cursor
 movement

---
 libtty/tty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 13ed5a9..c2e57ad 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -957,6 +957,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     vt->s2=vt->tok[1];
                     CX=0;
                     CY=vt->s1;
+                    L_CURSOR;
                 }
                 vt->state=ESnormal;
                 break;
-- 
2.43.0


From 0323b85ed5a1d310905c1961f38a17875cd3c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 07/66] fix: autowrap below the scrolling region must not
 scroll it nor enter it

---
 libtty/tty.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index c2e57ad..1b87ba8 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -419,11 +419,13 @@ static inline void tty_write_char(tty vt, ucs c)
         {
             CX=0;
             CY++;
-            if (CY>=vt->s2)
+            if (CY==vt->s2)
             {
                 CY=vt->s2-1;
                 SCROLL(1);
             }
+            else if (CY>=SY)
+                CY=SY-1;
         }
         else
             CX=SX-w;
-- 
2.43.0


From c9d49efc722dfa38f672fa299ae2f83bab8ce9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 08/66] fix: OSC: don't leak or reuse the string of a cancelled
 or invalid command

---
 libtty/tty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 1b87ba8..f8c7b66 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -544,6 +544,7 @@ export void tty_write(tty vt, const char *buf, int len)
             continue;
         case 24: // ???
         case 26: // ???
+            free(vt->oscbuf), vt->oscbuf=0;
             vt->state=ESnormal;
             continue;
         case 27: // ESC
@@ -672,6 +673,7 @@ export void tty_write(tty vt, const char *buf, int len)
             case ']':
                 vt->state=ESosc;
                 vt->tok[0]=0;
+                free(vt->oscbuf), vt->oscbuf=0;
                 break;
 
             case '(':
-- 
2.43.0


From b7c31fa40529a704f1e8d8bc7e7500f8d13946ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 09/66] fix: ignore the byte order mark (U+FEFF, not U+FFEF)

---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index f8c7b66..d0491ca 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -606,7 +606,7 @@ export void tty_write(tty vt, const char *buf, int len)
 
                 if (c<0xA0) // underlong or C1 controls
                     c=0xFFFD;
-                if (c==0xFFEF)  // BOM
+                if (c==0xFEFF)  // BOM
                     continue;
 
                 /* The following code deals with malformed UTF-16
-- 
2.43.0


From 97583d6cd470056ad0d571237371db4c789848ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 10/66] fix: SGR 38/48: missing parameters are 0, indices don't
 overflow into RGB bits

---
 libtty/tty.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index d0491ca..4c29f80 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -667,7 +667,7 @@ export void tty_write(tty vt, const char *buf, int len)
             case '[':
                 vt->state=ESsquare;
                 vt->ntok=0;
-                vt->tok[0]=0;
+                memset(vt->tok, 0, sizeof(vt->tok));
                 break;
 
             case ']':
@@ -832,7 +832,7 @@ export void tty_write(tty vt, const char *buf, int len)
                         case 5:
                             if (i>=VT100_MAXTOK-1)
                                 break;
-                            FG(256, vt->tok[++i]);
+                            FG(256, vt->tok[++i]&0xff);
                             break;
                         case 2:
                             if (i>=VT100_MAXTOK-3)
@@ -863,7 +863,7 @@ export void tty_write(tty vt, const char *buf, int len)
                         case 5:
                             if (i>=VT100_MAXTOK-1)
                                 break;
-                            BG(256, vt->tok[++i]);
+                            BG(256, vt->tok[++i]&0xff);
                             break;
                         case 2:
                             if (i>=VT100_MAXTOK-3)
-- 
2.43.0


From ec16427f9abab3b53e340d1f7432854597a8ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 11/66] fix: reset: notify of the flags it changes

---
 libtty/tty.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 4c29f80..106bbb5 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1134,6 +1134,12 @@ export void tty_write(tty vt, const char *buf, int len)
 
             case 'c':   // ESC[c -> reset to power-on defaults
                 tty_reset(vt);
+                if (vt->l_flag)
+                {
+                    vt->l_flag(vt, VT100_FLAG_AUTO_WRAP, 1);
+                    vt->l_flag(vt, VT100_FLAG_CURSOR, 1);
+                    vt->l_flag(vt, VT100_FLAG_KPAD, 0);
+                }
                 if (vt->l_clear)
                     vt->l_clear(vt, 0, 0, SX*SY);
                 L_CURSOR;
-- 
2.43.0


From 79717083c681e6a97573053309c1545af0ef032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 12/66] fix: notify of auto wrap mode changes

---
 libtty/tty.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 106bbb5..0dbaf44 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1195,7 +1195,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     switch (vt->tok[i])
                     {
                     case 7:
-                        vt->opt_auto_wrap=1;
+                        FLAG(opt_auto_wrap, VT100_FLAG_AUTO_WRAP, 1);
                         break;
                     case 25:
                         FLAG(opt_cursor, VT100_FLAG_CURSOR, 1);
@@ -1211,7 +1211,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     switch (vt->tok[i])
                     {
                     case 7:
-                        vt->opt_auto_wrap=0;
+                        FLAG(opt_auto_wrap, VT100_FLAG_AUTO_WRAP, 0);
                         break;
                     case 25:
                         FLAG(opt_cursor, VT100_FLAG_CURSOR, 0);
-- 
2.43.0


From 422d66183191811ddf9a51168b68c5f533217269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 13/66] fix: tty_resize: drop combining marks of a wide char
 cut in half

---
 libtty/tty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 0dbaf44..24c805a 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -146,6 +146,7 @@ export int tty_resize(tty vt, int nsx, int nsy)
                 {
                     vt->scr[y*SX+nsx-1].ch=' ';
                     vt->scr[y*SX+nsx-1].attr&=~VT100_ATTR_CJK;
+                    tty_kill_comb(vt, &vt->scr[y*SX+nsx-1]);
                 }
         for (y=0;y<SY && y<nsy;y++)
             for (x=0;x<SX && x<nsx;x++)
-- 
2.43.0


From 7ca900e2652747aa2ab546e0391465c1b7eb8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 14/66] fix: erasing to the cursor includes the character under
 it, as ECMA-48 says

---
 libtty/tty.c     | 13 ++++++-------
 libtty/vtredir.c |  4 ++--
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 24c805a..a57f4a9 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -976,9 +976,9 @@ export void tty_write(tty vt, const char *buf, int len)
                     CLEAR(CX, CY, SX*SY-(CY*SX+CX));
                     break;
                 case 1: // to cursor
-                    if (CX>0)
-                        cjk_damage_right(vt, CX-1, true);
-                    CLEAR(0, 0, CY*SX+CX);
+                    i=CX<SX? CX+1 : SX; // including the cursor's position
+                    cjk_damage_right(vt, i-1, true);
+                    CLEAR(0, 0, CY*SX+i);
                     break;
                 case 2: // whole screen
                     CLEAR(0, 0, SX*SY);
@@ -996,10 +996,9 @@ export void tty_write(tty vt, const char *buf, int len)
                     CLEAR(CX, CY, SX-CX);
                     break;
                 case 1: // to cursor
-                    if (CX<=0)
-                        break;
-                    cjk_damage_right(vt, CX-1, true);
-                    CLEAR(0, CY, CX);
+                    i=CX<SX? CX+1 : SX; // including the cursor's position
+                    cjk_damage_right(vt, i-1, true);
+                    CLEAR(0, CY, i);
                     break;
                 case 2: // whole line
                     CLEAR(0, CY, SX);
diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index a18b30e..ab9cd2c 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -156,13 +156,13 @@ static void vtvt_clear(tty vt, int x, int y, int len)
     setattr(vt, vt->attr);
     if (x==0 && y==0 && len==SX*SY)
         fprintf(DATA->f, "\e[2J");
-    else if (x==0 && y==0 && len==CY*SX+CX)
+    else if (x==0 && y==0 && len==CY*SX+CX+1)
         fprintf(DATA->f, "\e[1J");
     else if (x==CX && y==CY && len==SX*SY-CY*SX-CX)
         fprintf(DATA->f, "\e[0J");
     else if (x==0 && y==CY && len==SX)
         fprintf(DATA->f, "\e[2K");
-    else if (x==0 && y==CY && len==CX)
+    else if (x==0 && y==CY && len==CX+1)
         fprintf(DATA->f, "\e[1K");
     else if (x==CX && y==CY && len==SX-CX)
         fprintf(DATA->f, "\e[0K");
-- 
2.43.0


From 330174fa11e43dde9f70995e82532c473eb481d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 15/66] fix: vtvt: wide and combining characters

---
 libtty/vtredir.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index ab9cd2c..24f64f3 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -117,18 +117,37 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
         else
             fprintf(DATA->f, "?");
     }
-    CX++;
+    CX+=width;
+}
+
+static void print_comb(tty vt, ucs ch)
+{
+    if (fprintf(DATA->f, "%lc", ch)<0)
+        clearerr(DATA->f); // No fallback, just ignore.
+}
+
+static void print_combs(tty vt, attrchar *ac)
+{
+    for (uint32_t i=ac->comb; i; i=vt->combs[i].next)
+        print_comb(vt, vt->combs[i].ch);
 }
 
 static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
 {
     if (x>=SX || y>SY)
         return;
-    if (x+1!=CX || y!=CY) // cursor should be _after_ the glyph
-        vtvt_cursor(vt, x+1, y);
-    setattr(vt, attr);
-    if (fprintf(DATA->f, "%lc", ch)<0)
-        clearerr(DATA->f); // No fallback, just ignore.
+    int width=(attr&VT100_ATTR_CJK)? 2 : 1;
+    if (x+width==CX && y==CY) // cursor should be _after_ the glyph
+        print_comb(vt, ch);
+    else
+    {
+        // On the last column, there's no way to get there other than by
+        // redrawing the whole cell.
+        attrchar *ac=&vt->scr[y*vt->sx+x];
+        vtvt_char(vt, x, y, ac->ch, attr, width);
+        print_combs(vt, ac);
+    }
+    vtvt_cursor(vt, vt->cx, vt->cy);
 }
 
 export void vtvt_dump(tty vt)
@@ -142,7 +161,10 @@ export void vtvt_dump(tty vt)
         for (x=0; x<vt->sx; x++)
         {
             if (ch->ch != VT100_CJK_RIGHT)
+            {
                 vtvt_char(vt, x, y, ch->ch, ch->attr, mk_wcwidth(ch->ch));
+                print_combs(vt, ch);
+            }
             ch++;
         }
     }
-- 
2.43.0


From f1325314e702774e52eb46c4329c044d85fe9b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 16/66] fix: vtvt: don't write outside of a display smaller
 than the emulated terminal

---
 libtty/vtredir.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 24f64f3..cf170e8 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -95,8 +95,10 @@ static void build_vt100graph(void)
 
 static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
 {
-    if (x>=SX || y>SY)
+    if (x>=SX || y>=SY)
         return;
+    if (x+width>SX) // only the left half would fit
+        ch=' ', width=1;
     if (x!=CX || y!=CY)
         vtvt_cursor(vt, x, y);
     setattr(vt, attr);
@@ -134,9 +136,9 @@ static void print_combs(tty vt, attrchar *ac)
 
 static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
 {
-    if (x>=SX || y>SY)
-        return;
     int width=(attr&VT100_ATTR_CJK)? 2 : 1;
+    if (x+width>SX || y>=SY)
+        return;
     if (x+width==CX && y==CY) // cursor should be _after_ the glyph
         print_comb(vt, ch);
     else
@@ -162,8 +164,10 @@ export void vtvt_dump(tty vt)
         {
             if (ch->ch != VT100_CJK_RIGHT)
             {
-                vtvt_char(vt, x, y, ch->ch, ch->attr, mk_wcwidth(ch->ch));
-                print_combs(vt, ch);
+                int width=mk_wcwidth(ch->ch);
+                vtvt_char(vt, x, y, ch->ch, ch->attr, width);
+                if (x+width<=SX && y<SY)
+                    print_combs(vt, ch);
             }
             ch++;
         }
-- 
2.43.0


From f9648acb76f773f505f87ec63e4aed3651c9f933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 17/66] fix: vtvt: scrolling: restore the cursor, fill with the
 right background, handle regions of one line

---
 libtty/vtredir.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index cf170e8..d815466 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -152,13 +152,13 @@ static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
     vtvt_cursor(vt, vt->cx, vt->cy);
 }
 
-export void vtvt_dump(tty vt)
+static void dump_lines(tty vt, int y, int y2)
 {
-    int x,y;
+    int x;
     attrchar *ch;
 
-    ch=vt->scr;
-    for (y=0; y<vt->sy; y++)
+    ch=vt->scr+y*vt->sx;
+    for (; y<y2; y++)
     {
         for (x=0; x<vt->sx; x++)
         {
@@ -172,6 +172,11 @@ export void vtvt_dump(tty vt)
             ch++;
         }
     }
+}
+
+export void vtvt_dump(tty vt)
+{
+    dump_lines(vt, 0, vt->sy);
     vtvt_cursor(vt, vt->cx, vt->cy);
 }
 
@@ -207,14 +212,19 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 
 static void vtvt_scroll(tty vt, int nl)
 {
-    if (nl>0)
-        fprintf(DATA->f, "\e[0m\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
-    else if (nl<0)
-        fprintf(DATA->f, "\e[0m\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
-    CX=CY=-1;
-    DATA->attr=0;
-
-//  vtvt_dump(vt);
+    if (vt->s2>SY || vt->s2-vt->s1<2)
+        // can't have such a scrolling region
+        dump_lines(vt, vt->s1, vt->s2);
+    else
+    {
+        setattr(vt, vt->attr); // new lines will have this background
+        if (nl>0)
+            fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
+        else if (nl<0)
+            fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
+        CX=CY=-1;
+    }
+    vtvt_cursor(vt, vt->cx, vt->cy);
 }
 
 static void vtvt_flag(tty vt, int f, int v)
-- 
2.43.0


From 29c47accc2160e42a8e7c565951a4fea17abf5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 18/66] fix: vtvt: clear the right part of the screen when the
 cursor is past the margin or the display is smaller

---
 libtty/vtredir.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index d815466..62d6afe 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -185,24 +185,29 @@ static void vtvt_clear(tty vt, int x, int y, int len)
     int c;
 
     setattr(vt, vt->attr);
-    if (x==0 && y==0 && len==SX*SY)
+    // the real terminal's cursor can't be past the margin
+    int onscreen=CX>=0 && CX<SX && CY>=0 && CY<SY;
+    if (x==0 && y==0 && len==vt->sx*vt->sy)
         fprintf(DATA->f, "\e[2J");
-    else if (x==0 && y==0 && len==CY*SX+CX+1)
+    else if (onscreen && x==0 && y==0 && len==CY*vt->sx+CX+1)
         fprintf(DATA->f, "\e[1J");
-    else if (x==CX && y==CY && len==SX*SY-CY*SX-CX)
+    else if (onscreen && x==CX && y==CY && len==vt->sx*vt->sy-CY*vt->sx-CX)
         fprintf(DATA->f, "\e[0J");
-    else if (x==0 && y==CY && len==SX)
+    else if (onscreen && x==0 && y==CY && len==vt->sx)
         fprintf(DATA->f, "\e[2K");
-    else if (x==0 && y==CY && len==CX+1)
+    else if (onscreen && x==0 && y==CY && len==CX+1)
         fprintf(DATA->f, "\e[1K");
-    else if (x==CX && y==CY && len==SX-CX)
+    else if (onscreen && x==CX && y==CY && len==vt->sx-CX)
         fprintf(DATA->f, "\e[0K");
     else
         while (len)
         {
-            vtvt_cursor(vt, x, y);
-            c=(len>SX-x)? SX-x : len;
-            fprintf(DATA->f, "\e[%dX", c);
+            c=(len>vt->sx-x)? vt->sx-x : len;
+            if (c>0 && x<SX && y<SY)
+            {
+                vtvt_cursor(vt, x, y);
+                fprintf(DATA->f, "\e[%dX", c);
+            }
             len-=c;
             x=0;
             y++;
-- 
2.43.0


From a04575611cf79fc51287984ded872b0067f19dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 19/66] fix: vtvt: resync after a resize; flush the right
 stream after the initial dump

---
 libtty/vtredir.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 62d6afe..9c51402 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -246,7 +246,10 @@ static void vtvt_osc(tty vt, int cmd, const char *str)
 
 static void vtvt_resized(tty vt, int sx, int sy)
 {
+    setattr(vt, vt->attr); // new cells will have this background
     fprintf(DATA->f, "\e[8;%u;%ut", sy, sx);
+    CX=CY=-1;
+    vtvt_cursor(vt, vt->cx, vt->cy);
 }
 
 static void vtvt_flush(tty vt)
@@ -295,6 +298,6 @@ export void vtvt_attach(tty vt, FILE *f, int dump)
     {
         fprintf(DATA->f, "\ec");
         vtvt_dump(vt);
-        fflush(stdout);
+        fflush(f);
     }
 }
-- 
2.43.0


From 6d6e59ced80bf06b24c51ab3cbb19b8f6b5438d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 20/66] fix: vtvt: moving the cursor past the margin leaves it
 at the last column

---
 libtty/vtredir.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 9c51402..d3348a3 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -73,8 +73,9 @@ static void vtvt_cursor(tty vt, int x, int y)
     if (x==CX && y==CY)
         return;
     fprintf(DATA->f, "\e[%d;%df", y+1, x+1);
-    CX=x;
-    CY=y;
+    // the real terminal won't go past the margins
+    CX=x<SX? x : SX-1;
+    CY=y<SY? y : SY-1;
 }
 
 #define MAXVT100GRAPH 0x2666 // biggest codepoint is U+2666 BLACK DIAMOND
-- 
2.43.0


From 00f8b54f3a11859082f95ea58c8a8fe3d2ba61e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 21/66] fix: tadd in the live recorder: carry exactly one
 second of microseconds

---
 libtty/formats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index a2e524e..ba179a8 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -94,7 +94,7 @@ Will be called when the recording ends.
 # define little_endian(x) ((uint32_t)(x))
 #endif
 
-#define tadd(t, d)      {if (((t).tv_usec+=(d).tv_usec)>1000000)        \
+#define tadd(t, d)      {if (((t).tv_usec+=(d).tv_usec)>=1000000)       \
                             (t).tv_usec-=1000000, (t).tv_sec++;         \
                          (t).tv_sec+=(d).tv_sec;                        \
                         }
-- 
2.43.0


From 89f28ef0e3e1ff54df1bdfc58a54de77072f5737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 22/66] fix: nh_recorder: timestamps that straddle a block
 boundary

---
 libtty/formats.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index ba179a8..f217027 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -340,25 +340,26 @@ static void play_nh_recorder(FILE *f,
     void *arg, const struct timeval *cont)
 {
     char buf[BUFFER_SIZE];
-    int b,i,i0;
+    int b,i,i0,rem;
     struct timeval tv;
     uint32_t t,tp;
 
     t=0;
-    i=b=0;
-    while ((b=fread(buf+b-i, 1, BUFFER_SIZE-(b-i), f))>0)
+    rem=0;
+    while ((b=fread(buf+rem, 1, BUFFER_SIZE-rem, f))>0)
     {
+        b+=rem;
+        rem=0;
         i0=0;
         for (i=0;i<b;i++)
             if (!buf[i])
             {
                 if (i0<i)
                     synch_print(buf+i0, i-i0, arg);
-                if (i+4>b)      // timestamp happened on a block boundary
+                if (i+5>b)      // timestamp happened on a block boundary
                 {
-                    if (b<5)    // incomplete last timestamp
-                        return;
-                    memmove(buf+i, buf, b-i);
+                    rem=b-i;
+                    memmove(buf, buf+i, rem);
                     goto block_end;
                 }
                 else
-- 
2.43.0


From 0305a044fe61f578e13194f6545858e76ed19c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 23/66] fix: nh_recorder: time going backwards isn't a wait of
 over a year

---
 libtty/formats.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index f217027..4dcad16 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -368,8 +368,11 @@ static void play_nh_recorder(FILE *f,
                     t=get_u32(buf+i+1);
                     i0=i+5;
                     i+=4;
-                    tv.tv_sec=(t-tp)/100;
-                    tv.tv_usec=(t-tp)%100*10000;
+                    int32_t d=t-tp;
+                    tv.tv_sec=d/100;
+                    tv.tv_usec=d%100*10000;
+                    if (tv.tv_usec<0)
+                        tv.tv_usec+=1000000, tv.tv_sec--;
                     synch_wait(&tv, arg);
                 }
             }
-- 
2.43.0


From 8273eccdba262c3ead21e7af94642211288619bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 24/66] fix: nh_recorder: write the timestamp before its frame,
 as the reader expects

---
 libtty/formats.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index 4dcad16..51a37b5 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -403,9 +403,10 @@ static void record_nh_recorder(FILE *f, void* state, const struct timeval *tm, c
     i=(tm->tv_sec-((struct timeval*)state)->tv_sec)*100+
       (tm->tv_usec-((struct timeval*)state)->tv_usec)/10000;
 
-    fwrite(buf, 1, len, f);
+    // the reader takes a timestamp as that of the data which follows
     fwrite("\0", 1, 1, f);
     fwrite(&i, 1, 4, f);
+    fwrite(buf, 1, len, f);
 }
 
 static void record_nh_recorder_finish(FILE *f, void* state)
-- 
2.43.0


From c1a1169abeac1ecaa420d8e53549013cd86cc5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 25/66] fix: auto format: show files shorter than 12 bytes

---
 libtty/formats.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index 51a37b5..0239fab 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -462,10 +462,12 @@ static void play_auto(FILE *f,
     {
         // must use unbuffered I/O here, to not spoil it for play_live()
         if ((len=read(fileno(f), ((char*)&tth)+got, 12-got))<=0)
-            return;
+            break;
         got+=len;
     } while (got<12);
-    if (little_endian(tth.usec)<1000000 &&
+    if (!got)
+        return;
+    if (got==12 && little_endian(tth.usec)<1000000 &&
         little_endian(tth.len)>0 && little_endian(tth.len)<65536)
     {
         tv.tv_sec=little_endian(tth.sec);
@@ -483,7 +485,7 @@ static void play_auto(FILE *f,
         return;
     }
 
-    if (is_asciicast((const char*)&tth))
+    if (got==12 && is_asciicast((const char*)&tth))
     {
         do_play_asciicast(fileno(f), (const char*)&tth, 12,
                           synch_init_wait, synch_wait, synch_print, arg, &tv);
@@ -493,7 +495,7 @@ static void play_auto(FILE *f,
     // fall back to "live"
     gettimeofday(&tv, 0);
     synch_init_wait(&tv, arg);
-    synch_print((char*)&tth, 12, arg);
+    synch_print((char*)&tth, got, arg);
     play_live(f, 0, synch_wait, synch_print, arg, &tv);
 }
 
-- 
2.43.0


From c473f0d613d1aa3c55792116ac822d4817891bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 26/66] fix: asciicast: escape backslashes

---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 7f062c7..48bb18f 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -548,6 +548,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
                 fprintf(f, "\\u%04x", *buf);
         else if (*buf=='"')
             fputs("\\\"", f);
+        else if (*buf=='\\')
+            fputs("\\\\", f);
         else
             fputc(*buf, f);
         buf++;
-- 
2.43.0


From 6ba0932c06a363d769a12580b57d2caeaf27c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 27/66] fix: asciicast: memory leak on frames consisting of a
 part of a character

---
 libtty/asciicast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 48bb18f..28fe6a6 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -519,7 +519,10 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
     as->putf[skip]=0;
 
     if (!len)
+    {
+        free(buf2);
         return;
+    }
 
     if (as->version == 1)
     {
-- 
2.43.0


From c5f6f6d5d35675f03e2dfca185a3ccebc8d81356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:04 +0000
Subject: [PATCH 28/66] fix: asciicast: don't output an end of file in the
 middle of an escape

---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 28fe6a6..d231027 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -212,6 +212,8 @@ static char* eat_string(NIH_FILE *f, char *buf)
                 surrogate=0;
             }
             break;
+        case EOF:
+            goto end;
         case '"': case '\\': case '/':
         default:
             OUT(c);    break;
-- 
2.43.0


From 4704a7a95de7398bd17f22677981b42bd102a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 29/66] fix: asciicast: numbers with exponents: no overflows,
 endless loops nor lost digits

---
 libtty/asciicast.c | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index d231027..e8a03bb 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -101,38 +101,42 @@ static int64_t eat_float(NIH_FILE *f)
 {
     int c;
     int64_t x=0;
+    int e=6, y=0;
+    bool minus=false;
     c=getc(f);
-    while (c>='0' && c<='9')
-        x=x*10+c-'0', c=getc(f);
-    x*=1000000;
+    // digits that don't fit matter only for the magnitude
+    for (; c>='0' && c<='9'; c=getc(f))
+        if (x<INT64_MAX/100)
+            x=x*10+c-'0';
+        else if (e<1000)
+            e++;
 
     if (c=='.')
-    {
-        int y=1000000;
-        c=getc(f);
-        while (c>='0' && c<='9')
-            x+= (c-'0')*(y/=10), c=getc(f);
-    }
+        while ((c=getc(f))>='0' && c<='9')
+            if (x<INT64_MAX/100)
+                x=x*10+c-'0', e--;
 
     if (c=='e' || c=='E')
     {
-        bool minus=false;
         c=getc(f);
         if (c=='+')
             c=getc(f);
         else if (c=='-')
             c=getc(f), minus=true;
-        int e=0;
-        while (c>='0' && c<='9')
-            e=e*10+c-'0', c=getc(f);
-        if (minus)
-            while (e-->0)
-                x/=10;
-        else
-            while (e-->0)
-                x*=10;
+        for (; c>='0' && c<='9'; c=getc(f))
+            if (y<1000000)
+                y=y*10+c-'0';
+        e+=minus? -y : y;
     }
 
+    for (; e>0 && x; e--)
+        if (x>INT64_MAX/10)
+            return ungetc(c, f), INT64_MAX;
+        else
+            x*=10;
+    for (; e<0 && x; e++)
+        x/=10;
+
     ungetc(c, f);
     return x;
 }
-- 
2.43.0


From 0b1aaa9342a2b3eba76797b9e2f8da6b99cf1b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 30/66] fix: asciicast: play only output events; normalize
 negative delays

---
 libtty/asciicast.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index e8a03bb..e188fbe 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -353,7 +353,7 @@ skip_field:
 body:
     synch_init_wait(&tv, arg);
     synch_print(buf, sprintf(buf, "\e%%G\e[8;%d;%dt", sy, sx), arg);
-    uint64_t old_delay = 0;
+    int64_t old_delay = 0;
 
     while (1)
     {
@@ -370,25 +370,19 @@ body:
             FAIL("Malformed asciicast: expected duration.\n");
 
         int64_t delay = eat_float(f);
-        if (version == 2)
-        {
-            delay -= old_delay;
-            old_delay += delay;
-        }
-        tv.tv_sec =  delay/1000000;
-        tv.tv_usec = delay%1000000;
-        synch_wait(&tv, arg);
 
         EAT();
         if (c != ',')
             FAIL("Malformed asciicast: no comma after duration.\n");
 
+        bool output = true;
         if (version == 2)
         {
             EAT();
             if (c != '"')
                 FAIL("Malformed asciicast: expected event type.\n");
             eat_string(f, buf);
+            output = !strcmp(buf, "o");
             EAT();
             if (c != ',')
                 FAIL("Malformed asciicast: no comma after event type.\n");
@@ -397,7 +391,21 @@ body:
         EAT();
         if (c !='"')
             FAIL("Malformed asciicast: expected even-data string.\n");
-        synch_print(buf, eat_string(f, buf) - buf, arg);
+        char *end = eat_string(f, buf);
+        if (output)
+        {
+            if (version == 2)
+            {
+                delay -= old_delay;
+                old_delay += delay;
+            }
+            tv.tv_sec =  delay/1000000;
+            tv.tv_usec = delay%1000000;
+            if (tv.tv_usec < 0)
+                tv.tv_usec += 1000000, tv.tv_sec--;
+            synch_wait(&tv, arg);
+            synch_print(buf, end - buf, arg);
+        }
 
         EAT();
         if (c !=']')
-- 
2.43.0


From 66c12adb090e075a10368bee7408b78dbc8faf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 31/66] fix: asciicast: accept arrays, booleans, negative
 numbers and empty objects within the header, and files with no events

---
 libtty/asciicast.c | 157 ++++++++++++++++++++-------------------------
 1 file changed, 71 insertions(+), 86 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index e188fbe..6dc4953 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -228,6 +228,37 @@ end:
     return buf;
 }
 
+// Any JSON value, possibly an array or an object.
+static bool skip_value(NIH_FILE *f, char *buf)
+{
+    int c, depth = 0;
+
+    do
+    {
+        EAT(|| c==',' || c==':');
+        if (c=='"')
+            eat_string(f, buf);
+        else if (c=='{' || c=='[')
+            depth++;
+        else if (c=='}' || c==']')
+            depth--;
+        else if (c>='0' && c<='9')
+            ungetc(c, f), eat_float(f);
+        else if (c=='-')
+            eat_float(f);
+        else if (c>='a' && c<='z') // true, false, null
+        {
+            while (c>='a' && c<='z')
+                c=getc(f);
+            ungetc(c, f);
+        }
+        else
+            return false;
+    } while (depth>0);
+
+    return !depth;
+}
+
 #define FAIL(x) do {const char* t=(x);return synch_print(t, strlen(t), arg);} while (0)
 void do_play_asciicast(int fd, const char *obuf, int olen,
     void (*synch_init_wait)(const struct timeval *ts, void *arg),
@@ -246,7 +277,6 @@ void do_play_asciicast(int fd, const char *obuf, int olen,
     }
 
     char buf[BUFFER_SIZE];
-    int bracket_level = 0;
     int version = -1;
     int c;
     int sx=80, sy=25;
@@ -258,97 +288,52 @@ void do_play_asciicast(int fd, const char *obuf, int olen,
         FAIL("Not an asciicast: doesn't start with a JSON object.\n");
 
     // Read the header.
-    while (1)
+    EAT();
+    while (c != '}')
     {
-expect_field:
-        switch (c = getc(f))
-        {
-        case EOF:
+        if (c==EOF)
             FAIL("Not an asciicast: end of file within header.\n");
-        case ' ': case '\t': case '\r': case '\n':
-            continue;
-        case '"':
-            eat_string(f, buf);
-            if (!eat_colon(f))
-                FAIL("Not an asciicast: no colon after field name.\n");
-            if (bracket_level)
-            {
-skip_field:
-                EAT();
-                if (c==EOF)
-                    FAIL("Not an asciicast: end of file within header.\n");
-                else if (c=='"')
-                    eat_string(f, buf);
-                else if (c>='0' && c<='9')
-                    ungetc(c, f), eat_float(f);
-                else if (c=='{')
-                {
-                    bracket_level++;
-                    goto expect_field;
-                }
-                else if (c=='n' && (c=getc(f))=='u'
-                                && (c=getc(f))=='l'
-                                && (c=getc(f))=='l')
-                {}
-                else
-                    FAIL("Not an asciicast: junk within header.\n");
-            }
-            else if (!strcmp(buf, "version"))
-            {
-                int64_t v = eat_int(f);
-                if (v == 1 || v == 2)
-                    version = v;
-                else
-                    FAIL("Unsupported asciicast version.\n");
-            }
-            else if (!strcmp(buf, "width"))
-                sx = eat_int(f);
-            else if (!strcmp(buf, "height"))
-                sy = eat_int(f);
-            else if (!strcmp(buf, "timestamp"))
-            {
-                int64_t v = eat_float(f);
-                tv.tv_sec =  v/1000000;
-                tv.tv_usec = v%1000000;
-            }
-            else if (version == 1 && !strcmp(buf, "stdout"))
-            {
-                if (getc(f) != '[')
-                    FAIL("Not an asciicast: v1 stdout not an array.\n");
-                goto body;
-            }
+        if (c!='"')
+            FAIL("Not an asciicast: bad header.\n");
+        eat_string(f, buf);
+        if (!eat_colon(f))
+            FAIL("Not an asciicast: no colon after field name.\n");
+
+        if (!strcmp(buf, "version"))
+        {
+            int64_t v = eat_int(f);
+            if (v == 1 || v == 2)
+                version = v;
             else
-                goto skip_field;
+                FAIL("Unsupported asciicast version.\n");
+        }
+        else if (!strcmp(buf, "width"))
+            sx = eat_int(f);
+        else if (!strcmp(buf, "height"))
+            sy = eat_int(f);
+        else if (!strcmp(buf, "timestamp"))
+        {
+            int64_t v = eat_float(f);
+            tv.tv_sec =  v/1000000;
+            tv.tv_usec = v%1000000;
+        }
+        else if (version == 1 && !strcmp(buf, "stdout"))
+        {
+            if (getc(f) != '[')
+                FAIL("Not an asciicast: v1 stdout not an array.\n");
+            goto body;
+        }
+        else if (!skip_value(f, buf))
+            FAIL("Not an asciicast: junk within header.\n");
 
+        EAT();
+        if (c == ',')
             EAT();
-            if (c == '}')
-            {
-                bracket_level--;
-                EAT();
-            }
-            if (c == '}')
-            {
-                ungetc(c, f);
-                goto expect_field;
-            }
-            if (c == '[' && bracket_level == -1)
-            {
-                ungetc(c, f);
-                goto body;
-            }
-            if (c != ',')
-                FAIL("Not an asciicast: junk after a JSON field.\n");
-            break;
-        case '}':
-            if (version == 2 && !bracket_level)
-                goto body;
-            bracket_level--;
-            break;
-        default:
-            FAIL("Not an asciicast: bad header.\n");
-        }
+        else if (c != '}')
+            FAIL("Not an asciicast: junk after a JSON field.\n");
     }
-    /* not reached */
+    if (version != 2)
+        FAIL("Not an asciicast: neither a version 2 header nor version 1 frames.\n");
 
 body:
     synch_init_wait(&tv, arg);
-- 
2.43.0


From e976fdb19fbbcc79bd25470549f7ecaa88db1823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 32/66] fix: asciicast: a recording with no output still gets a
 header

---
 libtty/asciicast.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 6dc4953..256d3b5 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -475,24 +475,29 @@ static int skip_partial_utf(const char *b, int len)
     return 0;
 }
 
+static void write_header(FILE *f, struct ac_state *as, const char *buf, int len)
+{
+    // need to play first frame to fetch screen size
+    tty vt = tty_init(80, 25, 1);
+    tty_write(vt, buf, len);
+    fprintf(f, "{\"version\":%d, \"width\":%d, \"height\":%d",
+        as->version, vt->sx, vt->sy);
+    if (as->ts.tv_sec)
+        fprintf(f, ", \"timestamp\":%ld", as->ts.tv_sec);
+    if (as->version == 1)
+        fprintf(f, ", \"stdout\":[\n");
+    else
+        fprintf(f, "}\n");
+    tty_free(vt);
+    as->head_done = true;
+}
+
 void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char *buf, int len)
 {
     struct ac_state *as = state;
     if (!as->head_done)
     {
-        // need to play first frame to fetch screen size
-        tty vt = tty_init(80, 25, 1);
-        tty_write(vt, buf, len);
-        fprintf(f, "{\"version\":%d, \"width\":%d, \"height\":%d",
-            as->version, vt->sx, vt->sy);
-        if (as->ts.tv_sec)
-            fprintf(f, ", \"timestamp\":%ld", as->ts.tv_sec);
-        if (as->version == 1)
-            fprintf(f, ", \"stdout\":[\n");
-        else
-            fprintf(f, "}\n");
-        tty_free(vt);
-        as->head_done = true;
+        write_header(f, as, buf, len);
 
         int skip = skip_utf_term_size(buf, len);
         buf+=skip;
@@ -564,6 +569,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
 void record_asciicast_finish(FILE *f, void* state)
 {
     struct ac_state *as = state;
+    if (!as->head_done)
+        write_header(f, as, "", 0);
     if (as->version == 1)
         fprintf(f, "\n]}\n");
     free(state);
-- 
2.43.0


From 0a068d20f87abe85fd66638d4b5db0d923a5a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 33/66] fix: asciicast v1: delays after a frame at 0:0 were
 lost

---
 libtty/asciicast.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 256d3b5..de79045 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -535,10 +535,7 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
         else
             as->need_comma = true;
         struct timeval ts = *tm;
-        if (as->ts.tv_sec || as->ts.tv_usec)
-            tsub(ts, as->ts);
-        else
-            ts.tv_sec = ts.tv_usec = 0;
+        tsub(ts, as->ts);
         as->ts = *tm;
         fprintf(f, "[%f, \"", ts.tv_sec+ts.tv_usec*0.000001);
     }
-- 
2.43.0


From d91dad08710541bd94e4f055b59cd164f36b99fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 34/66] fix: asciicast: don't write negative times if the clock
 goes backwards

---
 libtty/asciicast.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index de79045..07c394f 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -418,7 +418,8 @@ struct ac_state
     bool need_comma;
     char version;
     char putf[4];
-    struct timeval ts;
+    struct timeval ts; // v1: the previous frame, v2: the origin
+    struct timeval last;
 };
 
 void* record_asciicast_init(FILE *f, const struct timeval *tm)
@@ -430,6 +431,9 @@ void* record_asciicast_init(FILE *f, const struct timeval *tm)
         as->ts = *tm;
     else
         as->ts.tv_sec=as->ts.tv_usec = 0;
+    // the header has only whole seconds
+    as->ts.tv_usec = 0;
+    as->last = as->ts;
     as->putf[0] = 0;
     as->version = 2;
 
@@ -528,6 +532,15 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
         return;
     }
 
+    if (tcmp(*tm, as->last) < 0)
+    {
+        // The clock went backwards, but negative times are not allowed.
+        struct timeval back = as->last;
+        tsub(back, *tm);
+        tsub(as->ts, back);
+    }
+    as->last = *tm;
+
     if (as->version == 1)
     {
         if (as->need_comma)
@@ -540,7 +553,11 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
         fprintf(f, "[%f, \"", ts.tv_sec+ts.tv_usec*0.000001);
     }
     else
-        fprintf(f, "[%f, \"o\", \"", tm->tv_sec-as->ts.tv_sec+tm->tv_usec*0.000001);
+    {
+        struct timeval ts = *tm;
+        tsub(ts, as->ts);
+        fprintf(f, "[%f, \"o\", \"", ts.tv_sec+ts.tv_usec*0.000001);
+    }
     while (len-->0)
     {
         if (((unsigned char)*buf)<' ')
-- 
2.43.0


From 7e28c7ede11faf152e968043b6aff4aac3ced343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:30 +0000
Subject: [PATCH 35/66] fix: dosrecorder: notes were never read, and drawn at
 uninitialized coordinates

---
 libtty/dosrecorder.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index b5fbf03..c7cdf5d 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -171,8 +171,10 @@ void play_dosrecorder(FILE *f,
 
         if (note)
         {
-            if (gzread(g, &nh, sizeof(nh)!=sizeof(nh)))
+            if (gzread(g, &nh, sizeof(nh))!=sizeof(nh))
                 goto end;
+            if (nh.x+nh.w>80 || nh.y+nh.h>25)
+                goto end;       // corrupted file
             for (i=0; i<nh.h; i++)
                 gzread(g, &scr[nh.y+i][nh.x], nh.w*sizeof(attrchar));
             if (nh.titlelen>80)
-- 
2.43.0


From 4bf98ef69467fbf0215a16250a8d63af379f8055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 36/66] fix: dosrecorder: cells with character 0 shifted the
 rest of the line

---
 libtty/dosrecorder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index c7cdf5d..685f0c8 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -49,7 +49,8 @@ static inline void wrchar(attrchar *ch, char **b)
 {
     // Unicode is 32-bit, charset_cp437[] only 16-bit as all its entries fit
     // into the range.  Thus, hush the compiler warning.
-    TF8(bp, charset_cp437[(unsigned char)ch->c]);
+    // NUL is displayed as a blank, and wouldn't move the cursor
+    TF8(bp, ch->c? charset_cp437[(unsigned char)ch->c] : ' ');
 }
 #pragma GCC diagnostic pop
 #undef bp
-- 
2.43.0


From 96ce732d419d18752524a421978f2e8c01d87398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 37/66] fix: ttyrec_seek: a frame with no snapshot yet starts
 from the recording's own terminal

---
 libtty/timeline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/timeline.c b/libtty/timeline.c
index 6d28713..b0b21cf 100644
--- a/libtty/timeline.c
+++ b/libtty/timeline.c
@@ -163,7 +163,7 @@ export struct ttyrec_frame* ttyrec_seek(const ttyrec tr, const struct timeval *t
         else
         {
             tfs=tr->tev_head;
-            *vt=tty_init(80, 25, 1);
+            *vt=tty_copy(tfs->snapshot);
         }
         if (!*vt)
             return 0;
-- 
2.43.0


From 9710d4464d1a9627434361e18e0336fd209e6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 38/66] fix: ttyrec_save: don't write a frame that's not there

---
 libtty/timeline.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/timeline.c b/libtty/timeline.c
index b0b21cf..e809add 100644
--- a/libtty/timeline.c
+++ b/libtty/timeline.c
@@ -204,6 +204,8 @@ export int ttyrec_save(ttyrec tr, int fd, const char *format, const char *filena
     fr=ttyrec_seek(tr, selstart, 0);
     if (!(rec=ttyrec_w_open(fd, format, filename, &fr->t)))
         return 0;
+    if (fr==tr->tev_head) // not a real frame
+        fr=ttyrec_next_frame(tr, fr);
     while (fr)
     {
         if (selend && tcmp(fr->t, *selend)>0)
-- 
2.43.0


From 6e8f2d69d5d689187444d0d99c38dd88d025669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 39/66] fix: dosrecorder: don't show garbage when the file ends
 inside a title

---
 libtty/dosrecorder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index 685f0c8..002e7ac 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -181,7 +181,8 @@ void play_dosrecorder(FILE *f,
             if (nh.titlelen>80)
                 goto end;
             *bp++='\e', *bp++=']', *bp++='0', *bp++=';';
-            gzread(g, bp, nh.titlelen);
+            if (gzread(g, bp, nh.titlelen)!=nh.titlelen)
+                goto end;
             bp+=nh.titlelen;
             *bp++=7;
         }
-- 
2.43.0


From 8394d6498e7b2ae71d885d3a2aa71e42b72958cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:19 +0000
Subject: [PATCH 40/66] fix: streams: always say why a stream couldn't be
 opened

---
 libstream/stream.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/libstream/stream.c b/libstream/stream.c
index 4357cc5..1b6a77c 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -1,4 +1,6 @@
+#include <stdlib.h>
 #include <string.h>
+#include <errno.h>
 #include <unistd.h>
 #include "config.h"
 #include "compat.h"
@@ -100,9 +102,15 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
     thread_t th;
 
     if (pipe(p))
+    {
+        *error=strerror(errno);
         goto failpipe;
+    }
     if (!(fdata=malloc(sizeof(struct filterdata))))
+    {
+        *error="Out of memory";
         goto failfdata;
+    }
     fdata->fdin=fd;
     fdata->fdout=p[!wr];
     fdata->func=func;
@@ -130,7 +138,8 @@ failfdata:
     close(p[0]);
     close(p[1]);
 failpipe:
-    close(fd);
+    if (fd!=-1)
+        close(fd);
     return -1;
 }
 #endif
@@ -142,14 +151,20 @@ export int open_stream(int fd, const char* url, int mode, const char **error)
     compress_info *ci;
     const char *dummy;
 
+    if (!error)
+        error=&dummy;
     if (fd==-1)
     {
         if (!url)
+        {
+            *error="No file name or URL given";
             return -1;
-        if (!error)
-            error=&dummy;
+        }
         if (!strcmp(url, "-"))
-            fd=dup(wr? 1 : 0);
+        {
+            if ((fd=dup(wr? 1 : 0))==-1)
+                *error=strerror(errno);
+        }
         else if (match_prefix(url, "file://"))
             fd=open_file(url+7, mode, error);
         else if (match_prefix(url, "tcp://"))
@@ -168,7 +183,7 @@ export int open_stream(int fd, const char* url, int mode, const char **error)
     if (fd==-1)
         return -1;
 
-    ci=comp_from_ext(url, wr? compressors : decompressors);
+    ci=url? comp_from_ext(url, wr? compressors : decompressors) : 0;
     if (!ci)
         return fd;
     return filter(ci->comp, fd, wr, 0, error);
-- 
2.43.0


From 7d3cc9c75fcdb9a1cc28ff6d21ad37ec54922a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 41/66] fix: streams: don't get killed by SIGPIPE when a reader
 stops before the end

---
 libstream/stream.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libstream/stream.c b/libstream/stream.c
index 1b6a77c..338d8ac 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -2,6 +2,9 @@
 #include <string.h>
 #include <errno.h>
 #include <unistd.h>
+#ifndef WIN32
+# include <signal.h>
+#endif
 #include "config.h"
 #include "compat.h"
 #include "error.h"
@@ -67,6 +70,14 @@ static void filterthr(struct filterdata *args)
     arg=args->arg;
     free(args);
 
+#ifndef WIN32
+    // the other end of our pipe going away is no reason to kill the program
+    sigset_t ss;
+    sigemptyset(&ss);
+    sigaddset(&ss, SIGPIPE);
+    pthread_sigmask(SIG_BLOCK, &ss, 0);
+#endif
+
     func(fdin, fdout, arg);
     mutex_lock(nsm);
     if (!--nstreams)
-- 
2.43.0


From a8e905599eafbc35e909f1d8fb5f32c073d81b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 42/66] fix: bzip2: read appended files past the first stream;
 close the file

---
 libstream/compress.c | 68 ++++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index e9e884e..fc66d41 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -50,40 +50,64 @@ VISIBILITY_DISABLE
 static void read_bz2(int f, int fd, const char *arg)
 {
     BZFILE* b;
+    FILE*   file;
     int     nBuf;
     char    buf[BUFFER_SIZE];
-    int     bzerror;
-
-    b = BZ2_bzReadOpen(&bzerror, fdopen(f,"rb"), 0, 0, NULL, 0);
-    if (bzerror != BZ_OK)
+    char    unused[BZ_MAX_UNUSED];
+    void*   up;
+    int     nUnused = 0;
+    int     c, bzerror, err;
+    int     first = 1;
+
+    file = fdopen(f, "rb");
+    if (!file)
     {
-        BZ2_bzReadClose(&bzerror, b);
-        // error
         ERRORMSG(_("Invalid/corrupt .bz2 file.\n"));
+        close(f);
         close(fd);
         return;
     }
 
-    bzerror = BZ_OK;
-    while (bzerror == BZ_OK)
+    // There may be multiple streams one after another, if the file was
+    // appended to.
+    while (1)
     {
-        nBuf = BZ2_bzRead(&bzerror, b, buf, BUFFER_SIZE);
-        if (write(fd, buf, nBuf)!=nBuf)
+        b = BZ2_bzReadOpen(&bzerror, file, 0, 0, unused, nUnused);
+        while (bzerror == BZ_OK)
         {
-            BZ2_bzReadClose(&bzerror, b);
-            close(fd);
-            return;
+            nBuf = BZ2_bzRead(&bzerror, b, buf, BUFFER_SIZE);
+            if (bzerror != BZ_OK && bzerror != BZ_STREAM_END)
+                break;
+            if (write(fd, buf, nBuf)!=nBuf)
+            {
+                BZ2_bzReadClose(&err, b);
+                goto end;
+            }
+        }
+        if (bzerror != BZ_STREAM_END)
+        {
+            BZ2_bzReadClose(&err, b);
+            if (!first && bzerror == BZ_DATA_ERROR_MAGIC)
+                break; // ignore trailing garbage, just like bzip2 does
+            // error
+            ERRORMSG("\033[0m");
+            ERRORMSG(_("bzip2: Error during decompression.\n"));
+            break;
+        }
+        BZ2_bzReadGetUnused(&err, b, &up, &nUnused);
+        memcpy(unused, up, nUnused);
+        BZ2_bzReadClose(&err, b);
+        first = 0;
+
+        if (!nUnused)
+        {
+            if ((c=getc(file)) == EOF)
+                break;
+            ungetc(c, file);
         }
     }
-    if (bzerror != BZ_STREAM_END)
-    {
-        BZ2_bzReadClose(&bzerror, b);
-        // error
-        ERRORMSG("\033[0m");
-        ERRORMSG(_("bzip2: Error during decompression.\n"));
-    }
-    else
-        BZ2_bzReadClose(&bzerror, b);
+end:
+    fclose(file);
     close(fd);
 }
 
-- 
2.43.0


From db2c176839376bf8f06c345beda6b89a471fcb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 43/66] fix: bzip2: close the file after writing

---
 libstream/compress.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index fc66d41..ca3dbef 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -114,16 +114,26 @@ end:
 static void write_bz2(int f, int fd, const char *arg)
 {
     BZFILE* b;
+    FILE*   file;
     int     nBuf;
     char    buf[BUFFER_SIZE];
     int     bzerror;
 
-    b = BZ2_bzWriteOpen(&bzerror, fdopen(f,"wb"), 9, 0, 0);
+    file = fdopen(f, "wb");
+    if (!file)
+    {
+        // the writer will get smitten with sigpipe
+        close(f);
+        close(fd);
+        return;
+    }
+    b = BZ2_bzWriteOpen(&bzerror, file, 9, 0, 0);
     if (bzerror != BZ_OK)
     {
         BZ2_bzWriteClose(&bzerror, b, 0,0,0);
         // error
         // the writer will get smitten with sigpipe
+        fclose(file);
         close(fd);
         return;
     }
@@ -135,11 +145,13 @@ static void write_bz2(int f, int fd, const char *arg)
         if (bzerror!=BZ_OK)
         {
             BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+            fclose(file);
             close(fd);
             return;
         }
     }
     BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+    fclose(file);
     close(fd);
 }
 #endif
-- 
2.43.0


From 8c8fae181d0d0736d517c327a63c5fb21c5c43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:17 +0000
Subject: [PATCH 44/66] fix: xz, zstd: a read error isn't a block of 18
 exabytes

---
 libstream/compress.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index ca3dbef..f212762 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -220,6 +220,7 @@ static void write_gz(int f, int fd, const char *arg)
 static void read_xz(int f, int fd, const char *arg)
 {
     uint8_t inbuf[BUFFER_SIZE], outbuf[BUFFER_SIZE];
+    ssize_t len;
     lzma_stream xz = LZMA_STREAM_INIT;
 
     if (lzma_stream_decoder(&xz, UINT64_MAX, LZMA_CONCATENATED) != LZMA_OK)
@@ -227,9 +228,13 @@ static void read_xz(int f, int fd, const char *arg)
 
     xz.avail_in  = 0;
 
-    while (xz.avail_in
-           || (xz.avail_in = read(f, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
+    while (xz.avail_in || (len = read(f, inbuf, BUFFER_SIZE)) > 0)
     {
+        if (!xz.avail_in)
+        {
+            xz.next_in  = inbuf;
+            xz.avail_in = len;
+        }
         xz.next_out  = outbuf;
         xz.avail_out = sizeof(outbuf);
         if (lzma_code(&xz, LZMA_RUN) != LZMA_OK)
@@ -263,6 +268,7 @@ xz_read_end:
 static void write_xz(int f, int fd, const char *arg)
 {
     uint8_t inbuf[BUFFER_SIZE], outbuf[BUFFER_SIZE];
+    ssize_t len;
     lzma_stream xz = LZMA_STREAM_INIT;
 
     if (lzma_easy_encoder(&xz, 6, LZMA_CHECK_CRC64) != LZMA_OK)
@@ -270,9 +276,13 @@ static void write_xz(int f, int fd, const char *arg)
 
     xz.avail_in  = 0;
 
-    while (xz.avail_in
-           || (xz.avail_in = read(fd, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
+    while (xz.avail_in || (len = read(fd, inbuf, BUFFER_SIZE)) > 0)
     {
+        if (!xz.avail_in)
+        {
+            xz.next_in  = inbuf;
+            xz.avail_in = len;
+        }
         xz.next_out  = outbuf;
         xz.avail_out = sizeof(outbuf);
         if (lzma_code(&xz, LZMA_RUN) != LZMA_OK)
@@ -323,7 +333,7 @@ static void read_zstd(int f, int fd, const char *arg)
     if (ZSTD_isError(ZSTD_initDStream(stream)))
         goto zstd_r_error;
 
-    size_t s;
+    ssize_t s;
     while ((s = read(f, (void*)zin.src, inbufsz)) > 0)
     {
         zin.size = s;
@@ -366,7 +376,7 @@ static void write_zstd(int f, int fd, const char *arg)
     if (ZSTD_isError(ZSTD_initCStream(stream, 3)))
         goto zstd_w_error;
 
-    size_t s;
+    ssize_t s;
     while ((s = read(fd, (void*)zin.src, inbufsz)) > 0)
     {
         zin.size = s;
-- 
2.43.0


From d998eff1d7b4cc9001220c9c0275957a6f1deb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 45/66] fix: zstd: flush everything at the end of a file

---
 libstream/compress.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index f212762..79a890f 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -338,7 +338,9 @@ static void read_zstd(int f, int fd, const char *arg)
     {
         zin.size = s;
         zin.pos = 0;
-        while (zin.pos < zin.size)
+        zout.pos = 0;
+        // if the output is full there may be more even with all input consumed
+        while (zin.pos < zin.size || zout.pos == zout.size)
         {
             zout.pos = 0;
             size_t w = ZSTD_decompressStream(stream, &zout, &zin);
@@ -392,10 +394,15 @@ static void write_zstd(int f, int fd, const char *arg)
         }
     }
 
-    zout.pos = 0;
-    ZSTD_endStream(stream, &zout);
-    // no way to handle an error here
-    write(f, zout.dst, zout.pos);
+    size_t left;
+    do
+    {
+        zout.pos = 0;
+        left = ZSTD_endStream(stream, &zout);
+        // no way to handle an error here
+        if (ZSTD_isError(left) || write(f, zout.dst, zout.pos) != (ssize_t)zout.pos)
+            break;
+    } while (left);
 
 zstd_w_error:
     ZSTD_freeCStream(stream);
-- 
2.43.0


From 23b6fe31f9540258d2966bcc4c8ea22cd9abd917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 46/66] fix: tcp: negative and overflowing port numbers overran
 a buffer

---
 libstream/url_tcp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 3f024e6..3dae15e 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -55,8 +55,10 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
     getrport:
         *cp=0;
         cp++;
-        i=strtoul(cp, &cp, 10);
-        if (*cp || !i || i>65535)
+        if (*cp<'0' || *cp>'9')
+            return _("Invalid port number");
+        i=strtol(cp, &cp, 10);
+        if (*cp || i<=0 || i>65535)
             return _("Invalid port number");
         port=i;
     }
-- 
2.43.0


From 72f09ce7bb2b138e38cb8c9d843c10b9bd262aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 47/66] fix: tcp: a bracketed IPv6 address without a port is
 not host:port

---
 libstream/url_tcp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 3dae15e..ee457b6 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -48,9 +48,12 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
             else
                 return _("Cruft after the [host name]."); // IPv6-style host name
         }
+        cp=0;
     }
+    else
+        cp=strrchr(host, ':');
     // extract :port
-    if ((cp=strrchr(host, ':')))
+    if (cp)
     {
     getrport:
         *cp=0;
-- 
2.43.0


From 05b1d51005a1168d24dcfb716b82716373a5a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:17 +0000
Subject: [PATCH 48/66] fix: tcp: close sockets that couldn't connect

---
 libstream/url_tcp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index ee457b6..54afd61 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -101,7 +101,12 @@ static int connect_out(struct addrinfo *ai)
             if (errno == EINTR)
                 goto intr;
             else
+            {
+                int err=errno;
+                closesocket(sock);
+                errno=err;
                 continue;
+            }
         return sock;
     }
     return -1;  // errno will be valid here
-- 
2.43.0


From d9d4940ee79584353dc55c91f86987d2c2a91057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 49/66] fix: tcp: don't connect to a truncated host name

---
 libstream/url_tcp.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 54afd61..c79a589 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -140,20 +140,25 @@ static void sock2file(int sock, int file, const char *arg)
 
 int connect_tcp(const char *url, int port, const char **rest, const char **error)
 {
-    char host[128], *cp;
+    char host[1100], *cp; // a name is up to 1025
     struct addrinfo *ai;
-    int fd;
+    int fd, len;
 
     if ((cp=strchr(url, '/')))
     {
-        snprintf(host, sizeof(host), "%.*s", (int)(cp-url), url);
+        len=snprintf(host, sizeof(host), "%.*s", (int)(cp-url), url);
         *rest=cp;
     }
     else
     {
-        snprintf(host, sizeof(host), "%s", url);
+        len=snprintf(host, sizeof(host), "%s", url);
         *rest="";
     }
+    if (len<0 || len>=(int)sizeof(host))
+    {
+        *error=_("Host name too long");
+        return -1;
+    }
     if ((*error=resolve_host(host, port, &ai)))
         return -1;
     if ((fd=connect_out(ai))==-1)
-- 
2.43.0


From 8c92bb3101cc7fd368f555740073396ca2cdad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 50/66] fix: open_file: a directory is not an empty file

---
 libstream/url_file.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libstream/url_file.c b/libstream/url_file.c
index 34b659d..2d3d90d 100644
--- a/libstream/url_file.c
+++ b/libstream/url_file.c
@@ -3,6 +3,7 @@
 #include <sys/stat.h>
 #include <fcntl.h>
 #include <stdlib.h>
+#include <unistd.h>
 #include <errno.h>
 #include <string.h>
 #include "error.h"
@@ -37,7 +38,20 @@ int open_file(const char* url, int mode, const char **error)
         return -1;
     }
     if ((fd=open(url, fmode|O_BINARY, 0666))==-1)
+    {
+        *error=strerror(errno);
+        return -1;
+    }
+
+    // opening a directory works, reading from it doesn't
+    struct stat st;
+    if (!fstat(fd, &st) && S_ISDIR(st.st_mode))
+    {
+        close(fd);
+        errno=EISDIR;
         *error=strerror(errno);
+        return -1;
+    }
 
     return fd;
 }
-- 
2.43.0


From 764c2ceadcb42ee0c4e606a89f32207e8a2b3d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:32 +0000
Subject: [PATCH 51/66] fix: termcast: leaks, a descriptor closed twice, NULs
 hiding sessions

---
 libstream/url_termcast.c | 57 ++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/libstream/url_termcast.c b/libstream/url_termcast.c
index 5be743a..8dd1ea4 100644
--- a/libstream/url_termcast.c
+++ b/libstream/url_termcast.c
@@ -4,8 +4,12 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#ifdef HAVE_SYS_SOCKET_H
+# include <sys/socket.h>
+#endif
 #include "export.h"
 #include "stream.h"
+#include "compat.h"
 #include "gettext.h"
 VISIBILITY_ENABLE
 #include "ttyrec.h"
@@ -101,14 +105,14 @@ static void termcast(int in, int out, const char *arg)
                 len=snprintf(buf, BUFSIZ, "\e[0m%s\n", _("Input terminated."));
             if (write(out, buf, len))
                 {}; // ignore the result, we're failing already
-            free(rest);
             goto end;
         }
         if (write(out, buf+inbuf, len) != len)
-        {
-            free(rest);
             goto end;
-        }
+        // the scan below works on C strings
+        for (int i=inbuf; i<inbuf+len; i++)
+            if (!buf[i])
+                buf[i]='\1';
         inbuf+=len;
         memset(buf+inbuf, 0, 64);
 
@@ -121,9 +125,8 @@ static void termcast(int in, int out, const char *arg)
         // TODO: press space every some time
     }
 found:
-    free(rest);
     if (write(sock, &ses, 1) != 1)
-        return;
+        goto end;
     while ((len=read(in, buf, BUFSIZ))>0)
         if (write(out, buf, len)!=len)
             break;;
@@ -131,14 +134,20 @@ found:
     // Alas, there's no real way to detect when the session ends, other
     // than a server disconnect.
 end:
-    close(sock);
+    free(rest);
     close(out);
+    // telnet() has its own copy of the socket, make it stop
+    shutdown(sock, SHUT_RDWR);
+    closesocket(sock);
+    while (read(in, buf, BUFSIZ)>0)
+        {};
+    close(in);
 }
 
 
 int open_termcast(const char* url, int mode, const char **error)
 {
-    int fd, fdmid;
+    int fd, fdmid, sock;
     const char *rest;
 
     if (mode&SM_WRITE)
@@ -155,10 +164,36 @@ int open_termcast(const char* url, int mode, const char **error)
         *error=_("What termcast session to look for?");
         return -1;
     }
+    // telnet() will close its socket on its own
+    if ((sock=dup(fd))==-1)
+    {
+        *error=strerror(errno);
+        closesocket(fd);
+        return -1;
+    }
     if ((fdmid=filter(telnet, fd, !!(mode&SM_WRITE), 0, error))==-1)
+    {
+        closesocket(sock);
         return -1;
+    }
     struct filterarg *fa = malloc(sizeof(struct filterarg));
-    fa->sock=fd;
-    fa->rest=strdup(rest);
-    return filter(termcast, fdmid, !!(mode&SM_WRITE), (const char*)fa, error);
+    char *name = strdup(rest);
+    if (!fa || !name)
+    {
+        close(fdmid);
+        *error=_("Out of memory");
+        goto fail;
+    }
+    fa->sock=sock;
+    fa->rest=name;
+    if ((fd=filter(termcast, fdmid, !!(mode&SM_WRITE), (const char*)fa, error))==-1)
+        goto fail;
+    return fd;
+
+fail:
+    free(fa);
+    free(name);
+    shutdown(sock, SHUT_RDWR);
+    closesocket(sock);
+    return -1;
 }
-- 
2.43.0


From 70d3a5b2c711c91ca53fc9a2a6a0e8cd2d426339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 52/66] fix: curl: the URL must outlive open_stream()

---
 libstream/url_curl.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/libstream/url_curl.c b/libstream/url_curl.c
index 54a6010..b82ffea 100644
--- a/libstream/url_curl.c
+++ b/libstream/url_curl.c
@@ -1,6 +1,8 @@
 #include "config.h"
 #ifdef HAVE_CURL_CURL_H
 
+#include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 #include <curl/curl.h>
 #include "export.h"
@@ -19,7 +21,7 @@ static void curl_r(int in, int out, const char *arg)
     CURLcode res;
     FILE *f = fdopen(out, "w");
     if (!f)
-        return close(out), (void)0;
+        return free((char*)arg), close(out), (void)0;
 
     curl_global_init(CURL_GLOBAL_ALL);
     curl_handle = curl_easy_init();
@@ -30,6 +32,7 @@ static void curl_r(int in, int out, const char *arg)
     if (res != CURLE_OK)
         fprintf(f, "CURL failed: %s\n", curl_easy_strerror(res));
     curl_easy_cleanup(curl_handle);
+    free((char*)arg);
     fclose(f);
 }
 
@@ -39,7 +42,7 @@ static void curl_w(int in, int out, const char *arg)
     CURLcode res;
     FILE *f = fdopen(out, "r");
     if (!f)
-        return close(out), (void)0;
+        return free((char*)arg), close(out), (void)0;
 
     curl_global_init(CURL_GLOBAL_ALL);
     curl_handle = curl_easy_init();
@@ -51,6 +54,7 @@ static void curl_w(int in, int out, const char *arg)
     if (res != CURLE_OK)
         fprintf(f, "curl_easy_perform() failed: %s\n", curl_easy_strerror(res));
     curl_easy_cleanup(curl_handle);
+    free((char*)arg);
     fclose(f);
 }
 
@@ -68,9 +72,16 @@ int open_curl(const char* url, int mode, const char **error)
         return -1;
     }
 
-    if (mode&SM_WRITE)
-        return filter(curl_w, -1, 1, url, error);
-    else
-        return filter(curl_r, -1, 0, url, error);
+    // the caller's string may be gone before the transfer is
+    char *arg = strdup(url);
+    if (!arg)
+    {
+        *error = _("Out of memory");
+        return -1;
+    }
+    int fd = filter((mode&SM_WRITE)? curl_w : curl_r, -1, !!(mode&SM_WRITE), arg, error);
+    if (fd == -1)
+        free(arg);
+    return fd;
 }
 #endif
-- 
2.43.0


From 37d45dffb888808c395867ee628414c4cd2a8a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:14 +0000
Subject: [PATCH 53/66] fix: bzip2: free the compressor after a write error

---
 libstream/compress.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index 79a890f..1454e9b 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -143,14 +143,15 @@ static void write_bz2(int f, int fd, const char *arg)
     {
         BZ2_bzWrite(&bzerror, b, buf, nBuf);
         if (bzerror!=BZ_OK)
-        {
-            BZ2_bzWriteClose(&bzerror, b, 0,0,0);
-            fclose(file);
-            close(fd);
-            return;
-        }
+            break;
     }
     BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+    if (bzerror!=BZ_OK)
+    {
+        // it gives up on IO errors without freeing anything
+        clearerr(file);
+        BZ2_bzWriteClose(&bzerror, b, 1,0,0);
+    }
     fclose(file);
     close(fd);
 }
-- 
2.43.0


From 2c0f1f7d0fc29156012389642f92102ed9cd31e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 54/66] fix: termplay: don't show the first frame before its
 time

---
 play/player.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/play/player.c b/play/player.c
index 143c6fc..ade50fd 100644
--- a/play/player.c
+++ b/play/player.c
@@ -219,7 +219,7 @@ void replay(void)
 
     play_state=0;
     tc.tv_sec=tc.tv_usec=0;
-    fr=ttyrec_seek(tr, 0, &term);
+    fr=ttyrec_seek(tr, &tc, &term);
     vtvt_attach(term, stdout, 1);
     replay_start();
 
-- 
2.43.0


From 2fab2cca8bc4e96db160b452709df567c50db4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 55/66] fix: termplay: rewinding left the screen and the player
 where they were

---
 play/player.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/play/player.c b/play/player.c
index ade50fd..701d2be 100644
--- a/play/player.c
+++ b/play/player.c
@@ -149,6 +149,8 @@ static void replay_rewind(int dummy)
 {
     replay_stop();
     tc.tv_sec=tc.tv_usec=0;
+    fr=ttyrec_seek(tr, &tc, &term);
+    vtvt_attach(term, stdout, 1);
 }
 
 static void adv_frame(int dummy)
-- 
2.43.0


From 158ef569454acbe381af3b8c9234916e756077c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 56/66] fix: termplay: slow the clock down for late frames with
 any microseconds

---
 play/player.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/play/player.c b/play/player.c
index 701d2be..cbcbb1f 100644
--- a/play/player.c
+++ b/play/player.c
@@ -40,7 +40,7 @@ static int player(void *arg)
             tadd(tt, t0);
             gettimeofday(&wall, 0);
             tsub(tt, wall);
-            if (tt.tv_sec>0 || tt.tv_usec>0)
+            if (tt.tv_sec>=0)
                 select(0, 0, 0, 0, &tt);
             else if (tt.tv_sec<-1) // if not a minimal skip, slow down the clock
                 tsub(t0, tt);      // (tt is negative)
-- 
2.43.0


From ddd6f059454a615521212681e375ee4a0c5de3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 57/66] fix: termplay: find the position only once the player
 has stopped

---
 play/player.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/play/player.c b/play/player.c
index cbcbb1f..4baf3a2 100644
--- a/play/player.c
+++ b/play/player.c
@@ -86,12 +86,12 @@ static void replay_stop(void)
 {
     if (!play_state)
         return;
-    gettimeofday(&tc, 0);       // calc where we stopped
-    tsub(tc, t0);
-    tmul1000(tc, speed);
     play_state=0;
     pthread_cancel(playth);
     thread_join(playth);
+    gettimeofday(&tc, 0);       // calc where we stopped
+    tsub(tc, t0);
+    tmul1000(tc, speed);
     if (loaded && !ttyrec_next_frame(tr, fr))
         tc=fr->t;               // no stopping past the end
 }
-- 
2.43.0


From 8f7756cd03fcd843dec78822d1f83a562f6532bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 58/66] fix: termrec: pass signals to the program, not to a
 random process

---
 rec/pty.c     | 4 ++--
 rec/pty.h     | 2 +-
 rec/termrec.c | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/rec/pty.c b/rec/pty.c
index c6507a1..861adc0 100644
--- a/rec/pty.c
+++ b/rec/pty.c
@@ -197,7 +197,7 @@ void pty_makeraw(struct termios *ta)
     ta->c_cc[VTIME]=0;
 }
 
-int run(const char *command, int sx, int sy)
+int run(const char *command, int sx, int sy, int *pid)
 {
     int fd;
 
@@ -208,7 +208,7 @@ int run(const char *command, int sx, int sy)
     ws.ws_xpixel=0;
     ws.ws_ypixel=0;
 
-    switch (forkpty(&fd,0,0,(sx&&sy)?&ws:0))
+    switch (*pid=forkpty(&fd,0,0,(sx&&sy)?&ws:0))
     {
     case -1:
         return -1;
diff --git a/rec/pty.h b/rec/pty.h
index bb64830..1bf7ca0 100644
--- a/rec/pty.h
+++ b/rec/pty.h
@@ -18,5 +18,5 @@
 extern int forkpty(int *amaster,char *dummy,struct termios *termp, struct winsize *wp);
 #endif
 
-extern int run(const char *command, int sx, int sy);
+extern int run(const char *command, int sx, int sy, int *pid);
 extern void pty_makeraw(struct termios *ta);
diff --git a/rec/termrec.c b/rec/termrec.c
index 85b1709..741557b 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -31,6 +31,7 @@ static volatile int need_resize;
 static int need_utf;
 static struct termios ta;
 static int ptym;
+static int pid;
 static int sx, sy;
 static int record_f;
 static recorder rec;
@@ -42,7 +43,7 @@ static void sigwinch(int s)
 
 static void sigpass(int s)
 {
-    kill(ptym, s);
+    kill(pid, s);
 }
 
 static void tty_restore(void);
@@ -152,7 +153,7 @@ int main(int argc, char **argv)
     ptym=-1;
     sx=sy=0;
     tty_get_size();
-    if ((ptym=run(command, sx, sy))==-1)
+    if ((ptym=run(command, sx, sy, &pid))==-1)
     {
         fprintf(stderr, "Couldn't allocate pty.\n");
         return 1;
-- 
2.43.0


From 0c2592c8e86dfd62ba34f408971648e4bdb72914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:30 +0000
Subject: [PATCH 59/66] fix: termrec: if there's no shell, the child must not
 run the parent's exit handlers

---
 rec/pty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rec/pty.c b/rec/pty.c
index 861adc0..527d65e 100644
--- a/rec/pty.c
+++ b/rec/pty.c
@@ -225,7 +225,7 @@ int run(const char *command, int sx, int sy, int *pid)
             argv[3]=0;
             execve("/bin/sh",(char*const*)argv,environ);
             fprintf(stderr,"#ERROR: Couldn't exec `%s'\n",command);
-            exit(127);
+            _exit(127); // don't wait for parent's threads
         }
     default:
         return fd;
-- 
2.43.0


From 4a2ca3051fecc149e2cc24e765073156f564891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 60/66] fix: termrec: a resize could end the session if getting
 the size changed errno

---
 rec/termrec.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 741557b..e9346ab 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -134,7 +134,7 @@ int main(int argc, char **argv)
 {
     fd_set rfds;
     char buf[BS];
-    int r;
+    int r, err;
     struct timeval tv;
 
     setlocale(LC_CTYPE, "");
@@ -174,6 +174,7 @@ int main(int argc, char **argv)
         FD_SET(0, &rfds);
         FD_SET(ptym, &rfds);
         r=select(ptym+1, &rfds, 0, 0, 0);
+        err=errno;
 
         if (need_resize)
         {
@@ -187,9 +188,10 @@ int main(int argc, char **argv)
         case 0:
             continue;
         case -1:
-            if (errno==EINTR)
+            if (err==EINTR)
                 continue;
             tty_restore();
+            errno=err;
             die("select()");
         }
 
@@ -214,7 +216,7 @@ int main(int argc, char **argv)
     }
 
     close(ptym);
-    int err=!ttyrec_w_close(rec);
+    err=!ttyrec_w_close(rec);
     tty_restore();
     wait(0);
     return err;
-- 
2.43.0


From aea545e151684d4169f8d808270b7b95940a8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 61/66] fix: termrec: always close the recording, exit() waits
 for its compressor

---
 rec/termrec.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index e9346ab..dc40d77 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -28,6 +28,7 @@
 #include "rec_args.h"
 
 static volatile int need_resize;
+static volatile int broken_pipe;
 static int need_utf;
 static struct termios ta;
 static int ptym;
@@ -46,12 +47,9 @@ static void sigpass(int s)
     kill(pid, s);
 }
 
-static void tty_restore(void);
 static void sigpipe(int s)
 {
-    tty_restore();
-    fprintf(stderr, "Broken pipe.  Disk full?\n");
-    exit(0);
+    broken_pipe=1;
 }
 
 static void setsignals(void)
@@ -156,6 +154,7 @@ int main(int argc, char **argv)
     if ((ptym=run(command, sx, sy, &pid))==-1)
     {
         fprintf(stderr, "Couldn't allocate pty.\n");
+        close(record_f);
         return 1;
     }
 
@@ -168,7 +167,7 @@ int main(int argc, char **argv)
     setsignals();
     tty_raw();
 
-    while (1)
+    while (!broken_pipe)
     {
         FD_ZERO(&rfds);
         FD_SET(0, &rfds);
@@ -191,6 +190,7 @@ int main(int argc, char **argv)
             if (err==EINTR)
                 continue;
             tty_restore();
+            ttyrec_w_close(rec); // or we'd wait for the compressor forever
             errno=err;
             die("select()");
         }
@@ -218,6 +218,11 @@ int main(int argc, char **argv)
     close(ptym);
     err=!ttyrec_w_close(rec);
     tty_restore();
+    if (broken_pipe)
+    {
+        fprintf(stderr, "Broken pipe.  Disk full?\n");
+        err=1;
+    }
     wait(0);
     return err;
 }
-- 
2.43.0


From d3a303b3d08a422092ea4adfbc5743d31c871d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 62/66] fix: termrec: partial writes, or typing as the program
 exits, lost the rest of the session

---
 rec/termrec.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index dc40d77..0ce468a 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -126,6 +126,21 @@ static void tty_restore(void)
     tcsetattr(0, TCSADRAIN, &ta);
 }
 
+// signals may cut writes short
+static int write_all(int fd, const char *buf, int len)
+{
+    int r;
+
+    while (len>0)
+    {
+        if ((r=write(fd, buf, len))<=0)
+            return 0;
+        buf+=r;
+        len-=r;
+    }
+    return 1;
+}
+
 #define BS 65536
 
 int main(int argc, char **argv)
@@ -200,8 +215,8 @@ int main(int argc, char **argv)
             r=read(0, buf, BS);
             if (r<=0)
                 break;
-            if (write(ptym, buf, r) != r)
-                break;
+            // if the program is gone, there still may be something to read
+            write_all(ptym, buf, r);
         }
         if (FD_ISSET(ptym, &rfds))
         {
@@ -210,7 +225,7 @@ int main(int argc, char **argv)
                 break;
             gettimeofday(&tv, 0);
             ttyrec_w_write(rec, &tv, buf, r);
-            if (write(1, buf, r) != r)
+            if (!write_all(1, buf, r))
                 break;
         }
     }
-- 
2.43.0


From 81943c6969fe02bf9c4af1f6e1e2f2de76ed23ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 63/66] fix: termrec: resizes could stay unnoticed until the
 next key or output

---
 libstream/stream.c |  6 +++---
 rec/termrec.c      | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/libstream/stream.c b/libstream/stream.c
index 338d8ac..4bfd12b 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -71,10 +71,10 @@ static void filterthr(struct filterdata *args)
     free(args);
 
 #ifndef WIN32
-    // the other end of our pipe going away is no reason to kill the program
+    // the other end of our pipe going away is no reason to kill the program,
+    // and its signal handlers are to interrupt the program, not us
     sigset_t ss;
-    sigemptyset(&ss);
-    sigaddset(&ss, SIGPIPE);
+    sigfillset(&ss);
     pthread_sigmask(SIG_BLOCK, &ss, 0);
 #endif
 
diff --git a/rec/termrec.c b/rec/termrec.c
index 0ce468a..7c14311 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -149,6 +149,7 @@ int main(int argc, char **argv)
     char buf[BS];
     int r, err;
     struct timeval tv;
+    sigset_t mask, oldmask;
 
     setlocale(LC_CTYPE, "");
     get_rec_parms(argc, argv);
@@ -181,15 +182,13 @@ int main(int argc, char **argv)
 
     setsignals();
     tty_raw();
+    sigemptyset(&mask);
+    sigaddset(&mask, SIGWINCH);
 
     while (!broken_pipe)
     {
-        FD_ZERO(&rfds);
-        FD_SET(0, &rfds);
-        FD_SET(ptym, &rfds);
-        r=select(ptym+1, &rfds, 0, 0, 0);
-        err=errno;
-
+        // a resize just before select() would go unnoticed until something else happens
+        sigprocmask(SIG_BLOCK, &mask, &oldmask);
         if (need_resize)
         {
             need_resize=0;
@@ -197,6 +196,13 @@ int main(int argc, char **argv)
             record_size();
         }
 
+        FD_ZERO(&rfds);
+        FD_SET(0, &rfds);
+        FD_SET(ptym, &rfds);
+        r=pselect(ptym+1, &rfds, 0, 0, 0, &oldmask);
+        err=errno;
+        sigprocmask(SIG_SETMASK, &oldmask, 0);
+
         switch (r)
         {
         case 0:
-- 
2.43.0


From 3404bf743c40b6cce117bcc341576b810137e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 64/66] fix: streams, termrec: don't leak pipes to child
 processes

---
 libstream/stream.c | 6 ++++++
 rec/termrec.c      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/libstream/stream.c b/libstream/stream.c
index 4bfd12b..90e1575 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -2,6 +2,7 @@
 #include <string.h>
 #include <errno.h>
 #include <unistd.h>
+#include <fcntl.h>
 #ifndef WIN32
 # include <signal.h>
 #endif
@@ -117,6 +118,11 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
         *error=strerror(errno);
         goto failpipe;
     }
+#ifdef FD_CLOEXEC
+    // if a child kept these open, we'd never see the end
+    fcntl(p[0], F_SETFD, FD_CLOEXEC);
+    fcntl(p[1], F_SETFD, FD_CLOEXEC);
+#endif
     if (!(fdata=malloc(sizeof(struct filterdata))))
     {
         *error="Out of memory";
diff --git a/rec/termrec.c b/rec/termrec.c
index 7c14311..20dc2e3 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -16,6 +16,7 @@
 #include <sys/wait.h>
 #include <unistd.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <stdlib.h>
 #include <signal.h>
 #include <locale.h>
@@ -159,6 +160,8 @@ int main(int argc, char **argv)
         fprintf(stderr, "Can't open %s\n", record_name);
         return 1;
     }
+    // processes left behind by the program would keep the compressor waiting
+    fcntl(record_f, F_SETFD, FD_CLOEXEC);
     if (!command)
         command=getenv("SHELL");
     if (!command)
-- 
2.43.0


From be82e5ffedbd3b9b3233dbcf04d568e1cc1f2e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 65/66] fix: termrec -a without a file name never worked

The name made up is that of a file which doesn't exist yet.
---
 common/open_out.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/open_out.c b/common/open_out.c
index 744a4e9..978bc27 100644
--- a/common/open_out.c
+++ b/common/open_out.c
@@ -69,7 +69,7 @@ int open_out(char **file_name, const char *format_ext, int append)
         {
             if (asprintf(file_name, "%s%s%s%s", date, add, format_ext, append?"":comp_ext) == -1)
                 abort();
-            fd=open(*file_name, (append?O_APPEND:O_CREAT|O_EXCL)|O_WRONLY|O_BINARY, 0666);
+            fd=open(*file_name, (append?O_CREAT|O_APPEND:O_CREAT|O_EXCL)|O_WRONLY|O_BINARY, 0666);
             // We do some autoconf magic to exclude O_BINARY when inappropriate.
             if (fd!=-1)
                 goto finish;
-- 
2.43.0


From 99c395403105404d0916b65bfa24a08057e7a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 66/66] fix: termplay: restore the terminal when killed by a
 signal

---
 play/termplay.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/play/termplay.c b/play/termplay.c
index a76cdab..4634eb9 100644
--- a/play/termplay.c
+++ b/play/termplay.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <getopt.h>
 #include <stdlib.h>
+#include <signal.h>
 #include <locale.h>
 #if HAVE_TERMIOS_H
 # include <termios.h>
@@ -146,14 +147,28 @@ static int loader(void *arg)
 
 static struct termios old_tattr;
 
+static void sigend(int s)
+{
+    tcsetattr(0,TCSANOW,&old_tattr);
+    signal(s, SIG_DFL);
+    raise(s);
+}
+
 static void kbd_raw(void)
 {
+    static const int sigs[]={SIGINT, SIGHUP, SIGQUIT, SIGTERM};
     struct termios tattr;
+    struct sigaction sa;
+    unsigned i;
 
     if (!isatty(0))
         return;
 
     tcgetattr(0,&old_tattr);
+    // don't leave the terminal raw if we get killed
+    for (i=0; i<sizeof(sigs)/sizeof(sigs[0]); i++)
+        if (!sigaction(sigs[i], 0, &sa) && sa.sa_handler!=SIG_IGN)
+            signal(sigs[i], sigend);
     tattr=old_tattr;
     // cfmakeraw(&tattr);
     tattr.c_iflag &= ~(IGNBRK|BRKINT|PARMRK|ISTRIP
-- 
2.43.0

