From d1713d9417e873bf9bde673cb472151b882dc154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 01/20] fix: start a new object record when the code address is
 not contiguous

Bytes after a DUMMY section, or after a first ORG equal to the last address
of pass 1, were appended to (or labelled as) the previous record.
---
 src/scode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scode.c b/src/scode.c
index bc85b32..fd0ab2e 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -72,7 +72,7 @@ void insert8(unsigned char x)
   {
     if (scode != NULL)
     {
-      if (rawnumber >= 16)
+      if (rawnumber >= 16 || rawstart + rawnumber != pc)
       {
         flushscoderaw();
       }
-- 
2.43.0


From 97a0783474a81bd79e8fb2488c4ea47f9ca8a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 02/20] fix: report overflow of binary constants of more than
 32 bits

---
 src/operator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index e589756..b66c58d 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -164,7 +164,7 @@ void cstbinary(struct result* presult, char* s)
 
     r = *s - '0';
 
-    if (val > 0xefffffff)
+    if (val > 0x7fffffff)
     {
       error(overflow);
     }
-- 
2.43.0


From 7327e5e565fa08d64bf7a9c53b09296dce073f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 03/20] fix: do not write past the end of the pattern buffer

Lines with many comma separated operands or many operators overran the
4000 byte buffer.  Enlarge it and check the room left.
---
 src/filter.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/filter.c b/src/filter.c
index b4a88ed..551a584 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -31,7 +31,7 @@
 #define SPACES   '_'    /* saute X espaces, X>=0    */
 
 char* bufferpos;
-char buffer[4000];
+char buffer[65536];
 unsigned int chars_consumed_by_filter;
 
 /* zerobuffer()
@@ -59,6 +59,12 @@ int filter(char* s, char* fil, ...)
   char* str_start = (s) ? s : "";
 
   s = str_start;
+
+  if (strlen(s) + strlen(fil) + 1 > (size_t)(buffer + sizeof(buffer) - bufferpos))
+  {
+    fatal("line too complex");
+  }
+
   oldbufferpos = bufferpos;
   starts = NULL;
   startf = NULL;
-- 
2.43.0


From 70645c9051cd026e50a4700598e740c4c60b6a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 04/20] fix: report unterminated strings in ASC instead of
 reading past the line

---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 802939c..6b45e8d 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -232,6 +232,11 @@ int Xasc(int modifier, char* label, char* mnemo, char* oper)
 
   while ((r = *++s) != delimiter)
   {
+    if (r == 0)
+    {
+      error("unterminated string");
+    }
+
     if (r == '\\')
     {
       switch (*++s)
-- 
2.43.0


From 182ea08e84618c7f8b66fb3d6fce2edb91cd5d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 05/20] fix: long FAIL messages overflowed the error message
 buffer

---
 src/crasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index f09dcf3..a169db5 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -595,7 +595,7 @@ start:
 
 void error(char* s)
 {
-  char raw[80];
+  char raw[300];
   int oldflags;
   char c = toupper(*s);
 
@@ -603,7 +603,7 @@ void error(char* s)
 
   if (!(asmflags & F_NOERROR))
   {
-    sprintf(raw, "%7d ERROR: %c%s", linenumber, c, s + 1);
+    snprintf(raw, sizeof(raw), "%7d ERROR: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
     {
-- 
2.43.0


From bf0b359e55304dd8d0de8e9957249279e952f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 06/20] fix: 64 bit addresses overflowed the summary line
 buffer

---
 src/xref.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xref.c b/src/xref.c
index ed21d52..e782ef6 100644
--- a/src/xref.c
+++ b/src/xref.c
@@ -127,7 +127,7 @@ void result(void)
 {
   extern int errnumber;
   extern int warnnumber;
-  char buffer[40];
+  char buffer[80];
 
   if (plen - ppos < 10)
   {
-- 
2.43.0


From c5e54b7acae376ac57dcea5b7011d0ba036a5a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 07/20] fix: PAGE accepted a line length one larger than the
 line buffer holds

---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 389e396..b835d1f 100644
--- a/src/output.c
+++ b/src/output.c
@@ -82,7 +82,7 @@ void setpage(int xplen, int xllen)
     warning("page redefinition");
   }
 
-  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen > (int)sizeof(linebuffer))
+  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen >= (int)sizeof(linebuffer))
   {
     error("illegal values");
   }
-- 
2.43.0


From 9aad93271db77b92ba4483df2cae63233df1c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 08/20] fix: division of the most negative value by -1 crashed
 the assembler

---
 src/operator.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index b66c58d..6c659d0 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -412,7 +412,11 @@ void opdiv(struct result* presult, struct result* parg)
   presult->flags |= parg->flags;
   checktype(presult, L_ABSOLUTE);
   checktype(parg, L_ABSOLUTE);
-  if (parg->value != 0)
+  if (parg->value == -1)
+  {
+    presult->value = 0UL - presult->value;  /* LONG_MIN / -1 traps */
+  }
+  else if (parg->value != 0)
   {
     presult->value /= parg->value;
   }
-- 
2.43.0


From 503e83ab7244e5b9e3c22b8251f24aade3d9b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 09/20] fix: register ranges looped forever

---
 src/operator.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operator.c b/src/operator.c
index 6c659d0..3218ca7 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -344,6 +344,7 @@ void opsub(struct result* presult, struct result* parg)
     while (lo <= hi)
     {
       presult->value |= 1 << lo;
+      lo++;
     }
   }
   else
-- 
2.43.0


From 158f58ca95305462f4bea77cc2c31356304ce548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 10/20] fix: reject BIT zp,X and BIT abs,X unless the CPU is a
 65C02

---
 src/cpu6502.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 3964262..c8feea3 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -248,7 +248,8 @@ static int standard(int code, char* label, char* mnemo, char* oper)
   if (cpuflag < 2)
   {
     if (mode == 4 || opcode == 0x7c || opcode == 0x89 ||
-                     opcode == 0x1a || opcode == 0x3a)
+                     opcode == 0x1a || opcode == 0x3a ||
+                     opcode == 0x34 || opcode == 0x3c)
     {
       error("illegal use of 65C02 addressing mode");
     }
-- 
2.43.0


From d05522921f9796b485c138a8a6ddd29b30f82683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 11/20] fix: reject the accumulator operand for LDX, LDY, CPX,
 CPY, BIT, TSB and TRB

LDX A was assembled as TAX, BIT A as CLI, and so on.
---
 src/cpu6502.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index c8feea3..8bbfb40 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -185,6 +185,11 @@ static int standard(int code, char* label, char* mnemo, char* oper)
     if (mode == 10 && r->type == L_REGS && r->modifier == 0)
     {
       mode = 15;
+
+      if (code & F_noacc)
+      {
+        error("illegal addressing mode");
+      }
     }
     else
     {
-- 
2.43.0


From ba14efc9f9f5463f8c9795dd630df9b866708949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 12/20] fix: reject 16 bit registers and memory operands of Z80
 8 bit arithmetic

OR HL was assembled as CP D, OR (nn) as XOR A followed by two bytes.
---
 src/cpuz80.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 1a370cd..c590b4b 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -622,6 +622,10 @@ static int logical(int code, char* label, char* mnemo, char* oper)
     reg = 0x46;
     arg8flag = TRUE;
   }
+  else if (!isreg8(reg))
+  {
+    error(needreg8);
+  }
 
   return docode(code + reg);
 }
-- 
2.43.0


From d30dd558f14837c4ee73b02b4cbdcc042d7a2474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 13/20] fix: evaluate operators of the same level from left to
 right

3*2/4 was computed as 3*(2/4), 1<<4>>2 as 1<<(4>>2): the comparison of the
operand copies' addresses always kept the first operator of the table.
---
 src/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 9395b2e..111855c 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -133,7 +133,9 @@ static void parse2(char* expr, struct result* presult)
 
         if (filter(expr, q[i].filtre, &ca, &cb))
         {
-          if (cb < c2 || j < 0)
+          /* same level: the rightmost operator applies last,
+             unless it follows another operator (a+-b) */
+          if (j < 0 || (strlen(ca) < strlen(c1) && *cb != '+'))
           {
             c1 = ca;
             c2 = cb;
-- 
2.43.0


From bd535b9b499f660cc28e46bb3d019fb702875f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 14/20] fix: count warnings, the summary always reported zero

---
 src/crasm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crasm.c b/src/crasm.c
index a169db5..54d99d7 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -641,6 +641,7 @@ void warning(char* s)
     }
 
     outputraw(raw);
+    warnnumber++;
   }
 }
 
-- 
2.43.0


From 6ec9f721bab01e6f65a75c069fccfdb02bb8ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 15/20] fix: reject negative and forward defined sizes in DS

A negative size looped over the whole address space; a forward defined size
gave different label values in the two passes.
---
 src/pseudos.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 6b45e8d..3396d1a 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -185,8 +185,19 @@ int Xds(int modifier, char* label, char* mnemo, char* oper)
 
   r = parse(oper);
   checktype(r, L_ABSOLUTE);
+
+  if ((r->flags & UNDEF) && (r->flags & FORWARD))
+  {
+    error("forward defined expressions are illegal here");
+  }
+
   i = r->value;
 
+  if (i < 0)
+  {
+    error("negative size");
+  }
+
   while (i--)
   {
     insert8(init);
-- 
2.43.0


From c04df0cc4322c2b3a22947e11b9fed560e00e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 16/20] fix: stop reading an INCLUDE file after a read error

Including a directory looped forever.
---
 src/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index c107558..725e0ce 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -596,7 +596,7 @@ void linegets(char* buffer, int length)
       fflush(stderr);
     }
 
-    if (feof(source[slevel].filedesc.file))
+    if (feof(source[slevel].filedesc.file) || ferror(source[slevel].filedesc.file))
     {
       source[slevel].type = S_END;
     }
-- 
2.43.0


From feb3984a6419f22ee47891e39858bc473c87b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 17/20] fix: constants kept the bit number of an earlier bit
 reference

---
 src/operator.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operator.c b/src/operator.c
index 3218ca7..eaca5a8 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -36,6 +36,8 @@ static void cst(struct result* presult, long int val)
   presult->flags = 0;
   presult->type = L_ABSOLUTE;
   presult->value = val;
+  presult->modifier = 0;
+  presult->ptr = NULL;
 }
 
 static char overflow[] = "overflow";
-- 
2.43.0


From 4fe3ac8de90ca1c10ebc364e83b116312f80d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 18/20] fix: refuse character constants above 32 bits

The overflow test relied on a 32 bit long: with 64 bit longs, constants of
five to eight characters were accepted, unlike all other constants.
---
 src/operator.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/operator.c b/src/operator.c
index eaca5a8..1c1f319 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -181,7 +181,6 @@ void cstbinary(struct result* presult, char* s)
 
 void cstascii(struct result* presult, char* s)
 {
-  register unsigned long oval;
   register unsigned long val;
   register int r;
   register char delimit;
@@ -229,14 +228,12 @@ void cstascii(struct result* presult, char* s)
       }
     }
 
-    oval = val;
-
-    val = (val << 8) + r;
-
-    if ((val >> 8) != oval)
+    if (val > 0xffffff)
     {
       error(overflow);
     }
+
+    val = (val << 8) + r;
   }
 
   if (*++s)
-- 
2.43.0


From 65b9c2d68448d5ec0530e98f98618989201711b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 19/20] fix: Z80 bit instructions lost their size in pass 1 for
 forward bit numbers

---
 src/cpuz80.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index c590b4b..948ffeb 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -562,20 +562,20 @@ static int bitop(int code, char* label, char* mnemo, char* oper)
   r = parse(oper1);
   checktype(r, L_ABSOLUTE);
   bit = r->value;
+  reg = getreg(oper2);
 
-  if (bit < 0 || bit > 7)
+  if (! isreg8(reg))
   {
-    error("illegal bit number");
+    error(needreg8);
   }
 
-  reg = getreg(oper2);
+  docode(code + reg + ((bit & 7) << 3)); /* before testing the value */
 
-  if (! isreg8(reg))
+  if (bit < 0 || bit > 7)
   {
-    error(needreg8);
+    error("illegal bit number");
   }
 
-  docode(code + reg + (bit << 3));
   return 0;
 }
 
-- 
2.43.0


From 7dcf807069605fda22896707b0cfcde313c9f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 20/20] fix: ROR was accepted for the 6500, which does not have
 it

---
 src/cpu6502.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 8bbfb40..3de4242 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -244,7 +244,7 @@ static int standard(int code, char* label, char* mnemo, char* oper)
   /* test specials modes */
   if (cpuflag < 1)
   {
-    if (code == (0x60 | 0x100 | F_noimm | F_noindy))
+    if ((code & 0xffff) == (0x60 | 0x100 | F_noimm | F_noindy))
     {
       error("no ROR instruction on 6500");
     }
-- 
2.43.0

