From ca4ed352a3ca6cb7851252df12d59fba442c01c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 01/45] fix: as/x64: do not emit a REX prefix for %ah..%bh, it
 turns them into %spl..%dil

---
 src/as/arch/x64/asm_code.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 33ca14d..2f1f639 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -55,9 +55,7 @@ static unsigned char *put_rex0(unsigned char *p, enum RegSize size, int sno, int
 
 #define MAKE_REX0(size, sno, dno, opcode) \
   (size) == REG16 ? 0x66 : -1, \
-  ((sno) >= 8 || (dno) >= 8 || \
-      ((size) == REG8 && ((sno) >= 4 || (dno) >= 4)) || \
-      (size) == REG64) \
+  ((sno) >= 8 || (dno) >= 8 || (size) == REG64) \
     ? (0x40 | (((dno) & 8) >> 3) | (((sno) & 8) >> 1) | ((size) != REG64 ? 0 : 8)) : -1, \
   opcode
 
-- 
2.43.0


From 0350104ea46ca563f64989bb60c98c97f6b72b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 02/45] fix: as/x64: %r12 and %r13 base need the SIB byte and
 the displacement as %rsp and %rbp do

---
 src/as/arch/x64/asm_code.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 2f1f639..b994b75 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -76,8 +76,8 @@ static unsigned char *put_rex2(unsigned char *p, enum RegSize size, int sno, int
 #define MAKE_REX_INDIRECT(size, reg, indirect_reg, opcode, op2, offset) \
   MAKE_REX0(size, reg, indirect_reg, \
             (size) == REG8 ? opcode : (unsigned char)((opcode) + 1)), \
-  (((offset) == 0 && indirect_reg != RBP - RAX) ? op2 : is_im8(offset) ? 0x40 : 0x80) | (indirect_reg & 7) | ((reg & 7) << 3), \
-  indirect_reg == RSP - RAX ? 0x24 : -1
+  (((offset) == 0 && (indirect_reg & 7) != RBP - RAX) ? op2 : is_im8(offset) ? 0x40 : 0x80) | (indirect_reg & 7) | ((reg & 7) << 3), \
+  (indirect_reg & 7) == RSP - RAX ? 0x24 : -1
 
 #define MAKE_OFFSET(offset, no) \
   ((offset) == 0 && no) ? -1 : (offset) & 0xff, \
-- 
2.43.0


From faa59ad795891ae290b8463c419418852b99857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 03/45] fix: as/x64: movsx/movzx from %ah..%bh must not have a
 REX prefix

---
 src/as/arch/x64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index b994b75..516e117 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -35,7 +35,7 @@ static inline char opr_regno(const Reg *reg) {
 
 static inline bool opr_reg8(const Reg *reg) {
   assert(reg->size == REG8);
-  return opr_regno(reg) < 4;
+  return opr_regno(reg) < 8;
 }
 
 static inline bool assemble_error(ParseInfo *info, const char *message) {
-- 
2.43.0


From 02799d5d5dd917a753feee3eb904bb91f673c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 04/45] fix: as/x64: subq with a memory offset was encoded as
 addq

---
 src/as/arch/x64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 516e117..80dec4f 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -964,7 +964,7 @@ static unsigned char *asm_subq_imi(Inst *inst, Code *code) {
       long offset = inst->opr[1].indirect.offset.expr->fixnum;
       unsigned char sno = 0;
       unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-      unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x28 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
+      unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x28 : is_im8(offset) ? (unsigned char)0x68 : (unsigned char)0xa8;
       short buf[] = {
         (unsigned char)0x48 | ((dno & 8) >> 3) | ((sno & 8) >> 1),
         (is_im8(value) ? 0x83 : 0x81),
-- 
2.43.0


From 0e8c7cd65e9f3c3323941d9be0db6d20bcf68225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 05/45] fix: as/x64: neg and not on 8bit registers were encoded
 as 32bit ones

---
 src/as/arch/x64/asm_code.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 80dec4f..d6eb993 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -1036,14 +1036,14 @@ static unsigned char *asm_idiv_r(Inst *inst, Code *code) {
 static unsigned char *asm_neg_r(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
   p = put_rex1(p, inst->opr[0].reg.size,
-               0xd8, opr_regno(&inst->opr[0].reg), 0xf7);
+               0xd8, opr_regno(&inst->opr[0].reg), inst->opr[0].reg.size == REG8 ? 0xf6 : 0xf7);
   return p;
 }
 
 static unsigned char *asm_not_r(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
   p = put_rex1(p, inst->opr[0].reg.size,
-               0xd0, opr_regno(&inst->opr[0].reg), 0xf7);
+               0xd0, opr_regno(&inst->opr[0].reg), inst->opr[0].reg.size == REG8 ? 0xf6 : 0xf7);
   return p;
 }
 
-- 
2.43.0


From 538ae9eb711000d9285448a8884a31d2e6250e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 06/45] fix: as/x64: refuse mov label(%rip) to a register
 narrower than 64bit, it was encoded as 64bit

---
 src/as/arch/x64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index d6eb993..66cb31e 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -158,7 +158,7 @@ static unsigned char *asm_mov_ir(Inst *inst, Code *code) {
       return p;
     }
   } else {
-    if (inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM) {
+    if (inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM && inst->opr[1].reg.size == REG64) {
       int pre = !inst->opr[1].reg.x ? 0x48 : 0x4c;
       int d = inst->opr[1].reg.no;
       MAKE_CODE(inst, code, pre, 0x8b, 0x05 | (d << 3), IM32(0));
-- 
2.43.0


From 3e6280a7871590445ab18ca9ae566e3afc41976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 07/45] fix: as/x64: mov %fs:ofs ignored its destination
 register

---
 src/as/arch/x64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 66cb31e..96217e7 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -282,7 +282,7 @@ static unsigned char *asm_mov_sr(Inst *inst, Code *code) {
     if (offset == NULL || offset->kind == EX_FIXNUM) {
       uint64_t value = offset == NULL ? 0 : offset->fixnum;
       short buf[] = {
-        0x64, 0x48, 0x8b, 0x04, 0x25,
+        0x64, 0x48 | (inst->opr[1].reg.x << 2), 0x8b, 0x04 | (inst->opr[1].reg.no << 3), 0x25,
       };
       unsigned char *p = code->buf;
       p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-- 
2.43.0


From d9ea2e801f716040aa7241cfca1dc41494b8f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 08/45] fix: as/x64: mov to and from a direct address lost the
 address and the upper registers

---
 src/as/arch/x64/asm_code.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 96217e7..78ad271 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -243,17 +243,17 @@ static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
 static unsigned char *asm_mov_dr(Inst *inst, Code *code) {
   enum RegSize size = inst->opr[1].reg.size;
   int dno = opr_regno(&inst->opr[1].reg);
-  short prefix = size == REG16 ? 0x66 : size == REG64 ? 0x48 : -1;
+  Expr *expr = inst->opr[0].direct.expr;
+  long address = expr->kind == EX_FIXNUM ? expr->fixnum : 0;
   short buf[] = {
-    prefix,
-    size == REG8 ? 0x8a : 0x8b,
+    MAKE_REX0(size, dno, 0, size == REG8 ? 0x8a : 0x8b),
     ((dno & 7) << 3) | 0x04,
     0x25,
   };
   unsigned char *p = code->buf;
   p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
 
-  PUT_CODE(p, IM32(0));
+  PUT_CODE(p, IM32(address));
   p += 4;
   return p;
 }
@@ -261,17 +261,17 @@ static unsigned char *asm_mov_dr(Inst *inst, Code *code) {
 static unsigned char *asm_mov_rd(Inst *inst, Code *code) {
   enum RegSize size = inst->opr[0].reg.size;
   int sno = opr_regno(&inst->opr[0].reg);
-  short prefix = size == REG16 ? 0x66 : size == REG64 ? 0x48 : -1;
+  Expr *expr = inst->opr[1].direct.expr;
+  long address = expr->kind == EX_FIXNUM ? expr->fixnum : 0;
   short buf[] = {
-    prefix,
-    size == REG8 ? 0x88 : 0x89,
+    MAKE_REX0(size, sno, 0, size == REG8 ? 0x88 : 0x89),
     ((sno & 7) << 3) | 0x04,
     0x25,
   };
   unsigned char *p = code->buf;
   p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
 
-  PUT_CODE(p, IM32(0));
+  PUT_CODE(p, IM32(address));
   p += 4;
   return p;
 }
-- 
2.43.0


From eaabc8324acae608899483da5202e8bc5ad9d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 09/45] fix: as/x64: indexed lea with %rsp or %r13 base

---
 src/as/arch/x64/asm_code.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 78ad271..efb6b82 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -731,7 +731,7 @@ static unsigned char *asm_lea_iir(Inst *inst, Code *code) {
       int breg = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
       int ireg = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
       int dreg = opr_regno(&inst->opr[1].reg);
-      bool noofs = offset == 0 && breg != RBP - RAX;
+      bool noofs = offset == 0 && (breg & 7) != RBP - RAX;
       int pow = most_significant_bit(scale);
       assert(IS_POWER_OF_2(scale) && pow < 4);
       short buf[] = {
@@ -739,7 +739,6 @@ static unsigned char *asm_lea_iir(Inst *inst, Code *code) {
         0x8d,
         (noofs ? 0x00 : is_im8(offset) ? 0x40 : 0x80) | ((dreg & 7) << 3) | 0x04,
         (breg & 7) | ((ireg & 7) << 3) | (pow << 6),
-        breg == RSP - RAX ? 0x24 : -1,
       };
 
       unsigned char *p = code->buf;
-- 
2.43.0


From 8e1f59bc5ae56a4c4164de67ef180c9373af7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 10/45] fix: as/x64: indirect jmp through %rsp, %rbp, %r12 and
 %r13

---
 src/as/arch/x64/asm_code.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index efb6b82..8b181f6 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -1429,15 +1429,16 @@ static unsigned char *asm_jmp_dei(Inst *inst, Code *code) {
   if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM)) {
     long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
     if (is_im32(offset)) {
-      short offset_bit = offset == 0 ? 0x20 : is_im8(offset) ? 0x60 : 0xa0;
       short b = inst->opr[0].indirect.reg.no;
+      short offset_bit = offset == 0 && b != RBP - RAX ? 0x20 : is_im8(offset) ? 0x60 : 0xa0;
       short buf[] = {
         inst->opr[0].indirect.reg.x ? 0x41 : -1,
         0xff, offset_bit | b,
+        b == RSP - RAX ? 0x24 : -1,
       };
       unsigned char *p = code->buf;
       p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset != 0) {
+      if (offset != 0 || b == RBP - RAX) {
         if (is_im8(offset)) {
           *p++ = IM8(offset);
         } else {
-- 
2.43.0


From 00ed9dc2a1ce7b3117ac2a7016d5d5bb4a11ddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 11/45] fix: as/x64: indexed mov used a wrong operand size with
 upper registers and lost the offset with %rbp, %r13

---
 src/as/arch/x64/asm_code.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 8b181f6..1e5f19a 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -204,7 +204,6 @@ static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
   if (inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM) {
     long offset = inst->opr[0].indirect_with_index.offset->fixnum;
     assert(is_im32(offset));
-    short offset_bit = offset == 0 ? 0x04 : is_im8(offset) ? 0x44 : 0x84;
     enum RegSize size = inst->opr[1].reg.size;
     assert(inst->opr[0].indirect_with_index.base_reg.no != RIP);
     int bno = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
@@ -216,10 +215,12 @@ static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
       scale_bit = most_significant_bit(scale_expr->fixnum);
       assert(IS_POWER_OF_2(scale_expr->fixnum) && scale_bit < 4);
     }
+    bool noofs = offset == 0 && (bno & 7) != RBP - RAX;
+    short offset_bit = noofs ? 0x04 : is_im8(offset) ? 0x44 : 0x84;
     short x = ((bno & 8) >> 3) | ((ino & 8) >> 2) | ((dno & 8) >> 1);
-    short prefix = size == REG16 ? 0x66 : size == REG64 || x != 0 ? 0x48 | x : -1;
     short buf[] = {
-      prefix,
+      size == REG16 ? 0x66 : -1,
+      size == REG64 || dno >= 8 || x != 0 ? 0x40 | (size == REG64 ? 8 : 0) | x : -1,
       size == REG8 ? 0x8a : 0x8b,
       ((dno & 7) << 3) | offset_bit,
       (scale_bit << 6) | ((ino & 7) << 3) | (bno & 7),
@@ -227,7 +228,7 @@ static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
     unsigned char *p = code->buf;
     p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
 
-    if (offset != 0) {
+    if (!noofs) {
       if (is_im8(offset)) {
         *p++ = IM8(offset);
       } else {
-- 
2.43.0


From a930baed8d1ba19a3519172d735c662c1d1d0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 12/45] fix: as/x64: indexed add and sub handle every operand
 size, offset, scale and base register

---
 src/as/arch/x64/asm_code.c | 54 +++++---------------------------------
 1 file changed, 6 insertions(+), 48 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 1e5f19a..b49a48b 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -200,7 +200,7 @@ static unsigned char *asm_mov_ri(Inst *inst, Code *code) {
   return NULL;
 }
 
-static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
+static unsigned char *assemble_iir(Inst *inst, Code *code, unsigned char op) {
   if (inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM) {
     long offset = inst->opr[0].indirect_with_index.offset->fixnum;
     assert(is_im32(offset));
@@ -221,7 +221,7 @@ static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
     short buf[] = {
       size == REG16 ? 0x66 : -1,
       size == REG64 || dno >= 8 || x != 0 ? 0x40 | (size == REG64 ? 8 : 0) | x : -1,
-      size == REG8 ? 0x8a : 0x8b,
+      op | (size == REG8 ? 0 : 1),
       ((dno & 7) << 3) | offset_bit,
       (scale_bit << 6) | ((ino & 7) << 3) | (bno & 7),
     };
@@ -241,6 +241,8 @@ static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
   return NULL;
 }
 
+static unsigned char *asm_mov_iir(Inst *inst, Code *code) { return assemble_iir(inst, code, 0x8a); }
+
 static unsigned char *asm_mov_dr(Inst *inst, Code *code) {
   enum RegSize size = inst->opr[1].reg.size;
   int dno = opr_regno(&inst->opr[1].reg);
@@ -815,29 +817,7 @@ static unsigned char *asm_add_ir(Inst *inst, Code *code) {
   return NULL;
 }
 
-static unsigned char *asm_add_iir(Inst *inst, Code *code) {
-  assert(inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM && inst->opr[0].indirect_with_index.offset->fixnum == 0);  // TODO
-  unsigned char scale = 0;
-  if (inst->opr[0].indirect_with_index.scale != NULL) {
-    assert(inst->opr[0].indirect_with_index.scale->kind == EX_FIXNUM);
-    int s = inst->opr[0].indirect_with_index.scale->fixnum;
-    scale = most_significant_bit(s);
-    assert(IS_POWER_OF_2(scale) && scale < 4);
-  }
-
-  unsigned char bno = inst->opr[0].indirect_with_index.base_reg.no;
-  unsigned char ino = inst->opr[0].indirect_with_index.index_reg.no;
-  unsigned char dno = inst->opr[1].reg.no;
-  short buf[] = {
-    (unsigned char)0x48 | (inst->opr[0].indirect_with_index.base_reg.x) | (inst->opr[0].indirect_with_index.index_reg.x << 1) | (inst->opr[1].reg.x << 2),
-    0x03,
-    0x04 | (dno << 3),
-    bno | (ino << 3) | (scale << 6),
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  return p;
-}
+static unsigned char *asm_add_iir(Inst *inst, Code *code) { return assemble_iir(inst, code, 0x02); }
 
 static unsigned char *asm_addq_imi(Inst *inst, Code *code) {
   if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
@@ -933,29 +913,7 @@ static unsigned char *asm_sub_ir(Inst *inst, Code *code) {
   return NULL;
 }
 
-static unsigned char *asm_sub_iir(Inst *inst, Code *code) {
-  assert(inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM && inst->opr[0].indirect_with_index.offset->fixnum == 0);  // TODO
-  unsigned char scale = 0;
-  if (inst->opr[0].indirect_with_index.scale != NULL) {
-    assert(inst->opr[0].indirect_with_index.scale->kind == EX_FIXNUM);
-    int s = inst->opr[0].indirect_with_index.scale->fixnum;
-    scale = most_significant_bit(s);
-    assert(IS_POWER_OF_2(scale) && scale < 4);
-  }
-
-  unsigned char bno = inst->opr[0].indirect_with_index.base_reg.no;
-  unsigned char ino = inst->opr[0].indirect_with_index.index_reg.no;
-  unsigned char dno = inst->opr[1].reg.no;
-  short buf[] = {
-    (unsigned char)0x48 | (inst->opr[0].indirect_with_index.base_reg.x) | (inst->opr[0].indirect_with_index.index_reg.x << 1) | (inst->opr[1].reg.x << 2),
-    0x2b,
-    0x04 | (dno << 3),
-    bno | (ino << 3) | (scale << 6),
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  return p;
-}
+static unsigned char *asm_sub_iir(Inst *inst, Code *code) { return assemble_iir(inst, code, 0x2a); }
 
 static unsigned char *asm_subq_imi(Inst *inst, Code *code) {
   if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
-- 
2.43.0


From 0db7409af89729cc9a84881a774e4148e4f37cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:33 +0000
Subject: [PATCH 13/45] fix: as/riscv64: add rd, rd, zero was encoded as c.jalr

---
 src/as/arch/riscv64/asm_code.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index ecbb1a4..3bc6b8a 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -80,9 +80,9 @@ static unsigned char *asm_3r(Inst *inst, Code *code) {
 
   switch (inst->op) {
   case ADD:
-    if (rd == rs1)
+    if (rd == rs1 && rs2 != ZERO)
       C_ADD(rd, rs2);
-    else if (rd == rs2)
+    else if (rd == rs2 && rs1 != ZERO)
       C_ADD(rd, rs1);
     else
       W_ADD(rd, rs1, rs2);
-- 
2.43.0


From c6ad66bde6a49674bf35df84c8701f23f3fc0b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:33 +0000
Subject: [PATCH 14/45] fix: as/riscv64: c.addiw is reserved for the zero
 register

---
 src/as/arch/riscv64/asm_code.c     | 4 ++--
 src/as/arch/riscv64/riscv64_code.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index 3bc6b8a..95b5fba 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -134,7 +134,7 @@ static unsigned char *asm_2ri(Inst *inst, Code *code) {
     if (is_im6(imm)) {
       switch (inst->op) {
       case ADDI:   if (imm != 0) { C_ADDI(rd, imm); return code->buf; } break;
-      case ADDIW:  C_ADDIW(rd, imm); return code->buf;
+      case ADDIW:  if (rd != ZERO) { C_ADDIW(rd, imm); return code->buf; } break;
       case ANDI:   if (is_rvc_reg(rd)) { C_ANDI(rd, imm); return code->buf; } break;
       default: break;
       }
@@ -254,7 +254,7 @@ static void li_sub(Inst *inst, Code *code, int64_t imm) {
       C_LUI(rd, imm);
     else
       W_LUI(rd, imm);
-    if (is_im6(l))
+    if (is_im6(l) && rd != ZERO)
       C_ADDIW(rd, l);
     else
       W_ADDIW(rd, rd, l);
diff --git a/src/as/arch/riscv64/riscv64_code.h b/src/as/arch/riscv64/riscv64_code.h
index f640c5f..953608d 100644
--- a/src/as/arch/riscv64/riscv64_code.h
+++ b/src/as/arch/riscv64/riscv64_code.h
@@ -166,7 +166,7 @@
 #define P_NOT(rd, rs)             W_XORI(rd, rs, -1)
 #define P_SEXT_B(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 56); else W_SLLI(rd, rs, 56); if (is_rvc_reg(rd)) C_SRAI(rd, 56); else W_SRAI(rd, rd, 56); } while (0)
 #define P_SEXT_H(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 48); else W_SLLI(rd, rs, 48); if (is_rvc_reg(rd)) C_SRAI(rd, 48); else W_SRAI(rd, rd, 48); } while (0)
-#define P_SEXT_W(rd, rs)          do { if ((rd) == (rs)) C_ADDIW(rd, 0); else W_ADDIW(rd, rs, 0); } while (0)
+#define P_SEXT_W(rd, rs)          do { if ((rd) == (rs) && (rd) != ZERO) C_ADDIW(rd, 0); else W_ADDIW(rd, rs, 0); } while (0)
 #define P_ZEXT_B(rd, rs)          W_ANDI(rd, rs, 0xff)
 #define P_ZEXT_H(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 48); else W_SLLI(rd, rs, 48); if (is_rvc_reg(rd)) C_SRLI(rd, 48); else W_SRLI(rd, rd, 48); } while (0)
 #define P_ZEXT_W(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 32); else W_SLLI(rd, rs, 32); if (is_rvc_reg(rd)) C_SRLI(rd, 32); else W_SRLI(rd, rd, 32); } while (0)
-- 
2.43.0


From 358c8cc71e2ef2da8e61ebd31eb3f72da340c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:33 +0000
Subject: [PATCH 15/45] fix: as/riscv64: li sp was encoded as c.addi16sp

---
 src/as/arch/riscv64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index 95b5fba..00fc6ff 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -250,7 +250,7 @@ static void li_sub(Inst *inst, Code *code, int64_t imm) {
       l = l - 0x1000;
       imm += 1 << 12;
     }
-    if (is_im6(imm >> 12))
+    if (is_im6(imm >> 12) && rd != SP)
       C_LUI(rd, imm);
     else
       W_LUI(rd, imm);
-- 
2.43.0


From 3df1d9a327ecaeb29a5124cef8ec9b80b069c8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:33 +0000
Subject: [PATCH 16/45] fix: as/riscv64: refuse a shift amount over 31 for
 srliw and sraiw

---
 src/as/arch/riscv64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index 00fc6ff..2cb4aa6 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -181,7 +181,7 @@ static unsigned char *asm_2ri(Inst *inst, Code *code) {
   case SRLIW:
   case SRAI:
   case SRAIW:
-    if (imm >= 64 || (inst->op == SLLIW && imm >= 32) || imm < 0)
+    if (imm >= 64 || ((inst->op == SLLIW || inst->op == SRLIW || inst->op == SRAIW) && imm >= 32) || imm < 0)
       return NULL;
     switch (inst->op) {
     case SLLI:   W_SLLI(rd, rs, imm); break;
-- 
2.43.0


From a0227daea18d280618885a1a134b24f53cdf9b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:33 +0000
Subject: [PATCH 17/45] fix: as/riscv64: jr zero and jalr zero were encoded as
 a reserved code and c.ebreak

---
 src/as/arch/riscv64/asm_code.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index 2cb4aa6..05e4c28 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -388,13 +388,19 @@ static unsigned char *asm_j(Inst *inst, Code *code) {
 
 static unsigned char *asm_jr(Inst *inst, Code *code) {
   int rs = inst->opr[0].reg.no;
-  C_JR(rs);
+  if (rs != ZERO)
+    C_JR(rs);
+  else
+    W_JALR(ZERO, rs, 0);
   return code->buf;
 }
 
 static unsigned char *asm_jalr(Inst *inst, Code *code) {
   int rs = inst->opr[0].reg.no;
-  C_JALR(rs);
+  if (rs != ZERO)
+    C_JALR(rs);
+  else
+    W_JALR(RA, rs, 0);
   return code->buf;
 }
 
-- 
2.43.0


From 9905c59c3fbdd8ce0cc1d3893db2c8adae314b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:33 +0000
Subject: [PATCH 18/45] fix: as/riscv64: c.sw stored to a wrong offset

---
 src/as/arch/riscv64/riscv64_code.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/riscv64_code.h b/src/as/arch/riscv64/riscv64_code.h
index 953608d..2256e4f 100644
--- a/src/as/arch/riscv64/riscv64_code.h
+++ b/src/as/arch/riscv64/riscv64_code.h
@@ -144,7 +144,7 @@
 #define C_SRAI(rd, imm)           MAKE_CODE16(inst, code, 0x8401 | (IMM(imm, 5, 5) << 12) | (to_rvc_reg(rd) << 7) | (IMM(imm, 4, 0) << 2))
 #define C_LW(rd, imm, rs)         MAKE_CODE16(inst, code, 0x4000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs) << 7) | (IMM(imm, 2, 2) << 6) | (IMM(imm, 6, 6) << 5) | (to_rvc_reg(rd) << 2))
 #define C_LD(rd, imm, rs)         MAKE_CODE16(inst, code, 0x6000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs) << 7) | (IMM(imm, 7, 6) << 5) | (to_rvc_reg(rd) << 2))
-#define C_SW(rs2, imm, rs1)       MAKE_CODE16(inst, code, 0xc000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (IMM(imm, 7, 6) << 5) | (to_rvc_reg(rs2) << 2))
+#define C_SW(rs2, imm, rs1)       MAKE_CODE16(inst, code, 0xc000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (IMM(imm, 2, 2) << 6) | (IMM(imm, 6, 6) << 5) | (to_rvc_reg(rs2) << 2))
 #define C_SD(rs2, imm, rs1)       MAKE_CODE16(inst, code, 0xe000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (IMM(imm, 7, 6) << 5) | (to_rvc_reg(rs2) << 2))
 #define C_LDSP(rd, imm)           MAKE_CODE16(inst, code, 0x6002 | (IMM(imm, 5, 5) << 12) | ((rd) << 7) | (IMM(imm, 4, 3) << 5) | (IMM(imm, 8, 6) << 2))
 #define C_SDSP(rs, imm)           MAKE_CODE16(inst, code, 0xe002 | (IMM(imm, 5, 3) << 10) | (IMM(imm, 8, 6) << 7) | ((rs) << 2))
-- 
2.43.0


From f83b4f6ecbd115ce2fce753c90fc9271afe51f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:33 +0000
Subject: [PATCH 19/45] fix: as/riscv64: c.ldsp is reserved for the zero
 register

---
 src/as/arch/riscv64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index 05e4c28..c0f2da9 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -310,7 +310,7 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
       W_LW(rd, ofs, rs);
       return code->buf;
     case LD:
-      if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == SP) {
+      if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == SP && rd != ZERO) {
         C_LDSP(rd, ofs);
         return code->buf;
       }
-- 
2.43.0


From cc2ace563611c4e62c484b9e2f9a10c67a259c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:33 +0000
Subject: [PATCH 20/45] fix: as/riscv64: refuse load and store offsets over
 12bit, they were silently truncated

---
 src/as/arch/riscv64/asm_code.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index c0f2da9..2174061 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -292,13 +292,13 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
     int rs = inst->opr[1].indirect.reg.no;
+    if (!is_im12(ofs))
+      return NULL;
     switch (inst->op) {
     case LB:
-      // TODO: Check offset range.
       W_LB(rd, ofs, rs);
       return code->buf;
     case LH:
-      // TODO: Check offset range.
       W_LH(rd, ofs, rs);
       return code->buf;
     case LW:
@@ -306,7 +306,6 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
         C_LW(rd, ofs, rs);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_LW(rd, ofs, rs);
       return code->buf;
     case LD:
@@ -318,19 +317,15 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
         C_LD(rd, ofs, rs);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_LD(rd, ofs, rs);
       return code->buf;
     case LBU:
-      // TODO: Check offset range.
       W_LBU(rd, ofs, rs);
       return code->buf;
     case LHU:
-      // TODO: Check offset range.
       W_LHU(rd, ofs, rs);
       return code->buf;
     case LWU:
-      // TODO: Check offset range.
       W_LWU(rd, ofs, rs);
       return code->buf;
     default: break;
@@ -345,13 +340,13 @@ static unsigned char *asm_sd(Inst *inst, Code *code) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
     int rs2 = inst->opr[0].reg.no;
     int rs1 = inst->opr[1].indirect.reg.no;
+    if (!is_im12(ofs))
+      return NULL;
     switch (inst->op) {
     case SB:
-      // TODO: Check offset range.
       W_SB(rs2, ofs, rs1);
       return code->buf;
     case SH:
-      // TODO: Check offset range.
       W_SH(rs2, ofs, rs1);
       return code->buf;
     case SW:
@@ -359,7 +354,6 @@ static unsigned char *asm_sd(Inst *inst, Code *code) {
         C_SW(rs2, ofs, rs1);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_SW(rs2, ofs, rs1);
       return code->buf;
     case SD:
@@ -371,7 +365,6 @@ static unsigned char *asm_sd(Inst *inst, Code *code) {
         C_SD(rs2, ofs, rs1);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_SD(rs2, ofs, rs1);
       return code->buf;
     default: break;
@@ -517,6 +510,8 @@ static unsigned char *asm_fld(Inst *inst, Code *code) {
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
     int rs = inst->opr[1].indirect.reg.no;
+    if (!is_im12(ofs))
+      return NULL;
     if (inst->op == FLD) {
       if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == SP) {
         C_FLDSP(rd, ofs);
@@ -527,7 +522,6 @@ static unsigned char *asm_fld(Inst *inst, Code *code) {
         return code->buf;
       }
     }
-    // TODO: Check offset range.
     switch (inst->op) {
     case FLD:  W_FLD(rd, ofs, rs); break;
     case FLW:  W_FLW(rd, ofs, rs); break;
@@ -544,6 +538,8 @@ static unsigned char *asm_fsd(Inst *inst, Code *code) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
     int rs2 = inst->opr[0].freg;
     int rs1 = inst->opr[1].indirect.reg.no;
+    if (!is_im12(ofs))
+      return NULL;
     if (inst->op == FSD) {
       if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs1 == SP) {
         C_FSDSP(rs2, ofs);
@@ -554,7 +550,6 @@ static unsigned char *asm_fsd(Inst *inst, Code *code) {
         return code->buf;
       }
     }
-    // TODO: Check offset range.
     switch (inst->op) {
     case FSD:  W_FSD(rs2, ofs, rs1); break;
     case FSW:  W_FSW(rs2, ofs, rs1); break;
-- 
2.43.0


From 04a440a5e89252297e1d8a42c9d038afe65bfd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:42 +0000
Subject: [PATCH 21/45] fix: cc: constant left operand was looked for in the
 right operand, and 1/x would have become x

---
 src/cc/frontend/fe_misc.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b97f692..2c493fb 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -872,15 +872,13 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           break;
         }
 #endif
-        Fixnum lval = rhs->fixnum;
+        Fixnum lval = lhs->fixnum;
         switch (kind) {
         case EX_MUL:
           if (lval == 0)
             return new_expr_bop(EX_COMMA, lhs->type, tok, rhs, lhs);  // 0
           if (lval == -1)
             return new_expr_unary(EX_NEG, rhs->type, rhs->token, rhs);  // -rhs
-          // Fallthrough.
-        case EX_DIV:
           if (lval == 1)
             return rhs;  // no effect.
           break;
-- 
2.43.0


From 7f1d96cc1db50fa634fbe6cc95b6da178db6d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:17 +0000
Subject: [PATCH 22/45] fix: cc: the sum of two constants had the wrong type (1
 - 2u was int), unsigned constants became negative doubles

---
 src/cc/frontend/fe_misc.c | 35 ++++++-----------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 2c493fb..27a3866 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -923,11 +923,13 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
   assert(ltype != NULL);
   assert(rtype != NULL);
   if (is_number(ltype) && is_number(rtype)) {
+    cast_numbers(&lhs, &rhs, true);
+    type = lhs->type;
     if (is_const(lhs) && is_const(rhs)) {
 #ifndef __NO_FLONUM
-      if (is_flonum(lhs->type) || is_flonum(rhs->type)) {
-        Flonum lval = is_flonum(lhs->type) ? lhs->flonum : lhs->fixnum;
-        Flonum rval = is_flonum(rhs->type) ? rhs->flonum : rhs->fixnum;
+      if (is_flonum(type)) {
+        Flonum lval = lhs->flonum;
+        Flonum rval = rhs->flonum;
         Flonum value;
         switch (kind) {
         case EX_ADD:     value = lval + rval; break;
@@ -937,28 +939,9 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
           value = -1;  // Dummy
           break;
         }
-        Type *type = lhs->type;
-        if (is_flonum(rhs->type))
-          type = rhs->type;
-        if (is_flonum(type)) {
-          return new_expr_flolit(type, lhs->token, value);
-        } else {
-          Fixnum fixnum = value;
-          return new_expr_fixlit(type, lhs->token, fixnum);
-        }
+        return new_expr_flolit(type, lhs->token, value);
       }
 #endif
-      enum FixnumKind lnt = ltype->fixnum.kind;
-      enum FixnumKind rnt = rtype->fixnum.kind;
-      if (lnt >= FX_ENUM) {
-        ltype = &tyInt;
-        lnt = FX_INT;
-      }
-      if (rnt >= FX_ENUM) {
-        rtype = &tyInt;
-        rnt = FX_INT;
-      }
-
       Fixnum lval = lhs->fixnum;
       Fixnum rval = rhs->fixnum;
       Fixnum value;
@@ -970,15 +953,9 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
         value = -1;
         break;
       }
-      Type *type = lnt >= rnt ? ltype : rtype;
-      if (type->fixnum.kind < FX_INT)
-        type = &tyInt;
       return new_expr_fixlit(type, lhs->token,
                              wrap_value(value, type_size(type), type->fixnum.is_unsigned));
     }
-
-    cast_numbers(&lhs, &rhs, true);
-    type = lhs->type;
   } else if (ptr_or_array(ltype)) {
     if (is_fixnum(rtype->kind)) {
       type = ltype;
-- 
2.43.0


From dddb3bf7128948598c4767e5df06da19ebcff310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:45 +0000
Subject: [PATCH 23/45] fix: cc: the type of ?: with int/unsigned or
 float/double arms

---
 src/cc/frontend/fe_misc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 27a3866..1d05fd0 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1547,10 +1547,8 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
     return choose_ternary_result_type(fval, tval);  // Make ttype to pointer, and check again.
   } else if (is_number(ttype) && is_number(ftype)) {
     if (is_flonum(ttype)) {
-      // TODO: Choose lager one.
-      // if (is_flonum(ftype)) {
-      //   return ttype;
-      // }
+      if (is_flonum(ftype) && ftype->flonum.kind > ttype->flonum.kind)
+        return ftype;
       return ttype;
     } else if (is_flonum(ftype)) {
       return ftype;
@@ -1561,7 +1559,9 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
       ttype = &tyInt;
     if (ftype->fixnum.kind >= FX_ENUM)
       ftype = &tyInt;
-    return ttype->fixnum.kind > ftype->fixnum.kind ? ttype : ftype;
+    int t = (type_size(ttype) << 1) | (ttype->fixnum.is_unsigned ? 1 : 0);
+    int f = (type_size(ftype) << 1) | (ftype->fixnum.is_unsigned ? 1 : 0);
+    return t > f ? ttype : ftype;
   }
   return NULL;
 }
-- 
2.43.0


From 256855a6e2652fc41985ce5eb8a7ea7888a27b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:48 +0000
Subject: [PATCH 24/45] fix: cc: x * 0.0 is not 0.0 for NaN, infinities and
 negative x

---
 src/cc/frontend/fe_misc.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 1d05fd0..74f077f 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -814,8 +814,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum rval = rhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (rval == 0.0)
-              return new_expr_bop(EX_COMMA, rhs->type, tok, lhs, rhs);  // 0.0
             if (rval == -1.0)
               return new_expr_unary(EX_NEG, lhs->type, lhs->token, lhs);  // -lhs
             // Fallthrough.
@@ -860,8 +858,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum lval = lhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (lval == 0.0)
-              return new_expr_bop(EX_COMMA, lhs->type, tok, rhs, lhs);  // 0.0
             if (lval == 1.0)
               return rhs;  // no effect.
             if (lval == -1.0)
-- 
2.43.0


From ff9b9a552aaf4940c8fe70219271ac5ecc4bf47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:04 +0000
Subject: [PATCH 25/45] fix: cc: !(a < b) was compiled as a >= b, which is
 wrong for NaN

---
 src/cc/frontend/fe_misc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 74f077f..4b23c5b 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1308,6 +1308,10 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
           p->kind = (EX_EQ + EX_NE) - p->kind;  // EQ <-> NE
         return p;
       case EX_LT: case EX_LE: case EX_GE: case EX_GT:
+#ifndef __NO_FLONUM
+        if (k == EX_EQ && is_flonum(p->bop.lhs->type))
+          break;  // `!(a < b)' is not `a >= b' if one of them is NaN.
+#endif
         if (k == EX_EQ)
           p->kind = EX_LT + ((p->kind - EX_LT) ^ 2);  // LT <-> GE, LE <-> GT
         return p;
-- 
2.43.0


From 59c054a64db2cd18188e14d01aaa1f80aeb8d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:07 +0000
Subject: [PATCH 26/45] fix: cc: floating constants were not rounded to their
 type

---
 src/cc/frontend/ast.c     | 3 ++-
 src/cc/frontend/fe_misc.c | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/ast.c b/src/cc/frontend/ast.c
index d71075a..1e1b22a 100644
--- a/src/cc/frontend/ast.c
+++ b/src/cc/frontend/ast.c
@@ -100,7 +100,8 @@ Expr *new_expr_fixlit(Type *type, const Token *token, Fixnum fixnum) {
 Expr *new_expr_flolit(Type *type, const Token *token, Flonum flonum) {
   assert(type->kind == TY_FLONUM);
   Expr *expr = new_expr(EX_FLONUM, type, token);
-  expr->flonum = flonum;
+  // Round to the precision of the type (long double is same as double).
+  expr->flonum = type->flonum.kind == FL_FLOAT ? (float)flonum : (double)flonum;
   return expr;
 }
 #endif
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 4b23c5b..358215b 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -363,8 +363,7 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
         return new_expr_fixlit(type, sub->token, fixnum);
       }
       assert(type->kind == TY_FLONUM);
-      sub->type = type;
-      return sub;
+      return new_expr_flolit(type, sub->token, sub->flonum);
     case EX_FIXNUM:
       if (type->kind == TY_FLONUM) {
         Flonum flonum = (sub->type->kind != TY_FIXNUM || sub->type->fixnum.is_unsigned)
-- 
2.43.0


From a1387c06ec8a8e894fc0bf5273bf267b5a3027da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:32 +0000
Subject: [PATCH 27/45] fix: cc: the difference of constant pointers is signed

---
 src/cc/frontend/fe_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 358215b..8036f82 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -982,8 +982,8 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
       if (is_const(lhs) && is_const(rhs)) {
         assert(lhs->kind == EX_FIXNUM);
         assert(rhs->kind == EX_FIXNUM);
-        return new_expr_fixlit(&tySize, tok,
-                               (lhs->fixnum - rhs->fixnum) / type_size(ltype->pa.ptrof));
+        return new_expr_fixlit(&tySSize, tok,
+                               (lhs->fixnum - rhs->fixnum) / (ssize_t)type_size(ltype->pa.ptrof));
       }
       return new_expr_bop(EX_DIV, &tySSize, tok,
                           make_cast(&tySSize, tok,
-- 
2.43.0


From 5d60066de1c5daef9c6d29ce18b24e4c74dfc441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 28/45] fix: cc: the left operand of a shift assignment is
 promoted (bool <<= 2 stored 4)

---
 src/cc/frontend/fe_misc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 8036f82..82c5652 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1584,7 +1584,8 @@ static Expr *calc_assign_with(const Token *tok, Expr *lhs, Expr *rhs) {
       if (!is_fixnum(ltype->kind) || !is_fixnum(rtype->kind))
         parse_error(PE_FATAL, tok, "Cannot use `%.*s' except numbers.",
                     (int)(tok->end - tok->begin), tok->begin);
-      return new_expr_bop(kind, ltype, tok, lhs, rhs);
+      lhs = promote_to_int(lhs);
+      return new_expr_bop(kind, lhs->type, tok, lhs, rhs);
     }
   }
 }
-- 
2.43.0


From d938badc549f9e918bcb58039029f562811b293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 29/45] fix: libc: memchr did not find bytes above 0x7f

---
 libsrc/string/memchr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/memchr.c b/libsrc/string/memchr.c
index ab1e6e7..fce3a19 100644
--- a/libsrc/string/memchr.c
+++ b/libsrc/string/memchr.c
@@ -1,8 +1,9 @@
 #include "string.h"
 
 void *memchr(const void *buf, int c, size_t n) {
-  for (const char *p = buf, *e = p + n; p < e; ++p) {
-    if (*p == c)
+  unsigned char ch = c;
+  for (const unsigned char *p = buf, *e = p + n; p < e; ++p) {
+    if (*p == ch)
       return (void*)p;
   }
   return NULL;
-- 
2.43.0


From 2c096b94117618f1928c6bef55a0224507ca32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 30/45] fix: libc: memccpy did not copy the found byte and
 returned the wrong pointer

---
 libsrc/string/memccpy.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/memccpy.c b/libsrc/string/memccpy.c
index 427d8f7..a7133c7 100644
--- a/libsrc/string/memccpy.c
+++ b/libsrc/string/memccpy.c
@@ -3,6 +3,7 @@
 void *memccpy(void *dst, const void *src, int c, size_t n) {
   char *b = memchr(src, c, n);
   if (b != NULL)
-    n = b - (char *)src;
-  return memcpy(dst, src, n);
+    n = b + 1 - (char *)src;
+  memcpy(dst, src, n);
+  return b != NULL ? (char *)dst + n : NULL;
 }
-- 
2.43.0


From 8713c4e1b3b69a69dd33cfcbd969fc47e40edce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 31/45] fix: libc: stpcpy returned the address behind the
 terminator

---
 libsrc/string/stpcpy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/string/stpcpy.c b/libsrc/string/stpcpy.c
index 0eb7f51..ad1f34e 100644
--- a/libsrc/string/stpcpy.c
+++ b/libsrc/string/stpcpy.c
@@ -3,5 +3,5 @@
 char *stpcpy(char *dst, const char *src) {
   while ((*dst++ = *src++) != '\0')
     ;
-  return dst;
+  return dst - 1;
 }
-- 
2.43.0


From a81a3327a5cc77b2d48885f7f3a92705ad23dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 32/45] fix: libc: stpncpy did not pad with zeros and returned
 the wrong pointer

---
 libsrc/string/stpncpy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/stpncpy.c b/libsrc/string/stpncpy.c
index a6d7894..01c38ba 100644
--- a/libsrc/string/stpncpy.c
+++ b/libsrc/string/stpncpy.c
@@ -1,7 +1,9 @@
 #include "string.h"
 
 char *stpncpy(char *dst, const char *src, size_t n) {
-  for (; n > 0 && (*dst++ = *src++) != '\0'; --n)
-    ;
+  for (; n > 0 && *src != '\0'; --n)
+    *dst++ = *src++;
+  for (size_t i = 0; i < n; ++i)
+    dst[i] = '\0';
   return dst;
 }
-- 
2.43.0


From b01bf373763a0f1b58a35bdf2d9072301d7a119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 33/45] fix: libc: strncpy did not pad with zeros

---
 libsrc/string/strncpy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/strncpy.c b/libsrc/string/strncpy.c
index 9dcceae..3c3dfba 100644
--- a/libsrc/string/strncpy.c
+++ b/libsrc/string/strncpy.c
@@ -2,7 +2,9 @@
 
 char *strncpy(char *dst, const char *src, size_t n) {
   char *os = dst;
-  for (; n > 0 && (*dst++ = *src++) != '\0'; --n)
-    ;
+  for (; n > 0 && *src != '\0'; --n)
+    *dst++ = *src++;
+  for (; n > 0; --n)
+    *dst++ = '\0';
   return os;
 }
-- 
2.43.0


From 8b5fda1324bbda4ed96f375452a16a5d307e6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 34/45] fix: libc: strchr did not convert the character to char

---
 libsrc/string/strchr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsrc/string/strchr.c b/libsrc/string/strchr.c
index 296b9c0..4902c7e 100644
--- a/libsrc/string/strchr.c
+++ b/libsrc/string/strchr.c
@@ -1,8 +1,9 @@
 #include "string.h"
 
 char *strchr(const char *s, int c) {
+  char ch = c;
   for (;; ++s) {
-    if (*s == c)
+    if (*s == ch)
       return (char*)s;
     if (*s == '\0')
       return NULL;
-- 
2.43.0


From e9bedfa348aa971145d819700dda21a9f1b819ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 35/45] fix: libc: strrchr did not convert the character to
 char

---
 libsrc/string/strrchr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsrc/string/strrchr.c b/libsrc/string/strrchr.c
index b6bc79a..594e19d 100644
--- a/libsrc/string/strrchr.c
+++ b/libsrc/string/strrchr.c
@@ -2,8 +2,9 @@
 
 char *strrchr(const char *s, int c) {
   char *last = NULL;
+  char ch = c;
   for (;; ++s) {
-    if (*s == c)
+    if (*s == ch)
       last = (char*)s;
     if (*s == '\0')
       return last;
-- 
2.43.0


From fab947bf7770ba28243dead9adc5ec2dca1e55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 36/45] fix: libc: strcasecmp was case sensitive

---
 libsrc/string/strcasecmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsrc/string/strcasecmp.c b/libsrc/string/strcasecmp.c
index ed94ec0..42bcdf2 100644
--- a/libsrc/string/strcasecmp.c
+++ b/libsrc/string/strcasecmp.c
@@ -3,9 +3,9 @@
 
 int strcasecmp(const char *p, const char *q) {
   for (;; ++p, ++q) {
-    unsigned char c1 = *(unsigned char*)p;
-    unsigned char c2 = *(unsigned char*)q;
-    int d = (int)c1 - (int)c2;
+    int c1 = tolower(*(unsigned char*)p);
+    int c2 = tolower(*(unsigned char*)q);
+    int d = c1 - c2;
     if (d != 0)
       return d;
     if (c1 == 0)
-- 
2.43.0


From 766af8678b726bb2b90f0397e364df1d6d7a2286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 37/45] fix: libc: strndup read beyond the end of the string

---
 libsrc/string/strndup.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsrc/string/strndup.c b/libsrc/string/strndup.c
index ce14001..f366b53 100644
--- a/libsrc/string/strndup.c
+++ b/libsrc/string/strndup.c
@@ -2,6 +2,7 @@
 #include "stdlib.h"  // malloc
 
 char *strndup(const char *str, size_t size) {
+  size = strnlen(str, size);
   char *dup = malloc(size + 1);
   if (dup != NULL) {
     memcpy(dup, str, size);
-- 
2.43.0


From c19e63e6c0d85a0db886047bf6bdfc4e2e8a318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 38/45] fix: libc: strstr did not find the empty string at the
 end of a string

---
 libsrc/string/strstr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/strstr.c b/libsrc/string/strstr.c
index f8fa574..d542608 100644
--- a/libsrc/string/strstr.c
+++ b/libsrc/string/strstr.c
@@ -1,9 +1,10 @@
 #include "string.h"
 
 char *strstr(const char *s1, const char *s2) {
-  for (size_t len = strlen(s2); *s1 != '\0'; ++s1) {
+  for (size_t len = strlen(s2); ; ++s1) {
     if (strncmp(s1, s2, len) == 0)
       return (char*)s1;
+    if (*s1 == '\0')
+      return NULL;
   }
-  return NULL;
 }
-- 
2.43.0


From 1e28970886ab630b6be538c45f6308a833827ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 39/45] fix: libc: strtok_r stepped over the end of the string
 after the last token

---
 libsrc/string/strtok_r.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/strtok_r.c b/libsrc/string/strtok_r.c
index 07a17d7..f7382ff 100644
--- a/libsrc/string/strtok_r.c
+++ b/libsrc/string/strtok_r.c
@@ -8,7 +8,8 @@ char *strtok_r(char *src, const char *delim, char **ptr) {
     return NULL;
   char *r = *ptr;
   size_t n = strcspn(r, delim);
-  r[n] = '\0';
-  *ptr += n + 1;
+  *ptr += n;
+  if (**ptr != '\0')
+    *(*ptr)++ = '\0';
   return r;
 }
-- 
2.43.0


From f7d3a16ba6483760df2ed6cebf856e280027c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 40/45] fix: libc: fputs failed for the empty string, puts("")
 wrote nothing

---
 libsrc/stdio/fputs.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrc/stdio/fputs.c b/libsrc/stdio/fputs.c
index 0189ea1..f2c1f12 100644
--- a/libsrc/stdio/fputs.c
+++ b/libsrc/stdio/fputs.c
@@ -3,6 +3,7 @@
 
 // Result: Success => positive value, Failure => EOF
 int fputs(const char *s, FILE *fp) {
-  size_t result = fwrite(s, 1, strlen(s), fp);
-  return result != 0 ? result : EOF;
+  size_t len = strlen(s);
+  size_t result = fwrite(s, 1, len, fp);
+  return result == len ? 1 : EOF;
 }
-- 
2.43.0


From d0e4fa96533c8c82af7b87f68c900ffe42fc5b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 41/45] fix: libc: fwrite of elements of size 0 divided by zero

---
 libsrc/stdio/fwrite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/stdio/fwrite.c b/libsrc/stdio/fwrite.c
index 29deac1..f5d2695 100644
--- a/libsrc/stdio/fwrite.c
+++ b/libsrc/stdio/fwrite.c
@@ -4,7 +4,7 @@
 #include "./_file.h"
 
 size_t fwrite(const void *buffer, size_t size, size_t count, FILE *fp) {
-  if (!(fp->flag & FF_WRITE))
+  if (!(fp->flag & FF_WRITE) || size == 0)
     return 0;
 
   ssize_t result = (fp->iof->write)(fp, buffer, size * count);
-- 
2.43.0


From 68ac835f6c3a98c30a0e94ccaea9bbdd61d8011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 42/45] fix: libc: fread of elements of size 0 divided by zero

---
 libsrc/stdio/fread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/stdio/fread.c b/libsrc/stdio/fread.c
index 67e0876..84506b6 100644
--- a/libsrc/stdio/fread.c
+++ b/libsrc/stdio/fread.c
@@ -3,7 +3,7 @@
 #include "./_file.h"
 
 size_t fread(void *buffer, size_t size, size_t count, FILE *fp) {
-  if (!(fp->flag & FF_READ))
+  if (!(fp->flag & FF_READ) || size == 0)
     return 0;
   ssize_t result = (fp->iof->read)(fp, buffer, size * count);
   return result >= 0 ? result / size : 0;
-- 
2.43.0


From 9e0c55e6f960b400563c1bb62e90463707549511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 43/45] fix: libc: calloc ignored overflow of the product

---
 libsrc/stdlib/calloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsrc/stdlib/calloc.c b/libsrc/stdlib/calloc.c
index 5b53244..f0d34b4 100644
--- a/libsrc/stdlib/calloc.c
+++ b/libsrc/stdlib/calloc.c
@@ -2,6 +2,8 @@
 #include "string.h"  // memset
 
 void *calloc(size_t nmemb, size_t size) {
+  if (size > 0 && nmemb > (size_t)-1 / size)
+    return NULL;
   size_t nbytes = nmemb * size;
   void *adr = malloc(nbytes);
   if (adr != NULL)
-- 
2.43.0


From ef5fb1eaeb732c206afcef8dfba78051623e30de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 44/45] fix: libc: strtol family: base 0 crashed, the 0x prefix
 was not accepted

---
 libsrc/stdlib/_strtoull_sub.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libsrc/stdlib/_strtoull_sub.c b/libsrc/stdlib/_strtoull_sub.c
index 016c418..347bb6f 100644
--- a/libsrc/stdlib/_strtoull_sub.c
+++ b/libsrc/stdlib/_strtoull_sub.c
@@ -1,6 +1,12 @@
 #include "ctype.h"  // isspace, tolower
 
 unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max) {
+  if ((base == 0 || base == 16) && *p == '0' && (p[1] | 0x20) == 'x' && isxdigit(p[2])) {
+    p += 2;
+    base = 16;
+  } else if (base == 0) {
+    base = *p == '0' ? 8 : 10;
+  }
   char digimax = '0' + (base <= 10 ? base : 10);
   char hexmax = 'a' - 10 + base;
   unsigned long long premax = max / base;
-- 
2.43.0


From 837cca25cfdfadb4f6362738a05e233b8f5e90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 45/45] fix: libc: strtoul and strtoull did not accept leading
 spaces and a minus sign

---
 libsrc/stdlib/strtoul.c  | 10 +++++++---
 libsrc/stdlib/strtoull.c |  7 ++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/libsrc/stdlib/strtoul.c b/libsrc/stdlib/strtoul.c
index d29abbf..ec7094b 100644
--- a/libsrc/stdlib/strtoul.c
+++ b/libsrc/stdlib/strtoul.c
@@ -1,14 +1,18 @@
 #include "stdlib.h"
+#include "ctype.h"  // isspace
+#include "stdbool.h"
 
+extern bool _parse_sign(const char **pp);
 extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
 
 unsigned long strtoul(const char *p, char **pp, int base) {
   const char *orig = p;
-  if (*p == '+')
-    ++p;
+  for (; isspace(*p); ++p)
+    ;
+  bool neg = _parse_sign(&p);
   char *q;
   unsigned long result = _strtoull_sub(p, &q, base, -1UL);
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
-  return result;
+  return neg ? -result : result;
 }
diff --git a/libsrc/stdlib/strtoull.c b/libsrc/stdlib/strtoull.c
index 5de6a7b..2f6caec 100644
--- a/libsrc/stdlib/strtoull.c
+++ b/libsrc/stdlib/strtoull.c
@@ -1,6 +1,8 @@
 #include "stdlib.h"
+#include "stdbool.h"
 #include "ctype.h"  // isspace
 
+extern bool _parse_sign(const char **pp);
 extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
 
 unsigned long long strtoull(const char *p, char **pp, int base) {
@@ -9,11 +11,10 @@ unsigned long long strtoull(const char *p, char **pp, int base) {
   for (; isspace(*p); ++p)
     ;
 
-  if (*p == '+')
-    ++p;
+  bool neg = _parse_sign(&p);
   char *q;
   unsigned long long result = _strtoull_sub(p, &q, base, -1ULL);
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
-  return result;
+  return neg ? -result : result;
 }
-- 
2.43.0

