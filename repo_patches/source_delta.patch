From 7aefefe0a489def4e5a3eaf64ee8c2980bde3298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 01/94] fix: IF/IFE/WHILE/.ERRE/.ERRNZ test all 64 bits of the
 expression

---
 condasm.c | 11 ++++++-----
 loop.c    |  8 ++++----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/condasm.c b/condasm.c
index 63e9ce4..c97a8af 100644
--- a/condasm.c
+++ b/condasm.c
@@ -255,7 +255,7 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
             /* v2.11: don't exit, assume 0 */
             //return( ERROR );
             opndx.kind = EXPR_CONST;
-            opndx.value = 0;
+            opndx.value64 = 0;
             i = Token_Count;
         }
 #if 0 /* v2.05: obsolete */
@@ -267,6 +267,7 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
             ;
         else if ( opndx.kind == EXPR_ADDR && opndx.indirect == FALSE ) {
             opndx.value += opndx.sym->offset;
+            opndx.hvalue = 0;
             /* v2.07: Masm doesn't accept a relocatable item,
              * so emit at least a warning!
              */
@@ -275,9 +276,9 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
             return( EmitError( CONSTANT_EXPECTED ) );
         }
         if ( directive == T_IF || directive == T_ELSEIF )
-            NextIfState = ( opndx.value ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
+            NextIfState = ( opndx.value64 ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
         else
-            NextIfState = ( !opndx.value ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
+            NextIfState = ( !opndx.value64 ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
         break;
     case CC_LITARG: /*  [ELSE]IFDIF[I], [ELSE]IFIDN[I] */
         string1 = tokenarray[i].string_ptr;
@@ -487,9 +488,9 @@ ret_code ErrorDirective( int i, struct asm_tok tokenarray[] )
         }
         if ( Parse_Pass == PASS_1 )
             break;
-        if ( direct == T_DOT_ERRNZ && opndx.value ) {
+        if ( direct == T_DOT_ERRNZ && opndx.value64 ) {
             errmsg = FORCED_NOT_ZERO;
-        } else if ( direct == T_DOT_ERRE && !opndx.value ) {
+        } else if ( direct == T_DOT_ERRE && !opndx.value64 ) {
             errmsg = FORCED_EQUAL;
         }
 
diff --git a/loop.c b/loop.c
index 3c7e5da..a6f8b8f 100644
--- a/loop.c
+++ b/loop.c
@@ -57,17 +57,17 @@ ret_code LoopDirective( int i, struct asm_tok tokenarray[] )
          * referenced symbols may be used here!
          */
         if ( EvalOperand( &i, tokenarray, Token_Count, &opnd, EXPF_NOUNDEF ) == ERROR ) {
-            opnd.value = 0;
+            opnd.value64 = 0;
             i = Token_Count;
         } else if ( opnd.kind != EXPR_CONST ) { /* syntax <REPEAT|WHILE 'A'> is valid! */
             DebugMsg(( "LoopDirective(%s): invalid argument type %u\n", GetResWName( directive, NULL ), opnd.kind ));
             EmitError( CONSTANT_EXPECTED );
-            opnd.value = 0;
+            opnd.value64 = 0;
         } else if( tokenarray[i].token != T_FINAL ) {
             EmitErr( SYNTAX_ERROR_EX, tokenarray[i].tokpos );
             /* v2.09: don't exit, the macro lines must be read first. */
             //return( ERROR );
-            opnd.value = 0;
+            opnd.value64 = 0;
         }
         break;
     default: /* FOR, FORC, IRP, IRPC */
@@ -213,7 +213,7 @@ ret_code LoopDirective( int i, struct asm_tok tokenarray[] )
         }
         break;
     case T_WHILE:
-        while ( opnd.kind == EXPR_CONST && opnd.value != 0 ) {
+        while ( opnd.kind == EXPR_CONST && opnd.value64 != 0 ) {
             DebugMsg1(("LoopDirective WHILE: cnt=%u\n", count++ ));
             RunMacro( macro, Token_Count, tokenarray, NULL, 0, &is_exitm );
             if ( is_exitm )
-- 
2.43.0


From 873ac0389afa7913116224ebf2ab57eb029fde47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 02/94] fix: struct field defaults keep 64-bit values of
 assembly-time variables

---
 expans.c | 6 +++---
 types.c  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/expans.c b/expans.c
index 24ef7a8..1d69e80 100644
--- a/expans.c
+++ b/expans.c
@@ -84,7 +84,7 @@ char *myqtoa(uint_64 value, char *buffer, unsigned radix, bool sign, bool addzer
 {
   char   *p;
   char   *dst = buffer;
-  char   tmpbuf[34];
+  char   tmpbuf[66]; /* 64 binary digits */
 #ifdef DEBUG_OUT
   uint_64 saved_value = value;
 #endif
@@ -97,11 +97,11 @@ char *myqtoa(uint_64 value, char *buffer, unsigned radix, bool sign, bool addzer
     *dst = NULLC;
     return(buffer);
     }
-  for (p = &tmpbuf[33], *p = NULLC; value; value = value / radix)
+  for (p = &tmpbuf[65], *p = NULLC; value; value = value / radix)
     *(--p) = __digits[value % radix];
   if (addzero && (*p > '9')) /* v2: add a leading '0' if first digit is alpha */
     *dst++ = '0';
-  memcpy(dst, p, &tmpbuf[33] + 1 - p);
+  memcpy(dst, p, &tmpbuf[65] + 1 - p);
   DebugMsg1(("myltoa( value=%" I32_SPEC "Xh, out=%s, radix=%u, sign=%u, %u)\n", saved_value, buffer, radix, sign, addzero));
   return(buffer);
 }
diff --git a/types.c b/types.c
index be9e008..e7af911 100644
--- a/types.c
+++ b/types.c
@@ -1264,7 +1264,7 @@ struct asym *CreateStructField( int loc, struct asm_tok tokenarray[], const char
                 if ( sym2 && sym2->variable ) {
                     if ( sym2->predefined && sym2->sfunc_ptr )
                         sym2->sfunc_ptr( sym2, NULL );
-                    myltoa( sym2->uvalue, init, ModuleInfo.radix, sym2->value3264 < 0, TRUE );
+                    myqtoa( (uint_64)sym2->value3264 << 32 | sym2->uvalue, init, ModuleInfo.radix, sym2->value3264 < 0, TRUE );
                     init += strlen( init );
                     *init++= ' ';
                     continue;
-- 
2.43.0


From 9f76766e03914d8f199f7523da00d25992281f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 03/94] fix: NOT, LOW, HIGH etc. of a character constant is a
 number, not the string

---
 expreval.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/expreval.c b/expreval.c
index 6f4e2d7..04f7711 100644
--- a/expreval.c
+++ b/expreval.c
@@ -2303,6 +2303,8 @@ static ret_code lowword_op( int oper, struct expr *opnd1, struct expr *opnd2, st
         opnd1->mem_type = MT_EMPTY;
     }
     opnd1->llvalue &= 0xffff;
+    if ( opnd1->kind == EXPR_CONST )
+        opnd1->quoted_string = NULL;
     return( NOT_ERROR );
 }
 
@@ -2316,6 +2318,8 @@ static ret_code highword_op( int oper, struct expr *opnd1, struct expr *opnd2, s
         opnd1->mem_type = MT_EMPTY;
     }
 	opnd1->llvalue = (opnd1->value >> 16) & 0xFFFF; /* ASMC v2.14 (fix borrowed from nidud) */
+    if ( opnd1->kind == EXPR_CONST )
+        opnd1->quoted_string = NULL;
     return( NOT_ERROR );
 }
 
@@ -2337,6 +2341,8 @@ static ret_code low_op( int oper, struct expr *opnd1, struct expr *opnd2, struct
         opnd1->instr = T_LOW;
         opnd1->mem_type = MT_EMPTY;
     }
+    if ( opnd1->kind == EXPR_CONST )
+        opnd1->quoted_string = NULL;
     opnd1->llvalue &= 0xff;
     return( NOT_ERROR );
 }
@@ -2358,6 +2364,8 @@ static ret_code high_op( int oper, struct expr *opnd1, struct expr *opnd2, struc
         opnd1->instr = T_HIGH;
         opnd1->mem_type = MT_EMPTY;
     }
+    if ( opnd1->kind == EXPR_CONST )
+        opnd1->quoted_string = NULL;
     opnd1->value = opnd1->value >> 8;
     opnd1->llvalue &= 0xff;
     return( NOT_ERROR );
@@ -2383,6 +2391,8 @@ static ret_code low32_op( int oper, struct expr *opnd1, struct expr *opnd2, stru
         opnd1->mem_type = MT_EMPTY;
     }
     opnd1->llvalue &= 0xffffffff;
+    if ( opnd1->kind == EXPR_CONST )
+        opnd1->quoted_string = NULL;
     return( NOT_ERROR );
 }
 
@@ -2404,6 +2414,8 @@ static ret_code high32_op( int oper, struct expr *opnd1, struct expr *opnd2, str
         opnd1->mem_type = MT_EMPTY;
     }
     opnd1->llvalue = opnd1->llvalue >> 32;
+    if ( opnd1->kind == EXPR_CONST )
+        opnd1->quoted_string = NULL;
     return( NOT_ERROR );
 }
 
@@ -3798,6 +3810,7 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
             }
             TokenAssign( opnd1, opnd2 );
             opnd1->llvalue = ~(opnd2->llvalue);
+            opnd1->quoted_string = NULL; /* the result is a number, not the string */
             break;
         }
 
-- 
2.43.0


From 6ef23343be73e7e844fa93ec619734de9c2ce436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 04/94] fix: SHR in 32-bit code treats only -1 as 32-bit value,
 on every host

---
 expreval.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreval.c b/expreval.c
index 04f7711..57f1cb5 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3774,8 +3774,8 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
 		             opnd1->llvalue = 0;
 	            else {
                 /* Nidud fix v2.28*/
-		            if ( opnd1->value == -1 && ModuleInfo.Ofssize == USE32 )
-		              opnd1->llvalue = (unsigned long)opnd1->llvalue >> opnd2->value;
+		            if ( opnd1->value64 == -1 && ModuleInfo.Ofssize == USE32 )
+		              opnd1->llvalue = (uint_64)(uint_32)opnd1->llvalue >> opnd2->value;
 		           else
 		             opnd1->llvalue = opnd1->llvalue >> opnd2->value;
 	            }
-- 
2.43.0


From 3abb54b683d8400e880473fd2a30cf37fbce4d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 05/94] fix: 128-bit negation of numbers with a zero low half

---
 expreval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreval.c b/expreval.c
index 57f1cb5..a1acfed 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3211,7 +3211,7 @@ static ret_code negative_op( struct expr *opnd1, struct expr *opnd2 )
          * a bit hackish.
          */
         if ( opnd2->hlvalue )
-            opnd1->hlvalue = -opnd2->hlvalue - 1;
+            opnd1->hlvalue = -opnd2->hlvalue - ( opnd2->llvalue != 0 );
         opnd1->negative = 1 - opnd2->negative; /* ??? supposed to be used for EXPR_FLOAT only! */
     } else if( opnd2->kind == EXPR_FLOAT ) {
         opnd1->kind = EXPR_FLOAT;
-- 
2.43.0


From 9d605936e09adb5045aff4cb893fed0fb04664dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 06/94] fix: ZMMWORD items are 64 bytes and not floats

---
 data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data.c b/data.c
index 33b981b..afc2bca 100644
--- a/data.c
+++ b/data.c
@@ -1356,8 +1356,8 @@ ret_code data_dir( int i, struct asm_tok tokenarray[], struct asym *type_sym )
         if ( ( mem_type & MT_SPECIAL_MASK ) == MT_ADDRESS ) {
             return( EmitErr( SYNTAX_ERROR_EX, tokenarray[i].string_ptr ) );
         }
-        no_of_bytes = (mem_type & MT_SIZE_MASK) + 1;
-        if ( mem_type & MT_FLOAT )
+        no_of_bytes = SizeFromMemtype( mem_type, USE_EMPTY, NULL );
+        if ( ( mem_type & MT_FLOAT ) && mem_type != MT_ZMMWORD ) /* MT_ZMMWORD includes the MT_FLOAT bit */
             is_float = TRUE;
     }
 
-- 
2.43.0


From 688e9e25811b50c7758e1d79a96855f776751d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 07/94] fix: integers of more than 64 bits in smaller items are
 an error

---
 data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data.c b/data.c
index afc2bca..4a690c6 100644
--- a/data.c
+++ b/data.c
@@ -911,7 +911,8 @@ next_item:  /* <--- continue scan if a comma has been detected */
                     if ( no_of_bytes <= sizeof( int_64 ) ) {
                         tmp = ( opndx.chararray[7] < 0x80 ? 0 : 0xFF );
                         memset( opndx.chararray, tmp, no_of_bytes );
-                        if ( opndx.llvalue != 0 && opndx.llvalue != -1 ) {
+                        if ( ( opndx.llvalue != 0 && opndx.llvalue != -1 ) ||
+                            ( opndx.hlvalue != 0 && opndx.hlvalue != -1 ) ) {
                             DebugMsg(("data_item.CONST: error, unhandled data is %" I64_SPEC "X_%016" I64_SPEC "X\n", opndx.hlvalue, opndx.llvalue));
                             return( EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, opndx.sym ? opndx.sym->name : "" ) );
                         }
-- 
2.43.0


From 0d5115b9bf98da75d387993bc0adb3bb5cbf5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 08/94] fix: negative YMMWORD/ZMMWORD initialisers are sign
 extended

---
 data.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data.c b/data.c
index 4a690c6..53e0d63 100644
--- a/data.c
+++ b/data.c
@@ -890,6 +890,8 @@ next_item:  /* <--- continue scan if a comma has been detected */
                  * clear anything which is above.
                  */
                 if ( no_of_bytes > 16 ) {
+                    if ( opndx.negative && opndx.value64 < 0 && opndx.hlvalue == 0 )
+                        opndx.hlvalue = -1;
                     OutputDataBytes( opndx.chararray, 16 );
                     tmp = ( opndx.chararray[15] < 0x80 ? 0 : 0xFF );
                     FillDataBytes( tmp, no_of_bytes - 16 );
-- 
2.43.0


From 735598c6f9a10e1a89f6f4e4a6e2e2d197fd69c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 09/94] fix: strings in WORD and larger items: size with
 literals off, content and bounds with literals on

---
 data.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/data.c b/data.c
index 53e0d63..87d6b25 100644
--- a/data.c
+++ b/data.c
@@ -557,7 +557,7 @@ static ret_code data_item( int *start_pos, struct asm_tok tokenarray[], struct a
     enum fixup_types    fixup_type;
     struct fixup        *fixup;
     struct expr         opndx;
-    uint_16 buff[256];
+    uint_16 buff[MAX_LINE_LEN];
     DebugMsg1(("data_item( idx=%u [%s], label=%s, no_of_bytes=%" I32_SPEC "u, type=%s, dup=%" I32_SPEC "Xh, inside_struct=%u, is_float=%u ) enter\n",
                *start_pos, tokenarray[*start_pos].tokpos, sym ? sym->name : "NULL",
                no_of_bytes, type_sym ? type_sym->name : "NULL",
@@ -797,7 +797,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
 				}
 				else
 				{
-                if (string_len > no_of_bytes && sym && sym->mem_type != MT_WORD)
+                if (string_len > no_of_bytes && (sym ? sym->mem_type != MT_WORD : no_of_bytes != 2))
 						return(EmitError(INITIALIZER_OUT_OF_RANGE));
                 /* if characters are not single byte, 2 bytes are used for 1 size v2.38 */
                  p = pchar;
@@ -813,7 +813,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
                   j = UTF8toWideChar(pchar, string_len, NULL,(unsigned short *) &buff, string_len);
                     opndx.quoted_string->stringlen = j;
                     string_len = j;
-                    sym->mem_type = MT_BYTE;      /* each byte must be stored without zeros between */
+                    if (sym) sym->mem_type = MT_BYTE;      /* each byte must be stored without zeros between */
                                      /* total has to be devided by 2 for the length */
                   }
 			   }
@@ -831,7 +831,8 @@ next_item:  /* <--- continue scan if a comma has been detected */
                         first = FALSE; /* avoid to touch first_xxx fields below */
                     }
                 }
-				else if (no_of_bytes == 2 && string_len > 1)
+				else if (no_of_bytes == 2 && string_len > 1 && sym->mem_type == MT_WORD &&
+					!(Options.masm51_compat || Options.strict_masm_compat || !Options.literal_strings))
 				{
 					sym->isarray = TRUE;
 					total += (string_len - 1);
@@ -857,16 +858,16 @@ next_item:  /* <--- continue scan if a comma has been detected */
 				}
 				else
 				{
-					if (string_len > 1 && no_of_bytes > 1 && sym && sym->mem_type == MT_WORD)
+					if (string_len > 1 && no_of_bytes > 1 && !half && (sym ? sym->mem_type == MT_WORD : no_of_bytes == 2))
 					{
 						OutputInterleavedDataBytes(pchar, string_len);
 					}
 					else
 					{
-						if (string_len > 1 && no_of_bytes > 1)
+						if (string_len > 1 && no_of_bytes > 1 && half)
 						{
-							if (half)   /* no need for little_endian, already converted, v2.38 */
-								OutputDataBytes((uint_8*)&buff, j * 2);
+							/* no need for little_endian, already converted, v2.38 */
+							OutputDataBytes((uint_8*)&buff, j * 2);
 						}
                         else 
 						{
-- 
2.43.0


From f9c01847eda083dcfd35aaec50d17b710800feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 10/94] fix: BEXTR, BZHI, SARX, SHLX and SHRX with 32-bit
 operands don't set VEX.W

---
 codegen.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index ddb3f14..97337b5 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1219,9 +1219,6 @@ static void output_opc(struct code_info *CodeInfo)
               c = ~c;
               c &= EVEX_P1VVVV;
               lbyte |= c;
-#if AMD64_SUPPORT
-              lbyte |=0x80;
-#endif
                if (ins->byte1_info == F_660F) lbyte |= 0x1;
                else if (ins->byte1_info == F_F30F38) lbyte |= 0x02;//SARX
                else if (ins->byte1_info == F_660F38) lbyte |= 0x01;//SHLX
-- 
2.43.0


From d5c219ea1e2a54c7ca765ddda69f444ca7556ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 11/94] fix: no SIB byte with 16-bit addressing in 32-bit code

---
 codegen.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index 97337b5..627a62d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2644,13 +2644,20 @@ static void output_opc(struct code_info *CodeInfo)
 				}
 
             }
+        /* EVEX scales every 8-bit displacement: one that wasn't compressed needs the full size */
+        if (CodeInfo->evex_flag && !comprdsp && (tmp & BIT_67) == MOD_01 &&
+            (((CodeInfo->opnd[OPND1].type & OP_M_ANY) && CodeInfo->opnd[OPND1].data32l) ||
+             ((CodeInfo->opnd[OPND2].type & OP_M_ANY) && CodeInfo->opnd[OPND2].data32l))) {
+          tmp = (tmp & NOT_BIT_67) | MOD_10;
+          CodeInfo->rm_byte = (CodeInfo->rm_byte & NOT_BIT_67) | MOD_10;
+          CodeInfo->tuple = 0;
+          }
 		    OutputCodeByte( tmp );
 
-        //if( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
-        //   ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 ) )
-        //    return; /* no SIB for 16bit */
-        if ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) 
-            return; /* no SIB for 16bit */
+        if( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
+           ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 &&
+             CodeInfo->indextype != OP_XMM && CodeInfo->indextype != OP_YMM && CodeInfo->indextype != OP_ZMM ) )
+            return; /* no SIB for 16bit (VSIB always has one) */
 
         switch ( tmp & NOT_BIT_345 ) {
         case 0x04: /* mod = 00, r/m = 100, s-i-b is present */
-- 
2.43.0


From 5bde7359c8256fc7187ab61c200cb23e72e3953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 12/94] fix: EVEX displacements that cannot be compressed are
 emitted in full size

---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index 627a62d..2ad2e21 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2433,6 +2433,8 @@ static void output_opc(struct code_info *CodeInfo)
           else if ((CodeInfo->opnd[OPND2].type & OP_M_ANY) &&
                    (CodeInfo->opnd[OPND1].data32l != -1))
                    index = OPND2;
+          /* without a base register (mod = 00 and a displacement) there is no 8-bit form */
+          if ((tmp & BIT_67) == MOD_00)  index = -1;
           if ((index != -1) && ((Check4CompDisp8(CodeInfo, &comprdsp, &d, CodeInfo->opnd[index].data32l)) && comprdsp)){
             CodeInfo->opnd[index].data32l = comprdsp;
             tmp &= ~MOD_10;     /* if        mod = 10, r/m = 100, s-i-b is present */
-- 
2.43.0


From c844ccb6e0fa673b76437b44cd84bb4376761086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 13/94] fix: 16-bit LZCNT and TZCNT in 32- and 64-bit code get
 their operand size prefix

---
 codegen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 2ad2e21..b25790a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -187,9 +187,11 @@ static void output_opc(struct code_info *CodeInfo)
    */
   if (ins->cpu & (P_FPU_MASK | P_MMX | P_SSEALL)) {
 #if SSE4SUPP
-    /* there are 2 exceptions. how to avoid this ugly hack? */
+    /* there are some exceptions. how to avoid this ugly hack? */
     if (CodeInfo->token != T_CRC32 &&
-      CodeInfo->token != T_POPCNT)
+      CodeInfo->token != T_POPCNT &&
+      CodeInfo->token != T_LZCNT &&
+      CodeInfo->token != T_TZCNT)
 #endif
       CodeInfo->prefix.opsiz = FALSE;
   }
-- 
2.43.0


From 9001bb5638f02ea64c100703477acb628aa2cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 14/94] fix: displacement of BMI memory operands with EBP/RBP
 base or no base

---
 codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index b25790a..38df984 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2703,11 +2703,11 @@ static void output_data(const struct code_info *CodeInfo, enum operand_type dete
     if (CodeInfo->token >= VEX_START){
       if ((CodeInfo->token == T_ANDN) || (CodeInfo->token == T_MULX) ||
         (CodeInfo->token == T_PDEP) || (CodeInfo->token == T_PEXT)){
-        if ((CodeInfo->opnd[OPND2].data32l == 0) || (index == 2))
+        if ((CodeInfo->opnd[OPND2].data32l == 0 && !(CodeInfo->opnd[OPND2].type & OP_M_ANY)) || (index == 2))
           return;
       }
       if ((CodeInfo->token >= T_BEXTR) && (CodeInfo->token <= T_SHRX) || (CodeInfo->token == T_BZHI)) {
-        if (CodeInfo->opnd[OPND2].data32l == 0) return;
+        if (CodeInfo->opnd[OPND2].data32l == 0 && !(CodeInfo->opnd[OPND2].type & OP_M_ANY)) return;
         if ((index == 0) || (index == 2))
           return;
       }
-- 
2.43.0


From 29a6ea90c32c94710f80ca216de4c76608e1346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 15/94] fix: 16-bit displacements and [BP] in 32-bit code

---
 codegenv2.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/codegenv2.c b/codegenv2.c
index ae4b814..0bedb48 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1217,6 +1217,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	int             idxRegSize = 0;
 	int             symSize = 0;
 	bool			skipSIB = FALSE;
+	bool			bpOnly = FALSE;
 
 	/* Absolute addressing modes can skip this */
 	if (instr->memOpnd != MEM_ABS_1 && instr->memOpnd != MEM_ABS_0)
@@ -1316,6 +1317,12 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 				* pmodRM |= 6;
 			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_BX)
 				* pmodRM |= 7;
+			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_BP)
+			{
+				/* [BP] alone can only be encoded with a displacement */
+				*pmodRM |= 6;
+				bpOnly = TRUE;
+			}
 
 			*needModRM |= TRUE;
 
@@ -1362,7 +1369,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	           Specified address format can only be encoded with a displacement. */
 	if (instr->memOpnd > NO_MEM || opExpr[instr->memOpnd].value != 0 ||
 		(ModuleInfo.Ofssize == USE64 && opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->token == T_RIP) ||
-		MemTable[memModeIdx].flags & MEMF_DSP || MemTable[memModeIdx].flags & MEMF_DSP32 || (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].sym->state != SYM_STACK))
+		bpOnly || MemTable[memModeIdx].flags & MEMF_DSP || MemTable[memModeIdx].flags & MEMF_DSP32 || (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].sym->state != SYM_STACK))
 	{
 		if (instr->memOpnd > NO_MEM)
 		{
@@ -1391,7 +1398,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 			}
 			else
 			{
-				if (ModuleInfo.Ofssize == USE16)
+				if (ModuleInfo.Ofssize == USE16 || skipSIB)
 					*dispSize = 2;	/* 16bit addressing. */
 				else
 					*dispSize = 4;	/* 32bit or 64bit sign extended addressing. */
-- 
2.43.0


From 84b33b094a896bde1ecee0495a0caa0c6909dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 16/94] fix: accept k0 as the destination of a compare with a
 BCST operand

---
 tokenize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index cb71c11..134c938 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -1304,7 +1304,7 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
               while (isspace(*p1)) p1++;
               /* find which register is used */
               if (*p1 == 'k' || *p1 == 'K') {      /* check if it is mask register */
-                if ((*(p1 + 1) >= '1') && (*(p1 + 1) <= '7')) {
+                if ((*(p1 + 1) >= '0') && (*(p1 + 1) <= '7')) {
                   p1++;                            /* skip register number */
                   while (*p1 != ',') p1++;          /* find the comma  */
                   p1++;                            /* skip the comma  */
-- 
2.43.0


From 6ca2dc0fb55fd8105cd39b78af5984adc76a8adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 17/94] fix: another pass when the value of a forward
 referenced EQU constant changed

---
 equate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/equate.c b/equate.c
index 16b0bb0..c441ba1 100644
--- a/equate.c
+++ b/equate.c
@@ -64,6 +64,12 @@ static void SetValue( struct asym *sym, struct expr *opndx )
         /* v2.07: use expression's memtype */
         //sym->mem_type = MT_ABS;
         sym->mem_type = opndx->mem_type;
+        /* a constant that depends on label distances may have been used
+         * before its definition: it has to be final, too.
+         */
+        if ( sym->variable == FALSE && Parse_Pass != PASS_1 &&
+            ( sym->uvalue != opndx->uvalue || sym->value3264 != opndx->hvalue ) )
+            ModuleInfo.PhaseError = TRUE;
         sym->uvalue = opndx->uvalue;
         sym->value3264 = opndx->hvalue;
         sym->segment = NULL;
-- 
2.43.0


From 2e346371e3d74d7faed3b24886c79e385c446d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 18/94] fix: stop with an error when offsets do not settle
 instead of looping for ever

---
 assemble.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/assemble.c b/assemble.c
index 4c9e6e2..9f334c0 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1665,8 +1665,14 @@ int EXPQUAL AssembleModule( const char *source )
         DebugMsg(("AssembleModule(%u): prepare for next pass\n", Parse_Pass + 1));
         prev_written = curr_written;
 
-        if ( Parse_Pass % 200 == 199 )
+        if ( Parse_Pass % 200 == 199 ) {
+            /* offsets that never settle would go on for ever */
+            if ( Parse_Pass >= 1999 ) {
+                EmitErr( ASSEMBLY_PASSES, Parse_Pass+1 );
+                break;
+            }
             EmitWarn( 2, ASSEMBLY_PASSES, Parse_Pass+1 );
+        }
 #ifdef DEBUG_OUT
         if ( Options.max_passes && Parse_Pass == (Options.max_passes - 1) )
             break;
-- 
2.43.0


From fbbcca85885fe6afb146eaa10a7aeb1d57986069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 19/94] fix: text items behind a compound %expression were
 skipped by the expansion

---
 expans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expans.c b/expans.c
index 1d69e80..ebfe4b3 100644
--- a/expans.c
+++ b/expans.c
@@ -1353,6 +1353,7 @@ static ret_code ExpandToken( char *line, int *pi, struct asm_tok tokenarray[], i
         tokenarray[i].string_ptr = StringBufferEnd;
         AddTokens( tokenarray, i+1, i+1 - *pi, Token_Count );
         Token_Count += (i+1) - *pi;
+        *pi = i+1; /* the expression has become one token */
 
         if ( ERROR == RebuildLine( StringBufferEnd, i, tokenarray,
                                   tmp, tokenarray[i].tokpos - line, bracket_flags ) )
-- 
2.43.0


From b9fb98841c622a5abdea431f598e92cc6d5d654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 20/94] fix: memory operands without a base register read
 before the special table

---
 parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index fc5239a..3a658ee 100644
--- a/parser.c
+++ b/parser.c
@@ -697,7 +697,7 @@ static ret_code set_rm_sib(struct code_info *CodeInfo, unsigned CurrOpnd, char s
     mod_field = MOD_01; /* byte size displacement */
     }
   /* In the case of suppressed base register it has to be swapped with index v2.38 */
-  temp = GetValueSp( base );                                 /* get value from SpecialTable */
+  temp = ( base != EMPTY ) ? GetValueSp( base ) : 0;         /* get value from SpecialTable */
   if (temp == OP_XMM || temp == OP_YMM || temp == OP_ZMM){   /* base can be only GP register*/
     temp = index;                                            /* swap index with base */
     index = base;
@@ -1736,7 +1736,7 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
     index = ( opndx->idx_reg ? opndx->idx_reg->tokval : EMPTY );
 
     /* swap registers if base is AVX register, v2.38 */
-    if (GetValueSp(base) == OP_XMM || GetValueSp(base) == OP_YMM || GetValueSp(base) == OP_ZMM)
+    if (base != EMPTY && (GetValueSp(base) == OP_XMM || GetValueSp(base) == OP_YMM || GetValueSp(base) == OP_ZMM))
 	{
       temp    = base;
       base    = index;
-- 
2.43.0


From e14766b3ef3a8203e2e89dd2cb209e203778be8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 21/94] fix: address-size prefix missing for index-only and
 symbol operands with 32/16-bit registers

---
 codegenv2.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/codegenv2.c b/codegenv2.c
index 0bedb48..9bfecb1 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1282,14 +1282,12 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 		}
 
 	}
-	else
-	{
-		/* Address format requires Address Size Override Prefix */
-		if ((ModuleInfo.Ofssize == USE64 && baseRegSize == 4) ||
-			(ModuleInfo.Ofssize == USE32 && baseRegSize == 2) ||
-			(ModuleInfo.Ofssize == USE16 && baseRegSize == 4))
-			returnASO = 1;
-	}
+
+	/* Address format requires Address Size Override Prefix */
+	if ((ModuleInfo.Ofssize == USE64 && (baseRegSize == 4 || (baseRegSize == 0 && idxRegSize == 4))) ||
+		(ModuleInfo.Ofssize == USE32 && baseRegSize == 2) ||
+		(ModuleInfo.Ofssize == USE16 && baseRegSize == 4))
+		returnASO = 1;
 
 	/* Calculate 16bit memory addressing ModRM in 32bit mode */
 	if (ModuleInfo.Ofssize == USE32 && baseRegSize == 2)
-- 
2.43.0


From a8227b827a83b3e7f0995d18b3a6db29ea78475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 22/94] fix: .FOR with '= 0', '+= 0', '-= 0' etc. on a variable
 or register, '> 0' on a signed variable

---
 hll.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hll.c b/hll.c
index 4cba19d..712a8e9 100644
--- a/hll.c
+++ b/hll.c
@@ -1397,7 +1397,7 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
       if (tokenarray[0].token == T_REG) {
       simple:			Tokenize(param, 0, tokenarray, 0);
 
-        if (strlen(init) == 1 && init[0] == '0')                        //REX=0?
+        if (tokenarray[0].token == T_REG && strlen(op) == 1 && strlen(init) == 1 && init[0] == '0') //REX=0?
           WriteAsmLine(" xor  ", param, param);							            //XOR REX,REX //instead MOV REX,0
         else if ((strlen(op) == 1) && ((init[4] == ' ') || (init[4] == '\t'))) {  //op is '='
           if ((0 == _memicmp(init, "BYTE PTR", 8)) ||                   //reax=BYTE PTR al
@@ -1695,7 +1695,6 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
           //coppy the condition to the buffer
           forbuffcond[0] = NULLC;
           for (b = 0; forbuff[j] && forbuff[j] != ':'; forbuffcond[b] = forbuff[j], j++, b++);
-          if (forbuffcond[b - 2] == '>' && forbuffcond[b - 1] == '0') forbuffcond[b - 2] = NULLC;
           forbuffcond[b] = NULLC;
           j++;
           //copy the counter to the buffer
-- 
2.43.0


From 69fe2b2d031bceb82d8ea26c214e0b18d4c644ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 23/94] fix: && blocks inside brackets or behind ! in
 .IF/.WHILE/.UNTIL/.FOR conditions jumped to the wrong place

---
 hll.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hll.c b/hll.c
index 712a8e9..214d487 100644
--- a/hll.c
+++ b/hll.c
@@ -972,11 +972,16 @@ static ret_code GetAndExpression(struct hll_item *hll, int *i, struct asm_tok to
   };
 
   if (truelabel > 0) {
+    /* the operators behind the expression may have to modify the last jump */
+    if (hllop->lastjmp && hllop->lasttruelabel) {
+      ReplaceLabel(ptr, hllop->lasttruelabel, truelabel);
+      *(strchr(hllop->lastjmp, EOLCHAR) + 1) = NULLC;
+    }
     ptr += strlen(ptr);
     GetLabelStr(truelabel, ptr);
     strcat(ptr, LABELQUAL EOLSTR);
     DebugMsg1(("%u GetAndExpression: label added >%s<\n", evallvl, ptr));
-    hllop->lastjmp = NULL;
+    hllop->lasttruelabel = truelabel;
   }
   return(NOT_ERROR);
 }
-- 
2.43.0


From 16214fec8d08b98e43080c23b61ebf94e1077e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 24/94] fix: constants in bracketed conditions of .WHILE/.IF;
 .WHILE 0 && x entered the block

---
 hll.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hll.c b/hll.c
index 214d487..50286da 100644
--- a/hll.c
+++ b/hll.c
@@ -851,7 +851,7 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
 static void InvertJump(char *p)
 /*******************************/
 {
-  if (*p == NULLC) { /* v2.11: convert 0 to "jmp" */
+  if (*p == NULLC || *p == ' ') { /* v2.11: convert 0 to "jmp" */
     strcpy(p, "jmp ");
     return;
   }
@@ -972,6 +972,8 @@ static ret_code GetAndExpression(struct hll_item *hll, int *i, struct asm_tok to
   };
 
   if (truelabel > 0) {
+    if (hllop->lastjmp && *hllop->lastjmp == NULLC)
+      strcpy(hllop->lastjmp, " " EOLSTR); /* a constant: keep the place of the jump */
     /* the operators behind the expression may have to modify the last jump */
     if (hllop->lastjmp && hllop->lasttruelabel) {
       ReplaceLabel(ptr, hllop->lasttruelabel, truelabel);
@@ -1065,6 +1067,8 @@ static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok token
     }
   }
   if (truelabel > 0) {
+    if (hllop->lastjmp && *hllop->lastjmp == NULLC)
+      strcpy(hllop->lastjmp, " " EOLSTR); /* a constant: keep the place of the jump */
     /* v2.08: this is needed, but ober-hackish. to be improved... */
     if (hllop->lastjmp && hllop->lasttruelabel) {
       DebugMsg1(("%u GetExpression: suppressed ReplaceLabel %u -> %u, lastjmp=%s\n", evallvl, hllop->lasttruelabel, truelabel, hllop->lastjmp));
@@ -1787,8 +1791,9 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
         buffer[0] = NULLC;  /* just ".while" without expression is accepted */
 
                             /* create a jump to test label */
-                            /* optimisation: if line at 'test' label is just a jump, dont create label and don't jump! */
-      if (_memicmp(buffer, "jmp", 3)) {
+                            /* optimisation: if line at 'test' label is just a jump to the start, dont create label and don't jump! */
+      GetLabelStr(hll->labels[LSTART], buff);
+      if (_memicmp(buffer, "jmp", 3) || strncmp(buffer + 4, buff, strlen(buff))) {
         hll->labels[LTEST] = GetHllLabel();
         AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LTEST], buff));
       }
-- 
2.43.0


From 7f7e04eb694a9cacee92f1dedc074d7981a1deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 25/94] fix: .SWITCH: fall through labels, missing final
 .BREAK, stacked cases in ASM style, table ends, R8D..R15D operands, .CONTINUE
 inside, stale block items; quotes in .FOR

---
 hll.c | 123 ++++++++++++++++++++++++++++++----------------------------
 1 file changed, 63 insertions(+), 60 deletions(-)

diff --git a/hll.c b/hll.c
index 50286da..978b79c 100644
--- a/hll.c
+++ b/hll.c
@@ -118,6 +118,7 @@ enum hll_flags {
   HLLF_ELSEOCCURED = 0x01,
   HLLF_DEFAULTOCCURED = 0x02,
   HLLF_WHILE = 0x04,
+  HLLF_CASEOPEN = 0x08,   /* code of a .CASE/.DEFAULT not closed by .BREAK */
 };
 
 
@@ -138,7 +139,7 @@ struct hll_item {
   int                 mincase;
   int                 delta;
   int                 maxalloccasen;
-  int                 multicase;
+  uint_32             caseofs;        /* offset behind the last .CASE */
   int                 *pcases;
   uint_16             *plabels;
   uint_16             savedlab;
@@ -1392,6 +1393,7 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
         }
       }
       //if operator not devision, multiplication or mod
+      else if (op[0] == '=') strcpy(codebuff, " mov ");
       else if (op[0] == '-') strcpy(codebuff, " sub ");
       else if (op[0] == '+') strcpy(codebuff, " add ");
       else if (op[0] == '&') strcpy(codebuff, " and ");
@@ -1561,6 +1563,12 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
     hll->casecnt = 0;
     hll->csize = 4;
     hll->breakoccured = TRUE; //first label for .CASE hast to be set
+    hll->cflag = 0;           /* the item may have been used before */
+    hll->pcases = NULL;
+    hll->plabels = NULL;
+#if AMD64_SUPPORT
+    hll->pcases64 = NULL;
+#endif
 
     if (tokenarray[i].token != T_FINAL) {
       DebugMsg1(("HllStartDir(%s): calling EvalOperand, i=%u\n", tokenarray[i].string_ptr, i));
@@ -1586,7 +1594,9 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
         if (t->tokval != T_EAX){ //skip it, no need to write MOV EAX,EAX
             if (t->tokval <= T_DI) // AL, CL, DL, BL, AH, CH, DH, BH, AX, CX, DX, BX
               AddLineQueueX(" movzx eax, %s", tokenarray[i].tokpos);
-            else if (t->tokval <= T_EDI) //EAX,ECX,EDX,EBX,ESP,EBP,ESI,EDI
+            else if (SizeFromRegister(t->tokval) < 4) /* R8B..R15B, R8W..R15W, SPL..DIL */
+              AddLineQueueX(" movzx eax, %s", tokenarray[i].tokpos);
+            else if (SizeFromRegister(t->tokval) == 4) //EAX,ECX,EDX,EBX,ESP,EBP,ESI,EDI,R8D..R15D
               AddLineQueueX(" mov eax, %s", tokenarray[i].tokpos);
             else {
               if (t->tokval != T_RAX) //skip it, no need to write MOV RAX,RAX
@@ -1652,8 +1662,12 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
       p = tokenarray[i].tokpos;
       for (b = 0; *p; p++)
       {
-          if (*p == ':') b++;
-          if (*p == '\'') break;
+          if (*p == '\'' || *p == '"') { /* skip strings */
+              c = *p++;
+              while (*p && *p != c) p++;
+              if (*p == NULLC) break;
+          }
+          else if (*p == ':') b++;
       }
       if (b < 2) {
           DebugMsg(("HllStartDir .for loop \n"));
@@ -1850,7 +1864,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
   int                 dcnt  = 0;
   int                 dsize = 0;
   uint_16             lbl;
-  int             swsize;
+  uint_32         swsize;
   char buff[16];
   char buffer[MAX_LINE_LEN * 2];
   char unum[16];
@@ -1893,7 +1907,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
       i++;
       if (ModuleInfo.Ofssize == USE32) dsize = 4;
       else dsize = 8;
-      if (ModuleInfo.switch_style == ASMSWITCH) {
+      if (ModuleInfo.switch_style == ASMSWITCH || hll->flags & HLLF_CASEOPEN) {
         if (hll->labels[LEXIT] == 0)
           hll->labels[LEXIT] = GetHllLabel();
         AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LEXIT], buff));
@@ -1915,11 +1929,11 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
         if (hll->plabels) {
           if (ModuleInfo.Ofssize == USE32 || hll->csize == 4) {
             bubblesort(hll, hll->plabels, hll->pcases, hll->casecnt);
-            if ((hll->delta * 4) <= (hll->casecnt * 4 + hll->casecnt * 2))
+            if ((uint_32)hll->delta <= (uint_32)(hll->casecnt * 6 / 4))
               hll->cflag = 6;                   /* we need only jump table */
-            else if (hll->delta < 256)
+            else if ((uint_32)hll->delta < 256)
               hll->cflag = 4;                   /* we need both jump table and count table byte size */
-            else if (hll->delta < swsize)       /* size limited to 0x4000  */
+            else if ((uint_32)hll->delta < swsize)       /* size limited to 0x4000  */
               hll->cflag = 7;                   /* we need both jump table and count table word size */
             else
               hll->cflag = 5;                   /* we will use a binary tree */
@@ -1927,7 +1941,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
 #if AMD64_SUPPORT
           else if (ModuleInfo.Ofssize == USE64 && hll->csize == 8){     //USE64
               bubblesort64(hll, hll->plabels, hll->pcases64, hll->casecnt);
-              if ((hll->delta64 * 8) <= (hll->casecnt * 8 + hll->casecnt * 2))
+              if (hll->delta64 <= (uint_32)(hll->casecnt * 10 / 8))
                 hll->cflag = 6;
               else if (hll->delta64 < 256)
                 hll->cflag = 4;
@@ -1965,7 +1979,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 }
               if (hll->plabels[j] != lbl) {        /* prevent 'label already defined error' */
                 GetLabelStr(hll->plabels[j], buff);
-                if (dcnt) strcat(buffer, ", ");    /* we need comma before next element, but not first one */
+                if (buffer[strlen(buffer) - 1] != ' ') strcat(buffer, ", ");    /* we need comma before next element, but not first one */
                 strcat(buffer, buff);              /* add the address in the array */
                 acnt++;
                 }
@@ -1975,10 +1989,8 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 GetLabelStr(hll->labels[LDEF], buff);
               else
                 GetLabelStr(hll->labels[LEXIT], buff);
-                if (dcnt && dcnt < 75){
-                  strcat(buffer, ", ");
-                  strcat(buffer, buff);
-                }
+                if (buffer[strlen(buffer) - 1] != ' ') strcat(buffer, ", ");
+                strcat(buffer, buff);
               AddLineQueue(buffer);                  /* write line with the last array */
           } 
           /* here is created data for calculating jumps  */
@@ -2025,7 +2037,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 sprintf(unum, "%d", bcnt);
               strcat(buffer, unum);
               n++;
-              if (hll->plabels[j] != hll->plabels[j + 1])
+              if (j + 1 < hll->casecnt && hll->plabels[j] != hll->plabels[j + 1])
                 bcnt++;
               }
             if (buffer[4] == ',') buffer[4] = ' ';
@@ -2163,11 +2175,10 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 sprintf(unum, "%d", bcnt);
               strcat(buffer, unum);
               n++;
-              if (hll->plabels[j] != hll->plabels[j + 1])
+              if (j + 1 < hll->casecnt && hll->plabels[j] != hll->plabels[j + 1])
                 bcnt++;
               }
             if (buffer[4] == ',') buffer[4] = ' ';
-            strcat(buffer, unum);
             AddLineQueue(buffer);                  /* @C0008 db 0,1,2,5,5,3,5,5,5,5,5,5,5,5,4 */
             AddLineQueue(".code");                 /* continue with code section */
           }
@@ -2222,6 +2233,8 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                       strcat(buffer, buff);
                       }
                     else{
+                      strcat(buffer, ", ");
+                      strcat(buffer, buff);
                       if (buffer[4] == ',')buffer[4] = ' ';
                       else if (buffer[10] == ',')buffer[10] = ' ';
                       AddLineQueue(buffer);
@@ -2305,6 +2318,8 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                       strcat(buffer, buff);
                       }
                     else{
+                      strcat(buffer, ", ");
+                      strcat(buffer, buff);
                       if (buffer[4] == ',')buffer[4] = ' ';
                       else if (buffer[10] == ',')buffer[10] = ' ';
                       AddLineQueue(buffer);
@@ -2335,14 +2350,17 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                       }
                 if (buffer[4] == ',')buffer[4] = ' ';
                 else if (buffer[10] == ',')buffer[10] = ' ';
-                AddLineQueue(buffer);
+                if (buffer[4] > 0) AddLineQueue(buffer);
                 AddLineQueue(".code");
              }
 #endif
           }
       }
       /* these are code that are inserted to calculate and perform jumps */
-      if (hll->cflag == 1) {
+      if (hll->casecnt == 0) {
+        AddLineQueueX("jmp  %s", GetLabelStr(hll->labels[(hll->flags & HLLF_DEFAULTOCCURED) ? LDEF : LEXIT], buff));
+        }
+      else if (hll->cflag == 1) {
         if (hll->csize == 4) {
           AddLineQueueX("cmp  eax,%d", hll->pcases[0]);
           AddLineQueueX("je  %s", GetLabelStr(hll->plabels[0], buff));
@@ -2500,6 +2518,8 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
           if (hll->csize == 4) {
             if (hll->mincase)
               AddLineQueueX("sub   eax,%d", hll->mincase);
+            else
+              AddLineQueue("mov eax,eax");            /* the high half is not known to be zero */
             }
           else {
             if (hll->mincase64)
@@ -2548,6 +2568,8 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
           if (hll->csize == 4){
             if (hll->mincase)
             AddLineQueueX("sub   eax,%d", hll->mincase);
+            else
+            AddLineQueue("mov eax,eax");              /* the high half is not known to be zero */
             }
           else{
             if (hll->mincase64)
@@ -2839,9 +2861,6 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
     EmitErr(SYNTAX_ERROR_EX, tokenarray[i].tokpos);
     rc = ERROR;
   }
-  if (cmd == T_DOT_ENDSWITCH && Parse_Pass > PASS_1)
-    ModuleInfo.list   = 0;
-
     if (ModuleInfo.list)
       LstWrite(LSTTYPE_DIRECTIVE, GetCurrOffset(), NULL);
     
@@ -2891,7 +2910,7 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
   }
   switch (cmd) {
   case T_DOT_DEFAULT:
-    if (hll->flags & HLLF_DEFAULTOCCURED) {
+    if (hll->cmd != HLL_SWITCH || hll->flags & HLLF_DEFAULTOCCURED) {
       DebugMsg(("HllExitDir stack error\n"));
       return(EmitError(DIRECTIVE_MUST_BE_IN_CONTROL_BLOCK));
     }
@@ -2906,52 +2925,30 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
     if (hll->labels[LDEF] == 0)
       hll->labels[LDEF] = GetHllLabel();
     AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LDEF], buff));
-    hll->flags |= HLLF_DEFAULTOCCURED;
+    hll->flags |= HLLF_DEFAULTOCCURED | HLLF_CASEOPEN;
     i++;
     break;
   case T_DOT_CASE:
-    if (Parse_Pass)
     if (hll->cmd != HLL_SWITCH) {
       DebugMsg(("HllExitDir stack error\n"));
       return(EmitError(DIRECTIVE_MUST_BE_IN_CONTROL_BLOCK));
     }
-    /* assembler style SWITCH doesn't need the .brake in the source so we have to simulate it */
-    if (ModuleInfo.switch_style == ASMSWITCH) {
-         nomulcase = TRUE;
-         hll->breakoccured = TRUE;
-       /* we have to know in advance if there is more multi cases */
-        if (LineStoreCurr != NULL && LineStoreCurr->next != NULL){     /* struct LineStoreCurr contains current source*/
-          p = LineStoreCurr->next->line;
-            while ( isspace( *p )) p++;
-          nomulcase = _memicmp(p, ".case", 5); /* test next line if it is */
-          }
-        if (nomulcase){                                                /* it was the last case in the row  */
-          if (hll->multicase >= 1){                                     /* if there was more then 1 case    */
-            hll->multicase = 0;                                        /* reset hll->multicase for next occation */
-              hll->breakoccured = TRUE;                                /* set the flag but don't exit before code get executed */
-            }
-          else{                                                        /* there is end of the case's code */
-            if (hll->labels[LEXIT] == 0)  hll->labels[LEXIT] = GetHllLabel(); /* moved here to get only 1 test for speed*/
-            AddLineQueueX("jmp %s", GetLabelStr(hll->labels[LEXIT], buff)); /* set the .brake */
-            hll->breakoccured = TRUE;                                  /* set the flag */
-            }
-        }
-        else{                                                          /* it is a multi case */
-          if (hll->multicase == 0) {                                    /* we need a first label for multi cases */
-            if (hll->labels[LEXIT] == 0)  hll->labels[LEXIT] = GetHllLabel(); /* moved here to get only 1 test for speed*/
-            AddLineQueueX("jmp %s", GetLabelStr(hll->labels[LEXIT], buff)); /* set the .brake */
-            hll->breakoccured = TRUE;                                  /* set the flag */
-            }
-          else{
-            hll->breakoccured = FALSE;
-            }                                 /* no .brake needed yet */
-          hll->multicase++;                                          /* increase counter */
-        }
+    /* no code behind the previous .case? Then this one shares its label */
+    if (hll->casecnt == 0 || hll->caseofs != GetCurrOffset()) {
+      /* assembler style SWITCH doesn't need the .brake in the source so we have to simulate it */
+      if (ModuleInfo.switch_style == ASMSWITCH) {
+        if (hll->labels[LEXIT] == 0)  hll->labels[LEXIT] = GetHllLabel();
+        AddLineQueueX("jmp %s", GetLabelStr(hll->labels[LEXIT], buff));
+      }
+      hll->breakoccured = TRUE;
     }
+    else
+      hll->breakoccured = FALSE;
+    hll->flags |= HLLF_CASEOPEN;
     for (;;) {
       if (hll->breakoccured) {
         hll->labels[LTEST] = GetHllLabel();
-        hll->breakoccured = 0;  // if .break did not occure label will not be increased
+        hll->breakoccured = 0;  // if there is no code before the next .case, label will not be increased
         AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LTEST], buff));
         hll->savedlab = (uint_16)hex2dec(buff + 2);
       }
@@ -3081,7 +3078,8 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
     break;
   case T_DOT_BREAK:
   case T_DOT_CONTINUE:
-    for (; hll && hll->cmd == HLL_IF; hll = hll->next);
+    /* .CONTINUE belongs to the loop around a .SWITCH */
+    for (; hll && (hll->cmd == HLL_IF || (cmd == T_DOT_CONTINUE && hll->cmd == HLL_SWITCH)); hll = hll->next);
     if (hll == NULL) {
       return(EmitError(DIRECTIVE_MUST_BE_IN_CONTROL_BLOCK));
     }
@@ -3126,6 +3124,8 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
     }
     else {
       AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[idx], buff));
+      if (hll == HllStack)
+        hll->flags &= ~HLLF_CASEOPEN;
     }
     break;
 #ifdef DEBUG_OUT
@@ -3144,6 +3144,9 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
   if (is_linequeue_populated())
     RunLineQueue();
 
+  if (cmd == T_DOT_CASE)
+    hll->caseofs = GetCurrOffset();
+
   return(rc);
 }
 
-- 
2.43.0


From 832969a9da10f6d7db887679d30fdbc5857c7f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 26/94] fix: vex_flags[] lacked the entries of KTESTx, so
 VXORPS, VPOR, VPSHUFD and others had the flags of another instruction

---
 reswords.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reswords.c b/reswords.c
index 7048998..a695885 100644
--- a/reswords.c
+++ b/reswords.c
@@ -875,6 +875,10 @@ VX_LL|VX_L,      /* VPMULTISHIFTQB */
          VX_NND,      /* KSHIFTRW */
          VX_NND,      /* KSHIFTRD */
          VX_NND,      /* KSHIFTRQ */
+         VX_NND,      /* KTESTB   */
+         VX_NND,      /* KTESTW   */
+         VX_NND,      /* KTESTD   */
+         VX_NND,      /* KTESTQ   */
 		 VX_NND,      /* KMOVB    */
 		 VX_NND,      /* KMOVD    */
 		 VX_NND,      /* KMOVQ    */
-- 
2.43.0


From 283ddd266b652012d0be5e9f581f92639e850666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 27/94] fix: ELF communals had their size in st_value (the
 alignment) and no st_size; memmove for overlapping operands

---
 elf.c    | 23 +++++++++++++++++++----
 parser.c |  4 ++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/elf.c b/elf.c
index e0821e1..f169595 100644
--- a/elf.c
+++ b/elf.c
@@ -180,6 +180,19 @@ static int get_num_reloc_sections( void )
 
 /* fill entries in ELF32 symbol table */
 
+/* alignment of a communal: the biggest power of 2 which divides its element size, 16 at most */
+
+static unsigned CommAlign( const struct asym *sym )
+/*************************************************/
+{
+    unsigned size = sym->total_length ? sym->total_size / sym->total_length : sym->total_size;
+    unsigned align = 1;
+
+    while ( align < 16 && size && ( size & align ) == 0 )
+        align <<= 1;
+    return( align );
+}
+
 static uint_32 set_symtab32( struct elfmod *em, uint_32 entries, struct localname *localshead )
 /*********************************************************************************************/
 {
@@ -256,10 +269,11 @@ static uint_32 set_symtab32( struct elfmod *em, uint_32 entries, struct localnam
 
         p32->st_name = strsize;
 
-        /* for COMMUNALs, store their size in the Value field */
+        /* for COMMUNALs, the alignment is stored in the Value field */
         if ( curr->sym.iscomm == TRUE ) {
             p32->st_info = ELF32_ST_INFO( STB_GLOBAL, STT_COMMON );
-            p32->st_value = curr->sym.total_size;
+            p32->st_value = CommAlign( &curr->sym );
+            p32->st_size = curr->sym.total_size;
             p32->st_shndx = SHN_COMMON;
         } else {
 #if OWELFIMPORT
@@ -438,10 +452,11 @@ static uint_32 set_symtab64( struct elfmod *em, uint_32 entries, struct localnam
 
         p64->st_name = strsize;
 
-        /* for COMMUNALs, store their size in the Value field */
+        /* for COMMUNALs, the alignment is stored in the Value field */
         if ( curr->sym.iscomm == TRUE ) {
             p64->st_info = ELF64_ST_INFO( STB_GLOBAL, STT_COMMON );
-            p64->st_value = curr->sym.total_size;
+            p64->st_value = CommAlign( &curr->sym );
+            p64->st_size = curr->sym.total_size;
             p64->st_shndx = SHN_COMMON;
         } else {
 #if OWELFIMPORT
diff --git a/parser.c b/parser.c
index 3a658ee..4ac09f2 100644
--- a/parser.c
+++ b/parser.c
@@ -3762,7 +3762,7 @@ dataInProc:
 							/* first operand register is moved to vexregop */
 							/* handle VEX.NDD */
 							CodeInfo.vexregop = opndx[OPND1].base_reg->bytval + 1;
-							memcpy(&opndx[OPND1], &opndx[CurrOpnd], sizeof(opndx[0]) * 3);
+							memmove(&opndx[OPND1], &opndx[CurrOpnd], sizeof(opndx[0]) * 3);
 							CodeInfo.rm_byte = 0;
 							if (process_register(&CodeInfo, OPND1, opndx) == ERROR)
 								return(ERROR);
@@ -3793,7 +3793,7 @@ dataInProc:
 						CodeInfo.vexconst = opndx[CurrOpnd].value;
 						if(opndx[CurrOpnd].base_reg)
 							CodeInfo.vexregop = opndx[CurrOpnd].base_reg->bytval + 1;
-						memcpy(&opndx[CurrOpnd], &opndx[CurrOpnd + 1], sizeof(opndx[0]) * 2);
+						memmove(&opndx[CurrOpnd], &opndx[CurrOpnd + 1], sizeof(opndx[0]) * 2);
 					}
 					else
 					{
-- 
2.43.0


From 6b04189981596bdea47798c014410c390dd7b378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 28/94] fix: segments which grew in the last pass overlapped in
 the contents buffer; same total size taken for same sizes;
 symbol[index*scale] without base was rejected in 64-bit

---
 assemble.c  |  2 +-
 codegenv2.c |  2 +-
 segment.c   | 41 +++++++++++++++++++++++++----------------
 3 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/assemble.c b/assemble.c
index 9f334c0..7ef6be4 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1645,7 +1645,7 @@ int EXPQUAL AssembleModule( const char *source )
             /* v2.04: use <max_offset> instead of <bytes_written>
              * (the latter is not always reliable due to backpatching).
              */
-            curr_written += seg->sym.max_offset;
+            curr_written = curr_written * 31 + seg->sym.max_offset;
             DebugMsg(("AssembleModule(%u): segm=%-8s start=%8" I32_SPEC "X max_ofs=%8" I32_SPEC "X written=%" I32_SPEC "X\n",
                       Parse_Pass + 1, seg->sym.name, seg->e.seginfo->start_loc, seg->sym.max_offset,
                       seg->e.seginfo->bytes_written ));
diff --git a/codegenv2.c b/codegenv2.c
index 9bfecb1..6b5086d 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1276,7 +1276,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 
 		/* For 64bit mode, all symbol references are RIP relative, unless the symbol is on the stack.
 		   EXCEPT, if the memory address includes a register. */
-		if (ModuleInfo.Ofssize == USE64 && opExpr[instr->memOpnd].sym->state != SYM_STACK && baseRegNo == 0x11)
+		if (ModuleInfo.Ofssize == USE64 && opExpr[instr->memOpnd].sym->state != SYM_STACK && baseRegNo == 0x11 && idxRegNo == 0x11)
 		{
 			baseRegNo = 16;
 		}
diff --git a/segment.c b/segment.c
index 26f7a63..fa367c2 100644
--- a/segment.c
+++ b/segment.c
@@ -1162,6 +1162,21 @@ void SegmentFini( void )
     FreeLnameQueue();
 }
 
+/* size of a segment's part of the contents buffer.
+ * the segment can grow in step 2-n due to forward references ( a jump
+ * with 2 bytes may become one with 5 or 6 ), so there must be a reserve
+ * behind each segment.
+ */
+static uint_32 SegmentBufferSize( struct dsym *seg )
+/**************************************************/
+{
+    uint_32 i = seg->sym.max_offset - seg->e.seginfo->start_loc;
+
+    if ( seg->e.seginfo->segtype == SEGTYPE_CODE )
+        return( i * 3 + 16 );
+    return( i + (i >> 2) + 16 );
+}
+
 /* init. called for each pass */
 void SegmentInit( int pass )
 /**************************/
@@ -1181,23 +1196,18 @@ void SegmentInit( int pass )
     /*
      * alloc a buffer for the contents
      */
-    if ( ModuleInfo.pCodeBuff == NULL && Options.output_format != OFORMAT_OMF ) {
-        for( curr = SymTables[TAB_SEG].head, buffer_size = 0; curr; curr = curr->next ) {
+    if ( Options.output_format != OFORMAT_OMF ) {
+        for( curr = SymTables[TAB_SEG].head, i = 0; curr; curr = curr->next ) {
             if ( curr->e.seginfo->internal )
                 continue;
-            if ( curr->e.seginfo->bytes_written ) {
-                i = curr->sym.max_offset - curr->e.seginfo->start_loc;
-                /* the segment can grow in step 2-n due to forward references.
-                 * for a quick solution just add 25% to the size if segment
-                 * is a code segment. (v2.02: previously if was added only if
-                 * code segment contained labels, but this isn't sufficient.)
-                 */
-                if ( curr->e.seginfo->segtype == SEGTYPE_CODE )
-                    i = i + (i >> 2);
-                buffer_size += i;
-            }
+            if ( curr->e.seginfo->bytes_written )
+                i += SegmentBufferSize( curr );
         }
-        if ( buffer_size ) {
+        /* the segments may have grown since the buffer was allocated */
+        if ( i && ( ModuleInfo.pCodeBuff == NULL || i > buffer_size ) ) {
+            if ( ModuleInfo.pCodeBuff )
+                LclFree( ModuleInfo.pCodeBuff );
+            buffer_size = i;
             ModuleInfo.pCodeBuff = LclAlloc( buffer_size );
         }
     }
@@ -1213,8 +1223,7 @@ void SegmentInit( int pass )
                 curr->e.seginfo->CodeBuffer = codebuf;
             } else {
                 curr->e.seginfo->CodeBuffer = p;
-                i = curr->sym.max_offset - curr->e.seginfo->start_loc;
-                p += i;
+                p += SegmentBufferSize( curr );
             }
         }
         if( curr->e.seginfo->combine != COMB_STACK ) {
-- 
2.43.0


From 13d96ca3ca958ec8b3e4f6b9d53aea2cc7e59529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 29/94] fix: COFF section headers with a long name kept bytes
 of the preceding header's name

---
 coff.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coff.c b/coff.c
index f3df0e5..f5d015f 100644
--- a/coff.c
+++ b/coff.c
@@ -135,8 +135,10 @@ static ret_code coff_write_section_table( struct module_info *modinfo, struct co
          */
         if ( len <= IMAGE_SIZEOF_SHORT_NAME )
             strncpy( ish.Name, secname, IMAGE_SIZEOF_SHORT_NAME );
-        else
+        else {
+            memset( ish.Name, 0, IMAGE_SIZEOF_SHORT_NAME ); /* the name is padded with zeros */
             sprintf( ish.Name, "/%u", Coff_AllocString( cm, secname, len ) );
+        }
 
         ish.Misc.PhysicalAddress = 0;
         ish.VirtualAddress = 0;
-- 
2.43.0


From 1a6779225a9d427964924d73e6c8c7a88f4a9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 30/94] fix: Mach-O writer: relocation types, pcrel and length
 of absolute references, SIGNED_n, zerofill sections, other segments, unused
 externals, public constants, symbols of the same name

---
 macho64.c | 269 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 139 insertions(+), 130 deletions(-)

diff --git a/macho64.c b/macho64.c
index bcba4b9..6213b57 100644
--- a/macho64.c
+++ b/macho64.c
@@ -47,6 +47,8 @@ struct macho_section_entry
 	struct section_64 *next;
 	int dif; /* padding to keep section size multiple of 16 */
 	int size;
+	int start;    /* offset of the first byte in data */
+	int filesize; /* zerofill sections have no space in the file */
 	int ofs;
 	void *data;
 	int idx;
@@ -86,13 +88,7 @@ int macho_section_count()
 	struct dsym *curr;
 	for (curr = SymTables[TAB_SEG].head; curr; curr = curr->next)
 	{
-		if (strcmp(curr->sym.name, "_BSS") == 0)
-			cnt++;
-		else if (strcmp(curr->sym.name, "CONST") == 0)
-			cnt++;
-		else if (strcmp(curr->sym.name, "_TEXT") == 0)
-			cnt++;
-		else if (strcmp(curr->sym.name, "_DATA") == 0)
+		if (!curr->e.seginfo->internal)
 			cnt++;
 	}
 	return(cnt);
@@ -171,6 +167,7 @@ static void macho_add_string(struct strentry *pstr, struct macho_module *mm)
 	else
 	{
 		ofs += strlen(pCurrStr->pstr) + 1;
+		lastIdx = pCurrStr->idx;
 		while (pCurrStr->next != NULL)
 		{
 			pCurrStr = pCurrStr->next;
@@ -184,6 +181,25 @@ static void macho_add_string(struct strentry *pstr, struct macho_module *mm)
 	return;
 }
 
+/* ==========================================================================================
+Return the 1-based index of a symbol table entry, based on the symbol
+NB: symbol table indices in other structures are 0 based.
+========================================================================================== */
+static int GetSymbolIndex(const struct asym *sym, struct macho_module *mm)
+{
+	struct strentry *currStr = mm->strings;
+	int idx = 0;
+	for (currStr = mm->strings;currStr;currStr = currStr->next)
+	{
+		if (currStr->sym == sym)
+		{
+			idx = currStr->idx;
+			break;
+		}
+	}
+	return(idx);
+}
+
 /* ==========================================================================================
 Create linked list of symbol names (string table)
 -> This can be later scanned to determine symbol index (1 based).
@@ -194,6 +210,8 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 	int i = 0;
 	struct asym *sym = NULL;
 	struct strentry *pstr = NULL;
+	struct dsym *seg;
+	struct fixup *fix;
 	int totalSymCount = 0;
 
 	/* Normal local symbols */
@@ -215,14 +233,35 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 			}
 		}
 	}
+
+	/* labels with a scope aren't found by SymEnum(), but may be a relocation's target */
+	for (seg = SymTables[TAB_SEG].head; seg; seg = seg->next)
+	{
+		for (fix = seg->e.seginfo->FixupList.head; fix; fix = fix->nextrlc)
+		{
+			sym = fix->sym;
+			if (sym && sym->state == SYM_INTERNAL && !sym->ispublic && GetSymbolIndex(sym, mm) == 0)
+			{
+				tblSize += strlen(sym->name) + 1;
+				pstr = malloc(sizeof(struct strentry));
+				memset(pstr, 0, sizeof(struct strentry));
+				pstr->pstr = sym->name;
+				pstr->sym = sym;
+				macho_add_string(pstr, mm);
+				mm->symCount++;
+				totalSymCount++;
+			}
+		}
+	}
+	sym = NULL;
 	mm->extSymIdx = totalSymCount;
 
 	/* External public symbols */
 	while (sym = SymEnum(sym, &i))
 	{
-		if (sym->state != SYM_MACRO && sym->state != SYM_SEG && sym->state != SYM_TMACRO && sym->predefined == 0 && sym->state != SYM_GRP && sym->isequate == 0)
+		if (sym->state != SYM_MACRO && sym->state != SYM_SEG && sym->state != SYM_TMACRO && sym->predefined == 0 && sym->state != SYM_GRP)
 		{
-			if (sym->ispublic)
+			if (sym->state != SYM_EXTERNAL && sym->ispublic)
 			{
 				tblSize += strlen(sym->name) + 1;
 				pstr = malloc(sizeof(struct strentry));
@@ -242,7 +281,8 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 	{
 		if (sym->state != SYM_MACRO && sym->state != SYM_SEG && sym->state != SYM_TMACRO && sym->predefined == 0 && sym->state != SYM_GRP && sym->isequate == 0)
 		{
-			if (sym->state == SYM_EXTERNAL)
+			/* skip unused externdefs */
+			if (sym->state == SYM_EXTERNAL && (sym->iscomm || !sym->weak))
 			{
 				tblSize += strlen(sym->name) + 1;
 				pstr = malloc(sizeof(struct strentry));
@@ -258,25 +298,6 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 	return(tblSize);
 }
 
-/* ==========================================================================================
-Return the 1-based index of a symbol table entry, based on it's name
-NB: symbol table indices in other structures are 0 based.
-========================================================================================== */
-static int GetSymbolIndex(const char *pName, struct macho_module *mm)
-{
-	struct strentry *currStr = mm->strings;
-	int idx = 0;
-	for (currStr = mm->strings;currStr;currStr = currStr->next)
-	{
-		if (strcmp(pName, currStr->pstr) == 0)
-		{
-			idx = currStr->idx;
-			break;
-		}
-	}
-	return(idx);
-}
-
 /* ==========================================================================================
 Build a macho_section_entry structure.
 ========================================================================================== */
@@ -287,8 +308,8 @@ struct section_64 * macho_build_section( const char *secName, const char *segNam
 	memset(pSec, 0, sizeof(struct macho_section_entry));
 
 	pSec->srcName = srcName;
-	strcpy(pSec->section.sectname, secName);
-	strcpy(pSec->section.segname, segName);
+	strncpy(pSec->section.sectname, secName, sizeof(pSec->section.sectname));
+	strncpy(pSec->section.segname, segName, sizeof(pSec->section.segname));
 	pSec->section.align = 0; // 2^0 = 1 byte alignment.
 	pSec->section.flags = flags;
 
@@ -425,77 +446,39 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 	mm.header.sizeofcmds += sizeof(struct version_min_command);
 	fileofs += sizeof(struct version_min_command);
 
-	/* For every internal segment, create a section */
+	/* For every segment, create a section */
 	for (curr = SymTables[TAB_SEG].head; curr; curr = curr->next)
 	{
+		if (curr->e.seginfo->internal)
+			continue;
 		if (strcmp(curr->sym.name, "_TEXT") == 0)
-		{
-			currSec = macho_build_section("__text", "__TEXT", S_REGULAR, curr->sym.name);
-			macho_add_section(currSec, &mm);
-			currSec->data = curr->e.seginfo->CodeBuffer;
-			currSec->size = ROUND_UP(curr->e.seginfo->bytes_written,mm.sectAlign);
-			currSec->dif = currSec->size - curr->e.seginfo->bytes_written;
-			currSec->section.size = currSec->size;
-			currSec->section.addr = currAddr;
-			currAddr += currSec->size;
-			currAddr = ROUND_UP(currAddr, mm.sectAlign); 
-			pCmd->filesize += currSec->size;
-			currSec->idx = secIdx++;
-			currSec->section.flags |= (S_ATTR_SOME_INSTRUCTIONS | S_ATTR_PURE_INSTRUCTIONS);
-			fileofs += sizeof(struct section_64);
-			pCmd->vmsize += currSec->size;
-		}
-		
+			currSec = macho_build_section("__text", "__TEXT", S_REGULAR | S_ATTR_SOME_INSTRUCTIONS | S_ATTR_PURE_INSTRUCTIONS, curr->sym.name);
 		else if (strcmp(curr->sym.name, "_DATA") == 0)
-		{
 			currSec = macho_build_section("__data", "__DATA", S_REGULAR, curr->sym.name);
-			macho_add_section(currSec, &mm);
-			currSec->data = curr->e.seginfo->CodeBuffer;
-			currSec->size = ROUND_UP(curr->e.seginfo->bytes_written, mm.sectAlign);
-			currSec->dif = currSec->size - curr->e.seginfo->bytes_written;
-			currSec->section.size = currSec->size;
-			currSec->section.addr = currAddr;
-			currAddr += currSec->size;
-			currAddr = ROUND_UP(currAddr, mm.sectAlign);
-			pCmd->filesize += currSec->size;
-			currSec->idx = secIdx++;
-			fileofs += sizeof(struct section_64);
-			pCmd->vmsize += currSec->size;
-		}
-
 		else if (strcmp(curr->sym.name, "CONST") == 0)
-		{
 			currSec = macho_build_section("_rdata", "__DATA", S_REGULAR, curr->sym.name);
-			macho_add_section(currSec, &mm);
-			currSec->data = curr->e.seginfo->CodeBuffer;
-			currSec->size = ROUND_UP(curr->e.seginfo->bytes_written, mm.sectAlign);
-			currSec->dif = currSec->size - curr->e.seginfo->bytes_written;
-			currSec->section.size = currSec->size;
-			currSec->section.addr = currAddr;
-			currAddr += currSec->size;
-			currAddr = ROUND_UP(currAddr, mm.sectAlign);
-			pCmd->filesize += currSec->size;
-			currSec->idx = secIdx++;
-			fileofs += sizeof(struct section_64);
-			pCmd->vmsize += currSec->size;
-		}
-
 		else if (strcmp(curr->sym.name, "_BSS") == 0)
-		{
 			currSec = macho_build_section("__bss", "__DATA", S_ZEROFILL, curr->sym.name);
-			macho_add_section(currSec, &mm);
-			currSec->data = curr->e.seginfo->CodeBuffer;
-			currSec->size = ROUND_UP(curr->e.seginfo->bytes_written, mm.sectAlign);
-			currSec->dif = currSec->size - curr->e.seginfo->bytes_written;
-			currSec->section.size = currSec->size;
-			currSec->section.addr = currAddr;
-			currAddr = ROUND_UP(currAddr, mm.sectAlign);
-			currAddr += currSec->size;
-			currSec->idx = secIdx++;
-			fileofs += sizeof(struct section_64);
-			pCmd->vmsize += currSec->size;
-
-		}
+		else if (curr->e.seginfo->segtype == SEGTYPE_CODE)
+			currSec = macho_build_section(curr->sym.name, "__TEXT", S_REGULAR | S_ATTR_SOME_INSTRUCTIONS | S_ATTR_PURE_INSTRUCTIONS, curr->sym.name);
+		else if (curr->e.seginfo->segtype == SEGTYPE_BSS)
+			currSec = macho_build_section(curr->sym.name, "__DATA", S_ZEROFILL, curr->sym.name);
+		else
+			currSec = macho_build_section(curr->sym.name, "__DATA", S_REGULAR, curr->sym.name);
+		macho_add_section(currSec, &mm);
+		currSec->data = curr->e.seginfo->CodeBuffer;
+		currSec->start = curr->e.seginfo->start_loc;
+		currSec->size = ROUND_UP(curr->sym.max_offset, mm.sectAlign);
+		currSec->dif = currSec->size - curr->sym.max_offset;
+		currSec->section.size = currSec->size;
+		currSec->section.addr = currAddr;
+		currAddr += currSec->size;
+		currAddr = ROUND_UP(currAddr, mm.sectAlign);
+		currSec->filesize = ((currSec->section.flags & SECTION_TYPE) == S_ZEROFILL) ? 0 : currSec->size;
+		pCmd->filesize += currSec->filesize;
+		currSec->idx = secIdx++;
+		fileofs += sizeof(struct section_64);
+		pCmd->vmsize += currSec->size;
 	}
 	/* At this point only the section offsets (file) need to still be set 
 	-> Once we have the size of the remaining commands. */
@@ -518,11 +501,11 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 	sectionDataSize = 0;
 	for (currSec = mm.sections;currSec;currSec = currSec->next)
 	{
-		currSec->section.offset = fileofs + sectionDataSize;
+		currSec->section.offset = ((currSec->section.flags & SECTION_TYPE) != S_ZEROFILL) ? fileofs + sectionDataSize : 0;
 		currSec->ofs = fileofs + sectionDataSize;
-		sectionDataSize += currSec->size;
+		sectionDataSize += currSec->filesize;
 	}
-	pCmd->fileoff = mm.sections->section.offset; // Set segment command file offset = first section offset.
+	pCmd->fileoff = fileofs; // Set segment command file offset = first section offset.
 
 	/* Build the string table data */
 	stringTableSize = macho_build_string_tbl(pSymCmd,&mm) + 1; /* add one for the "" string entry */
@@ -573,10 +556,33 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 	if (fwrite(pdySymCmd, 1, sizeof(struct dysymtab_command), CurrFile[OBJ]) != sizeof(struct dysymtab_command))
 		WriteError();
 
+	/* PC-relative fixups are relative to the end of the instruction; the bytes
+	   behind the displacement must be subtracted in the contents */
+	for (currSec = mm.sections; currSec; currSec = currSec->next)
+	{
+		for (seg = SymTables[TAB_SEG].head; seg; seg = seg->next)
+		{
+			if (strcmp(seg->sym.name, currSec->srcName) == 0)
+			{
+				for (currFixup = seg->e.seginfo->FixupList.head; currFixup; currFixup = currFixup->nextrlc)
+				{
+					if (currFixup->type == FIX_RELOFF32 && currFixup->addbytes > 4)
+						*(int_32 *)(seg->e.seginfo->CodeBuffer + currFixup->locofs - currSec->start) -= currFixup->addbytes - 4;
+				}
+				break;
+			}
+		}
+	}
+
 	/* Write out the section data */
 	for (currSec = mm.sections;currSec;currSec = currSec->next)
 	{
-		if (fwrite(currSec->data, 1, currSec->size-currSec->dif, CurrFile[OBJ]) != currSec->size-currSec->dif)
+		if (currSec->filesize == 0)
+			continue;
+		for (cnt = 0; cnt < currSec->start; cnt++)
+			fwrite(&padbyte, 1, 1, CurrFile[OBJ]);
+		cnt = currSec->size - currSec->dif - currSec->start;
+		if (fwrite(currSec->data, 1, cnt, CurrFile[OBJ]) != cnt)
 			WriteError();
 		if (currSec->dif > 0)
 		{
@@ -599,43 +605,41 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 					if (currFixup->sym)
 					{
 						reloc.r_extern = 1;
-						reloc.r_symbolnum = GetSymbolIndex(currFixup->sym->name, &mm) - 1;
-						reloc.r_pcrel = 1;
+						reloc.r_symbolnum = GetSymbolIndex(currFixup->sym, &mm) - 1;
 					}
 					else
 					{
 						reloc.r_extern = 0;
 						reloc.r_symbolnum = currSec->idx;
-						reloc.r_pcrel = 1;
 					}
-					if (currFixup->type == FIX_RELOFF32 && currFixup->addbytes == 4 && currFixup->option == OPTJ_NONE)
+					reloc.r_length = 2;
+					switch (currFixup->type)
 					{
-						machotype = X86_64_RELOC_SIGNED;
-					}
-					else if (currFixup->type == FIX_RELOFF32 && (currFixup->option == OPTJ_EXPLICIT || currFixup->option == OPTJ_CALL || currFixup->option == OPTJ_JXX))
-					{
-						machotype = X86_64_RELOC_BRANCH;
-					}
-					else
-					{
-						machotype = X86_64_RELOC_SIGNED;
+					case FIX_RELOFF32:
+						reloc.r_pcrel = 1;
+						if (currFixup->option == OPTJ_EXPLICIT || currFixup->option == OPTJ_CALL || currFixup->option == OPTJ_JXX)
+							machotype = X86_64_RELOC_BRANCH;
+						else if (currFixup->addbytes == 5)
+							machotype = X86_64_RELOC_SIGNED_1;
+						else if (currFixup->addbytes == 6)
+							machotype = X86_64_RELOC_SIGNED_2;
+						else if (currFixup->addbytes == 8)
+							machotype = X86_64_RELOC_SIGNED_4;
+						else
+							machotype = X86_64_RELOC_SIGNED;
+						break;
+					case FIX_OFF64:
+						reloc.r_length = 3;
+						machotype = X86_64_RELOC_UNSIGNED;
+						break;
+					case FIX_OFF32:
+						machotype = X86_64_RELOC_UNSIGNED;
+						break;
+					default:
+						machotype = X86_64_RELOC_UNSIGNED;
+						EmitErr( UNKNOWN_FIXUP_TYPE, currFixup->type, seg->sym.name, currFixup->locofs );
 					}
-	
 					reloc.r_type = machotype;
-					switch (currFixup->addbytes)
-					{
-						case 8:
-							reloc.r_length = 3;
-							break;
-						case 4:
-							reloc.r_length = 2;
-							break;
-						case 2:
-							reloc.r_length = 1;
-							break;
-						default:
-							reloc.r_length = 0;
-					}
 
 					if (fwrite(&reloc, 1, sizeof(struct relocation_info), CurrFile[OBJ]) != sizeof(struct relocation_info))
 						WriteError();
@@ -648,16 +652,21 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 	/* Write out symbol table entries */
 	for (currStr = mm.strings;currStr;currStr = currStr->next)
 	{
-		if (!currStr->sym->used && !currStr->sym->ispublic)
-			continue;
-
 		memset(&symEntry, 0, sizeof(struct nlist_64));
 
 		if (currStr->sym->state == SYM_EXTERNAL)
 		{
 			symEntry.n_sect = NO_SECT;
 			symEntry.n_type = N_UNDF | N_EXT;
-			symEntry.n_value = currStr->sym->total_size;
+			symEntry.n_value = currStr->sym->iscomm ? currStr->sym->total_size : 0;
+			symEntry.n_un.n_strx = currStr->offset;
+		}
+		else if (currStr->sym->segment == NULL)
+		{
+			/* a public constant */
+			symEntry.n_sect = NO_SECT;
+			symEntry.n_type = currStr->sym->ispublic ? N_ABS | N_EXT : N_ABS;
+			symEntry.n_value = (uint64_t)currStr->sym->uvalue;
 			symEntry.n_un.n_strx = currStr->offset;
 		}
 		else
@@ -679,7 +688,7 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 		}
 
 		symEntry.n_desc = 0;
-		if (currStr->sym->weak)
+		if (currStr->sym->state == SYM_INTERNAL && currStr->sym->segment && currStr->sym->weak)
 			symEntry.n_desc |= N_WEAK_DEF;
 
 		if (fwrite(&symEntry, 1, sizeof(struct nlist_64), CurrFile[OBJ]) != sizeof(struct nlist_64))
-- 
2.43.0


From fc0cc8d71826078de8eac35a22074a26edaf951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 31/94] fix: VPSRLW xmm13, xmm2, 6 and other shifts by an
 immediate encoded the destination's high bit into the source

---
 parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.c b/parser.c
index 4ac09f2..9fead02 100644
--- a/parser.c
+++ b/parser.c
@@ -3764,6 +3764,7 @@ dataInProc:
 							CodeInfo.vexregop = opndx[OPND1].base_reg->bytval + 1;
 							memmove(&opndx[OPND1], &opndx[CurrOpnd], sizeof(opndx[0]) * 3);
 							CodeInfo.rm_byte = 0;
+							CodeInfo.prefix.rex &= ~REX_B; /* was set by the destination, which is in vvvv */
 							if (process_register(&CodeInfo, OPND1, opndx) == ERROR)
 								return(ERROR);
 						}
-- 
2.43.0


From 16242e132265c9f73b36e9744ce14ff3a9149d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 32/94] fix: KMOVD/KMOVQ k, reg had wrong prefix bits;
 VMASKMOVDQU and VPMOVMSKB lost the high bit of the first operand in the
 two-byte VEX form

---
 codegen.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/codegen.c b/codegen.c
index 38df984..7dba7cf 100644
--- a/codegen.c
+++ b/codegen.c
@@ -750,8 +750,8 @@ static void output_opc(struct code_info *CodeInfo)
           CodeInfo->prefix.rex &= ~REX_W;
         //if (CodeInfo->indexreg == EMPTY) tmp = 0xB4;
         if (( ins->byte1_info >= F_0F38) || ( CodeInfo->prefix.rex & ( REX_B | REX_X | REX_W ) )|| 
-          (( ins->byte1_info == F_0F) && (CodeInfo->token ==  T_KMOVQ )) || (ins->byte1_info == F_660F) && 
-           (CodeInfo->token ==  T_KMOVD )){
+          (( ins->byte1_info == F_0F) && (CodeInfo->token ==  T_KMOVQ )) || ((ins->byte1_info == F_660F) && 
+           (CodeInfo->token ==  T_KMOVD ) && ( !( CodeInfo->opnd[OPND2].type & OP_R32 )))){
             uint_8 byte1 = 0;      //RXBR00MM
             /* first byte is 0xC4  in 3 byte VEX prefix */  
             if (CodeInfo->evex_flag) 
@@ -1125,7 +1125,13 @@ static void output_opc(struct code_info *CodeInfo)
               /*  R vvvv Lpp */
               if ((CodeInfo->token == T_KMOVD || CodeInfo->token == T_KMOVQ))
                 lbyte |= 0x80;                                  /* W bit has to be set for KMOVD and KMOVQ v2.38*/
-              if (ins->byte1_info == F_660F) lbyte |= 0x01;     /* set PP to 01 for 66.0F */
+              if (CodeInfo->token == T_KMOVD && (CodeInfo->opnd[OPND2].type & OP_R32)) {
+                lbyte &= ~0x80;                                 /* KMOVD k, r32 is F2.0F.W0 */
+                lbyte |= 0x3;
+              }
+              else if (CodeInfo->token == T_KMOVQ && (CodeInfo->opnd[OPND2].type & OP_R64))
+                lbyte |= 0x3;                                   /* KMOVQ k, r64 is F2.0F.W1 */
+              else if (ins->byte1_info == F_660F) lbyte |= 0x01;     /* set PP to 01 for 66.0F */
               else if (ins->byte1_info == F_0F) lbyte &= ~0x03; /* set PP t0 00 for 0F */
               else  lbyte |= 0x3;                               /* set PP to 11 for F2.0F */
               if (CodeInfo->token == T_KMOVB || CodeInfo->token == T_KMOVW || CodeInfo->token == T_KMOVD){
@@ -1838,7 +1844,10 @@ static void output_opc(struct code_info *CodeInfo)
 			if (CodeInfo->token == T_VMASKMOVDQU ) {
 				/*  1 1111 0pp */
 				/*  R vvvv Lpp */
-				lbyte |= 0xF8;
+				if ( CodeInfo->prefix.rex & REX_R )
+					lbyte = (lbyte & ~0x80) | 0x78;
+				else
+					lbyte |= 0xF8;
 				if (ins->byte1_info == F_660F) lbyte |= 0x01;
 				else if (ins->byte1_info == F_0F) lbyte |= 0x3;
 			}  //WVVVV1PP
@@ -1888,7 +1897,8 @@ static void output_opc(struct code_info *CodeInfo)
 				/*  R vvvv Lpp */
               if (CodeInfo->reg1 <= 0x07)
 				lbyte |= 0x80;
-				if (ins->byte1_info == F_660F) lbyte |= 0x01;
+				if (CodeInfo->token == T_KMOVD && (CodeInfo->opnd[OPND2].type & OP_R32)) lbyte |= 0x3;
+				else if (ins->byte1_info == F_660F) lbyte |= 0x01;
 				else if (ins->byte1_info == F_F20F) lbyte |= 0x3;
 			}  //WVVVV1PP
 			if ((CodeInfo->token == T_VMOVHPD) || (CodeInfo->token == T_VMOVNTDQ) ||
@@ -1919,7 +1929,10 @@ static void output_opc(struct code_info *CodeInfo)
 			if ((CodeInfo->token >= T_KADDB) && (CodeInfo->token <= T_KUNPCKDQ)) lbyte |= 0x04;
 			/* That is where is fixed problem with the VEX registers size, Uasm 2.16 */
 			if (CodeInfo->token == T_VPMOVMSKB) {
-				lbyte |= EVEX_P1WMASK;    // 2 byte vex_p1 R must be set
+				if ( CodeInfo->prefix.rex & REX_R )
+					lbyte &= ~EVEX_P1WMASK;   // destination is r8-r15: 2 byte vex_p1 R must be clear
+				else
+					lbyte |= EVEX_P1WMASK;    // 2 byte vex_p1 R must be set
 				if (CodeInfo->opnd[OPND1].type == OP_YMM)
 					lbyte |= 0x04;         // for YMM register bit 2 byte VEX L bit is set
 				else if (CodeInfo->opnd[OPND1].type == OP_XMM)
-- 
2.43.0


From 244bb3d88833ba975c23274559d37c6ce12cbc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 33/94] fix: INVOKE: arguments in overwritten registers, narrow
 and REAL stack arguments, literal strings

An argument whose register had been overwritten by another argument was
silently passed wrong in a number of cases (eax in 32-bit, vector registers in
Win64, rax and r8w-r15w in SystemV, MS fastcall); those are A2166 errors now.
SystemV pushed narrow registers as if they were 64-bit, passed REAL varargs in
memory in general purpose registers and did not count named vector registers
in al. Win64 read a DWORD stack argument as QWORD. 32-bit fastcall in ELF used
the 64-bit tables. Literal strings with colliding hashes shared a label, and a
literal string was checked against the wrong parameter of a C/STDCALL
procedure.
---
 H/proc.h   |   2 +
 assemble.c |   3 +-
 invoke.c   | 273 ++++++++++++++++++++++++++++++++++++-----------------
 3 files changed, 192 insertions(+), 86 deletions(-)

diff --git a/H/proc.h b/H/proc.h
index a515a5a..11aa7ad 100644
--- a/H/proc.h
+++ b/H/proc.h
@@ -34,6 +34,8 @@
 
 extern struct dsym     *CurrProc;      /* current procedure */
 
+extern void             InvokeInit( int );
+
 #if AMD64_SUPPORT
 	extern struct asym     *sym_ReservedStack;  /* max stack space required by INVOKE */
 #endif
diff --git a/assemble.c b/assemble.c
index 7ef6be4..f39d2b2 100644
--- a/assemble.c
+++ b/assemble.c
@@ -777,7 +777,7 @@ static void ModulePassInit( void )
         ModuleInfo.fctype = Options.fctype;
 
 		#if AMD64_SUPPORT
-		if (Options.output_format == OFORMAT_ELF)
+		if (Options.output_format == OFORMAT_ELF && ModuleInfo.sub_format == SFORMAT_64BIT)
 		{
 			ModuleInfo.fctype = FCT_WIN64;
 			Options.fctype = FCT_WIN64; /* SYSV proc/invoke tables use the same ordinal as FCT_WIN64 so set it now, instead of FCT_MSC */
@@ -1115,6 +1115,7 @@ static int OnePass( void )
     ProcInit();
     TypesInit();
     HllInit( Parse_Pass );
+    InvokeInit( Parse_Pass );
     MacroInit( Parse_Pass ); /* insert predefined macros */
     AssumeInit( Parse_Pass );
     CmdlParamsInit( Parse_Pass );
diff --git a/invoke.c b/invoke.c
index d0678a7..14183de 100644
--- a/invoke.c
+++ b/invoke.c
@@ -112,6 +112,19 @@ enum reg_used_flags {
 extern void myatoi128( const char *, uint_64[], int, int );
 static int size_vararg;    /* size of :VARARG arguments */
 static int fcscratch = 0;  /* exclusively to be used by FASTCALL helper functions */
+static unsigned fcvecused;  /* vector registers loaded by the current (Win64) INVOKE */
+static unsigned fcregused;  /* registers loaded by the current (MS 16/32-bit fastcall) INVOKE */
+
+/* the literal strings of the module and their labels */
+struct literal {
+	struct literal *next;
+	struct asym *lbl;
+	bool wide;
+	char string[1];
+};
+static struct literal *literals;
+
+static bool sysv_rax_read;  /* a SystemV stack argument reads rax */
 static int vcallpass = 0;  /* static global to determine which vectorcall pass we're in */
 
 struct fastcall_conv {
@@ -291,6 +304,22 @@ static int ms32_param( struct dsym const *proc, int index, struct dsym *param, b
 
     DebugMsg1(("ms32_param(proc=%s, ofs=%u, index=%u, param=%s) fcscratch=%u\n", proc->sym.name, proc->sym.Ofssize, index, param->sym.name, fcscratch ));
     
+	/* a register which has been loaded with another argument? */
+    if ( ( opnd->base_reg && ( GetValueSp( opnd->base_reg->tokval ) & OP_R ) &&
+        ( fcregused & ( 1 << ( GetRegNo( opnd->base_reg->tokval ) & ( SizeFromRegister( opnd->base_reg->tokval ) == 1 ? 3 : 7 ) ) ) ) ) ||
+        ( opnd->idx_reg && ( GetValueSp( opnd->idx_reg->tokval ) & OP_R ) && ( fcregused & ( 1 << GetRegNo( opnd->idx_reg->tokval ) ) ) ) ) {
+        EmitErr( REGISTER_VALUE_OVERWRITTEN_BY_INVOKE );
+        fcregused = 0;
+    }
+    /* eax may have been used to push an argument */
+    else if ( ( *r0used & R0_USED ) && param->sym.state == SYM_TMACRO && GetSymOfssize( &proc->sym ) == USE32 &&
+        ( ( opnd->base_reg && ( GetValueSp( opnd->base_reg->tokval ) & OP_A ) ) ||
+          ( opnd->base_reg && opnd->base_reg->tokval == T_AH ) ||
+          ( opnd->idx_reg && ( GetValueSp( opnd->idx_reg->tokval ) & OP_A ) ) ) ) {
+        EmitErr( REGISTER_VALUE_OVERWRITTEN_BY_INVOKE );
+        *r0used = 0;
+    }
+
 	if ( param->sym.state != SYM_TMACRO || param->sym.mem_type == MT_REAL4 || param->sym.mem_type == MT_REAL8 )
         return( 0 );
     
@@ -301,6 +330,8 @@ static int ms32_param( struct dsym const *proc, int index, struct dsym *param, b
         fcscratch--;
         pst = ms32_regs + fcscratch;
     }
+    if ( addr || opnd->kind != EXPR_REG || opnd->indirect || opnd->base_reg->tokval != *pst )
+        fcregused |= ( 1 << GetRegNo( *pst ) );
     if ( addr )
         AddLineQueueX( " lea %r, %s", *pst, paramvalue );
     else {
@@ -550,6 +581,11 @@ static int ms64_param(struct dsym const *proc, int index, struct dsym *param, bo
 				destroyed = TRUE;
 			}
 		}
+		else if ((GetValueSp(reg) & OP_XMM) && proc->sym.langtype == LANG_FASTCALL) {
+			i = GetRegNo(reg);
+			if (i < 4 && i != index && (fcvecused & (1 << i)))
+				destroyed = TRUE;
+		}
 	}
 	if (opnd->idx_reg != NULL) 
 	{
@@ -690,7 +726,7 @@ static int ms64_param(struct dsym const *proc, int index, struct dsym *param, bo
 					if (IS_SIGNED(opnd->mem_type))
 						AddLineQueueX(" movsxd %r, %s", i, paramvalue);
 					else
-						AddLineQueueX(" mov %r, %s", i, paramvalue);
+						AddLineQueueX(" mov %r, %s", T_EAX, paramvalue);
 				}
 				else
 					AddLineQueueX(" mov%sx %r, %s", IS_SIGNED(opnd->mem_type) ? "s" : "z", i, paramvalue);
@@ -705,6 +741,11 @@ static int ms64_param(struct dsym const *proc, int index, struct dsym *param, bo
 	}
 	else if (param->sym.mem_type == MT_REAL4 || param->sym.mem_type == MT_REAL8) 
 	{
+		/* the vector register of this argument is written, unless it holds the value already */
+		if (proc->sym.langtype == LANG_FASTCALL &&
+			!(opnd->kind == EXPR_REG && opnd->indirect == FALSE && reg == T_XMM0 + index))
+			fcvecused |= (1 << index);
+
 		/* v2.04: check if argument is the correct XMM register already */
 		if (opnd->kind == EXPR_REG && opnd->indirect == FALSE) {
 			if (GetValueSp(reg) & OP_XMM) {
@@ -1402,6 +1443,8 @@ static void sysv_fcend(struct dsym const *proc, int numparams, int value)
 	return;
 }
 
+static int sysv_regTo64(unsigned int reg);
+
 /* Return a 0-7 index for any SystemV call reserved register */
 static int sysv_reg( unsigned int reg )
 {
@@ -1446,6 +1489,30 @@ static int sysv_reg( unsigned int reg )
 	return(base);
 }
 
+/* Stack arguments are evaluated last to first, some of them by use of rax:
+ * an argument which needs rax must not come before one which overwrites it.
+ */
+static void sysv_stack_rax( struct expr *opnd, bool writes )
+{
+	if (writes && sysv_rax_read) {
+		EmitErr(REGISTER_VALUE_OVERWRITTEN_BY_INVOKE);
+		sysv_rax_read = FALSE;
+	}
+	if ((opnd->base_reg && (GetValueSp(opnd->base_reg->tokval) & OP_R) && sysv_reg(sysv_regTo64(opnd->base_reg->tokval)) == 6) ||
+		(opnd->idx_reg && (GetValueSp(opnd->idx_reg->tokval) & OP_R) && sysv_reg(sysv_regTo64(opnd->idx_reg->tokval)) == 6))
+		sysv_rax_read = TRUE;
+}
+
+/* rax is used to load a vector register */
+static void sysv_rax_written( uint_8 *regs_used )
+{
+	*regs_used |= (1 << 6);
+	if (sysv_rax_read) {
+		EmitErr(REGISTER_VALUE_OVERWRITTEN_BY_INVOKE);
+		sysv_rax_read = FALSE;
+	}
+}
+
 /* Return a 64bit register equivalent to the supplied */
 static int sysv_regTo64(unsigned int reg)
 {
@@ -1511,41 +1578,49 @@ static int sysv_regTo64(unsigned int reg)
 				resultReg = T_RSP;
 				break;
 			case T_R8B:
+			case T_R8W:
 			case T_R8D:
 			case T_R8:
 				resultReg = T_R8;
 				break;
 			case T_R9B:
+			case T_R9W:
 			case T_R9D:
 			case T_R9:
 				resultReg = T_R9;
 				break;
 			case T_R10B:
+			case T_R10W:
 			case T_R10D:
 			case T_R10:
 				resultReg = T_R10;
 				break;
 			case T_R11B:
+			case T_R11W:
 			case T_R11D:
 			case T_R11:
 				resultReg = T_R11;
 				break;
 			case T_R12B:
+			case T_R12W:
 			case T_R12D:
 			case T_R12:
 				resultReg = T_R12;
 				break;
 			case T_R13B:
+			case T_R13W:
 			case T_R13D:
 			case T_R13:
 				resultReg = T_R13;
 				break;
 			case T_R14B:
+			case T_R14W:
 			case T_R14D:
 			case T_R14:
 				resultReg = T_R14;
 				break;
 			case T_R15B:
+			case T_R15W:
 			case T_R15D:
 			case T_R15:
 				resultReg = T_R15;
@@ -1681,7 +1756,7 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 			}
 
 			/* Mark temporary eax and vector register as written */
-			*regs_used |= (1 << 6);
+			sysv_rax_written(regs_used);
 			info->vecused |= (1 << sysv_reg(reg));
 
 			/* Increment count of vectors used in vararg call */
@@ -1731,6 +1806,7 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 		/* No free GPR/Vector Register, value goes to stack */
 		else
 		{
+			sysv_stack_rax(opnd, FALSE);
 			reg = opnd->base_reg->tokval;
 			if (GetValueSp(reg) & OP_R)
 			{
@@ -1738,21 +1814,8 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 				{
 					sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
 				}
-				else if (regsize == 4)
-				{
-					sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
-					BuildCodeLine(info->stackOps[info->stackOpCount++], "movsxd %r, %s", sysv_regTo64(reg), paramvalue);
-				}
-				else if (regsize == 2)
-				{
-					sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
-					BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx %r, %s", sysv_regTo64(reg), paramvalue);
-				}
-				else if (regsize == 1)
-				{
-					sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
-					BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx %r, %s", sysv_regTo64(reg), paramvalue);
-				}	
+				else
+					BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 				info->stackOfs += 8;
 			}
 			else if (GetValueSp(reg) & OP_XMM)
@@ -1801,6 +1864,37 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 		return(1);
 	}
 	/* ******************************************************************************************************************** */
+	/* REAL4/REAL8 in memory */
+	/* ******************************************************************************************************************** */
+	if (!addr && (opnd->mem_type == MT_REAL4 || opnd->mem_type == MT_REAL8) &&
+		(opnd->kind == EXPR_ADDR || (opnd->kind == EXPR_REG && opnd->indirect == TRUE)))
+	{
+		reg = sysv_GetNextVEC(info, 16);
+		if (reg != -1)
+		{
+			AddLineQueueX("%s %r, %s", opnd->mem_type == MT_REAL4 ? MOVE_SINGLE() : MOVE_DOUBLE(), reg, paramvalue);
+			/* Mark vector register as written */
+			info->vecused |= (1 << sysv_reg(reg));
+			/* Increment count of vectors used in vararg call */
+			info->vararg_vecs++;
+		}
+		/* No free Vector Register, value goes to stack */
+		else if (opnd->mem_type == MT_REAL8)
+		{
+			sysv_stack_rax(opnd, FALSE);
+			sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
+			info->stackOfs += 8;
+		}
+		else
+		{
+			sysv_stack_rax(opnd, TRUE);
+			BuildCodeLine(info->stackOps[info->stackOpCount++], "push rax");
+			BuildCodeLine(info->stackOps[info->stackOpCount++], "mov eax, %s", paramvalue);
+			info->stackOfs += 8;
+		}
+		return(1);
+	}
+	/* ******************************************************************************************************************** */
 	/* REGISTER INDIRECT ie: [rax] or [rsi] */
 	/* ******************************************************************************************************************** */
 	if (opnd->kind == EXPR_REG && opnd->indirect == TRUE)
@@ -1816,6 +1910,7 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 		/* No free GPR Register, value goes to stack */
 		else
 		{
+			sysv_stack_rax(opnd, psize != 8);
 			if (psize == 8)
 			{
 				sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
@@ -1865,6 +1960,7 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 		/* No free GPR Register, value goes to stack */
 		else
 		{
+			sysv_stack_rax(opnd, psize != 8);
 			if (psize == 8)
 			{
 				sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
@@ -1991,11 +2087,12 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 				EmitErr(INVOKE_ARGUMENT_TYPE_MISMATCH, index + 1);
 
 			/* Mark register as written */
-			*regs_used |= (1 << reg);
+			*regs_used |= (1 << sysv_reg(reg));
 		}
 		/* No free GPR Register, value goes to stack */
 		else
 		{
+			sysv_stack_rax(opnd, TRUE);
 			BuildCodeLine(info->stackOps[info->stackOpCount++], "push rax", paramvalue);
 			BuildCodeLine(info->stackOps[info->stackOpCount++], "lea rax, %s", paramvalue);
 			info->stackOfs += 8;
@@ -2047,7 +2144,7 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 		if (GetValueSp(reg) & OP_R)
 		{
 			base = sysv_reg(reg);
-			if (base <= 6 && *regs_used & (1 << base))
+			if (base >= 0 && base <= 6 && *regs_used & (1 << base))
 				destroyed = TRUE;
 		}
 	}
@@ -2055,8 +2152,8 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 		reg2 = sysv_regTo64(opnd->idx_reg->tokval);
 		if (GetValueSp(reg2) & OP_R) 
 		{
-			base = sysv_reg(reg);
-			if (base <= 6 && *regs_used & (1 << base))
+			base = sysv_reg(reg2);
+			if (base >= 0 && base <= 6 && *regs_used & (1 << base))
 				destroyed = TRUE;
 		}
 	}
@@ -2089,14 +2186,14 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 
 			if (opnd->kind == EXPR_FLOAT)
 			{
-				*regs_used |= (1 << 6);
+				sysv_rax_written(regs_used);
 				AddLineQueueX("mov %r, %s", T_EAX, paramvalue);
 				AddLineQueueX("%s %s, %r", MOVE_SIMD_DWORD(), param->sym.string_ptr, T_EAX);
 				return(1);
 			}
 			if (opnd->kind == EXPR_CONST)
 			{
-				*regs_used |= (1 << 6);
+				sysv_rax_written(regs_used);
 				AddLineQueueX("mov %r, %s.0", T_EAX, paramvalue);
 				AddLineQueueX("%s %s, %r", MOVE_SIMD_DWORD(), param->sym.string_ptr, T_EAX);
 				return(1);
@@ -2144,14 +2241,14 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 
 			if (opnd->kind == EXPR_FLOAT)
 			{
-				*regs_used |= (1<<6);
+				sysv_rax_written(regs_used);
 				AddLineQueueX("mov %r, %r ptr %s", T_RAX, T_REAL8, paramvalue);
 				AddLineQueueX("%s %s, %r", MOVE_SIMD_QWORD(), param->sym.string_ptr, T_RAX);
 				return(1);
 			}
 			if (opnd->kind == EXPR_CONST)
 			{
-				*regs_used |= (1 << 6);
+				sysv_rax_written(regs_used);
 				AddLineQueueX("mov %r, %r ptr %s.0", T_RAX, T_REAL8, paramvalue);
 				AddLineQueueX("%s %s, %r", MOVE_SIMD_QWORD(), param->sym.string_ptr, T_RAX);
 				return(1);
@@ -2454,6 +2551,10 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 	/* ******************************************************************************************************************** */
 	else
 	{
+		psize = addr ? 0 : (opnd->mem_type != MT_EMPTY ? SizeFromMemtype(opnd->mem_type, USE64, opnd->type) : SizeFromMemtype(param->sym.mem_type, USE64, param->sym.type));
+		sysv_stack_rax(opnd, addr || opnd->kind == EXPR_FLOAT || ((opnd->kind == EXPR_ADDR || (opnd->kind == EXPR_REG && opnd->indirect)) &&
+			(psize != 8 || param->sym.mem_type == MT_REAL8)));
+
 		/* REAL4/float argument */
 		/* ******************************************************************************************************************** */
 		if (param->sym.mem_type == MT_REAL4)
@@ -2717,21 +2818,8 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 					{
 						sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
 					}
-					else if (regsize == 4)
-					{
-						sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
-						BuildCodeLine(info->stackOps[info->stackOpCount++], "movsxd %r, %s", sysv_regTo64(reg), paramvalue);
-					}
-					else if (regsize == 2)
-					{
-						sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
-						BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx %r, %s", sysv_regTo64(reg), paramvalue);
-					}
-					else if (regsize == 1)
-					{
-						sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
-						BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx %r, %s", sysv_regTo64(reg), paramvalue);
-					}
+					else
+						BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 					info->stackOfs += 8;
 				}
 				else if (GetValueSp(reg) & OP_XMM)
@@ -2827,7 +2915,7 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 			}
 
 			/* Operand is a memory address (IE: symbol name) or memory address expression like [rbp+rax] etc */
-			if (opnd->kind == EXPR_ADDR && !addr && ((opnd->sym->type &&
+			if (opnd->kind == EXPR_ADDR && !addr && (!opnd->sym || (opnd->sym->type &&
 				_stricmp(opnd->sym->type->name, "__m128") != 0 &&
 				_stricmp(opnd->sym->type->name, "__m256") != 0 &&
 				_stricmp(opnd->sym->type->name, "__m512") != 0) || !opnd->sym->type))
@@ -3090,50 +3178,16 @@ static void SkipTypecast(char *fullparam, int i, struct asm_tok tokenarray[])
 /* Check if a parameter (via it's string ptr) is a raw ascii string, 
 if we're in a vararg, just being a raw string is sufficient, 
 for normal parameters it must be qualified as PTR */
-static int ParamIsString(char *pStr, int param, struct dsym* proc) {
+static int ParamIsString(char *pStr, int param, struct dsym* p) {
 	char c;
 	char *pS = pStr;
-	int i = 0;
-	struct dsym* p = proc->e.procinfo->paralist;
-	struct asym* type = NULL;
 	enum memtype mtype = MT_EMPTY;
 
 	if (!Options.literal_strings)
 		return(FALSE);
 
-	for (i = 0; i < param; i++)
-	{
-		if (p->nextparam == NULL)
-			break;
-		p = p->nextparam;
-	}
-
 	if (p)
-	{
-		if (p->sym.mem_type == MT_PTR)
-		{
-			mtype = MT_PTR;
-		}
-		else
-		{
-			if (p->sym.target_type)
-			{
-				type = p->sym.target_type;
-				while (type->target_type && (int)type->target_type > 0x2000)
-				{
-					type = type->target_type;
-					if (type->mem_type == MT_PTR)
-					{
-						mtype = MT_PTR;
-						break;
-					}
-				}
-				mtype = MT_EMPTY;
-			}
-			else
-				mtype = p->sym.mem_type;
-		}
-	}
+		mtype = p->sym.mem_type;
 
 	if (!p)
 		return(FALSE);
@@ -3163,6 +3217,42 @@ static int ParamIsString(char *pStr, int param, struct dsym* proc) {
 	return(TRUE);
 }
 
+void InvokeInit(int pass)
+/***********************/
+{
+	if (pass == PASS_1)
+		literals = NULL;
+}
+
+/* Get the label of a literal string. Different strings may have the
+ * same hash: all but the first of them get a unique label then.
+ */
+static struct asym *LiteralLabel(char *name, const char *string, bool wide)
+/**************************************************************************/
+{
+	struct asym *lbl;
+	struct literal *curr;
+	char *suffix = name + strlen(name);
+	int n = 0;
+
+	for (;;) {
+		lbl = SymLookup(name);
+		for (curr = literals; curr && curr->lbl != lbl; curr = curr->next);
+		if (curr == NULL) {
+			curr = LclAlloc(sizeof(struct literal) + strlen(string));
+			curr->next = literals;
+			curr->lbl = lbl;
+			curr->wide = wide;
+			strcpy(curr->string, string);
+			literals = curr;
+			return(lbl);
+		}
+		if (curr->wide == wide && strcmp(curr->string, string) == 0)
+			return(lbl);
+		sprintf(suffix, "_%d", ++n);
+	}
+}
+
 static unsigned int hashpjw(const char *s)
 /******************************************/
 {
@@ -3218,8 +3308,8 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 	char c1;
 	char c2;
 	size_t finallen;
-	uint_16 buff[256];
-	uint_8  buff2[256];
+	uint_16 buff[MAX_LINE_LEN];
+	uint_8  buff2[MAX_LINE_LEN];
 
 	DebugMsg1(("PushInvokeParam(%s, param=%s:%u, i=%u ) enter\n", proc->sym.name, curr ? curr->sym.name : "NULL", reqParam, i));
 
@@ -3236,7 +3326,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 		// UASM 2.47 Only check the string type information if we're on the actual reqParam.
 		if (currParm == reqParam && curr)
 		{
-			if (ParamIsString(tokenarray[i].string_ptr, currParm, proc))
+			if (ParamIsString(tokenarray[i].string_ptr, currParm, curr))
 			{
 
 				// Preserve current Segment.
@@ -3258,9 +3348,9 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 
 				sprintf(buf, "%s%d", labelstr, hashpjw(tokenarray[i].string_ptr));
 
-				lbl = SymLookup(buf);
+				lbl = LiteralLabel(buf, tokenarray[i].string_ptr, FALSE);
 				SetSymSegOfs(lbl);
-				memset(&buff, 0, 256);
+				memset(&buff, 0, sizeof(buff));
 				pDest = buff;
 				finallen = slen;
 
@@ -3313,7 +3403,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 				// Restore current Sement.
 				CurrSeg = curseg;
 			}
-			else if (strcmp(tokenarray[i].string_ptr, "L") == 0 && ParamIsString(tokenarray[i + 1].string_ptr, currParm, proc))
+			else if (strcmp(tokenarray[i].string_ptr, "L") == 0 && ParamIsString(tokenarray[i + 1].string_ptr, currParm, curr))
 			{
 				// Preserve current Segment.
 				curseg = ModuleInfo.currseg;
@@ -3332,8 +3422,8 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 				slen = strlen(tokenarray[i + 1].string_ptr) - 2;
 				pSrc = (tokenarray[i + 1].string_ptr) + 1;
 				sprintf(buf, "%s%d", labelstr, hashpjw(pSrc));
-				lbl = SymLookup(buf);
-				memset(&buff, 0, 256);
+				lbl = LiteralLabel(buf, tokenarray[i + 1].string_ptr, TRUE);
+				memset(&buff, 0, sizeof(buff));
 
 				pDest = buff2;
 				finallen = slen;
@@ -3518,6 +3608,10 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
       }
       else
 	  {
+        if ((*r0flags & R0_USED) &&
+            ((opnd.base_reg != NULL && (opnd.base_reg->tokval == T_EAX || opnd.base_reg->tokval == T_RAX)) ||
+             (opnd.idx_reg != NULL && (opnd.idx_reg->tokval == T_EAX || opnd.idx_reg->tokval == T_RAX))))
+            EmitErr(REGISTER_VALUE_OVERWRITTEN_BY_INVOKE);
         AddLineQueueX(" lea %r, %s", regax[ModuleInfo.Ofssize], fullparam);
         *r0flags |= R0_USED;
         AddLineQueueX(" push %r", regax[ModuleInfo.Ofssize]);
@@ -3715,6 +3809,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 							|| opnd.idx_reg->tokval == T_RAX
 #endif
 							)))) {
+				EmitErr(REGISTER_VALUE_OVERWRITTEN_BY_INVOKE);
 				*r0flags = 0;
 			}
 
@@ -4380,6 +4475,9 @@ ret_code InvokeDirective(int i, struct asm_tok tokenarray[])
 	}
 
 	/* if (Parse_Pass == PASS_1) */
+	fcvecused = 0;
+	fcregused = 0;
+	sysv_rax_read = FALSE;
 	memset(info->vregs, 0, 6); /* reset vregs EVERY pass */
 							   /* clear sse register flags every pass*/
 	memset(info->xyzused, 0, 6);
@@ -4539,6 +4637,11 @@ ret_code InvokeDirective(int i, struct asm_tok tokenarray[])
 			// SYSTEMV Varargs requires a count of vector registers used in vararg in rax.
 			if (proc->e.procinfo->has_vararg)
 			{
+				/* the vector registers of the named arguments count as well */
+				for (curr = info->paralist; curr; curr = curr->nextparam)
+					if (curr->sym.is_vararg == FALSE && curr->sym.string_ptr && curr->sym.tokval &&
+						( GetValueSp(curr->sym.tokval) & ( OP_XMM | OP_YMM | OP_ZMM ) ))
+						proc->e.procinfo->vararg_vecs++;
 				if (proc->e.procinfo->vararg_vecs > 0)
 					AddLineQueueX("mov eax,%u", proc->e.procinfo->vararg_vecs);
 				else
-- 
2.43.0


From 231759b28811589b101652a23bd6248837665806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 34/94] fix: real constants: REAL4 rounded twice, REAL10 ties,
 zero with exponent and range, integers in REAL items

REAL4 constants were rounded to double first; REAL10 ties were not rounded to
even, 0.0e5 was not zero and magnitudes out of range gave garbage. Integers in
REAL items went through a 32-bit integer and a float, and emitted bytes inside
STRUCT definitions. MOV r64, REAL8 PTR 0.0 was rejected, and REAL4 .5 accessed
a NULL pointer.
---
 atofloat.c |  4 ++--
 data.c     | 16 ++++++++++------
 parser.c   |  2 +-
 tbyte.c    | 29 ++++++++++++++++++++++-------
 4 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/atofloat.c b/atofloat.c
index 7ce89d7..3e29216 100644
--- a/atofloat.c
+++ b/atofloat.c
@@ -15,7 +15,7 @@
 #include "tbyte.h"
 #include "atofloat.h"
 
-#define USESTRTOF 0 /* 0=use strtod() and convert "manually", 1=use strtof() */
+#define USESTRTOF 1 /* 0=use strtod() and convert "manually", 1=use strtof() */
 
 extern void myatoi128( const char *, uint_64[], int, int );
 
@@ -50,7 +50,7 @@ void atofloat( void *out, const char *inp, unsigned size, bool negative, uint_8
 #if USESTRTOF
             errno = 0;
             float_value = strtof( inp, NULL );
-            if ( errno == ERANGE ) {
+            if ( errno == ERANGE || float_value > FLT_MAX || ( float_value < FLT_MIN && float_value != 0 ) ) {
                 DebugMsg(("atofloat(%s, 4): magnitude too large\n", inp ));
                 EmitErr( MAGNITUDE_TOO_LARGE_FOR_SPECIFIED_SIZE );
             }
diff --git a/data.c b/data.c
index 87d6b25..b52115d 100644
--- a/data.c
+++ b/data.c
@@ -507,7 +507,7 @@ static void output_float( const struct expr *opnd, unsigned size )
     } 
 	else if (opnd->kind == EXPR_FLOATI)
 	{
-		snprintf(tstr, sizeof(tstr), "%f", opnd->fvalue);
+		sprintf(tstr, "%" I64_SPEC "u.0", opnd->llvalue);
 		atofloat( buffer, tstr, size, opnd->negative, 0 );
 	}
 	else {
@@ -754,12 +754,16 @@ next_item:  /* <--- continue scan if a comma has been detected */
         break;
     case EXPR_CONST:
         if ( is_float ) {
-			opndx.fvalue = (float)opndx.value;
+			if (opndx.hlvalue != 0 && (opndx.hlvalue != -1 || opndx.value64 >= 0)) {
+				EmitConstError(&opndx);
+				break;
+			}
 			opndx.kind = EXPR_FLOATI;
-			opndx.negative = (opndx.fvalue < 0) ? 1 : 0;
+			opndx.negative = (opndx.hlvalue != 0 || (opndx.negative && opndx.value64 < 0)) ? 1 : 0;
 			if (opndx.negative)
-				opndx.fvalue *= -1;
-			output_float( &opndx, no_of_bytes); /* Coerce const integer value to float in data definitions */
+				opndx.llvalue = 0 - opndx.llvalue;
+			if (!inside_struct)
+				output_float( &opndx, no_of_bytes); /* Coerce const integer value to float in data definitions */
 			total++;
 			break;
             //return( EmitError( MUST_USE_FLOAT_INITIALIZER ) );
@@ -1509,7 +1513,7 @@ ret_code data_dir( int i, struct asm_tok tokenarray[], struct asym *type_sym )
     i++;
 
 	/* Enhanced Uasm 2.22+ Union initialize */
-	if (tokenarray[i].token == T_DOT && type_sym->state == SYM_TYPE)
+	if (tokenarray[i].token == T_DOT && type_sym && type_sym->state == SYM_TYPE)
 	{
 		i++; // skip dot.
 		// Check sub type.
diff --git a/parser.c b/parser.c
index 9fead02..845b89e 100644
--- a/parser.c
+++ b/parser.c
@@ -995,7 +995,7 @@ static ret_code idata_nofixup( struct code_info *CodeInfo, unsigned CurrOpnd, co
     if ( CodeInfo->Ofssize == USE64 && CodeInfo->token == T_MOV && CurrOpnd == OPND2 &&
         ( CodeInfo->opnd[OPND1].type & OP_R64 ) &&
         ( opndx->value64 > H_LONG_MAX || opndx->value64 < H_LONG_MIN ||
-         (opndx->explicit && ( opndx->mem_type == MT_QWORD || opndx->mem_type == MT_SQWORD ) ) ) ) 
+         (opndx->explicit && ( opndx->mem_type == MT_QWORD || opndx->mem_type == MT_SQWORD || opndx->mem_type == MT_REAL8 ) ) ) ) 
 	{
         CodeInfo->opnd[CurrOpnd].type = OP_I64;
         CodeInfo->opnd[CurrOpnd].data32h = opndx->hvalue;
diff --git a/tbyte.c b/tbyte.c
index 85f1bf8..740d781 100644
--- a/tbyte.c
+++ b/tbyte.c
@@ -279,6 +279,7 @@ static int multiply( const struct ELD *op1, const struct ELD *op2, struct ELD *r
 /***********************************************************************************
     multiply u96 by u96 into u96
     normalize and round result
+    return 1 if the exponent is out of range
 */
 {
     uint_64 x1;
@@ -318,19 +319,25 @@ static int multiply( const struct ELD *op1, const struct ELD *op2, struct ELD *r
     res->m32[1] = r1.m32[4];
     res->m32[2] = r1.m32[5];
     res->e = exp;
-    return( 0 );
+    return( exp <= 0 || exp >= 0x7fff );
 }
 
 static int TB_create( union u96 *value, int_32 exponent, struct TB_LD *ld )
 /**************************************************************************
     create tbyte/long double from u96 value and
     decimal exponent, round result
+    return 1 if the value is out of range
 */
 {
     const struct ELD *tabExp;
     int i;
     struct ELD res;
 
+    if( !U96ISNOTZERO( (*value) ) ) {
+        ld->m = 0;
+        ld->e = 0;
+        return( 0 );
+    }
     if( exponent < 0 ) {
         exponent = -exponent;
         tabExp = tab_minus_exp;
@@ -340,18 +347,19 @@ static int TB_create( union u96 *value, int_32 exponent, struct TB_LD *ld )
     U96LD(value, &res);
     for( i = 0; i < MAX_EXP_INDEX; i++ ) {
         if ( exponent & 1 ) {
-            multiply(&res, tabExp + i, &res);
+            if( multiply(&res, tabExp + i, &res) )
+                return( 1 );
         }
         exponent >>= 1;
         if( exponent == 0 ) break;
     }
     if( exponent != 0 ) {
-        /* exponent overflow */
+        return( 1 ); /* exponent overflow */
     }
     ld->e = res.e;
     ld->m = res.m32[1] + ((uint_64)res.m32[2] << 32) ;
     /* round result */
-    if( res.m32[0] & 0x80000000U ) {
+    if( res.m32[0] > 0x80000000U || ( res.m32[0] == 0x80000000U && ( ld->m & 1 ) ) ) {
         if( ld->m == MAXUI64 ) {
             ld->m = MAXUI64BIT;
             ld->e++;
@@ -359,7 +367,7 @@ static int TB_create( union u96 *value, int_32 exponent, struct TB_LD *ld )
             ld->m++;
         }
     }
-    return( 0 );
+    return( ld->e >= 0x7fff );
 }
 
 struct TB_LD *strtotb( const char *p, struct TB_LD *ld, char negative )
@@ -457,12 +465,19 @@ struct TB_LD *strtotb( const char *p, struct TB_LD *ld, char negative )
             return( ld );
         }
         while ( (unsigned int)(*p - '0') < 10u )
-            exp_value = 10 * exp_value + (*p++ - '0');
+            if( exp_value < 100000 )
+                exp_value = 10 * exp_value + (*p++ - '0');
+            else
+                p++;
         if( exp_sign < 0 )
             exp_value = -exp_value;
     }
     exp_value += exponent;
-    TB_create( &value, exp_value, ld );
+    if( TB_create( &value, exp_value, ld ) ) {
+        EmitErr( MAGNITUDE_TOO_LARGE_FOR_SPECIFIED_SIZE );
+        ld->m = 0;
+        ld->e = 0;
+    }
     SET_SIGN( ld, sign );
     return( ld );
 }
-- 
2.43.0


From a54f5e2e51cfd63d3680d4d8579f2851c66a996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 35/94] fix: RECORD: 128-bit records lost fields that cross bit
 64, omitted fields took garbage, value longer than the record constant
 overwrote the line

---
 data.c     |  6 +++---
 expreval.c | 25 ++++++-------------------
 2 files changed, 9 insertions(+), 22 deletions(-)

diff --git a/data.c b/data.c
index b52115d..57f1001 100644
--- a/data.c
+++ b/data.c
@@ -105,8 +105,8 @@ static ret_code data_item( int *, struct asm_tok[], struct asym *, uint_32, cons
     } 
     else {
       orLo = orLo << pos;
-      num = num >> ~pos;
-      orHi |= num;
+      if (pos)
+        orHi |= num >> (64 - pos);
     } 
     *dstHi |= orHi;
     *dstLo |= orLo;
@@ -313,7 +313,7 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
                     EvalOperand( &j, tokenarray, max_item, &opndx, 0 );
                     is_record_set = TRUE;
                 } else {
-                    opndx.value = 0;
+                    opndx.llvalue = 0;
                     opndx.kind = EXPR_CONST;
                     opndx.quoted_string = NULL;
                 }
diff --git a/expreval.c b/expreval.c
index a1acfed..0189000 100644
--- a/expreval.c
+++ b/expreval.c
@@ -307,7 +307,7 @@ static ret_code  InitRecordVar( struct expr *opnd1, int index, struct asm_tok to
                     EvalOperand( &j, tokenarray, max_item, &opndx, 0 );
                     is_record_set = TRUE;
                 } else {
-                    opndx.value = 0;
+                    opndx.llvalue = 0;
                     opndx.kind = EXPR_CONST;
                     opndx.quoted_string = NULL;
                 }
@@ -553,24 +553,11 @@ all:
         goto exit;
        }
      else{
-       strcpy(buffer, tokenarray->tokpos);
-       ptr = strstr(buffer, tokenarray[tok_start].string_ptr);
-       oldptr = ptr;
-       len = 0;
-       while (*ptr != '>')
-         {
-         ptr++;
-         len++;
-         }
-       ptr = tokenarray->tokpos + (oldptr - buffer);
-       for (i = 0; i <= len; i++)
-         *ptr++ = 0x20;
-       ptr = buffer;
-       sprintf(ptr, "0x%" PRIx64, dwRecInit);
-       oldptr = tokenarray->tokpos + (oldptr - buffer);
-       len = strlen(buffer);
-       for (i = 0; i < len; i++)
-         *oldptr++ = *ptr++;
+       /* replace the type name and the initializer by the value */
+       oldptr = tokenarray[tok_start].tokpos;
+       sprintf(buffer, "0x%" PRIx64, dwRecInit);
+       strcat(buffer, tokenarray[index].tokpos);
+       strcpy(oldptr, buffer);
        Token_Count = Tokenize(tokenarray->tokpos, 0, tokenarray, TOK_DEFAULT);
        goto exit;
        }
-- 
2.43.0


From be7a5022bbda58fb15837e05035147dc1beeea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 36/94] fix: ALIGN above the segment's alignment crashed in a
 module without .MODEL

---
 posndir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posndir.c b/posndir.c
index 4715024..4ab1363 100644
--- a/posndir.c
+++ b/posndir.c
@@ -252,7 +252,7 @@ ret_code AlignDirective( int i, struct asm_tok tokenarray[] )
     }
     if( align_value > seg_align ) {
         if (( Parse_Pass == PASS_1 )&&                   //We need 32 0r 64 bit for VEX and EVEX
-          (ModuleInfo.flat_grp->sym.isdefined == FALSE)) //No warning if "FLAT"
+          (ModuleInfo.flat_grp == NULL || ModuleInfo.flat_grp->sym.isdefined == FALSE)) //No warning if "FLAT"
 		if ( Parse_Pass == PASS_1 && ModuleInfo.Ofssize != USE64 )
             EmitWarn( 1, ALIGN_TOO_HIGH, myltoa( align_value, buffer, 10, FALSE, FALSE ) );
         //return( ERROR ); /* v2.0: don't exit */
-- 
2.43.0


From 320108d5ff454040a929ea5b07e638231fcdc27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 37/94] fix: ELF64 and Mach-O writers crashed on a section with
 uninitialized data only

---
 elf.c     | 7 ++++++-
 macho64.c | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/elf.c b/elf.c
index f169595..027e3ce 100644
--- a/elf.c
+++ b/elf.c
@@ -1245,7 +1245,12 @@ static ret_code elf_write_data( struct module_info *modinfo, struct elfmod *em )
         DebugMsg(("elf_write_data(%s): program data at ofs=%X, size=%X\n", curr->sym.name, curr->e.seginfo->fileoffset, size ));
         if ( curr->e.seginfo->segtype != SEGTYPE_BSS && size != 0 ) {
             fseek( CurrFile[OBJ], curr->e.seginfo->fileoffset + curr->e.seginfo->start_loc, SEEK_SET );
-            /**/myassert( curr->e.seginfo->CodeBuffer );
+            if ( curr->e.seginfo->CodeBuffer == NULL ) { /* nothing but uninitialized data */
+                while ( size-- )
+                    if ( fwrite( "", 1, 1, CurrFile[OBJ] ) != 1 )
+                        WriteError();
+                continue;
+            }
             if ( fwrite( curr->e.seginfo->CodeBuffer, 1, size, CurrFile[OBJ] ) != size )
                 WriteError();
         }
diff --git a/macho64.c b/macho64.c
index 6213b57..b18e964 100644
--- a/macho64.c
+++ b/macho64.c
@@ -582,7 +582,10 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 		for (cnt = 0; cnt < currSec->start; cnt++)
 			fwrite(&padbyte, 1, 1, CurrFile[OBJ]);
 		cnt = currSec->size - currSec->dif - currSec->start;
-		if (fwrite(currSec->data, 1, cnt, CurrFile[OBJ]) != cnt)
+		if (currSec->data == NULL)	/* nothing but uninitialized data */
+			while (cnt-- > 0)
+				fwrite(&padbyte, 1, 1, CurrFile[OBJ]);
+		else if (fwrite(currSec->data, 1, cnt, CurrFile[OBJ]) != cnt)
 			WriteError();
 		if (currSec->dif > 0)
 		{
-- 
2.43.0


From ba3a0d1baff89e6eaf1360c0ac02f36c40d21237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 38/94] fix: the exit status told about the last module of a
 run only

---
 main.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index a42a973..0b20e47 100644
--- a/main.c
+++ b/main.c
@@ -65,6 +65,7 @@ int main(int argc, char **argv)
 	int     numArgs = 0;
 	int     numFiles = 0;
 	int     rc = 0;
+	int     failed = 0; /* some module had errors */
 
 #if WILDCARDS
 	/* v2.11: _findfirst/next/close() handle, should be of type intptr_t.
@@ -123,6 +124,7 @@ int main(int argc, char **argv)
 		if ((fh = _findfirst(Options.names[ASM], &finfo)) == -1) {
 			DebugMsg(("main: _findfirst(%s) failed\n", Options.names[ASM]));
 			EmitErr(CANNOT_OPEN_FILE, Options.names[ASM], ErrnoStr());
+			failed = 1;
 			break;
 		}
 		pfn = GetFNamePart(Options.names[ASM]);
@@ -131,13 +133,19 @@ int main(int argc, char **argv)
 			do {
 				strcpy(&fname[dirsize], finfo.name);
 				DebugMsg(("main: fname=%s\n", fname));
-				rc = AssembleModule(fname);  /* assemble 1 module */
+				if (!AssembleModule(fname))  /* assemble 1 module */
+					failed = 1;
+				rc = 1;
 			} while ((_findnext(fh, &finfo) != -1));
 		    _findclose(fh);
 #else
-		rc = AssembleModule( Options.names[ASM] );
+		if (!AssembleModule( Options.names[ASM] ))
+			failed = 1;
+		rc = 1;
 #endif
 	};
+	if (failed)
+		rc = 0;
 	CmdlineFini();
 	if (numArgs == 0) {
 		write_logo();
-- 
2.43.0


From b37f97eb12f803a87510ccaa1035a5e525558749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 39/94] fix: listing showed wrong bytes for lines with
 uninitialized items

---
 H/omf.h    |  1 +
 assemble.c |  2 --
 listing.c  | 16 ++++++----------
 omf.c      | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 4 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/H/omf.h b/H/omf.h
index eb017b3..46bf897 100644
--- a/H/omf.h
+++ b/H/omf.h
@@ -16,6 +16,7 @@ void      omf_set_filepos( void );
 //void      omf_write_ledata( struct dsym * );
 void      omf_OutSelect( bool );
 void      omf_FlushCurrSeg( void );
+uint_8    omf_GetListByte( uint_32 );
 void      omf_check_flush( const struct line_num_info * );
 
 #endif // _OMF_H_INCLUDED_
diff --git a/assemble.c b/assemble.c
index f39d2b2..5b7289e 100644
--- a/assemble.c
+++ b/assemble.c
@@ -85,7 +85,6 @@ jmp_buf jmpenv;
 #define ERR_EXT "err"
 #define BIN_EXT "BIN"
 #define EXE_EXT "EXE"
-extern int_32           LastCodeBufSize;
 extern char             *DefaultDir[NUM_FILE_TYPES];
 extern const char       *ModelToken[];
 #if FASTMEM==0
@@ -464,7 +463,6 @@ ret_code SetCurrOffset( struct dsym *seg, uint_32 value, bool relative, bool sel
             if( select_data )
                 if ( ModuleInfo.CommentDataInCode )
                     omf_OutSelect( TRUE );
-            LastCodeBufSize = value;
         }
         seg->e.seginfo->start_loc = value;
     /* for -bin, if there's an ORG (relative==false) and no initialized data
diff --git a/listing.c b/listing.c
index e27f2a5..e1537a2 100644
--- a/listing.c
+++ b/listing.c
@@ -24,6 +24,7 @@
 #include "msgtext.h"
 #include "types.h"
 #include "omfspec.h"
+#include "omf.h"
 
 #define CODEBYTES 9
 #define OFSSIZE 8
@@ -38,7 +39,6 @@
 #define NLSTR "\r\n"
 #endif
 
-extern int_32  LastCodeBufSize;
 #if STACKBASESUPP==0
 extern enum special_token basereg[];
 #endif
@@ -221,8 +221,7 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
         len = CODEBYTES;
         p2 = ll.buffer + OFSSIZE + 2;
 
-        if ( CurrSeg->e.seginfo->CodeBuffer == NULL ||
-            CurrSeg->e.seginfo->written == FALSE ) {
+        if ( CurrSeg->e.seginfo->CodeBuffer == NULL ) {
             while ( oldofs < newofs && len ) {
                 *p2++ = '0';
                 *p2++ = '0';
@@ -232,17 +231,14 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
             break;
         }
 
-        /* OMF hold just a small buffer for one LEDATA record */
-        /* if it has been flushed, use LastCodeBufSize */
         idx = (CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc) - (newofs - oldofs);
         if ( Options.output_format == OFORMAT_OMF ) {
-            /* v2.11: additional check to make the hack more robust [ test case:  db 800000h dup (0) ] */
-            if ( ( idx+LastCodeBufSize ) < 0 )
+            /* there's just a small buffer for one LEDATA record */
+            if ( newofs - oldofs > 1024 )
                 break; /* just exit. The code bytes area will remain empty */
-            while ( idx < 0 && len ) {
-                sprintf( p2, "%02X", CurrSeg->e.seginfo->CodeBuffer[idx+LastCodeBufSize] );
+            while ( oldofs < newofs && len ) {
+                sprintf( p2, "%02X", omf_GetListByte( oldofs ) );
                 p2 += 2;
-                idx++;
                 oldofs++;
                 len--;
             }
diff --git a/omf.c b/omf.c
index 18d4a60..c02bf12 100644
--- a/omf.c
+++ b/omf.c
@@ -106,11 +106,13 @@ extern void SortSegments( int );
 extern struct qdesc LinnumQueue;    /* queue of line_num_info items */
 extern const char szNull[];
 
-/* LastCodeBufSize stores the size of the code buffer AFTER it has been written in omf_write_ledata().
- * This allows to get the content bytes for the listing.
- * This is a rather hackish "design" and is to be improved.
+/* the bytes which the last LEDATA records have written to a segment; a source line
+ * may fill more than one record, so the listing needs them.
  */
-int_32       LastCodeBufSize;
+#define LSTBYTES 2048
+static uint_8       lst_bytes[LSTBYTES];
+static struct dsym  *lst_seg;
+static uint_32      lst_end;        /* offset behind the last byte saved */
 
 static uint_32    seg_pos;        /* file pos of SEGDEF record(s) */
 static uint_32    public_pos;     /* file pos of PUBDEF record(s) */
@@ -414,6 +416,42 @@ static void omf_write_fixupp( struct dsym *seg, char is32 )
 
 static uint_8 get_omfalign( uint_8 alignment );
 
+/* save the content of the code buffer for the listing */
+
+static void omf_save_bytes( struct dsym *seg, uint_32 size )
+/**********************************************************/
+{
+    uint_32 start = seg->e.seginfo->start_loc;
+    uint_32 i;
+
+    if ( CurrFile[LST] == NULL )
+        return;
+    /* there's uninitialized data between the records */
+    if ( lst_seg != seg || lst_end > start || start - lst_end >= LSTBYTES )
+        memset( lst_bytes, 0, sizeof( lst_bytes ) );
+    else
+        for ( i = lst_end; i < start; i++ )
+            lst_bytes[ i % LSTBYTES ] = 0;
+    for ( i = 0; i < size; i++ )
+        lst_bytes[ ( start + i ) % LSTBYTES ] = seg->e.seginfo->CodeBuffer[i];
+    lst_seg = seg;
+    lst_end = start + size;
+}
+
+/* get a byte of the current segment for the listing */
+
+uint_8 omf_GetListByte( uint_32 ofs )
+/***********************************/
+{
+    struct seg_info *seg = CurrSeg->e.seginfo;
+
+    if ( ofs >= seg->start_loc )
+        return( ofs < seg->current_loc ? seg->CodeBuffer[ofs - seg->start_loc] : 0 );
+    if ( CurrSeg == lst_seg && ofs < lst_end && lst_end - ofs <= LSTBYTES )
+        return( lst_bytes[ ofs % LSTBYTES ] );
+    return( 0 );
+}
+
 /* write an LEDATA record, optionally write fixups */
 
 static void omf_write_ledata( struct dsym *seg )
@@ -426,7 +464,7 @@ static void omf_write_ledata( struct dsym *seg )
     DebugMsg1(( "omf_write_ledata enter, buffer=%p start ofs=%" I32_SPEC "X, size=%" I32_SPEC "X\n",
               seg->e.seginfo->CodeBuffer, seg->e.seginfo->start_loc, size ));
     if( size > 0 && write_to_file == TRUE ) {
-        LastCodeBufSize = size;
+        omf_save_bytes( seg, size );
 #if COMDATSUPP
         if ( seg->e.seginfo->comdat_selection ) {
             /* if the COMDAT symbol has been referenced in a FIXUPP,
-- 
2.43.0


From ba1a47c92a155844dbf959261cf01259a9b8dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 40/94] fix: settings and a symbol of one module leaked into
 the next one of the run

---
 assemble.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/assemble.c b/assemble.c
index 5b7289e..cbb5ab0 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1314,6 +1314,7 @@ static void ModuleInit( void )
     memset( SymTables, 0, sizeof( SymTables[0] ) * TAB_LAST );
     ModuleInfo.fmtopt->init( &ModuleInfo );
     gmaskflag = 0;
+    sym_ReservedStack = NULL; /* the previous module's symbols are gone */
     return;
 }
 
@@ -1574,6 +1575,8 @@ int EXPQUAL AssembleModule( const char *source )
     struct dsym   *seg;
 
 	struct module_info tempInfo;
+	struct global_options saveOptions = Options; /* the module must not change what the command line has set */
+	int saveArch = MODULEARCH;
 
 #ifdef _WIN32
 	CONSOLE_SCREEN_BUFFER_INFO screenBufferInfo;
@@ -1825,6 +1828,16 @@ done:
    
 	AssembleFini();
 	ResetOrgFixup();
+
+	/* the next module of this run starts with the command line's settings */
+	Options = saveOptions;
+	MODULEARCH = saveArch;
+	ModuleInfo.frame_auto   = tempInfo.frame_auto;
+	ModuleInfo.fctype       = tempInfo.fctype;
+	ModuleInfo.langtype     = tempInfo.langtype;
+	ModuleInfo.sub_format   = tempInfo.sub_format;
+	ModuleInfo.win64_flags  = tempInfo.win64_flags;
+	ModuleInfo.switch_style = tempInfo.switch_style;
     DebugMsg(("AssembleModule exit\n"));
     return( ModuleInfo.g.error_count == 0 );
 }
-- 
2.43.0


From 7af0a604f8a790a1c31e544886bca48b2635fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 41/94] fix: moffs forms of MOV read past the operand array
 (crash depending on stack contents)

---
 codegenv2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegenv2.c b/codegenv2.c
index 6b5086d..59afdaf 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1270,7 +1270,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	}
 
 	/* If the memory address refers to a symbol indirectly.. */
-	if (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].kind == EXPR_ADDR)
+	if (instr->memOpnd < NO_MEM && opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].kind == EXPR_ADDR)
 	{
 		symSize = SizeFromMemtype(opExpr[instr->memOpnd].mem_type, ModuleInfo.Ofssize, opExpr[instr->memOpnd].sym);
 
-- 
2.43.0


From 34f9b8c324a2c10b1f4795f871572e18b14a092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 42/94] fix: OMF listing showed stale bytes after an error

---
 omf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omf.c b/omf.c
index c02bf12..c4e1fdc 100644
--- a/omf.c
+++ b/omf.c
@@ -445,6 +445,8 @@ uint_8 omf_GetListByte( uint_32 ofs )
 {
     struct seg_info *seg = CurrSeg->e.seginfo;
 
+    if ( write_to_file == FALSE ) /* there has been an error */
+        return( 0 );
     if ( ofs >= seg->start_loc )
         return( ofs < seg->current_loc ? seg->CodeBuffer[ofs - seg->start_loc] : 0 );
     if ( CurrSeg == lst_seg && ofs < lst_end && lst_end - ofs <= LSTBYTES )
-- 
2.43.0


From 5bec50bd7e625f1ef72d277117fbdabae48c0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 43/94] fix: xmm save count of win64 prologues was
 uninitialized

---
 proc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proc.c b/proc.c
index 0610a82..8ba6d3f 100644
--- a/proc.c
+++ b/proc.c
@@ -2980,7 +2980,7 @@ static void write_win64_default_prologue_RBP(struct proc_info *info)
 	const char * const  *ppfmt;
 	int                 i;
 	int                 cnt;
-	int                 cntxmm;
+	int                 cntxmm = 0;
 	int                 resstack = ((ModuleInfo.win64_flags & W64F_AUTOSTACKSP) ? sym_ReservedStack->value : 0);
 	int                 stackadj = 0;
 	int                 subAmt = 0;
@@ -3219,7 +3219,7 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 {
 	uint_16             *regist;
 	const char * const  *ppfmt;
-	int                 cntxmm;
+	int                 cntxmm = 0;
 	unsigned char xyused[6];  /* flags for used sse registers in vectorcall */
 	unsigned char       xreg;
 	unsigned char       xsize;
@@ -5533,6 +5533,7 @@ void ProcInit(void)
 	CurrProc = NULL;
 	procidx = 1;
 	ProcStatus = 0;
+	endprolog_found = FALSE;
 	/* v2.09: reset prolog and epilog mode */
 	ModuleInfo.prologuemode = PEM_DEFAULT;
 	ModuleInfo.epiloguemode = PEM_DEFAULT;
-- 
2.43.0


From 26d516d9f33bd23c1ef726d137e22c612269b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 44/94] fix: INVOKE and END used uninitialized data

---
 end.c    | 2 ++
 invoke.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/end.c b/end.c
index d6c2a75..de2e0a6 100644
--- a/end.c
+++ b/end.c
@@ -240,6 +240,8 @@ ret_code EndDirective( int i, struct asm_tok tokenarray[] )
             /* fixme: no need to create the fixup here, should be done in omf_write_modend() */
             //CodeInfo.token = T_NULL; /* v2.09: T_NULL has no entry in optable_idx[] */
             //CodeInfo.pinstr = &InstrTable[IndexFromToken( T_NULL )];
+            memset( &CodeInfo, 0, sizeof( CodeInfo ) );
+            CodeInfo.Ofssize = ModuleInfo.Ofssize;
             CodeInfo.opnd[0].InsFixup = NULL;
             CodeInfo.token = T_NOP;
             CodeInfo.pinstr = &InstrTable[IndexFromToken( T_NOP )];
diff --git a/invoke.c b/invoke.c
index 14183de..fc13b1e 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3315,6 +3315,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 
 	previ = i;
 	i++;
+	isString[reqParam] = FALSE;
 	for (currParm = 0; currParm <= reqParam; )
 	{
 		if (tokenarray[i].token == T_FINAL) { /* this is no real error! */
@@ -3555,6 +3556,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 	fptrsize = 2 + (2 << Ofssize);
   	if (proc->sym.langtype == LANG_DELPHICALL) 
 	{
+		opnd.kind = EXPR_EMPTY; /* the argument has not been evaluated yet */
 		if ( delphicall_tab[ModuleInfo.fctype].handleparam(proc, reqParam, curr, addr, &opnd, fullparam, r0flags) )
 			return(NOT_ERROR);
 	}
-- 
2.43.0


From 34f9d4873052a1b3a9e20df3adaa77118d3360ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 45/94] fix: default segment names are set for every module,
 not left from the previous one

---
 assemble.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assemble.c b/assemble.c
index cbb5ab0..bd462d1 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1315,6 +1315,7 @@ static void ModuleInit( void )
     ModuleInfo.fmtopt->init( &ModuleInfo );
     gmaskflag = 0;
     sym_ReservedStack = NULL; /* the previous module's symbols are gone */
+    SetModelDefaultSegNames(); /* .CODE/.DATA may be used without .MODEL */
     return;
 }
 
-- 
2.43.0


From 6e276e95c8d424197816f74434749717c4b4b038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 46/94] fix: tokenizer and macro scanner ran past the end of
 malformed lines

---
 macro.c    |  3 ++-
 option.c   |  3 +--
 tokenize.c | 25 +++++++++++++++----------
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/macro.c b/macro.c
index 10c9fd2..c3984d7 100644
--- a/macro.c
+++ b/macro.c
@@ -219,7 +219,7 @@ static int store_placeholders( char *line, struct mname_list *mnames )
             case '!':
                 /* v2.11: skip next char only if it is a "special" one; see expans40.asm */
                 //if ( quote == NULLC && *(p+1) != NULLC )
-                if ( quote == NULLC && strchr( "<>\"'", *(p+1) ) )
+                if ( quote == NULLC && *(p+1) && strchr( "<>\"'", *(p+1) ) )
                     p++;
                 break;
             case '<':
@@ -993,6 +993,7 @@ void ReleaseMacroData( struct dsym *macro )
     macro->e.macroinfo->data = NULL;
     macro->e.macroinfo->srcfile = 0;
     macro->sym.mac_vararg = FALSE;
+    macro->sym.label = FALSE;
     /* v2.07: the macro type should not change if a macro is
      * PURGEd.
      */
diff --git a/option.c b/option.c
index 7e21ff0..c546916 100644
--- a/option.c
+++ b/option.c
@@ -1367,9 +1367,8 @@ ret_code OptionDirective( int i, struct asm_tok tokenarray[] )
 
     i++; /* skip OPTION directive */
     while ( tokenarray[i].token != T_FINAL ) {
-        _strupr( tokenarray[i].string_ptr );
         for ( idx = 0; idx < TABITEMS; idx++ ) {
-            if ( 0 == strcmp( tokenarray[i].string_ptr, optiontab[idx].name ) )
+            if ( 0 == _stricmp( tokenarray[i].string_ptr, optiontab[idx].name ) )
                 break;
         }
         if ( idx >= TABITEMS )
diff --git a/tokenize.c b/tokenize.c
index 134c938..eca0388 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -254,12 +254,12 @@ writenum:
     else { 
 checkifvar:
       --p->input;                  /* return to the start of string */
-      while (*p->input != '}'){    
+      while (*p->input && *p->input != '}' && p1 < buff + sizeof(buff) - 1){
         *p1++ = *p->input++;       /* copy the string to the buffer (alowed 32 chars ) */
         }
       *p1 = '\0';                  /* make it C string */
       sym = SymSearch(buff);       /* check if the variable is declared */
-        if (sym == NULL){
+        if (sym == NULL || sym->state != SYM_TMACRO || sym->string_ptr == NULL){
           if (Parse_Pass)
           EmitError(TOO_MANY_DECORATORS);
           return;
@@ -1277,9 +1277,10 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
             if ((_memicmp(input1, "evex", 4) == 0))
             {
               evexflag = TRUE;
-              while (*input1 != '}')
+              while (*input1 && *input1 != '}')
                 input1++;
-              input1++;                /* skip '}' */
+              if (*input1)
+                input1++;              /* skip '}' */
               while (isspace(*input1))
                 input1++;
               p.input = input1;        /* skip '{evex}' */
@@ -1306,8 +1307,8 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
               if (*p1 == 'k' || *p1 == 'K') {      /* check if it is mask register */
                 if ((*(p1 + 1) >= '0') && (*(p1 + 1) <= '7')) {
                   p1++;                            /* skip register number */
-                  while (*p1 != ',') p1++;          /* find the comma  */
-                  p1++;                            /* skip the comma  */
+                  while (*p1 && *p1 != ',') p1++;   /* find the comma  */
+                  if (*p1) p1++;                            /* skip the comma  */
                   while (isspace(*p1)) p1++;       /* skip the space  */
                 }
               }
@@ -1327,6 +1328,7 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
               }
               if (*p1 == 0)goto nobcst;            /* let parser throw error */
               p1--;                                /* get the 'q' or 'd' */
+              if (p1 >= input1)goto nobcst;        /* the type must precede the address */
               if (*p1 == 'd' || *p1 == 'D')
                 cnt += cnt;                        /* double it for dword */
               else if (*p1 == 'q' || *p1 == 'Q')   /* incorret size? */
@@ -1346,6 +1348,7 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
                 while (isspace(*input1)) input1++;   /* skip the space, now pointing to address  */
               }
               else {
+                if (strchr(input1, '\]') == NULL) goto nobcst; /* let parser throw error */
                 for (; *input1 != '\]'; p1++, input1++) /* input1 points to [address] */
                   *p1 = *input1;                     /* copy first memory part over 'qword bcst */
                 *p1++ = *input1++;                   /* copy ']' */
@@ -1356,7 +1359,8 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
               else if (cnt == 8)  strcpy(p1, "\{1to8\}");
               else if (cnt == 16) strcpy(p1, "\{1to16\}");
               else goto nobcst;                   /* let parser throw error */
-              strcat(p1, input1);
+              p1 += strlen(p1);
+              memmove(p1, input1, strlen(input1) + 1); /* the strings may overlap */
             }
             else {
               /* here force '[]' around a variable */
@@ -1371,15 +1375,16 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
               }
               if (*p1 == '\{') {                       /* if found {1toN} */
                 p1--;                                  /* go back 1 byte to check if ']' is present */
-                while (isspace(*p1)) --p1;             /* skip the space  */
+                while (p1 > p.input && isspace(*p1)) --p1; /* skip the space  */
                 if (*p1 != '\]') {                     /* if not present insert it  */
-                  while (*p1 != ',') --p1;             /* step backwards till the comma */
+                  while (p1 > p.input && *p1 != ',') --p1; /* step backwards till the comma */
+                  if (*p1 != ',') goto nobcst;         /* let parser throw error */
                   p1++;                                /* skip the comma forward  */
                   input1 = p1;                         /* save that location in input1  */
                   while (isspace(*p1)) p1++;           /* skip the space  */
                   strcpy(buff, p1);                    /* copy to the buffer from variable on  */
                   *input1++ = '\[';                    /* skip the space  */
-                  for (p1 = buff; *p1 != '\{'; p1++, input1++) /* till the end of var  */
+                  for (p1 = buff; *p1 && *p1 != '\{'; p1++, input1++) /* till the end of var  */
                     *input1 = *p1;                      /* copy it back to input string  */
                   *input1++ = '\]';                    /* insert ']' before '{' */
                   strcpy(input1, p1);                  /* now copy the rest of string from buffer */
-- 
2.43.0


From 44971f2b05f8aaa0cfa25639964fedc7251dbbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 47/94] fix: out-of-bounds and null accesses for malformed
 INVOKE arguments, vectorcall arguments 5 and 6 in memory were lost or
 rejected

---
 invoke.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/invoke.c b/invoke.c
index fc13b1e..1ea3519 100644
--- a/invoke.c
+++ b/invoke.c
@@ -324,9 +324,13 @@ static int ms32_param( struct dsym const *proc, int index, struct dsym *param, b
         return( 0 );
     
 	if ( GetSymOfssize( &proc->sym ) == USE16 ) {
+        if ( fcscratch < 0 || fcscratch >= sizeof( ms16_regs ) / sizeof( ms16_regs[0] ) )
+            return( 0 ); /* prototype doesn't match the call */
         pst = ms16_regs + fcscratch;
         fcscratch++;
     } else {
+        if ( fcscratch < 1 || fcscratch > sizeof( ms32_regs ) / sizeof( ms32_regs[0] ) )
+            return( 0 );
         fcscratch--;
         pst = ms32_regs + fcscratch;
     }
@@ -608,8 +612,11 @@ static int ms64_param(struct dsym const *proc, int index, struct dsym *param, bo
 		EmitErr(REGISTER_VALUE_OVERWRITTEN_BY_INVOKE);
 		*regs_used = 0;
 	}
+	/* only vectors and reals use the 5th and 6th vectorcall register */
 	if ( ( (proc->sym.langtype == LANG_VECTORCALL) && (index >= 6) ) ||
-		 ( (proc->sym.langtype == LANG_FASTCALL) && (index >= 4) ) ) {
+		 ( (proc->sym.langtype == LANG_VECTORCALL) && (index >= 4) && psize <= 8 &&
+		   param->sym.mem_type != MT_TYPE && ( param->sym.mem_type & MT_FLOAT ) == 0 ) ||
+		 ( (proc->sym.langtype != LANG_VECTORCALL) && (index >= 4) ) ) {
 		if (addr) 
 		{ 
 			if (psize == 4)
@@ -711,7 +718,7 @@ static int ms64_param(struct dsym const *proc, int index, struct dsym *param, bo
 				case 4:  i = T_EAX; break;
 				default: i = T_RAX; break;
 				}
-				if (proc->sym.langtype == LANG_VECTORCALL) return(1);
+				if (proc->sym.langtype == LANG_VECTORCALL && (psize > 8 || param->sym.mem_type == MT_TYPE)) return(1);
 				*regs_used |= R0_USED;
 			}
 
@@ -1268,6 +1275,13 @@ vcall:
 
 						}
 					}
+					else if (index >= 4)
+					{
+						*regs_used |= R0_USED;
+						AddLineQueueX(" lea %r, %s", T_RAX, paramvalue);
+						AddLineQueueX(" mov qword ptr [%r+%u], %r", T_RSP, NUMQUAL index * 8, T_RAX);
+						return(1);
+					}
 					else
 					{
 						*regs_used |= (1 << (index + RPAR_START)); /* Flag the appropriate GP register as used now for the reference */
@@ -3313,8 +3327,13 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 
 	DebugMsg1(("PushInvokeParam(%s, param=%s:%u, i=%u ) enter\n", proc->sym.name, curr ? curr->sym.name : "NULL", reqParam, i));
 
+	memset(&opnd, 0, sizeof(opnd));
 	previ = i;
 	i++;
+	if (reqParam < 0 || reqParam >= sizeof(isString) / sizeof(isString[0])) {
+		EmitError(TOO_MANY_ARGUMENTS_TO_INVOKE);
+		return(ERROR);
+	}
 	isString[reqParam] = FALSE;
 	for (currParm = 0; currParm <= reqParam; )
 	{
@@ -3340,6 +3359,9 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 					if (strcmp(currs->sym.name, "_DATA") == 0)
 						break;
 				}
+				if (currs == NULL || currs->e.seginfo == NULL)
+					return(EmitError(MUST_BE_IN_SEGMENT_BLOCK));
+
 				// Set CurrSeg
 				CurrSeg = currs;
 
@@ -4443,7 +4465,7 @@ ret_code InvokeDirective(int i, struct asm_tok tokenarray[])
 	isfnptr:
 		/* get the pointer target */
 		sym = proc->sym.target_type;
-		if (sym == NULL)
+		if (sym == NULL || sym->isproc == FALSE) /* the type may be undefined */
 			return(EmitErr(INVOKE_REQUIRES_PROTOTYPE));
 	}
 	else 
-- 
2.43.0


From 8940cf905f6e4d5eeac6ea2e2a2ef4e1e0377b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 48/94] fix: null and out-of-bounds accesses in procedure
 parameters and prologues

---
 proc.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index 8ba6d3f..c78940e 100644
--- a/proc.c
+++ b/proc.c
@@ -100,11 +100,13 @@ static const enum special_token delphi_regs32[] = { T_EAX, T_EDX, T_ECX, };
 static const int ms32_maxreg[] = {
 	sizeof(ms32_regs16) / sizeof(ms32_regs16[0]),
 	sizeof(ms32_regs32) / sizeof(ms32_regs32[0]),
+	sizeof(ms32_regs32) / sizeof(ms32_regs32[0]),
 };
 
 static const int delphi_maxreg[] = {
 	sizeof(delphi_regs32) / sizeof(delphi_regs32[0]),
 	sizeof(delphi_regs32) / sizeof(delphi_regs32[0]),
+	sizeof(delphi_regs32) / sizeof(delphi_regs32[0]),
 };
 
 #if OWFC_SUPPORT
@@ -906,6 +908,8 @@ static ret_code ParseParams(struct dsym *proc, int i, struct asm_tok tokenarray[
 				to = paracurr->sym.type;
 			else
 				to = (paracurr->sym.mem_type == MT_PTR ? paracurr->sym.target_type : NULL);
+			if (paracurr->sym.state == SYM_TMACRO) /* a register's number is stored there */
+				to = tn;
 			for (; to && to->type; to = to->type);
 			oo = (paracurr->sym.Ofssize != USE_EMPTY) ? paracurr->sym.Ofssize : ModuleInfo.Ofssize;
 			on = (ti.Ofssize != USE_EMPTY) ? ti.Ofssize : ModuleInfo.Ofssize;
@@ -2137,6 +2141,7 @@ static void ProcFini(struct dsym *proc)
 	/* save stack space reserved for INVOKE if OPTION WIN64:2 is set */
 	if (Parse_Pass == PASS_1 &&
 		ModuleInfo.fctype == FCT_WIN64 &&
+		sym_ReservedStack &&
 		(ModuleInfo.win64_flags & W64F_AUTOSTACKSP)) {
 		proc->e.procinfo->ReservedStack = sym_ReservedStack->value;
 		DebugMsg1(("ProcFini(%s): localsize=%u ReservedStack=%u\n", proc->sym.name, proc->e.procinfo->localsize, proc->e.procinfo->ReservedStack));
@@ -4319,6 +4324,11 @@ static int sysv_pcheck(struct dsym *proc, struct dsym *paranode, int *used, int
 		paranode->sym.total_size = 1;
 		paranode->sym.tokval = sysV64_regs8[*used];  /* Store register tokval so invoke can use it */
 		break;
+	default: /* small structures */
+		GetResWName(sysV64_regs[*used], regname);
+		paranode->sym.total_size = size;
+		paranode->sym.tokval = sysV64_regs[*used];
+		break;
 	}
 
 	paranode->sym.string_ptr = LclAlloc(strlen(regname) + 1);
@@ -5014,7 +5024,14 @@ void write_prologue(struct asm_tok tokenarray[])
 	if (ModuleInfo.basereg[USE64] == T_RSP)
 		CurrProc->e.procinfo->fpo = TRUE;
 
-	if (ModuleInfo.fctype == FCT_WIN64 && (ModuleInfo.win64_flags & W64F_AUTOSTACKSP))
+	/* without .MODEL and OPTION WIN64 the symbol doesn't exist yet */
+	if (sym_ReservedStack == NULL && ModuleInfo.Ofssize == USE64) {
+		sym_ReservedStack = CreateVariable("@ReservedStack", 0);
+		if (sym_ReservedStack)
+			sym_ReservedStack->predefined = TRUE;
+	}
+
+	if (sym_ReservedStack && ModuleInfo.fctype == FCT_WIN64 && (ModuleInfo.win64_flags & W64F_AUTOSTACKSP))
 	{
 		/* in pass one init reserved stack with 4*8 to force stack frame creation */
 		sym_ReservedStack->value = (Parse_Pass == PASS_1 ? 4 * sizeof(uint_64) : CurrProc->e.procinfo->ReservedStack);
@@ -5073,6 +5090,8 @@ void write_prologue(struct asm_tok tokenarray[])
 		write_userdef_prologue(tokenarray);
 
 	ProcStatus &= ~PRST_INSIDE_PROLOGUE;
+	if (CurrProc == NULL) /* a prologue macro may end the procedure */
+		return;
 	CurrProc->e.procinfo->prologueDone = TRUE;
 
 	/* v2.10: for debug info, calculate prologue size */
-- 
2.43.0


From 7c7232a6a86ae8652a85ae3cd8de3bed7bd2455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 49/94] fix: null and out-of-bounds accesses in expressions,
 data items, equates and structures

---
 context.c  |  2 +-
 data.c     |  8 ++++----
 equate.c   |  2 +-
 expreval.c | 20 ++++++++++++--------
 symbols.c  |  2 +-
 types.c    |  8 ++++++++
 6 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/context.c b/context.c
index 2136790..67cdf7d 100644
--- a/context.c
+++ b/context.c
@@ -107,7 +107,7 @@ ret_code ContextDirective( int i, struct asm_tok tokenarray[] )
 {
     int start = i;
     int directive = tokenarray[i].tokval;
-    enum context_type type;
+    enum context_type type = -1; /* no context given */
     int j;
     struct context *curr;
 
diff --git a/data.c b/data.c
index 57f1001..c84c5a4 100644
--- a/data.c
+++ b/data.c
@@ -492,10 +492,10 @@ static void output_float( const struct expr *opnd, unsigned size )
     /* v2.07: buffer extended to max size of a data item (=32).
      * test case: XMMWORD REAL10 ptr 1.0
      */
-    char buffer[32];
+    char buffer[64]; /* size of a ZMMWORD */
 	char tstr[32];
 
-    if ( opnd->mem_type != MT_EMPTY ) {
+    if ( opnd->mem_type != MT_EMPTY && opnd->kind != EXPR_FLOATI ) {
         int i;
         memset( buffer, 0, sizeof( buffer ) );
         i = SizeFromMemtype( opnd->mem_type, USE_EMPTY, NULL );
@@ -1149,7 +1149,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
 #endif
                             )) {
                             fixup_type = FIX_OFF16;
-                            EmitErr( SYMBOL_TYPE_CONFLICT, sym->name );
+                            EmitErr( SYMBOL_TYPE_CONFLICT, opndx.sym ? opndx.sym->name : "" );
                         } else
 #endif
                             fixup_type = FIX_PTR16;
@@ -1535,7 +1535,7 @@ ret_code data_dir( int i, struct asm_tok tokenarray[], struct asym *type_sym )
 		}
 		if (!foundSubType)
 		{
-			return(EmitErr(INVALID_DATA_INITIALIZER, sym->name));
+			return(EmitErr(INVALID_DATA_INITIALIZER, sym ? sym->name : ""));
 		}
 		else
 		{
diff --git a/equate.c b/equate.c
index c441ba1..2c26fca 100644
--- a/equate.c
+++ b/equate.c
@@ -173,7 +173,7 @@ static struct asym *CreateAssemblyTimeVariable( struct asm_tok tokenarray[] )
          * opnd.sym is also checked for opnd.kind == EXPR_CONST.
          */
         if( opnd.kind != EXPR_CONST &&
-           ( opnd.kind != EXPR_ADDR || opnd.indirect == TRUE ) ||
+           ( opnd.kind != EXPR_ADDR || opnd.indirect == TRUE || opnd.sym == NULL ) ||
             ( opnd.sym != NULL && opnd.sym->state != SYM_INTERNAL ) ) {
             DebugMsg(( "CreateAssemblyTimeVariable(%s) kind=%u sym=%p state=%u\n", name, opnd.kind, opnd.sym, opnd.sym ? opnd.sym->state : 0 ));
             /* v2.09: no error if argument is a forward reference,
diff --git a/expreval.c b/expreval.c
index 0189000..f1f6823 100644
--- a/expreval.c
+++ b/expreval.c
@@ -802,12 +802,12 @@ void myatoi128( const char *src, uint_64 dst[], int base, int size )
     dst[0] = 0;
     dst[1] = 0;
 #if CHEXPREFIX
-    if (((src[1] | 0x20) == 'x') && (*src == '0')){
+    if ((*src == '0') && ((src[1] | 0x20) == 'x')){
       src += 2;
       end += 2;
     }
 #endif
-    do {
+    while( src < end && *src ) {
         val = ( *src <= '9' ? *src - '0' : ( *src | 0x20 ) - 'a' + 10 );
         px = (uint_16 *)dst;
         for ( len = ( 2 * sizeof( uint_64 ) ) >> 1; len; len-- ) {
@@ -817,7 +817,7 @@ void myatoi128( const char *src, uint_64 dst[], int base, int size )
         };
         //myassert( val == 0 ); /* if number doesn't fit in 128 bits */
         src++;
-    } while( src < end );
+    }
     return;
 }
 
@@ -845,7 +845,7 @@ static ret_code get_operand( struct expr *opnd, int *idx, struct asm_tok tokenar
     char        labelbuff[16];/* for anonymous labels */
 	int         cnt;
     char        *p;
-	char clabel[100];
+	char clabel[MAX_LINE_LEN + 1];
 	struct asym *labelsym;
 	struct asym *labelsym2;
 	struct asm_tok tok;
@@ -1633,12 +1633,14 @@ static ret_code sizlen_op( int oper, struct expr *opnd1, struct expr *opnd2, str
          */
         /* v2.09: first_length is valid if isdata is set */
         //opnd1->value = ( sym->state != SYM_STACK && sym->isarray ) ? sym->first_length : 1;
-        opnd1->value = sym->isdata ? sym->first_length : 1;
+        opnd1->value = ( sym && sym->isdata ) ? sym->first_length : 1;
         break;
     case T_LENGTHOF:
         /* LENGTHOF needs either a data label or a structure field */
         /* a TYPE (structure, typedef) is invalid */
-        if( opnd2->kind == EXPR_CONST ) {
+        if( opnd2->kind == EXPR_CONST ? opnd2->mbr == NULL : sym == NULL ) {
+            return( fnEmitErr( EXPECTED_DATA_LABEL ) );
+        } else if( opnd2->kind == EXPR_CONST ) {
             opnd1->value = opnd2->mbr->total_length;
 #if 0 /* v2.09: unnecessary */
         } else if( sym->state == SYM_UNDEFINED && Parse_Pass == PASS_1 ) {
@@ -2470,6 +2472,8 @@ static ret_code wimask_op( int oper, struct expr *opnd1, struct expr *opnd2, str
     } else {
         sym = opnd2->sym;
     }
+    if ( sym == NULL )
+        return( fnEmitErr( OPERAND_MUST_BE_RECORD ) );
     if ( oper == T_MASK ) {
         int i;
         opnd1->value = 0;
@@ -4031,7 +4035,7 @@ static ret_code evaluate( struct expr *opnd1, int *i, struct asm_tok tokenarray[
     ret_code rc = NOT_ERROR;
     char *p;
     char *p1;
-	char clabel[100];
+	char clabel[MAX_LINE_LEN + 1];
 	struct asym *labelsym;
 	struct asym *labelsym2;
 	struct asm_tok tok;
@@ -4133,7 +4137,7 @@ static ret_code evaluate( struct expr *opnd1, int *i, struct asm_tok tokenarray[
 					{
 						recordsym = SymSearch(opnd1->type->name);
 						/* if it is a RECORD don't throw an error but decorate it with an actual value v2.41*/
-						if (recordsym && recordsym->sym.typekind == TYPE_RECORD)
+						if (recordsym && recordsym->sym.typekind == TYPE_RECORD && tokenarray[curr_operator].token == T_STRING)
 						{
 							if (InitRecordVar(opnd1, curr_operator, tokenarray, recordsym) != ERROR)
 								rc = NOT_ERROR;
diff --git a/symbols.c b/symbols.c
index e970b45..259bc52 100644
--- a/symbols.c
+++ b/symbols.c
@@ -843,7 +843,7 @@ void SymSimd(struct dsym *sym)
 	uint_8 member3Valid = 0;
 	uint_8 member4Valid = 0;
 
-  if (pMember == NULL && sym->sym.typekind != TYPE_UNION) return;
+  if (pMember == NULL) return;
   memberCount = 0;
   sym->e.structinfo->isHomogenous = 1;
 
diff --git a/types.c b/types.c
index e7af911..75bb39f 100644
--- a/types.c
+++ b/types.c
@@ -1236,6 +1236,14 @@ struct asym *CreateStructField( int loc, struct asm_tok tokenarray[], const char
         if ( vartype &&
             ( vartype->typekind == TYPE_STRUCT ||
              vartype->typekind == TYPE_UNION ) ) {
+            struct dsym *open;
+            /* a structure can't contain itself */
+            for ( open = CurrStruct; open; open = open->next ) {
+                if ( vartype == &open->sym ) {
+                    EmitErr( SYMBOL_REDEFINITION, vartype->name );
+                    return( NULL );
+                }
+            }
             CheckAnonymousStruct( (struct dsym *)vartype );
         }
         name = "";
-- 
2.43.0


From 339cf91f899345c021521f69f2d380ef0ae30de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 50/94] fix: endless loop with mutually recursive text equates,
 null text macro values, uninitialized loop flag

---
 expans.c  | 4 ++--
 loop.c    | 2 +-
 preproc.c | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/expans.c b/expans.c
index ebfe4b3..b17dab6 100644
--- a/expans.c
+++ b/expans.c
@@ -915,7 +915,7 @@ ret_code ExpandText( char *line, struct asm_tok tokenarray[], unsigned int subst
                         sp[lvl++] = pSrc;
                         pSrc = StringBufferEnd;
                         //StringBufferEnd = GetAlignedPointer( pSrc, GetLiteralValue( pSrc, sym->string_ptr ) );
-                        strcpy( pSrc, sym->string_ptr );
+                        strcpy( pSrc, sym->string_ptr ? sym->string_ptr : "" );
                         StringBufferEnd = GetAlignedPointer( pSrc, strlen( pSrc ) );
                         DebugMsg1(("ExpandText: %s replaced by >%s<\n", sym->name, pSrc ));
                         pDst = pIdent;
@@ -1296,7 +1296,7 @@ static ret_code ExpandToken( char *line, int *pi, struct asm_tok tokenarray[], i
                 } else if( sym->state == SYM_TMACRO ) {
 
                     //GetLiteralValue( buffer, sym->string_ptr );
-                    strcpy( buffer, sym->string_ptr );
+                    strcpy( buffer, sym->string_ptr ? sym->string_ptr : "" );
                     if ( ERROR == ExpandTMacro( buffer, tokenarray, equmode, 0 ) )
                         return( ERROR );
                     DebugMsg1(("ExpandToken(%s, addbr=%u): value >%s< expanded to >%s<\n", sym->name, addbrackets, sym->string_ptr, buffer ));
diff --git a/loop.c b/loop.c
index a6f8b8f..7ed7c66 100644
--- a/loop.c
+++ b/loop.c
@@ -31,7 +31,7 @@ ret_code LoopDirective( int i, struct asm_tok tokenarray[] )
     char *parmstring;
     char *ptr;
     struct dsym *macro;
-    bool is_exitm;
+    bool is_exitm = FALSE;
     struct expr opnd;
     struct macro_info macinfo;
     struct dsym tmpmacro;
diff --git a/preproc.c b/preproc.c
index 9b7dfe5..44c520b 100644
--- a/preproc.c
+++ b/preproc.c
@@ -760,9 +760,10 @@ static void ExpandStaticObjCalls(char *line, struct asm_tok tokenarray[])
 static struct asym * TraverseEquate(struct asym *sym)
 {
 	struct asym *resultSym = sym;
+	int nesting = 0;
 	if (sym)
 	{
-		while (resultSym->state == SYM_TMACRO && resultSym->string_ptr != NULL)
+		while (nesting++ < MAX_MACRO_NESTING && resultSym->state == SYM_TMACRO && resultSym->string_ptr != NULL)
 		{
 			resultSym = SymLookup(resultSym->string_ptr);
 		}
-- 
2.43.0


From ad5fbebc4efcf25b5a426d7b5ad1c096b3949c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 51/94] fix: instruction operands without register, {evex} on
 non-VEX instructions

---
 codegen.c   |  2 +-
 codegenv2.c | 12 ++++++++++++
 parser.c    |  8 ++++++--
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index 7dba7cf..20df9d7 100644
--- a/codegen.c
+++ b/codegen.c
@@ -429,7 +429,7 @@ static void output_opc(struct code_info *CodeInfo)
     }
 
   if (CodeInfo->evex_flag == TRUE) {
-	  if (!(vex_flags[CodeInfo->token - VEX_START] & VX_LL))
+	  if (CodeInfo->token < VEX_START || !(vex_flags[CodeInfo->token - VEX_START] & VX_LL))
 		  EmitError(INVALID_COMBINATION_OF_OPCODE_AND_OPERANDS);
   }
     if (CodeInfo->token == T_VCMPSD || CodeInfo->token == T_VCMPSS){
diff --git a/codegenv2.c b/codegenv2.c
index 59afdaf..7e073cf 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -144,6 +144,18 @@ enum op_type DemoteOperand(enum op_type op) {
 
 enum op_type MatchOperand(struct code_info* CodeInfo, struct opnd_item op, struct expr opExpr) {
 	enum op_type result;
+
+	/* a register operand without register comes from a faulty operand list */
+	if (opExpr.base_reg == NULL)
+	{
+		switch (op.type)
+		{
+		case OP_RSPEC: case OP_RIP:
+		case OP_R8: case OP_R16: case OP_R32: case OP_R64:
+			return(OP_N);
+		}
+	}
+
 	switch (op.type)
 	{
 	case OP_M:
diff --git a/parser.c b/parser.c
index 845b89e..9997787 100644
--- a/parser.c
+++ b/parser.c
@@ -290,7 +290,7 @@ if ((mem_type & MT_SPECIAL) == 0){
         DebugMsg1(("SizeFromMemtype( MT_PROC, Ofssize=%u, type=%s )=%u\n", Ofssize, type->name, ( 2 << Ofssize ) + ( type->isfar ? 2 : 0 ) ));
         /* v2.09: use type->isfar setting */
         //return( ( 2 << Ofssize ) + ( ( SIZE_CODEPTR & ( 1 << ModuleInfo.model ) ) ? 2 : 0 ) );
-        return( ( 2 << Ofssize ) + ( type->isfar ? 2 : 0 ) );
+        return( ( 2 << Ofssize ) + ( ( type && type->isfar ) ? 2 : 0 ) );
     case MT_PTR:
         DebugMsg1(("SizeFromMemtype( MT_PTR, Ofssize=%u )=%u\n", Ofssize, ( 2 << Ofssize ) + ( ( SIZE_DATAPTR & ( 1 << ModuleInfo.model ) ) ? 2 : 0 ) ));
         return( ( 2 << Ofssize ) + ( ( SIZE_DATAPTR & ( 1 << ModuleInfo.model ) ) ? 2 : 0 ) );
@@ -2115,6 +2115,8 @@ static ret_code process_register( struct code_info *CodeInfo, unsigned CurrOpnd,
     int                regno;
     uint_32            flags;
 
+    if ( opndx[CurrOpnd].base_reg == NULL )
+        return( EmitError( INVALID_INSTRUCTION_OPERANDS ) );
     regtok = opndx[CurrOpnd].base_reg->tokval;
     regno = GetRegNo( regtok );
     /* the register's "OP-flags" are stored in the 'value' field */
@@ -3553,7 +3555,9 @@ dataInProc:
 
 			/* Handle EVEX Static Rounding Mode {sae}, {rn-sae}, {rd-sae}, {ru-sae}, {rz-sae} */
 			case EXPR_DECORATOR:
-				if (opndx[j - 1].indirect || opndx[j - 2].indirect)
+				if (j == 0)
+					return(EmitError(SYNTAX_ERROR));
+				if (opndx[j - 1].indirect || (j > 1 && opndx[j - 2].indirect))
 					return(EmitError(EMBEDDED_ROUNDING_IS_AVAILABLE_ONLY_WITH_REG_REG_OP));
 				CodeInfo.evex_sae = opndx[j].saeflags;
 				CodeInfo.evex_flag = TRUE;  /* {sae} must set evex_flag v247.2 */
-- 
2.43.0


From e39eb4f200c12631887eec971bad4b9c89f52de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 52/94] fix: listing and object writers overran buffers and
 dereferenced null pointers

---
 bin.c     | 9 +++++----
 coff.c    | 2 +-
 listing.c | 2 +-
 omf.c     | 4 ++++
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/bin.c b/bin.c
index 2a503d4..bbd48ae 100644
--- a/bin.c
+++ b/bin.c
@@ -891,7 +891,7 @@ static void pe_emit_export_data( void )
 /*************************************/
 {
     struct dsym *curr;
-    int_32 timedate;
+    time_t timedate;
     int cnt;
     int i;
     char *name;
@@ -912,11 +912,11 @@ static void pe_emit_export_data( void )
 #if 0 //def __UNIX__
         time( &timedate );
 #else
-        time( (time_t *)&timedate );
+        time( &timedate );
 #endif
         /* create export directory: Characteristics, Timedate, MajMin, Name, Base, ... */
         AddLineQueueX( "DD 0, 0%xh, 0, %r @%s_name, %u, %u, %u, %r @%s_func, %r @%s_names, %r @%s_nameord",
-                      timedate, T_IMAGEREL, name, 1, cnt, cnt, T_IMAGEREL, name, T_IMAGEREL, name, T_IMAGEREL, name );
+                      (uint_32)timedate, T_IMAGEREL, name, 1, cnt, cnt, T_IMAGEREL, name, T_IMAGEREL, name, T_IMAGEREL, name );
 
         /* the name pointer table must be in ascending order!
          * so we have to fill an array of exports and sort it.
@@ -1558,7 +1558,8 @@ static ret_code bin_write_module( struct module_info *modinfo )
 #if PE_SUPPORT
     cp.rva = 0;
     if ( modinfo->sub_format == SFORMAT_PE ) {
-        if ( ModuleInfo.model == MODEL_NONE ) {
+        if ( ModuleInfo.model == MODEL_NONE || SymSearch( hdrname "1" ) == NULL ||
+             SymSearch( hdrname "2" ) == NULL || SymSearch( hdrname "3" ) == NULL ) {
             return( EmitErr( MODEL_IS_NOT_DECLARED ) );
         }
         pe_set_values( &cp );
diff --git a/coff.c b/coff.c
index f5d015f..28fff64 100644
--- a/coff.c
+++ b/coff.c
@@ -1228,7 +1228,7 @@ static ret_code coff_write_module( struct module_info *modinfo )
         ifh.Machine = IMAGE_FILE_MACHINE_I386;
 
     ifh.NumberOfSections = modinfo->g.num_segs;
-    time((time_t *)&ifh.TimeDateStamp);
+    ifh.TimeDateStamp = (uint_32)time( NULL );
     ifh.SizeOfOptionalHeader = 0;
     ifh.Characteristics = 0;
 
diff --git a/listing.c b/listing.c
index e1537a2..5d04080 100644
--- a/listing.c
+++ b/listing.c
@@ -334,7 +334,7 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
     }
 #endif
 	
-	for (i = 32; i > 0; --i) {
+	for (i = sizeof( ll.buffer ) - 1; i > 0; --i) {
 		if (ll.buffer[i] == 0)
 			ll.buffer[i] = ' ';
 	}
diff --git a/omf.c b/omf.c
index c4e1fdc..cb006c7 100644
--- a/omf.c
+++ b/omf.c
@@ -1044,6 +1044,8 @@ static struct asym *GetExt( struct readext *r )
                 continue;
             if ( sym->altname && sym->altname->included == FALSE ) {
                 /**/ myassert( r->index ); /* overflow occured? */
+                if ( sym->altname->state == SYM_INTERNAL )
+                    sym->altname->bp_fixup = NULL; /* shares its storage with the index */
                 sym->altname->ext_idx2 = r->index++;
                 sym->altname->included = TRUE;
                 return( sym->altname );
@@ -1715,6 +1717,8 @@ void omf_init( struct module_info *modinfo )
     modinfo->g.Pass1Checks = omf_write_header_initial;
     SymDebSeg[DBGS_SYMBOLS] = NULL;
     SymDebSeg[DBGS_TYPES] = NULL;
+    if ( Options.debug_symbols == 4 ) /* C13 needs COFF; use the newest format OMF can hold */
+        Options.debug_symbols = 2;
 #if MULTIHDR
     ln_srcfile = modinfo->srcfile;
 #endif
-- 
2.43.0


From 0e968e82478a5fa5e2196105b5f6c5c8f14aed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:15 +0000
Subject: [PATCH 53/94] fix: class names were compared by prefix, unterminated
 decorator, string buffer too small for nested macros

---
 input.c    | 2 +-
 segment.c  | 2 +-
 tokenize.c | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/input.c b/input.c
index b92720c..938eaa8 100644
--- a/input.c
+++ b/input.c
@@ -798,7 +798,7 @@ static void GetFileCur( struct asym *sym )
 #else
 #define SIZE_SRCLINES     ( MAX_LINE_LEN * ( MAX_MACRO_NESTING + 1 ) )
 #define SIZE_TOKENARRAY   ( sizeof( struct asm_tok ) * MAX_TOKEN * MAX_MACRO_NESTING )
-#define SIZE_STRINGBUFFER ( MAX_LINE_LEN * MAX_MACRO_NESTING )
+#define SIZE_STRINGBUFFER ( MAX_LINE_LEN * MAX_MACRO_NESTING * 4 ) /* a nesting level needs several lines */
 #endif
 
 /* PushInputStatus() is used whenever a macro or generated code is to be "executed".
diff --git a/segment.c b/segment.c
index fa367c2..53c9c32 100644
--- a/segment.c
+++ b/segment.c
@@ -579,7 +579,7 @@ static struct asym *FindClass( const char *name, int len )
 
     for( node = ModuleInfo.g.LnameQueue.head; node; node = node->next ) {
         struct asym *sym = node->sym;
-        if( sym->state == SYM_CLASS_LNAME && ( SymCmpFunc( sym->name, name, len ) == 0 ) )
+        if( sym->state == SYM_CLASS_LNAME && sym->name_size == len && ( SymCmpFunc( sym->name, name, len ) == 0 ) )
             return( sym );
     }
     return( NULL );
diff --git a/tokenize.c b/tokenize.c
index eca0388..264574f 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -1116,10 +1116,11 @@ continue_scan:
 		{
 			while (isspace(*p->input)) p->input++;
 			if (*p->input == '{') {
-				while ((*p->input) != '}') {
+				while (*p->input && (*p->input) != '}') {
 					p->input++;
 				}
-				p->input++;
+				if (*p->input)
+					p->input++;
 				//*buf->string_ptr = "{k0}";
 			}
 		}
-- 
2.43.0


From 07bd56fd9c95fcf11900cd2a4e96eddf2ef33478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 54/94] fix: text expansion overran its line buffer

---
 expans.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/expans.c b/expans.c
index b17dab6..848a14e 100644
--- a/expans.c
+++ b/expans.c
@@ -890,6 +890,8 @@ ret_code ExpandText( char *line, struct asm_tok tokenarray[], unsigned int subst
             if( is_valid_id_first_char( *pSrc ) && ( substitute != 0 || quoted_string == 0 ) ) {
                 pIdent = pDst;
                 do {
+                    if ( pDst >= old_stringbufferend + MAX_LINE_LEN - 1 )
+                        goto too_long;
                     *pDst++ = *pSrc++;
                 } while ( is_valid_id_char( *pSrc ));
                 *pDst = NULLC;
@@ -986,6 +988,11 @@ ret_code ExpandText( char *line, struct asm_tok tokenarray[], unsigned int subst
                     else if ( *pSrc == quoted_string )
                         quoted_string = 0;
                 }
+                if ( pDst >= old_stringbufferend + MAX_LINE_LEN - 1 ) {
+                too_long:
+                    StringBufferEnd = old_stringbufferend;
+                    return( EmitErr( EXPANDED_LINE_TOO_LONG, line ) );
+                }
                 *pDst++ = *pSrc++;
             }
         } /* end while */
-- 
2.43.0


From 3807b4a049b8e0153cc09f1e79a943891e359cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 55/94] fix: PE section table overflowed for segments of
 unknown type

---
 bin.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bin.c b/bin.c
index bbd48ae..a8df4d0 100644
--- a/bin.c
+++ b/bin.c
@@ -854,9 +854,12 @@ static void pe_create_section_table( void )
         if ( objs ) {
             DebugMsg(("pe_create_section_table: items in object table: %u\n", objs ));
             objtab->sym.max_offset = sizeof(struct IMAGE_SECTION_HEADER) * objs;
-            /* alloc space for 1 more section (.reloc) */
-            objtab->e.seginfo->CodeBuffer = LclAlloc( objtab->sym.max_offset + sizeof(struct IMAGE_SECTION_HEADER) );
         }
+        /* alloc space for any section, including those without known type, and 1 more (.reloc) */
+        for( i = 1, curr = SymTables[TAB_SEG].head; curr; curr = curr->next )
+            i++;
+        objtab->e.seginfo->CodeBuffer = LclAlloc( sizeof(struct IMAGE_SECTION_HEADER) * i );
+        memset( objtab->e.seginfo->CodeBuffer, 0, sizeof(struct IMAGE_SECTION_HEADER) * i );
     }
 }
 
-- 
2.43.0


From e2f875deefcf45bfbb616f33168f0974e648b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 56/94] fix: first LINNUM record of an OMF module depended on
 the module assembled before

---
 omf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omf.c b/omf.c
index cb006c7..97ccb42 100644
--- a/omf.c
+++ b/omf.c
@@ -1723,5 +1723,6 @@ void omf_init( struct module_info *modinfo )
     ln_srcfile = modinfo->srcfile;
 #endif
     ln_size = 0;
+    ln_is32 = FALSE;
     return;
 }
-- 
2.43.0


From f0f3c3dc477d8e572889d6a22e435fe7e1420a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 57/94] fix: INVOKE arguments compared with white space after
 them

---
 invoke.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/invoke.c b/invoke.c
index 1ea3519..0d1a5ba 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3299,6 +3299,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 	int asize;
 	int pushsize;
 	int j;
+	int k;
 	int previ;
 	int fptrsize;
 	char Ofssize;
@@ -3567,7 +3568,10 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 	else
 	{
 		memcpy(fullparam, tokenarray[i].tokpos, tokenarray[j].tokpos - tokenarray[i].tokpos);
-		fullparam[tokenarray[j].tokpos - tokenarray[i].tokpos] = NULLC;
+		k = tokenarray[j].tokpos - tokenarray[i].tokpos;
+		while (k > 0 && (fullparam[k - 1] == ' ' || fullparam[k - 1] == '\t')) /* the text is compared later, without white space after it */
+			k--;
+		fullparam[k] = NULLC;
 	}
 
 	j = i;
-- 
2.43.0


From 03b56471219070df300de549c5cebbce7b4a9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 58/94] fix: data in a procedure before its first instruction:
 prologue in the wrong place for BYTE/types and in other segments, STRUCT
 fields rejected

---
 parser.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/parser.c b/parser.c
index 9997787..d3273eb 100644
--- a/parser.c
+++ b/parser.c
@@ -3044,6 +3044,15 @@ static struct asym *IsType( const char *name )
     return( NULL );
 }
 
+/*
+* data in the code of a procedure must not precede its prologue */
+static void PrologueBeforeData(struct asm_tok tokenarray[])
+{
+	if ((ProcStatus & PRST_PROLOGUE_NOT_DONE) && CurrProc && CurrStruct == NULL &&
+		CurrSeg && CurrProc->sym.segment == &CurrSeg->sym)
+		write_prologue(tokenarray);
+}
+
 /*
  * ParseLine() is the main parser function.
  * It scans the tokens in tokenarray[] and does:
@@ -3078,7 +3087,6 @@ ret_code ParseLine(struct asm_tok tokenarray[]) {
 	const char         *opcodePtr = NULL;
 	int                opndCount  = 0;
 	char               *instr     = NULL;
-    bool               doDataInProc = FALSE;
 
 	memset(&opndx, 0, sizeof(opndx));
 	memset(&CodeInfo, 0, sizeof(CodeInfo));
@@ -3250,12 +3258,8 @@ ret_code ParseLine(struct asm_tok tokenarray[]) {
                 if (tokenarray[i].dirtype == DRT_DATADIR)
                 {
                     /* UASM 2.51 - Don't write anonymous data items in Procs before the prologue is done */
-                    if (!(ProcStatus & PRST_PROLOGUE_NOT_DONE) || !ProcStatus)
-                        return(data_dir(i, tokenarray, NULL));
-                    else {
-                       doDataInProc = TRUE;
-                        goto dataInProc;
-                    }
+                    PrologueBeforeData(tokenarray);
+                    return(data_dir(i, tokenarray, NULL));
                 }
 
 				dirflags = GetValueSp(tokenarray[i].tokval);
@@ -3313,11 +3317,13 @@ ret_code ParseLine(struct asm_tok tokenarray[]) {
 
 			case T_STYPE:
       
+				PrologueBeforeData(tokenarray);
 				return(data_dir(i, tokenarray, NULL));
 
 			case T_ID:
       
 				if (sym = IsType(tokenarray[i].string_ptr)) {
+					PrologueBeforeData(tokenarray);
 					return(data_dir(i, tokenarray, sym));
 				}
 				break;
@@ -3336,19 +3342,11 @@ ret_code ParseLine(struct asm_tok tokenarray[]) {
 
 	} /* end of != T_INSTRUCTION */
 
-dataInProc:
-
 	if (CurrStruct)
 		return(EmitError(STATEMENT_NOT_ALLOWED_INSIDE_STRUCTURE_DEFINITION));
 
 	if (ProcStatus & PRST_PROLOGUE_NOT_DONE) 
 		write_prologue(tokenarray);
-    
-    if (doDataInProc)
-    {
-        doDataInProc = FALSE;
-        return(data_dir(i, tokenarray, NULL));
-    }
 
 	/* v2.07: moved because special handling is needed for RET/IRET */
 	if (CurrFile[LST]) oldofs = GetCurrOffset();
-- 
2.43.0


From 8009e73c6a0b59286f0d74dc3cc64daad2960068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 59/94] fix: -W4 warned about parameter names of built-in
 macros, and with -WX refused every program

---
 macro.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/macro.c b/macro.c
index c3984d7..251440c 100644
--- a/macro.c
+++ b/macro.c
@@ -649,8 +649,7 @@ ret_code StoreAutoMacro(struct dsym *macro, int i, struct asm_tok tokenarray[],
 				EmitErr(SYNTAX_ERROR_EX, token);
 				break;
 			}
-			else if (tokenarray[i].token != T_ID)
-				EmitWarn(4, PARAM_IS_RESERVED_WORD, tokenarray[i].string_ptr);
+			/* no warning about reserved words: the macro isn't the user's */
 
 			paranode->deflt = NULL;
 			paranode->required = FALSE;
-- 
2.43.0


From edcc4c985fe1c6996543d578e65fa3f7ca91e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:18 +0000
Subject: [PATCH 60/94] fix: INCBIN ignored its size argument and crashed on a
 start beyond the end of the file

---
 directiv.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/directiv.c b/directiv.c
index 3e742fb..f7b6ad7 100644
--- a/directiv.c
+++ b/directiv.c
@@ -264,13 +264,17 @@ ret_code IncBinDirective( int i, struct asm_tok tokenarray[] )
 	{
 		/* v2.14 : Get File Size */
 		fseek( file, 0L, SEEK_END );
-		sz = ftell( file ) - fileoffset; // sz = total data size to load into segment/section.
+		sz = ftell( file ); // sz = total data size to load into segment/section.
+		sz = ( sz > 0 && fileoffset < (unsigned long)sz ) ? sz - fileoffset : 0;
+		if ( (unsigned long)sz > sizemax ) /* the size argument is a maximum */
+			sz = sizemax;
 		fseek( file, 0L, SEEK_SET );
-		pBinData = (unsigned char*)malloc(sz);
+		pBinData = (unsigned char*)malloc(sz + 1);
 		if ( fileoffset )
 			fseek( file, fileoffset, SEEK_SET );  /* fixme: use fseek64() */
-		result = fread(pBinData, sz, 1, file);
-		OutputBinBytes(pBinData, sz);
+		result = fread(pBinData, 1, sz, file);
+		if ( result )
+			OutputBinBytes(pBinData, result);
 
         /* transfer file content to the current segment. */
         //if ( fileoffset )
-- 
2.43.0


From 7121681b66d832548a36b79840c99cb4e22d4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:18 +0000
Subject: [PATCH 61/94] fix: INCBIN of more than a LEDATA record's bytes
 overran the OMF buffer

---
 assemble.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/assemble.c b/assemble.c
index bd462d1..04e9a96 100644
--- a/assemble.c
+++ b/assemble.c
@@ -275,6 +275,11 @@ void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 {
 	int i;
 
+	if (Options.output_format == OFORMAT_OMF) { /* the buffer holds one LEDATA record only */
+		while (len--)
+			OutputByte(*(pBytes++));
+		return;
+	}
 	if (write_to_file == TRUE) {
 		uint_32 idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
 #ifdef DEBUG_OUT
@@ -283,11 +288,6 @@ void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 		}
 #endif
 		/**/myassert(CurrSeg->e.seginfo->current_loc >= CurrSeg->e.seginfo->start_loc);
-		if (Options.output_format == OFORMAT_OMF && idx >= MAX_LEDATA_THRESHOLD) {
-			omf_FlushCurrSeg();
-			idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
-		}
-		//DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
 		for (i = 0; i < len; i++)
 		{
 			CurrSeg->e.seginfo->CodeBuffer[idx++] = *(pBytes++);
-- 
2.43.0


From 1f346ff534f8d8d8defe8ff2e22753143bb4a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 62/94] fix: file names in the UASM variable took the rest of
 it

---
 cmdline.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmdline.c b/cmdline.c
index 8e86356..aff842f 100644
--- a/cmdline.c
+++ b/cmdline.c
@@ -763,6 +763,11 @@ static struct cmdloption const cmdl_options[] = {
 //    { NULL,     0,        0 }
 };
 
+/* TRUE while the first string, the environment variable's, is parsed;
+ * its items are separated by white space like those of a response file.
+ */
+static bool envstring = TRUE;
+
 /*
  * get a "name"
  * type=@ : filename ( -Fd, -Fi, -Fl, -Fo, -Fw, -I )
@@ -797,7 +802,7 @@ is_quote:
             if ( *str == NULLC )
                 break;
             /* v2.10: don't stop for white spaces if filename is expected and true cmdline is parsed */
-            if ( ( *str == ' ' || *str == '\t' ) && ( rspidx || type != '@' ) )
+            if ( ( *str == ' ' || *str == '\t' ) && ( rspidx || envstring || type != '@' ) )
                 break;
             if ( type == 0 )
                 if ( *str == '-'
@@ -890,6 +895,7 @@ static const char *getnextcmdstring( const char **cmdline )
             MemFree( (void *)cmdbuffers[rspidx] );
         return( cmdsave[rspidx] );
     }
+    envstring = FALSE;
     for ( dst = cmdline, src = cmdline+1; *src; )
         *dst++ = *src++;
     *dst = *src;
@@ -1100,7 +1106,7 @@ char * EXPQUAL ParseCmdline( const char **cmdline, int *pCntArgs )
             str++;
 #if 1 /* v2.06: was '0' in v2.05, now '1' again since it didn't work with quoted names */
             /* todo: might be unnecessary since v.2.10, since GetNameToken() handles spaces inside filenames differently */
-            if ( rspidx ) {
+            if ( rspidx || envstring ) {
                 cmdsave[rspidx] = GetNameToken( paramfile, str, sizeof( paramfile ) - 1, '@' );
             } else {
                 strcpy( paramfile, str ); /* fixme: no overflow check */
@@ -1128,7 +1134,7 @@ char * EXPQUAL ParseCmdline( const char **cmdline, int *pCntArgs )
             set_default_build_target();
 #endif
 #if 1 /* v2.06: activated (was removed in v2.05). Needed for quoted filenames */
-            if ( rspidx ) {
+            if ( rspidx || envstring ) {
                 str = GetNameToken( paramfile, str, sizeof( paramfile ) - 1, '@' );
                 get_fname( OPTN_ASM_FN, paramfile );
             } else {
-- 
2.43.0


From 0b85c5e47aee2a35f964f6dee5f68b6e15894a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:09 +0000
Subject: [PATCH 63/94] fix: -Dname= swallowed the item behind it

---
 cmdline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmdline.c b/cmdline.c
index aff842f..a305e27 100644
--- a/cmdline.c
+++ b/cmdline.c
@@ -816,6 +816,7 @@ is_quote:
                 *dst++ = *str++;
                 if (*str == '"')
                     goto is_quote;
+                continue; /* the value may be empty */
             }
             *dst++ = *str++;
         }
-- 
2.43.0


From 5cfe1b527079562feb77fe3a4adccce0a3f4e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:48 +0000
Subject: [PATCH 64/94] fix: FASTCALL RET popped too little when a register
 parameter followed a stack one

---
 proc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/proc.c b/proc.c
index c78940e..92e50e5 100644
--- a/proc.c
+++ b/proc.c
@@ -439,8 +439,15 @@ static void ms32_return(struct dsym *proc, char *buffer)
 	/* v2.07: changed */
 	//if( proc->e.procinfo->parasize > ( 2 * CurrWordSize ) )
 	//    sprintf( buffer + strlen( buffer ), "%d%c", proc->e.procinfo->parasize - (2 * CurrWordSize), ModuleInfo.radix != 10 ? 't' : NULLC );
-	if (proc->e.procinfo->parasize > (ms32_maxreg[ModuleInfo.Ofssize] * CurrWordSize))
-		sprintf(buffer + strlen(buffer), "%d%c", proc->e.procinfo->parasize - (ms32_maxreg[ModuleInfo.Ofssize] * CurrWordSize), ModuleInfo.radix != 10 ? 't' : NULLC);
+	int size = proc->e.procinfo->parasize;
+	struct dsym *curr;
+
+	/* parameters in registers aren't on the stack, whatever their position */
+	for (curr = proc->e.procinfo->paralist; curr; curr = curr->nextparam)
+		if (curr->sym.state == SYM_TMACRO)
+			size -= CurrWordSize;
+	if (size > 0)
+		sprintf(buffer + strlen(buffer), "%d%c", size, ModuleInfo.radix != 10 ? 't' : NULLC);
 	return;
 }
 
-- 
2.43.0


From 56dcedcc258d572ebcd351bd34f871b6a852e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:03 +0000
Subject: [PATCH 65/94] fix: WIN64 stackbase:rsp frames with XMM registers in
 USES and locals were misaligned

---
 proc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proc.c b/proc.c
index 92e50e5..6c5e3be 100644
--- a/proc.c
+++ b/proc.c
@@ -3325,7 +3325,7 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 			DebugMsg1(("write_win64_default_prologue_RSP: localsize=%u resstack=%u\n", info->localsize, resstack));
 			if (ModuleInfo.win64_flags & W64F_HABRAN) {
 				if (((info->pushed_reg & 1) && (info->localsize & 0xF)) ||
-					((!(info->pushed_reg & 1)) && (!(info->localsize & 0xF))) && (!(info->pushed_reg & 1)) && (!(cntxmm)))
+					((!(info->pushed_reg & 1)) && (!(info->localsize & 0xF))))
 				{
 					info->localsize += 8;
 					if (CurrProc->sym.langtype == LANG_VECTORCALL) {
@@ -4192,12 +4192,12 @@ static void SetLocalOffsets_RSP(struct proc_info *info)
 		DebugMsg1(("SetLocalOffsets_RSP(%s): offset of %s (size=%u) set to %d\n", CurrProc->sym.name, curr->sym.name, curr->sym.total_size, curr->sym.offset));
 	}
 
-	if (!(cntstd & 1) && ((info->localsize & 15) == 0)) info->localsize += 8;
-
 	/* v2.11: localsize must be rounded before offset adjustment if fpo */
 	/* RSP 16-byte alignment? */
 	if (rspalign)
 		info->localsize = ROUND_UP(info->localsize, 8);
+
+	if (!(cntstd & 1) && ((info->localsize & 15) == 0)) info->localsize += 8;
 	DebugMsg1(("SetLocalOffsets_RSP(%s): localsize=%u after processing locals\n", CurrProc->sym.name, info->localsize));
 
 	/* v2.11: recalculate offsets for params and locals if there's no frame pointer.
-- 
2.43.0


From f606b0c0cd02a4f27035f5665f4c4987febb6666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:17 +0000
Subject: [PATCH 66/94] fix: OPTION REDZONE kept locals in the red zone of
 procedures that call

---
 proc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc.c b/proc.c
index 6c5e3be..b76b6f8 100644
--- a/proc.c
+++ b/proc.c
@@ -4428,7 +4428,7 @@ static void write_sysv_default_prologue_RBP(struct proc_info *info)
 	{
 		DebugMsg1(("write_sysv_default_prologue_RBP: localsize=%u\n", info->localsize));
 		/* SUB  RSP, localsize */
-		if (ModuleInfo.redzone == 1 && (info->localsize + resstack) < 128 && resstack == 0)
+		if (ModuleInfo.redzone == 1 && info->isleaf && (info->localsize + resstack) < 128 && resstack == 0)
 			;
 		else
 		{
@@ -4550,7 +4550,7 @@ static void write_sysv_default_epilogue_RBP(struct proc_info *info)
 	}
 
 	/* No Sub RSP, use RedZone optimisation */
-	if (ModuleInfo.redzone == 1 && (info->localsize + resstack < 128) && resstack == 0)
+	if (ModuleInfo.redzone == 1 && info->isleaf && (info->localsize + resstack < 128) && resstack == 0)
 		;
 	else if (info->localsize + stackadj > 0)
 	{
-- 
2.43.0


From 1acb9d9aa1ef8d83c9ca40fa391eb0f4aa34a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:33 +0000
Subject: [PATCH 67/94] fix: 32-bit FASTCALL procedures without stack frame
 used rsp in the prologue

---
 proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index b76b6f8..121c3fb 100644
--- a/proc.c
+++ b/proc.c
@@ -4768,7 +4768,7 @@ static ret_code write_generic_prologue(struct proc_info *info)
 		resstack == 0 && info->regslist == NULL && !info->fpo)
 		return(NOT_ERROR);
 
-	if (info->fpo && stackadj > 0 && CurrProc->sym.langtype == LANG_FASTCALL && !info->isleaf)
+	if (ModuleInfo.Ofssize == USE64 && info->fpo && stackadj > 0 && CurrProc->sym.langtype == LANG_FASTCALL && !info->isleaf)
 	{
 		if (Options.frameflags)
 		{
-- 
2.43.0


From 46fc1f74dbb524fd9a71079180e14170264c875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:49 +0000
Subject: [PATCH 68/94] fix: missing operand of LEA in the epilogue of OPTION
 FRAMEPRESERVEFLAGS

---
 proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index 121c3fb..31984d8 100644
--- a/proc.c
+++ b/proc.c
@@ -5250,7 +5250,7 @@ static void write_generic_epilogue(struct proc_info *info)
 	{
 		if (Options.frameflags)
 		{
-			AddLineQueueX("lea %r, [%r+%d]", T_RSP, stackadj);
+			AddLineQueueX("lea %r, [%r+%d]", T_RSP, T_RSP, stackadj);
 		}
 		else
 		{
-- 
2.43.0


From 0bdecd968bd2fe7f306df105e325ee2035a86576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:32 +0000
Subject: [PATCH 69/94] fix: SEGMENT AT address followed by other attributes or
 a class name

---
 segment.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/segment.c b/segment.c
index 53c9c32..1e4db96 100644
--- a/segment.c
+++ b/segment.c
@@ -890,7 +890,13 @@ ret_code SegmentDir( int i, struct asm_tok tokenarray[] )
             dir->e.seginfo->combine = type->value;
             dir->e.seginfo->alignment = MAX_SEGALIGNMENT;
             i++;
-            if ( EvalOperand( &i, tokenarray, Token_Count, &opndx, 0 ) != ERROR ) {
+            /* the address ends where the next attribute or the class name begins */
+            for ( temp = i; temp < Token_Count; temp++ )
+                if ( tokenarray[temp].token == T_STRING ||
+                    FindToken( tokenarray[temp].string_ptr, SegAttrToken, sizeof( SegAttrToken )/sizeof( SegAttrToken[0] ) ) >= 0 )
+                    break;
+            opndx.kind = EXPR_EMPTY;
+            if ( EvalOperand( &i, tokenarray, temp, &opndx, 0 ) != ERROR ) {
                 if ( opndx.kind == EXPR_CONST ) {
                     dir->e.seginfo->abs_frame = opndx.value;
                     dir->e.seginfo->abs_offset = 0;
@@ -898,6 +904,7 @@ ret_code SegmentDir( int i, struct asm_tok tokenarray[] )
                     EmitError( CONSTANT_EXPECTED );
                 }
             }
+            i--;
             break;
 
         case INIT_COMBINE_COMDAT:
-- 
2.43.0


From e7bddf85cb6b327e5b45c57a72fb1b44661c61c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:46 +0000
Subject: [PATCH 70/94] fix: OMF SEGDEF/PUBDEF records changed size when a
 segment crossed 64 kB after pass 1

---
 omf.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/omf.c b/omf.c
index 97ccb42..df5297a 100644
--- a/omf.c
+++ b/omf.c
@@ -1465,6 +1465,9 @@ static ret_code omf_write_pubdef( void )
              */
 #if 1
             is32 = ( sym->offset > 0xffffUL ? 1 : 0 );
+            /* the size of the record must not depend on offsets that may still change */
+            if ( sym->state == SYM_INTERNAL && sym->segment && ((struct dsym *)sym->segment)->e.seginfo->force32 )
+                is32 = 1;
 #else
             is32 = ( sym->offset > 0xffff || sym->offset < -32768 ? 1 : 0 ); /* this is what Masm does */
 #endif
@@ -1659,6 +1662,7 @@ static ret_code omf_write_header_initial( struct module_info *modinfo )
 /*********************************************************************/
 {
     uint_16 ext_idx;
+    struct dsym *seg;
 
     if ( write_to_file == FALSE )
         return( NOT_ERROR );
@@ -1682,6 +1686,12 @@ static ret_code omf_write_header_initial( struct module_info *modinfo )
      * hence the start position of those records has to be saved.
      */
     seg_pos = ftell( CurrFile[OBJ] );
+    /* the SEGDEF and PUBDEF records must have the same size when they are written again,
+     * so don't depend on offsets crossing 64 kB in a later pass.
+     */
+    for( seg = SymTables[TAB_SEG].head; seg; seg = seg->next )
+        if ( seg->e.seginfo->Ofssize > USE16 && seg->sym.max_offset >= 0x4000 )
+            seg->e.seginfo->force32 = TRUE;
     omf_write_segdef();
     omf_write_grpdef(); /* write GRPDEF records */
     ext_idx = omf_write_extdef(); /* write EXTDEF records */
-- 
2.43.0


From 9a7aa79722b5084e4fb134bfd2e08a7fdd2554e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:01 +0000
Subject: [PATCH 71/94] fix: HIGH of an address in OMF lost the displacement or
 added it unshifted

---
 expreval.c | 3 +++
 fixup.c    | 7 +++++++
 omffixup.c | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/expreval.c b/expreval.c
index f1f6823..d110613 100644
--- a/expreval.c
+++ b/expreval.c
@@ -2355,6 +2355,9 @@ static ret_code high_op( int oper, struct expr *opnd1, struct expr *opnd2, struc
     }
     if ( opnd1->kind == EXPR_CONST )
         opnd1->quoted_string = NULL;
+    /* the high byte of an address isn't known yet: the displacement is part of it */
+    if ( opnd1->kind == EXPR_ADDR && opnd1->sym )
+        return( NOT_ERROR );
     opnd1->value = opnd1->value >> 8;
     opnd1->llvalue &= 0xff;
     return( NOT_ERROR );
diff --git a/fixup.c b/fixup.c
index 2d20a7b..bb32fce 100644
--- a/fixup.c
+++ b/fixup.c
@@ -230,6 +230,13 @@ void store_fixup( struct fixup *fixup, struct dsym *seg, int_32 *pdata )
         if( fixup->type != FIX_SEG && fixup->sym ) {
             *pdata += fixup->sym->offset;
         }
+        /* a single byte can't hold the offset whose high byte is wanted:
+         * it's written as target displacement of the fixup.
+         */
+        if( fixup->type == FIX_HIBYTE ) {
+            fixup->offset = *pdata;
+            *pdata = 0;
+        }
 
     } else {
 
diff --git a/omffixup.c b/omffixup.c
index 61c8f77..3455157 100644
--- a/omffixup.c
+++ b/omffixup.c
@@ -133,6 +133,8 @@ static unsigned TranslateLogref( const struct logref *lr, uint_8 *buf, enum fixg
     target = lr->target;
     if( lr->target_offset == 0 && lr->is_secondary ) {
         target |= 0x04; /* P=1 -> no displacement field */
+    } else {
+        target &= TARGET_WITH_DISPL;
     }
     p = buf;
     /* write the "Fix Data" field, FfffTPtt:
@@ -401,6 +403,7 @@ unsigned OmfFixGenFix( const struct fixup *fixup, uint_32 start_loc, uint_8 *buf
         break;
     case FIX_HIBYTE:
         locat1 = ( LOC_OFFSET_HI << 2 );
+        lr.target_offset = fixup->offset;
         break;
     case FIX_SEG:
         locat1 = ( LOC_BASE << 2 );
-- 
2.43.0


From 3dbc7b07bbfb123739d5e572c871c77a415c90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:16 +0000
Subject: [PATCH 72/94] fix: negative displacement corrupted the segment part
 of a far pointer

---
 data.c  | 3 +++
 fixup.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/data.c b/data.c
index c84c5a4..38b6b91 100644
--- a/data.c
+++ b/data.c
@@ -1218,6 +1218,9 @@ next_item:  /* <--- continue scan if a comma has been detected */
             /* uses Frame and Frame_Datum  */
             fixup = CreateFixup( opndx.sym, fixup_type, OPTJ_NONE );
             //store_fixup( fixup, &opndx.value ); /* may fail, but ignore error! */
+            /* the segment part of a far pointer isn't the sign of the offset */
+            if ( fixup_type == FIX_PTR32 )
+                opndx.hvalue = 0;
         }
         OutputBytes( (unsigned char *)&opndx.value, no_of_bytes, fixup );
         break;
diff --git a/fixup.c b/fixup.c
index bb32fce..cc11dbc 100644
--- a/fixup.c
+++ b/fixup.c
@@ -230,6 +230,9 @@ void store_fixup( struct fixup *fixup, struct dsym *seg, int_32 *pdata )
         if( fixup->type != FIX_SEG && fixup->sym ) {
             *pdata += fixup->sym->offset;
         }
+        /* the segment part of a far pointer isn't touched by a negative offset */
+        if( fixup->type == FIX_PTR16 )
+            *pdata &= 0xffff;
         /* a single byte can't hold the offset whose high byte is wanted:
          * it's written as target displacement of the fixup.
          */
-- 
2.43.0


From 5a88cef098681d6cbbaaafb9f2bf31fe8337b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 73/94] fix: BIN/MZ references that name the segment of a group
 member as frame were wrong

---
 bin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin.c b/bin.c
index a8df4d0..a4e89d3 100644
--- a/bin.c
+++ b/bin.c
@@ -516,7 +516,7 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
                     }
 #endif
                 } else
-                    value = (seg->e.seginfo->start_offset & 0xF) + fixup->offset + offset;
+                    value = ( ( seg->e.seginfo->start_offset + ( seg->e.seginfo->group ? seg->e.seginfo->group->offset : 0 ) ) & 0xF ) + fixup->offset + offset;
 
                 DebugMsg(("DoFixup(%s): loc=%04" I32_SPEC "X, sym=%s, target->start_offset=%" I32_SPEC "Xh, fixup->offset=%" I32_SPEC "Xh, fixup->sym->offset=%" I32_SPEC "Xh\n",
                         curr->sym.name, fixup->locofs, fixup->sym->name, seg->e.seginfo->start_offset, fixup->offset, offset ));
-- 
2.43.0


From 0318e64f6b123ba9dc2fc65d78b1e54d4e0ab7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:37 +0000
Subject: [PATCH 74/94] fix: PE headers without initialized data were not
 written

---
 bin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin.c b/bin.c
index a4e89d3..8a5e9c9 100644
--- a/bin.c
+++ b/bin.c
@@ -854,6 +854,7 @@ static void pe_create_section_table( void )
         if ( objs ) {
             DebugMsg(("pe_create_section_table: items in object table: %u\n", objs ));
             objtab->sym.max_offset = sizeof(struct IMAGE_SECTION_HEADER) * objs;
+            objtab->e.seginfo->bytes_written = objtab->sym.max_offset; /* it's to be written even if no initialized data follows */
         }
         /* alloc space for any section, including those without known type, and 1 more (.reloc) */
         for( i = 1, curr = SymTables[TAB_SEG].head; curr; curr = curr->next )
-- 
2.43.0


From 2bf95ec28591daab3e5eab019cfe5b5463c1d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 75/94] fix: PE with relocations but no fixups had an empty
 section header

---
 bin.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin.c b/bin.c
index 8a5e9c9..4b8a282 100644
--- a/bin.c
+++ b/bin.c
@@ -1165,6 +1165,9 @@ static void pe_set_base_relocs( struct dsym *reloc )
             }
         }
     }
+    /* without relocations there's one empty block - the section must not be empty */
+    if ( cnt2 == 0 )
+        cnt2++;
     reloc->sym.max_offset = cnt2 * sizeof( struct IMAGE_BASE_RELOCATION ) + cnt1 * sizeof( uint_16 );
     reloc->e.seginfo->CodeBuffer = LclAlloc( reloc->sym.max_offset );
 
@@ -1204,6 +1207,10 @@ static void pe_set_base_relocs( struct dsym *reloc )
             }
         }
     }
+    if ( baserel->VirtualAddress == -1 ) {
+        baserel->VirtualAddress = 0;
+        baserel->SizeOfBlock = sizeof( struct IMAGE_BASE_RELOCATION );
+    }
 }
 
 #if AMD64_SUPPORT
-- 
2.43.0


From 24148aea67017e2a79b335689512f1343b88f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:06 +0000
Subject: [PATCH 76/94] fix: PE section table was wrong with empty segments or
 padding between segments

---
 bin.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bin.c b/bin.c
index 4b8a282..882e570 100644
--- a/bin.c
+++ b/bin.c
@@ -1245,6 +1245,7 @@ static void pe_set_values( struct calc_param *cp )
     uint_32 sizehdr  = 0;
     uint_32 sizeimg  = 0;
     struct dsym *curr;
+    struct dsym *next;
     struct dsym *mzhdr;
     struct dsym *pehdr;
     struct dsym *objtab;
@@ -1352,6 +1353,8 @@ static void pe_set_values( struct calc_param *cp )
         if ( curr->sym.max_offset == 0 ) /* ignore empty sections */
             continue;
         if ( curr->e.seginfo->lname_idx != i ) {
+            if ( i != -1 )
+                section++;
             i = curr->e.seginfo->lname_idx;
             secname = ( curr->e.seginfo->aliasname ? curr->e.seginfo->aliasname : ConvertSectionName( &curr->sym, NULL, buffer ) );
             strncpy( section->Name, secname, sizeof ( section->Name ) );
@@ -1364,14 +1367,17 @@ static void pe_set_values( struct calc_param *cp )
         }
         section->Characteristics |= pe_get_characteristics( curr );
         if ( curr->e.seginfo->segtype != SEGTYPE_BSS ) {
-            section->SizeOfRawData += curr->sym.max_offset;
+            /* the padding between the segments is included */
+            section->SizeOfRawData = curr->e.seginfo->fileoffset + curr->sym.max_offset - section->PointerToRawData;
         }
 
         /* v2.10: this calculation is not correct */
         //section->Misc.VirtualSize += curr->sym.max_offset;
         section->Misc.VirtualSize = curr->sym.max_offset + ( curr->e.seginfo->start_offset - section->VirtualAddress );
 
-        if ( curr->next == NULL || curr->next->e.seginfo->lname_idx != i ) {
+        /* last (not empty) segment of the section? */
+        for ( next = curr->next; next && next->sym.max_offset == 0; next = next->next );
+        if ( next == NULL || next->e.seginfo->lname_idx != i ) {
 #if RAWSIZE_ROUND /* AntiVir TR/Crypt.XPACK Gen */
             section->SizeOfRawData += cp->rawpagesize - 1;
             section->SizeOfRawData &= ~(cp->rawpagesize - 1);
@@ -1387,11 +1393,6 @@ static void pe_set_values( struct calc_param *cp )
                 datasize += section->SizeOfRawData;
             }
         }
-        if ( curr->next && curr->next->e.seginfo->lname_idx != i ) {
-            DebugMsg(("pe_set_values: object %.8s, VA=%" I32_SPEC "X size=%" I32_SPEC "X phys ofs/size=%" I32_SPEC "Xh/%" I32_SPEC "Xh\n",
-                  section->Name, section->VirtualAddress, section->Misc.VirtualSize, section->PointerToRawData, section->SizeOfRawData ));
-            section++;
-        }
     }
 
 
-- 
2.43.0


From 7e0e2e28e10dd2c5b89fcb4c32855ffe6022b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:00 +0000
Subject: [PATCH 77/94] fix: offsets of .savereg, .savexmm128 and .savezmm512
 beyond 64k units are stored unscaled

---
 proc.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/proc.c b/proc.c
index 31984d8..43d3e16 100644
--- a/proc.c
+++ b/proc.c
@@ -2512,10 +2512,11 @@ ret_code ExcFrameDirective(int i, struct asm_tok tokenarray[])
 		switch (token) {
 		case T_DOT_SAVEREG:
 			puc->OpInfo = reg;
-			if (opndx.value > 65536 * size) {
-				puc->FrameOffset = (opndx.value >> 19);
+			if (opndx.uvalue >= 65536 * size) {
+				/* the offset is stored unscaled in 2 WORDs */
+				puc->FrameOffset = (opndx.uvalue >> 16);
 				puc++;
-				puc->FrameOffset = (opndx.value >> 3);
+				puc->FrameOffset = opndx.uvalue & 0xFFFF;
 				puc++;
 				puc->UnwindOp = UWOP_SAVE_NONVOL_FAR;
 				unw_info.CountOfCodes += 3;
@@ -2531,10 +2532,11 @@ ret_code ExcFrameDirective(int i, struct asm_tok tokenarray[])
 			break;
 		case T_DOT_SAVEXMM128:
 		case T_DOT_SAVEYMM256:
-			if (opndx.value > 65536 * size) {
-				puc->FrameOffset = (opndx.value >> 20);
+			if (opndx.uvalue >= 65536 * size) {
+				/* the offset is stored unscaled in 2 WORDs */
+				puc->FrameOffset = (opndx.uvalue >> 16);
 				puc++;
-				puc->FrameOffset = (opndx.value >> 4);
+				puc->FrameOffset = opndx.uvalue & 0xFFFF;
 				puc++;
 				puc->UnwindOp = UWOP_SAVE_XMM128_FAR;
 				unw_info.CountOfCodes += 3;
@@ -2566,10 +2568,11 @@ ret_code ExcFrameDirective(int i, struct asm_tok tokenarray[])
 			//    puc->OpInfo = reg;
 			//    break;
 		case T_DOT_SAVEZMM512:
-			if (opndx.value > 65536 * size) {
-				puc->FrameOffset = (opndx.value >> 20);
+			if (opndx.uvalue >= 65536 * size) {
+				/* the offset is stored unscaled in 2 WORDs */
+				puc->FrameOffset = (opndx.uvalue >> 16);
 				puc++;
-				puc->FrameOffset = (opndx.value >> 4);
+				puc->FrameOffset = opndx.uvalue & 0xFFFF;
 				puc++;
 				puc->UnwindOp = UWOP_SAVE_XMM128_FAR;
 				unw_info.CountOfCodes += 3;
-- 
2.43.0


From 0bd7df4987e84134a4a768334e4cf7e1e252fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 78/94] fix: registers stored in the home space got their
 unwind codes before the stack allocation, and an alignment-only allocation
 none

---
 proc.c | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/proc.c b/proc.c
index 43d3e16..0af1297 100644
--- a/proc.c
+++ b/proc.c
@@ -2827,7 +2827,7 @@ static void win64_SaveRegParams_RSP(struct proc_info *info)
 /* ========================================================================================================= */
 /* WIN64 Store USED registers into free shadow spaces                                                        */
 /* ========================================================================================================= */
-static void win64_StoreRegHome(struct proc_info *info)
+static void win64_StoreRegHome(struct proc_info *info, uint_16 storedregs[4], int storedofs[4])
 /*******************************************************/
 {
 	int			       i = 0;
@@ -2893,7 +2893,9 @@ static void win64_StoreRegHome(struct proc_info *info)
 				{
 					if (info->home_used[i] == 0) {
 						AddLineQueueX("mov [%r+%u], %r", T_RSP, NUMQUAL sizestd, *regist);
-						AddLineQueueX("%r %r, %u", T_DOT_SAVEREG, *regist, NUMQUAL sizestd);
+						/* the unwind codes follow once the stack has been allocated; their offsets are relative to the final RSP */
+						storedregs[info->stored_reg] = *regist;
+						storedofs[info->stored_reg] = sizestd;
 						info->stored_reg++;
 					}
 					else {
@@ -3249,6 +3251,9 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 	int                 cnt;
 	int                 stackSize;
 	int                 resstack = ((ModuleInfo.win64_flags & W64F_AUTOSTACKSP) ? sym_ReservedStack->value : 0);
+	uint_16             storedregs[4]; /* registers stored in the home space */
+	int                 storedofs[4];
+	int                 stored = 0;
 	int pushed = 0;
 
 	if (Parse_Pass == PASS_1)
@@ -3266,7 +3271,10 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 		win64_SaveRegParams_RSP(info);
 
 	if (ModuleInfo.win64_flags & W64F_SMART)
-		win64_StoreRegHome(info);
+	{
+		win64_StoreRegHome(info, storedregs, storedofs);
+		stored = info->stored_reg;
+	}
 
 #if STACKBASESUPP
 
@@ -3366,6 +3374,13 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 				AddLineQueueX(*(ppfmt + 0), T_RSP, NUMQUAL stackSize, sym_ReservedStack->name);
 			}
 			AddLineQueueX(*(ppfmt + 1), T_DOT_ALLOCSTACK, NUMQUAL stackSize, sym_ReservedStack->name);
+			for (n = 0; n < stored; n++) {
+				i = storedofs[n] + info->pushed_reg * 8 + stackSize;
+				if (resstack)
+					AddLineQueueX("%r %r, %u+%s", T_DOT_SAVEREG, storedregs[n], NUMQUAL i, sym_ReservedStack->name);
+				else
+					AddLineQueueX("%r %r, %u", T_DOT_SAVEREG, storedregs[n], NUMQUAL i);
+			}
 
 			/* save xmm registers */
 			if (cntxmm) {
@@ -3558,17 +3573,24 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 				}
 			}
 		}
-		else if (info->localsize > 0)
+		else
 		{
-			stackSize = info->localsize;
-			if (Options.frameflags)
+			stackSize = 0;
+			if (info->localsize > 0)
 			{
-				AddLineQueueX("lea %r, [%r-%d]", stackreg[ModuleInfo.Ofssize], stackreg[ModuleInfo.Ofssize], stackSize);
-			}
-			else
-			{
-				AddLineQueueX("sub %r, %d", stackreg[ModuleInfo.Ofssize], stackSize);
+				stackSize = info->localsize;
+				if (Options.frameflags)
+				{
+					AddLineQueueX("lea %r, [%r-%d]", stackreg[ModuleInfo.Ofssize], stackreg[ModuleInfo.Ofssize], stackSize);
+				}
+				else
+				{
+					AddLineQueueX("sub %r, %d", stackreg[ModuleInfo.Ofssize], stackSize);
+				}
+				AddLineQueueX("%r %u", T_DOT_ALLOCSTACK, NUMQUAL stackSize);
 			}
+			for (n = 0; n < stored; n++)
+				AddLineQueueX("%r %r, %u", T_DOT_SAVEREG, storedregs[n], NUMQUAL (storedofs[n] + info->pushed_reg * 8 + stackSize));
 		}
 
 		AddLineQueueX("%r", T_DOT_ENDPROLOG);
-- 
2.43.0


From 43a218e178f035c031ebc9663f71ffdab33a733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:34 +0000
Subject: [PATCH 79/94] fix: -zv0 and -zv1 gave 32-bit VECTORCALL procedures
 the FASTCALL decoration

---
 mangle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mangle.c b/mangle.c
index c1e53d9..dae35ae 100644
--- a/mangle.c
+++ b/mangle.c
@@ -120,7 +120,7 @@ static int ms32_decorate( const struct asym *sym, char *buffer )
 	if ((sym->langtype == LANG_VECTORCALL) && (Options.vectorcall_decoration == VECTORCALL_FULL) && sym->isproc) {
 		return(sprintf(buffer, "%s@@%d", sym->name, dir->e.procinfo->parasize));
 	}
-	else if (Options.fctype == FCT_MSC && sym->isproc) {
+	else if (sym->langtype != LANG_VECTORCALL && Options.fctype == FCT_MSC && sym->isproc) {
 		return (sprintf(buffer, "@%s@%u", sym->name, ((struct dsym *)sym)->e.procinfo->parasize));
 	}
 	else {
-- 
2.43.0


From 256a14ea68a37ab96b6fa59d7595c84f8ba82885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:57 +0000
Subject: [PATCH 80/94] fix: the lines of macro expansions were all listed as
 code lines with offset 0

---
 listing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/listing.c b/listing.c
index 5d04080..95039de 100644
--- a/listing.c
+++ b/listing.c
@@ -162,7 +162,7 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
         case LM_NOLISTMACRO:
             return;
         case LM_LISTMACRO:
-            type = LSTTYPE_CODE; /* this is a fix */
+            /* todo: filter certain macro lines */
             break;
         }
     }
-- 
2.43.0


From fbc1473b6f34ac66ee20d7e194c9f2e82059ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:10 +0000
Subject: [PATCH 81/94] fix: the value of a 64-bit equate overran the buffer of
 the listing line

---
 listing.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/listing.c b/listing.c
index 95039de..a9d86fe 100644
--- a/listing.c
+++ b/listing.c
@@ -263,9 +263,9 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
         }
         ll.buffer[idx] = '=';
         if ( sym->value3264 != 0 && ( sym->value3264 != -1 || sym->value >= 0 ) )
-            sprintf( &ll.buffer[idx+2], "%-" PREFFMTSTR I64_SPEC "X", (uint_64)sym->value + ( (uint_64)sym->value3264 << 32 ) );
+            sprintf( &ll.buffer[idx+2], "%" I64_SPEC "X", (uint_64)sym->value + ( (uint_64)sym->value3264 << 32 ) );
         else
-            sprintf( &ll.buffer[idx+2], "%-" PREFFMTSTR I32_SPEC "X", sym->value );
+            sprintf( &ll.buffer[idx+2], "%" I32_SPEC "X", sym->value );
         //ll.buffer[28] = ' ';
         break;
     case LSTTYPE_TMACRO:
-- 
2.43.0


From 6f9ce3415d7c8c391a35ea8390042d9e7e4b4da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:24 +0000
Subject: [PATCH 82/94] fix: -Sn cut the end of the listing

---
 listing.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/listing.c b/listing.c
index a9d86fe..5b61afb 100644
--- a/listing.c
+++ b/listing.c
@@ -1057,13 +1057,17 @@ void LstWriteCRef( void )
     struct qdesc    queues[LQ_LAST];
 
     /* no point going through the motions if lst file isn't open */
-    if( CurrFile[LST] == NULL || Options.no_symbol_listing == TRUE ) {
+    if( CurrFile[LST] == NULL ) {
         return;
     }
 
     /* go to EOF */
     fseek( CurrFile[LST], 0, SEEK_END );
 
+    if( Options.no_symbol_listing == TRUE ) {
+        return;
+    }
+
     SymCount = SymGetCount();
     syms = (struct asym **)MemAlloc( SymCount * sizeof( struct asym * ) );
     SymGetAll( syms );
-- 
2.43.0


From ed4906e8cae3495943cd035fcb80337c58f94eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:40 +0000
Subject: [PATCH 83/94] fix: generated lines that differ between the passes
 overwrote other lines of the listing

---
 H/symbols.h |  1 +
 assemble.c  |  2 +-
 listing.c   | 73 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 proc.c      | 11 ++++++--
 4 files changed, 82 insertions(+), 5 deletions(-)

diff --git a/H/symbols.h b/H/symbols.h
index 6562c19..4fd77c8 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -408,6 +408,7 @@ struct proc_info {
     char                home_used[6];   /* used shadows home space */
 #endif
     uint_32             prolog_list_pos;/* PROC: prologue list pos */
+    uint_32             prolog_list_end;/* PROC: list pos behind the prologue */
     union {
         unsigned char   flags;
         struct {
diff --git a/assemble.c b/assemble.c
index 04e9a96..c6dfffa 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1363,7 +1363,7 @@ static void open_files( void )
     }
 
     if( Options.write_listing ) {
-        CurrFile[LST] = fopen( CurrFName[LST], "wb" );
+        CurrFile[LST] = fopen( CurrFName[LST], "w+b" );
         if ( CurrFile[LST] == NULL )
             Fatal( CANNOT_OPEN_FILE, CurrFName[LST], ErrnoStr() );
     }
diff --git a/listing.c b/listing.c
index 5b61afb..f88b9b4 100644
--- a/listing.c
+++ b/listing.c
@@ -121,12 +121,75 @@ static const struct print_item cr[] = {
     { LQ_PROCS,           0, prccap, log_proc    },
 };
 
+#define LSTLEFT   (4*8) /* size of left column */
+#define LSTGENPOS 28    /* position of generated code marker */
+
 struct lstleft {
     struct lstleft *next;
-    char buffer[4*8];
+    char buffer[LSTLEFT];
     char last;
 };
 
+#if FASTPASS
+/* read the line which has been written - in pass one - at a position of the
+ * listing; result is the size of the line, or 0 if it isn't a generated line.
+ */
+static int LstReadGenerated( uint_32 pos, char *buffer, int size )
+/****************************************************************/
+{
+    int len;
+
+    fseek( CurrFile[LST], pos, SEEK_SET );
+    if ( fgets( buffer, size, CurrFile[LST] ) == NULL )
+        return( 0 );
+    len = strlen( buffer );
+    if ( len < LSTLEFT + NLSIZ || buffer[LSTGENPOS] != '*' || buffer[len-1] != '\n' )
+        return( 0 );
+    buffer[len - NLSIZ] = NULLC;
+    return( len );
+}
+
+/* search a generated line in the listing. The lines generated in pass one
+ * may differ from those of the other passes ( prologue, epilogue, SEH data ),
+ * and a line which doesn't exist has no space in the listing.
+ * result is the line as it has been written.
+ */
+static char *LstFindGenerated( const char *line )
+/***********************************************/
+{
+    static char buffer[MAX_LINE_LEN + LSTLEFT];
+    const char *p;
+    uint_32 pos;
+    int len;
+
+    for ( pos = list_pos; len = LstReadGenerated( pos, buffer, sizeof( buffer ) ); pos += len )
+        if ( strcmp( buffer + LSTLEFT, line ) == 0 ) {
+            list_pos = pos;
+            return( buffer + LSTLEFT );
+        }
+    /* the operands may have changed */
+    if ( len = LstReadGenerated( list_pos, buffer, sizeof( buffer ) ) ) {
+        for ( p = line; isspace( *p ); p++ );
+        for ( pos = LSTLEFT; isspace( buffer[pos] ); pos++ );
+        for ( ; *p && !isspace( *p ) && *p == buffer[pos]; p++, pos++ );
+        if ( ( *p == NULLC || isspace( *p ) ) && ( buffer[pos] == NULLC || isspace( buffer[pos] ) ) )
+            return( buffer + LSTLEFT );
+    }
+    return( NULL );
+}
+
+/* skip generated lines of pass one */
+static void LstSkipGenerated( void )
+/**********************************/
+{
+    char buffer[MAX_LINE_LEN + LSTLEFT];
+    int len;
+
+    while ( len = LstReadGenerated( list_pos, buffer, sizeof( buffer ) ) )
+        list_pos += len;
+}
+#endif
+
 /* write a source line to the listing file
  * global variables used inside:
  *  CurrSource:    the - expanded - source line
@@ -176,6 +239,8 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
         if ( ModuleInfo.GeneratedCode == 0 ) {
             if ( !( ModuleInfo.line_flags & LOF_SKIPPOS ) )
                 list_pos = LineStoreCurr->list_pos;
+            else
+                LstSkipGenerated();
 #if USELSLINE /* either use CurrSource + CurrComment or LineStoreCurr->line (see assemble.c, OnePass() */
             pSrcline = LineStoreCurr->line;
             if ( ModuleInfo.CurrComment ) { /* if comment was removed, readd it! */
@@ -184,6 +249,10 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
             }
 #endif
             DebugMsg1(("LstWrite: Pass=%u, stored pos=%" I32_SPEC "u\n", Parse_Pass+1, list_pos ));
+        } else {
+            pSrcline = LstFindGenerated( pSrcline );
+            if ( pSrcline == NULL )
+                return;
         }
         fseek( CurrFile[LST], list_pos, SEEK_SET );
     }
@@ -314,7 +383,7 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
 #endif
         idx = sizeof( ll.buffer );
         if ( ModuleInfo.GeneratedCode )
-            ll.buffer[28] = '*';
+            ll.buffer[LSTGENPOS] = '*';
         if ( MacroLevel ) {
             len = sprintf( &ll.buffer[29], "%u", MacroLevel );
             ll.buffer[29+len] = ' ';
diff --git a/proc.c b/proc.c
index 0af1297..d5399be 100644
--- a/proc.c
+++ b/proc.c
@@ -4930,8 +4930,15 @@ runqueue:
 	RunLineQueue();
 	Options.line_numbers = oldlinenumbers;
 
-	if (ModuleInfo.list && UseSavedState && (Parse_Pass > PASS_1))
-		LineStoreCurr->list_pos = list_pos;
+	/* the lines of the prologue may differ between the passes, but
+	* the listing got its layout in pass one.
+	*/
+	if (ModuleInfo.list && UseSavedState) {
+		if (Parse_Pass == PASS_1)
+			info->prolog_list_end = list_pos;
+		else
+			LineStoreCurr->list_pos = info->prolog_list_end;
+	}
 
 	return(NOT_ERROR);
 }
-- 
2.43.0


From 7b8203ea11e2423f7356cd8432d74af4023f9eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:43 +0000
Subject: [PATCH 84/94] fix: offsets of parameters of an empty 16/32-bit
 procedure were wrong in the listing

---
 proc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index d5399be..b3b21fe 100644
--- a/proc.c
+++ b/proc.c
@@ -280,6 +280,7 @@ static const char * const fmtstk3[] = {
 /* Declare proc functions */
 static void SetLocalOffsets_RSP(struct proc_info *info);
 static void SetLocalOffsets_RBP(struct proc_info *info);
+static void SetLocalOffsets(struct proc_info *info);
 static void pop_register(uint_16 *regist);
 static void WriteSEHData(struct dsym *proc);
 
@@ -2187,7 +2188,9 @@ static void ProcFini(struct dsym *proc)
 	if (Parse_Pass == PASS_1) {
 		/* in case the procedure is empty, init addresses of local variables ( for proper listing ) */
 		if (ProcStatus & PRST_PROLOGUE_NOT_DONE) {
-			if (ModuleInfo.basereg[USE64] == T_RSP)
+			if (ModuleInfo.Ofssize != USE64)
+				SetLocalOffsets(CurrProc->e.procinfo);
+			else if (ModuleInfo.basereg[USE64] == T_RSP)
 				SetLocalOffsets_RSP(CurrProc->e.procinfo);
 			else
 				SetLocalOffsets_RBP(CurrProc->e.procinfo);
-- 
2.43.0


From a446830c0df45d297dc03b0723cc5a20d6f0db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:43 +0000
Subject: [PATCH 85/94] fix: 64-bit numbers and long array types in the listing

---
 listing.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/listing.c b/listing.c
index f88b9b4..4ebde2c 100644
--- a/listing.c
+++ b/listing.c
@@ -332,7 +332,7 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
         }
         ll.buffer[idx] = '=';
         if ( sym->value3264 != 0 && ( sym->value3264 != -1 || sym->value >= 0 ) )
-            sprintf( &ll.buffer[idx+2], "%" I64_SPEC "X", (uint_64)sym->value + ( (uint_64)sym->value3264 << 32 ) );
+            sprintf( &ll.buffer[idx+2], "%" I64_SPEC "X", (uint_64)sym->uvalue + ( (uint_64)sym->value3264 << 32 ) );
         else
             sprintf( &ll.buffer[idx+2], "%" I32_SPEC "X", sym->value );
         //ll.buffer[28] = ' ';
@@ -970,7 +970,7 @@ static void log_proc( const struct asym *sym )
 
         /* print the procedure's locals */
         for ( l = dir->e.procinfo->locallist; l; l = l->nextlocal ) {
-            char buffer[32];
+            char buffer[MAX_ID_LEN + 16];
             i = l->sym.name_size;
             pdots = (( i >= DOTSMAX-2 ) ? "" : dots + i + 1 + 2);
             if ( l->sym.isarray )
@@ -1049,7 +1049,7 @@ static void log_symbol( const struct asym *sym )
             LstPrintf( " %8" I32_SPEC "Xh ", sym->total_size / sym->total_length );
         else if ( sym->mem_type == MT_EMPTY ) { /* also check segment? might be != NULL for equates (var = offset x) */
             if ( sym->value3264 != 0 && sym->value3264 != -1 )
-                LstPrintf( " %" I64_SPEC "Xh ", sym->uvalue, sym->value3264 );
+                LstPrintf( " %" I64_SPEC "Xh ", (uint_64)sym->uvalue + ( (uint_64)sym->value3264 << 32 ) );
             else if ( sym->value3264 < 0 )
                 LstPrintf( "-%08" I32_SPEC "Xh ", 0 - sym->uvalue );
             else
-- 
2.43.0


From d12ea605c3a0b5e188182e2bc460392c24d94ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:43 +0000
Subject: [PATCH 86/94] fix: CodeView structures were wrong where long has 64
 bits

---
 H/dbgcv.h | 158 +++++++++++++++++++++++++++---------------------------
 1 file changed, 79 insertions(+), 79 deletions(-)

diff --git a/H/dbgcv.h b/H/dbgcv.h
index 537136f..c7c1db1 100644
--- a/H/dbgcv.h
+++ b/H/dbgcv.h
@@ -32,15 +32,15 @@
 
 #pragma pack(push, 1)
 
-typedef unsigned long	CV_uoff32_t;
-typedef		 long	CV_off32_t;
+typedef unsigned int 	CV_uoff32_t;
+typedef		 int 	CV_off32_t;
 typedef unsigned short	CV_uoff16_t;
 typedef		 short	CV_off16_t;
 typedef unsigned short	CV_typ16_t;
-typedef unsigned long	CV_typ_t;
-typedef unsigned long	CV_pubsymflag_t; /* must be same as CV_typ_t. */
+typedef unsigned int 	CV_typ_t;
+typedef unsigned int 	CV_pubsymflag_t; /* must be same as CV_typ_t. */
 typedef unsigned short	_2BYTEPAD;
-typedef unsigned long	CV_tkn_t;
+typedef unsigned int 	CV_tkn_t;
 
 #if !defined (CV_ZEROLEN)
 #define CV_ZEROLEN
@@ -68,7 +68,7 @@ typedef struct FLOAT10 {
 #define GUID_DEFINED
 
 typedef struct _GUID {		/* size is 16 */
-    unsigned long   Data1;
+    unsigned int    Data1;
     unsigned short  Data2;
     unsigned short  Data3;
     unsigned char   Data4[8];
@@ -1303,20 +1303,20 @@ typedef struct CV_POINTER {
     unsigned short leaf; /* LF_POINTER */
     CV_typ_t utype;	 /* type index of the underlying type */
     union {
-        unsigned long attr;
+        unsigned int  attr;
         struct {
-            unsigned long ptrtype : 5; /* ordinal specifying pointer type (CV_ptrtype_e) */
-            unsigned long ptrmode : 3; /* ordinal specifying pointer mode (CV_ptrmode_e) */
-            unsigned long isflat32 : 1; /* true if 0:32 pointer */
-            unsigned long isvolatile : 1; /* TRUE if volatile pointer */
-            unsigned long isconst : 1; /* TRUE if const pointer */
-            unsigned long isunaligned : 1; /* TRUE if unaligned pointer */
-            unsigned long isrestrict : 1; /* TRUE if restricted pointer (allow agressive opts) */
-            unsigned long size : 6; /* size of pointer (in bytes) */
-            unsigned long ismocom : 1; /* TRUE if it is a MoCOM pointer (^ or %) */
-            unsigned long islref : 1; /* TRUE if it is this pointer of member function with & ref-qualifier */
-            unsigned long isrref : 1; /* TRUE if it is this pointer of member function with && ref-qualifier */
-            unsigned long unused : 10;/* pad out to 32-bits for following cv_typ_t's */
+            unsigned int  ptrtype : 5; /* ordinal specifying pointer type (CV_ptrtype_e) */
+            unsigned int  ptrmode : 3; /* ordinal specifying pointer mode (CV_ptrmode_e) */
+            unsigned int  isflat32 : 1; /* true if 0:32 pointer */
+            unsigned int  isvolatile : 1; /* TRUE if volatile pointer */
+            unsigned int  isconst : 1; /* TRUE if const pointer */
+            unsigned int  isunaligned : 1; /* TRUE if unaligned pointer */
+            unsigned int  isrestrict : 1; /* TRUE if restricted pointer (allow agressive opts) */
+            unsigned int  size : 6; /* size of pointer (in bytes) */
+            unsigned int  ismocom : 1; /* TRUE if it is a MoCOM pointer (^ or %) */
+            unsigned int  islref : 1; /* TRUE if it is this pointer of member function with & ref-qualifier */
+            unsigned int  isrref : 1; /* TRUE if it is this pointer of member function with && ref-qualifier */
+            unsigned int  unused : 10;/* pad out to 32-bits for following cv_typ_t's */
         };
     };
     union {
@@ -1358,7 +1358,7 @@ typedef struct CV_STRIDED_ARRAY {
     unsigned short  leaf;		/* LF_STRIDED_ARRAY */
     CV_typ_t	    elemtype;
     CV_typ_t	    idxtype;
-    unsigned long   stride;
+    unsigned int    stride;
     unsigned char   data[CV_ZEROLEN];
 } CV_STRIDED_ARRAY;
 
@@ -1369,7 +1369,7 @@ typedef struct CV_VECTOR {
     unsigned short  size;
     unsigned short  leaf;		/* LF_VECTOR */
     CV_typ_t	    elemtype;		/* type index of element type */
-    unsigned long   count;		/* number of elements in the vector */
+    unsigned int    count;		/* number of elements in the vector */
     unsigned char   data[CV_ZEROLEN];	/* variable length data specifying size in bytes and name */
 } CV_VECTOR;
 
@@ -1379,9 +1379,9 @@ typedef struct CV_MATRIX {
     unsigned short  size;
     unsigned short  leaf;		/* LF_MATRIX */
     CV_typ_t	    elemtype;		/* type index of element type */
-    unsigned long   rows;		/* number of rows */
-    unsigned long   cols;		/* number of columns */
-    unsigned long   majorStride;
+    unsigned int    rows;		/* number of rows */
+    unsigned int    cols;		/* number of columns */
+    unsigned int    majorStride;
     CV_matrixattr_t matattr;		/* attributes */
     unsigned char   data[CV_ZEROLEN];	/* variable length data specifying size in bytes and name */
 } CV_MATRIX;
@@ -1475,7 +1475,7 @@ typedef struct CV_UDT_SRC_LINE {
     unsigned short leaf;	/* LF_UDT_SRC_LINE */
     CV_typ_t	   type;	/* UDT's type index */
     CV_ItemId	   src;		/* index to LF_STRING_ID record where source file name is saved */
-    unsigned long  line;	/* line number */
+    unsigned int   line;	/* line number */
 } CV_UDT_SRC_LINE;
 
 typedef struct CV_UDT_MOD_SRC_LINE {
@@ -1483,7 +1483,7 @@ typedef struct CV_UDT_MOD_SRC_LINE {
     unsigned short leaf;	/* LF_UDT_MOD_SRC_LINE */
     CV_typ_t	   type;	/* UDT's type index */
     CV_ItemId	   src;		/* index into string table where source file name is saved */
-    unsigned long  line;	/* line number */
+    unsigned int   line;	/* line number */
     unsigned short imod;	/* module that contributes this UDT definition */
 } CV_UDT_MOD_SRC_LINE;
 
@@ -1569,7 +1569,7 @@ typedef struct CV_MFUNCTION_16t {
     CV_funcattr_t   funcattr;	    /* attributes */
     unsigned short  parmcount;	    /* number of parameters */
     CV_typ16_t	    arglist;	    /* type index of argument list */
-    long	    thisadjust;	    /* this adjuster (long because pad required anyway) */
+    int 	    thisadjust;	    /* this adjuster (long because pad required anyway) */
 } CV_MFUNCTION_16t;
 
 typedef struct CV_MFUNCTION {
@@ -1582,7 +1582,7 @@ typedef struct CV_MFUNCTION {
     CV_funcattr_t   funcattr;	    /* attributes */
     unsigned short  parmcount;	    /* number of parameters */
     CV_typ_t	    arglist;	    /* type index of argument list */
-    long	    thisadjust;	    /* this adjuster (long because pad required anyway) */
+    int 	    thisadjust;	    /* this adjuster (long because pad required anyway) */
 } CV_MFUNCTION;
 
 
@@ -1621,7 +1621,7 @@ typedef struct CV_ARGLIST_16t {
 typedef struct CV_ARGLIST {
     unsigned short  size;
     unsigned short  leaf;		/* LF_ARGLIST, LF_SUBSTR_LIST */
-    unsigned long   count;		/* number of arguments */
+    unsigned int    count;		/* number of arguments */
     CV_typ_t	    arg[CV_ZEROLEN];	/* number of arguments */
 } CV_ARGLIST;
 
@@ -3134,17 +3134,17 @@ typedef struct LABELSYM16 {
 typedef struct PROCSYM {
     unsigned short  reclen;	/* Record length */
     unsigned short  rectyp;	/* S_GPROC16 or S_LPROC16 */
-    unsigned long   pParent;	/* pointer to the parent */
-    unsigned long   pEnd;	/* pointer to this blocks end */
-    unsigned long   pNext;	/* pointer to next symbol */
+    unsigned int    pParent;	/* pointer to the parent */
+    unsigned int    pEnd;	/* pointer to this blocks end */
+    unsigned int    pNext;	/* pointer to next symbol */
 } PROCSYM;
 
 typedef struct PROCSYM16 {
     unsigned short  reclen;	/* Record length */
     unsigned short  rectyp;	/* S_GPROC16 or S_LPROC16 */
-    unsigned long   pParent;	/* pointer to the parent */
-    unsigned long   pEnd;	/* pointer to this blocks end */
-    unsigned long   pNext;	/* pointer to next symbol */
+    unsigned int    pParent;	/* pointer to the parent */
+    unsigned int    pEnd;	/* pointer to this blocks end */
+    unsigned int    pNext;	/* pointer to next symbol */
     unsigned short  len;	/* Proc length */
     unsigned short  DbgStart;	/* Debug start offset */
     unsigned short  DbgEnd;	/* Debug end offset */
@@ -3158,12 +3158,12 @@ typedef struct PROCSYM16 {
 typedef struct PROCSYM32_16t {
     unsigned short  reclen;	/* Record length */
     unsigned short  rectyp;	/* S_GPROC32_16t or S_LPROC32_16t */
-    unsigned long   pParent;	/* pointer to the parent */
-    unsigned long   pEnd;	/* pointer to this blocks end */
-    unsigned long   pNext;	/* pointer to next symbol */
-    unsigned long   len;	/* Proc length */
-    unsigned long   DbgStart;	/* Debug start offset */
-    unsigned long   DbgEnd;	/* Debug end offset */
+    unsigned int    pParent;	/* pointer to the parent */
+    unsigned int    pEnd;	/* pointer to this blocks end */
+    unsigned int    pNext;	/* pointer to next symbol */
+    unsigned int    len;	/* Proc length */
+    unsigned int    DbgStart;	/* Debug start offset */
+    unsigned int    DbgEnd;	/* Debug end offset */
     CV_uoff32_t	    off;
     unsigned short  seg;
     CV_typ16_t	    typind;	/* Type index */
@@ -3174,12 +3174,12 @@ typedef struct PROCSYM32_16t {
 typedef struct PROCSYM32 {
     unsigned short  reclen;	/* Record length */
     unsigned short  rectyp;	/* S_GPROC32, S_LPROC32, S_GPROC32_ID, S_LPROC32_ID, S_LPROC32_DPC or S_LPROC32_DPC_ID */
-    unsigned long   pParent;	/* pointer to the parent */
-    unsigned long   pEnd;	/* pointer to this blocks end */
-    unsigned long   pNext;	/* pointer to next symbol */
-    unsigned long   len;	/* Proc length */
-    unsigned long   DbgStart;	/* Debug start offset */
-    unsigned long   DbgEnd;	/* Debug end offset */
+    unsigned int    pParent;	/* pointer to the parent */
+    unsigned int    pEnd;	/* pointer to this blocks end */
+    unsigned int    pNext;	/* pointer to next symbol */
+    unsigned int    len;	/* Proc length */
+    unsigned int    DbgStart;	/* Debug start offset */
+    unsigned int    DbgEnd;	/* Debug end offset */
     CV_typ_t	    typind;	/* Type index or ID */
     CV_uoff32_t	    off;
     unsigned short  seg;
@@ -3257,19 +3257,19 @@ typedef struct COMPILESYM {
     unsigned short reclen;	/* Record length */
     unsigned short rectyp;	/* S_COMPILE2 */
     union {
-        unsigned long flags;
+        unsigned int  flags;
         struct {
-            unsigned long iLanguage : 8; /* language index */
-            unsigned long fEC : 1; /* compiled for E/C */
-            unsigned long fNoDbgInfo : 1; /* not compiled with debug info */
-            unsigned long fLTCG : 1; /* compiled with LTCG */
-            unsigned long fNoDataAlign : 1; /* compiled with -Bzalign */
-            unsigned long fManagedPresent : 1; /* managed code/data present */
-            unsigned long fSecurityChecks : 1; /* compiled with /GS */
-            unsigned long fHotPatch : 1; /* compiled with /hotpatch */
-            unsigned long fCVTCIL : 1; /* converted with CVTCIL */
-            unsigned long fMSILModule : 1; /* MSIL netmodule */
-            unsigned long pad : 15; /* reserved, must be 0 */
+            unsigned int  iLanguage : 8; /* language index */
+            unsigned int  fEC : 1; /* compiled for E/C */
+            unsigned int  fNoDbgInfo : 1; /* not compiled with debug info */
+            unsigned int  fLTCG : 1; /* compiled with LTCG */
+            unsigned int  fNoDataAlign : 1; /* compiled with -Bzalign */
+            unsigned int  fManagedPresent : 1; /* managed code/data present */
+            unsigned int  fSecurityChecks : 1; /* compiled with /GS */
+            unsigned int  fHotPatch : 1; /* compiled with /hotpatch */
+            unsigned int  fCVTCIL : 1; /* converted with CVTCIL */
+            unsigned int  fMSILModule : 1; /* MSIL netmodule */
+            unsigned int  pad : 15; /* reserved, must be 0 */
         };
     };
     unsigned short machine;	/* target processor */
@@ -3288,22 +3288,22 @@ typedef struct COMPILESYM3 {
     unsigned short  reclen;	/* Record length */
     unsigned short  rectyp;	/* S_COMPILE3 */
     union {
-        unsigned long flags;
+        unsigned int  flags;
         struct {
-            unsigned long iLanguage : 8;	/* language index */
-            unsigned long fEC : 1;	/* compiled for E/C */
-            unsigned long fNoDbgInfo : 1;	/* not compiled with debug info */
-            unsigned long fLTCG : 1;	/* compiled with LTCG */
-            unsigned long fNoDataAlign : 1;	/* compiled with -Bzalign */
-            unsigned long fManagedPresent : 1;	/* managed code/data present */
-            unsigned long fSecurityChecks : 1;	/* compiled with /GS */
-            unsigned long fHotPatch : 1;	/* compiled with /hotpatch */
-            unsigned long fCVTCIL : 1;	/* converted with CVTCIL */
-            unsigned long fMSILModule : 1;	/* MSIL netmodule */
-            unsigned long fSdl : 1;	/* compiled with /sdl */
-            unsigned long fPGO : 1;	/* compiled with /ltcg:pgo or pgu */
-            unsigned long fExp : 1;	/* .exp module */
-            unsigned long pad : 12;	/* reserved, must be 0 */
+            unsigned int  iLanguage : 8;	/* language index */
+            unsigned int  fEC : 1;	/* compiled for E/C */
+            unsigned int  fNoDbgInfo : 1;	/* not compiled with debug info */
+            unsigned int  fLTCG : 1;	/* compiled with LTCG */
+            unsigned int  fNoDataAlign : 1;	/* compiled with -Bzalign */
+            unsigned int  fManagedPresent : 1;	/* managed code/data present */
+            unsigned int  fSecurityChecks : 1;	/* compiled with /GS */
+            unsigned int  fHotPatch : 1;	/* compiled with /hotpatch */
+            unsigned int  fCVTCIL : 1;	/* converted with CVTCIL */
+            unsigned int  fMSILModule : 1;	/* MSIL netmodule */
+            unsigned int  fSdl : 1;	/* compiled with /sdl */
+            unsigned int  fPGO : 1;	/* compiled with /ltcg:pgo or pgu */
+            unsigned int  fExp : 1;	/* .exp module */
+            unsigned int  pad : 12;	/* reserved, must be 0 */
         };
     };
     unsigned short  machine;	/* target processor */
@@ -3336,7 +3336,7 @@ typedef struct ENVBLOCKSYM {
 typedef struct OBJNAMESYM {
     unsigned short reclen;	/* Record length */
     unsigned short rectyp;	/* S_OBJNAME */
-    unsigned long signature;	/* signature */
+    unsigned int  signature;	/* signature */
     unsigned char name[1];	/* Length-prefixed name */
 } OBJNAMESYM;
 
@@ -3391,10 +3391,10 @@ typedef struct CV_DebugSLinesFileBlockHeader_t {
 #define CV_LINES_HAVE_COLUMNS 0x0001
 
 typedef struct CV_Line_t {
-    unsigned long   offset;		/* Offset to start of code bytes for line number */
-    unsigned long   linenumStart : 24;	/* line where statement/expression starts */
-    unsigned long   deltaLineEnd : 7;	/* delta to line where statement ends (optional) */
-    unsigned long   fStatement : 1;	/* true if a statement linenumber, else an expression line num */
+    unsigned int    offset;		/* Offset to start of code bytes for line number */
+    unsigned int    linenumStart : 24;	/* line where statement/expression starts */
+    unsigned int    deltaLineEnd : 7;	/* delta to line where statement ends (optional) */
+    unsigned int    fStatement : 1;	/* true if a statement linenumber, else an expression line num */
 } CV_Line_t;
 
 typedef unsigned short CV_columnpos_t;	/* byte offset in a source line */
-- 
2.43.0


From c2468b476af1d6f1cdd143af69ef6c6010fa9c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:43 +0000
Subject: [PATCH 87/94] fix: instructions of the second table had no CPU level

---
 H/InstrTableV2.h | 82 ++++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/H/InstrTableV2.h b/H/InstrTableV2.h
index 290c452..aa50b48 100644
--- a/H/InstrTableV2.h
+++ b/H/InstrTableV2.h
@@ -10,53 +10,53 @@ struct Instr_Def InstrTableV2[] = {
 	{ "clc",    0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0xf8, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
 	{ "cld",    0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0xfc, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
 	{ "cli",    0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0xfa, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "clts",   0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x06, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
+	{ "clts",   0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x06, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_286p, 0, NULL },
 	{ "cmc",    0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0xf5, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "cpuid",  0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0xa2, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
+	{ "cpuid",  0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0xa2, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_586, 0, NULL },
 	{ "daa",    0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0x27, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
 	{ "das",    0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0x2f, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
 	{ "hlt",    0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0xf4, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "invd",   0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x08, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
+	{ "invd",   0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x08, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_486, 0, NULL },
 	{ "lahf",   0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0x9f, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "leave",  0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0xc9, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
+	{ "leave",  0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0xc9, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_186, 0, NULL },
 	{ "stc",    0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0xf9, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
 	{ "std",    0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0xfd, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
 	{ "sti",    0, { OP_N,     OP_N    }, GP1, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 1, { 0xfb, 0x00, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
 
 	/* FPU no operand instructions */
-	{ "f2xm1",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf0, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fabs",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xe1, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fchs",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xe0, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fclex",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 3, { 0x9b, 0xdb, 0xe2 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fnclex", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xdb, 0xe2, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fcos",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xff, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fdecstp",0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf6, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fincstp",0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf7, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "finit",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 3, { 0x9b, 0xdb, 0xe3 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fninit", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xdb, 0xe3, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fld1",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xe8, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fldl2t", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xe9, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fldl2e", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xea, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fldpi",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xeb, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fldlg2", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xec, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fldln2", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xed, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fldz",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xee, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fnop",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xd0, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fpatan", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf3, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fprem",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf8, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fprem1", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf5, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fptan",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf2, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "frndint",0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xfc, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fscale", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xfd, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fsin",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xfe, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fsincos",0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xfb, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fsqrt",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xfa, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "ftst",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xe4, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fxam",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xe5, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fxch",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xc9, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fxtract",0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf4, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fyl2x",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf1, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
-	{ "fyl2xp1",0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf9, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_86, 0, NULL },
+	{ "f2xm1",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf0, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fabs",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xe1, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fchs",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xe0, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fclex",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 3, { 0x9b, 0xdb, 0xe2 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fnclex", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xdb, 0xe2, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fcos",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xff, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_387, 0, NULL },
+	{ "fdecstp",0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf6, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fincstp",0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf7, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "finit",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 3, { 0x9b, 0xdb, 0xe3 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fninit", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xdb, 0xe3, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fld1",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xe8, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fldl2t", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xe9, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fldl2e", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xea, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fldpi",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xeb, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fldlg2", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xec, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fldln2", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xed, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fldz",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xee, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fnop",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xd0, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fpatan", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf3, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fprem",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf8, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fprem1", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf5, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_387, 0, NULL },
+	{ "fptan",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf2, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "frndint",0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xfc, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fscale", 0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xfd, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fsin",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xfe, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_387, 0, NULL },
+	{ "fsincos",0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xfb, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_387, 0, NULL },
+	{ "fsqrt",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xfa, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "ftst",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xe4, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fxam",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xe5, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fxch",   0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xc9, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fxtract",0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf4, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fyl2x",  0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf1, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
+	{ "fyl2xp1",0, { OP_N,     OP_N    }, FP0, (NO_FLAGS),														  NO_VEX, NO_EVEX, 1, 2, { 0xd9, 0xf9, 0x00 }, 1, 0, NO_MOD,      0, 0,                0,                  (X16 | X32 | X64), NO_DST, NO_PREFIX, NO_IMM, NO_MEM, P_87, 0, NULL },
 	
 	/* General Purpose Reg->Reg moves (We use 8a/8b(masm) instead of 88/89(gcc) */
 	{ "mov",    2, { R8,       R8      }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),                              NO_VEX, NO_EVEX, 1, 1, { 0x8a, 0x00, 0x00 }, 1, 0, MOD_REG_REG, 0, 0,                0,                  (X16 | X32 | X64), REG_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_86,  0, NULL },
@@ -80,21 +80,21 @@ struct Instr_Def InstrTableV2[] = {
 	{ "mov",    2, { R64,      R64E    }, GP3, (REX | REXB | REXW) | (F_MODRM | F_MODRM_REG | F_MODRM_RM),		  NO_VEX, NO_EVEX, 1, 1, { 0x8b, 0x00, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64            ), REG_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
 	{ "mov",    2, { R64E,     R64     }, GP3, (REX | REXR | REXW) | (F_MODRM | F_MODRM_REG | F_MODRM_RM),		  NO_VEX, NO_EVEX, 1, 1, { 0x8b, 0x00, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64            ), REG_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
 	/* CR0-CR8 register moves */
-	{ "mov",    2, { R32,      R_CR    }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),							  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x20, 0x00 }, 4, 0, MOD_REG_REG, 0, 0,                0,                  (X16 | X32), RM_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_86,  0, NULL },
+	{ "mov",    2, { R32,      R_CR    }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),							  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x20, 0x00 }, 4, 0, MOD_REG_REG, 0, 0,                0,                  (X16 | X32), RM_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_386,  0, NULL },
 	{ "mov",    2, { R64,      R_CR    }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),							  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x20, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64), RM_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
 	{ "mov",    2, { R64E,     R_CR    }, GP3, (REX | REXB) | (F_MODRM | F_MODRM_REG | F_MODRM_RM),			      NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x20, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64), RM_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
 	{ "mov",    2, { R64,      R_CR8   }, GP3, (REX | REXR) | (F_MODRM | F_MODRM_REG | F_MODRM_RM),				  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x20, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64), RM_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
 	{ "mov",    2, { R64E,     R_CR8   }, GP3, (REX | REXB | REXR) | (F_MODRM | F_MODRM_REG | F_MODRM_RM),	      NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x20, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64), RM_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
-	{ "mov",    2, { R_CR,     R32     }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),							  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x22, 0x00 }, 4, 0, MOD_REG_REG, 0, 0,                0,                  (X16 | X32), REG_DST, NO_PREFIX, NO_IMM,     NO_MEM,     P_86,  0, NULL },
+	{ "mov",    2, { R_CR,     R32     }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),							  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x22, 0x00 }, 4, 0, MOD_REG_REG, 0, 0,                0,                  (X16 | X32), REG_DST, NO_PREFIX, NO_IMM,     NO_MEM,     P_386,  0, NULL },
 	{ "mov",    2, { R_CR,     R64     }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),							  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x22, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64), REG_DST, NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
 	{ "mov",    2, { R_CR,     R64E    }, GP3, (REX | REXB) | (F_MODRM | F_MODRM_REG | F_MODRM_RM),				  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x22, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64), REG_DST, NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
 	{ "mov",    2, { R_CR8,    R64     }, GP3, (REX | REXR) | (F_MODRM | F_MODRM_REG | F_MODRM_RM),				  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x22, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64), REG_DST, NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
 	{ "mov",    2, { R_CR8,    R64E    }, GP3, (REX | REXB | REXR) | (F_MODRM | F_MODRM_REG | F_MODRM_RM),		  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x22, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64), REG_DST, NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
 	/* DR0-DR7 register moves */
-	{ "mov",    2, { R32,      R_DR    }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),							  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x21, 0x00 }, 4, 0, MOD_REG_REG, 0, 0,                0,                  (X16 | X32), RM_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_86,  0, NULL },
+	{ "mov",    2, { R32,      R_DR    }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),							  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x21, 0x00 }, 4, 0, MOD_REG_REG, 0, 0,                0,                  (X16 | X32), RM_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_386,  0, NULL },
 	{ "mov",    2, { R64,      R_DR    }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),							  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x21, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64), RM_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
 	{ "mov",    2, { R64E,     R_DR    }, GP3, (REX | REXB) | (F_MODRM | F_MODRM_REG | F_MODRM_RM),			      NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x21, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64), RM_DST,  NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
-	{ "mov",    2, { R_DR,     R32     }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),							  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x23, 0x00 }, 4, 0, MOD_REG_REG, 0, 0,                0,                  (X16 | X32), REG_DST, NO_PREFIX, NO_IMM,     NO_MEM,     P_86,  0, NULL },
+	{ "mov",    2, { R_DR,     R32     }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),							  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x23, 0x00 }, 4, 0, MOD_REG_REG, 0, 0,                0,                  (X16 | X32), REG_DST, NO_PREFIX, NO_IMM,     NO_MEM,     P_386,  0, NULL },
 	{ "mov",    2, { R_DR,     R64     }, GP0, (F_MODRM | F_MODRM_REG | F_MODRM_RM),							  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x23, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64), REG_DST, NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
 	{ "mov",    2, { R_DR,     R64E    }, GP3, (REX | REXB) | (F_MODRM | F_MODRM_REG | F_MODRM_RM),				  NO_VEX, NO_EVEX, 1, 2, { 0x0f, 0x23, 0x00 }, 8, 0, MOD_REG_REG, 0, 0,                0,                  (X64), REG_DST, NO_PREFIX, NO_IMM,     NO_MEM,     P_64,  0, NULL },
 	/* Segment register to register moves */
-- 
2.43.0


From c096050958bee0153e4564d04ac89ceb8f83095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:43 +0000
Subject: [PATCH 88/94] fix: the second encoder accepted instructions the
 selected CPU doesn't have

---
 codegenv2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codegenv2.c b/codegenv2.c
index 7e073cf..ba893ab 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -456,6 +456,12 @@ bool IsValidInCPUMode(struct Instr_Def* instr)
 	if ((instr->cpu & P_PM) > (ModuleInfo.curr_cpu & P_PM))
 		result = FALSE;
 
+	/* Is the instruction one of the current CPU, FPU and extensions? */
+	if ((instr->cpu & P_CPU_MASK) > (ModuleInfo.curr_cpu & P_CPU_MASK)
+		|| (instr->cpu & P_FPU_MASK) > (ModuleInfo.curr_cpu & P_FPU_MASK)
+		|| (instr->cpu & P_EXT_MASK) > (ModuleInfo.curr_cpu & P_EXT_MASK))
+		result = FALSE;
+
 	return result;
 }
 
-- 
2.43.0


From f6faa1c6d928a77a1ba92d65d7ec598a4a4ce2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:49 +0000
Subject: [PATCH 89/94] fix: CodeView line records of a section with several
 source files

---
 dbgcv.c | 52 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/dbgcv.c b/dbgcv.c
index 3dd3d4e..8b149e1 100644
--- a/dbgcv.c
+++ b/dbgcv.c
@@ -1425,6 +1425,8 @@ void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 				CV_DebugSLinesHeader_t* Header;
 				CV_DebugSLinesFileBlockHeader_t* File;
 				struct line_num_info* Queue;
+				struct line_num_info* Block;
+				bool write;
 
 				p = cv_FlushSection(&cv, 0x000000F2,
 					sizeof(CV_DebugSLinesHeader_t) + sizeof(CV_DebugSLinesFileBlockHeader_t));
@@ -1448,17 +1450,26 @@ void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 				while (Queue) {
 
 					CV_Line_t* Line;
-					CV_Line_t* Prev;
+					bool first;
+					int prevofs;
+					int prevline;
+					unsigned cnt;
 					int fileStart = Queue->srcfile;
 
 					if (Queue->number == 0)
 						fileStart = Queue->file;
 
-					File->offFile = cv.files[fileStart].offset;
-					File->cbBlock = 12;
-					Prev = NULL;
+					/* every run of lines of one source file is a block of its own.
+					 * Count its lines first, the buffer may be flushed while they are written.
+					 */
+					Block = Queue;
+					write = FALSE;
+writelines:
+					cnt = 0;
+					first = TRUE;
+					prevofs = prevline = 0;
 
-					for (; Queue; Queue = Queue->next) {
+					for (Queue = Block; Queue; Queue = Queue->next) {
 
 						int fileCur, linenum, offset;
 
@@ -1475,27 +1486,42 @@ void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 						if (fileStart != fileCur)
 							break;
 
-						if (Prev) {
-							if (offset < Prev->offset)
+						if (first == FALSE) {
+							if (offset < prevofs)
 								continue;
-							if (offset == Prev->offset &&
-								linenum == Prev->linenumStart)
+							if (offset == prevofs && linenum == prevline)
 								continue;
 						}
+						first = FALSE;
+						prevofs = offset;
+						prevline = linenum;
+						cnt++;
+						if (write == FALSE)
+							continue;
 
 						cv.ps = checkflush(cv.symbols, cv.ps, sizeof(CV_Line_t), cv.param);
 						Line = (CV_Line_t*)cv.ps;
 						cv.ps += sizeof(CV_Line_t);
 						cv.section->length += sizeof(CV_Line_t);
 
-						File->nLines++;
-						File->cbBlock += 8;
-
 						Line->offset = offset;
 						Line->linenumStart = linenum;
 						Line->deltaLineEnd = 0;
 						Line->fStatement = 1;
-						Prev = Line;
+					}
+					if (write == FALSE) {
+						if (File == NULL) {
+							cv.ps = checkflush(cv.symbols, cv.ps, sizeof(CV_DebugSLinesFileBlockHeader_t), cv.param);
+							File = (CV_DebugSLinesFileBlockHeader_t*)cv.ps;
+							cv.ps += sizeof(CV_DebugSLinesFileBlockHeader_t);
+							cv.section->length += sizeof(CV_DebugSLinesFileBlockHeader_t);
+						}
+						File->offFile = cv.files[fileStart].offset;
+						File->nLines = cnt;
+						File->cbBlock = 12 + 8 * cnt;
+						File = NULL;
+						write = TRUE;
+						goto writelines;
 					}
 				}
 			}
-- 
2.43.0


From 54cc226dc693f0e6eca6f040e045c82d340f5a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:49 +0000
Subject: [PATCH 90/94] fix: a line with the number of the preceding line of
 another file had no line record

---
 linnum.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linnum.c b/linnum.c
index 16749ab..7608f56 100644
--- a/linnum.c
+++ b/linnum.c
@@ -32,6 +32,7 @@ extern int            procidx;
 
 static struct asym    *dmyproc;
 static uint_32        lastLineNumber;
+static unsigned       lastSrcFile;
 
 static void AddLinnumData( struct line_num_info *data )
 /*****************************************************/
@@ -117,7 +118,7 @@ void AddLinnumDataRef( unsigned srcfile, uint_32 line_num )
         }
     }
 
-    if(  line_num && ( write_to_file == FALSE || lastLineNumber == line_num )) {
+    if(  line_num && ( write_to_file == FALSE || ( lastLineNumber == line_num && lastSrcFile == srcfile ) )) {
         return;
     }
 
@@ -158,6 +159,7 @@ void AddLinnumDataRef( unsigned srcfile, uint_32 line_num )
     }
 
     lastLineNumber = line_num;
+    lastSrcFile = srcfile;
 
     /* v2.11: added, improved multi source support for CV.
      * Also, the size of line number info could have become > 1024,
-- 
2.43.0


From 5569f6f1b1c45505fb9c89fa685181b82be6e46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:20 +0000
Subject: [PATCH 91/94] fix: PE export directory: the module name contained a
 leading directory separator

---
 bin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin.c b/bin.c
index 882e570..e445f7f 100644
--- a/bin.c
+++ b/bin.c
@@ -958,7 +958,7 @@ static void pe_emit_export_data( void )
         /* v2.10: name+ext of dll */
         //AddLineQueueX( "@%s_name DB '%s',0", name, name );
         for ( fname = CurrFName[OBJ] + strlen( CurrFName[OBJ] ); fname > CurrFName[OBJ]; fname-- )
-            if ( *fname == '/' || *fname == '\\' || *fname == ':' )
+            if ( *(fname-1) == '/' || *(fname-1) == '\\' || *(fname-1) == ':' )
                 break;
         AddLineQueueX( "@%s_name DB '%s',0", name, fname );
 
-- 
2.43.0


From 6c85654e47cb4b07b87c299b326abff4840f64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:41 +0000
Subject: [PATCH 92/94] fix: PE exports: sort the names by the exported name;
 procedures named B or F

---
 bin.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bin.c b/bin.c
index e445f7f..d57d91e 100644
--- a/bin.c
+++ b/bin.c
@@ -881,14 +881,15 @@ static void pe_create_section_table( void )
 */
 
 struct expitem {
-    char *name;
+    char *name;   /* undecorated name, used for labels */
+    char *expname; /* the name as exported */
     unsigned idx;
 };
 
 static int compare_exp( const void *p1, const void *p2 )
 /*******************************************************/
 {
-    return( strcmp( ((struct expitem *)p1)->name, ((struct expitem *)p2)->name ) );
+    return( strcmp( ((struct expitem *)p1)->expname, ((struct expitem *)p2)->expname ) );
 }
 
 static void pe_emit_export_data( void )
@@ -898,6 +899,7 @@ static void pe_emit_export_data( void )
     time_t timedate;
     int cnt;
     int i;
+    int len;
     char *name;
     char *fname;
     struct expitem *pitems;
@@ -929,6 +931,12 @@ static void pe_emit_export_data( void )
         for( curr = SymTables[TAB_PROC].head, pexp = pitems, i = 0; curr; curr = curr->nextproc ) {
             if( curr->e.procinfo->isexport ) {
                 pexp->name = curr->sym.name;
+                pexp->expname = curr->sym.name;
+                if ( !Options.no_export_decoration ) {
+                    len = Mangle( &curr->sym, StringBufferEnd );
+                    pexp->expname = (char *)myalloca( len + 1 );
+                    memcpy( pexp->expname, StringBufferEnd, len + 1 );
+                }
                 pexp->idx  = i++;
                 pexp++;
             }
@@ -948,7 +956,7 @@ static void pe_emit_export_data( void )
         /* emit the name pointer table */
         AddLineQueueX( "@%s_names %r DWORD", name, T_LABEL );
         for ( i = 0; i < cnt; i++ )
-            AddLineQueueX( "DD %r @%s", T_IMAGEREL, (pitems+i)->name );
+            AddLineQueueX( "DD %r @%s_expname", T_IMAGEREL, (pitems+i)->name );
 
         /* ordinal table. each ordinal is an index into the export address table */
         AddLineQueueX( "@%s_nameord %r WORD", name, T_LABEL );
@@ -965,7 +973,7 @@ static void pe_emit_export_data( void )
         for( curr = SymTables[TAB_PROC].head; curr; curr = curr->nextproc ) {
             if( curr->e.procinfo->isexport ) {
                 Mangle( &curr->sym, StringBufferEnd );
-                AddLineQueueX( "@%s DB '%s',0", curr->sym.name, Options.no_export_decoration ? curr->sym.name : StringBufferEnd );
+                AddLineQueueX( "@%s_expname DB '%s',0", curr->sym.name, Options.no_export_decoration ? curr->sym.name : StringBufferEnd );
             }
         }
         /* exit .edata segment */
-- 
2.43.0


From b5357b45994fc085d6304e4757c4eb86a4f89dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:29 +0000
Subject: [PATCH 93/94] fix: registers that are no address registers were
 accepted in square brackets

---
 expreval.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expreval.c b/expreval.c
index d110613..e689bd6 100644
--- a/expreval.c
+++ b/expreval.c
@@ -999,9 +999,10 @@ static ret_code get_operand( struct expr *opnd, int *idx, struct asm_tok tokenar
             } else {
                 if ( opnd->is_opattr ) /* v2.11: just set error for opattr */
                     opnd->kind = EXPR_ERROR;
-                else
+                else if ( GetValueSp( j ) & ( OP_XMM | OP_YMM | OP_ZMM ) ) /* VSIB */
                   opnd->indirect = TRUE;
-                    //return( fnEmitErr( MUST_BE_INDEX_OR_BASE_REGISTER ) );
+                else
+                    return( fnEmitErr( MUST_BE_INDEX_OR_BASE_REGISTER ) );
             }
         }
         break;
-- 
2.43.0


From 116effa89f693a61ce7fd3cb8a6dfeb1701bddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:44 +0000
Subject: [PATCH 94/94] fix: RIP with an index register, and a 16-bit index in
 64-bit code, were accepted

---
 parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index d3273eb..3579f7e 100644
--- a/parser.c
+++ b/parser.c
@@ -823,8 +823,12 @@ static ret_code set_rm_sib(struct code_info *CodeInfo, unsigned CurrOpnd, char s
         /* base != EMPTY && index != EMPTY */
         base_reg = GetRegNo( base );
         idx_reg  = GetRegNo( index );
-        if ( base == T_RIP)
-          base_reg = 0x5;
+        if ( base == T_RIP) {
+            /* there is no RIP-relative addressing with an index (a VSIB index without base comes here too) */
+            if ( ( GetValueSp( index ) & ( OP_XMM | OP_YMM | OP_ZMM ) ) == 0 )
+                return( EmitError( INVALID_USE_OF_REGISTER ) );
+            base_reg = 0x5;
+        }
 #if AMD64_SUPPORT
         bit3_base = base_reg >> 3;
         bit3_idx  = idx_reg  >> 3;
@@ -1797,6 +1801,8 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
 		else 
 		{
             CodeInfo->prefix.adrsiz = TRUE;
+            if ( ( GetValueSp( index ) & OP_R16) && CodeInfo->Ofssize == USE64 )
+                return( EmitError( INVALID_ADDRESSING_MODE_WITH_CURRENT_CPU_SETTING ) );
         }
 
         /* v2.10: register swapping has been moved to expreval.c, index_connect().
-- 
2.43.0

