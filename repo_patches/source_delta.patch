From 9bd2541f666b68afd4bc41221afabe88d128c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 01/44] fix: constant division by -1 crashed the assembler for
 8000000000000000h

---
 expreval.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expreval.c b/expreval.c
index 6f4e2d7..5bec68a 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3574,7 +3574,11 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
             return( fnEmitErr( DIVIDE_BY_ZERO_IN_EXPR ) );
         }
 
-        opnd1->value64 /= opnd2->value64;
+        /* dividing the smallest 64-bit value by -1 would trap */
+        if ( opnd2->value64 == -1 )
+            opnd1->llvalue = 0 - opnd1->llvalue;
+        else
+            opnd1->value64 /= opnd2->value64;
         break;
     case T_BINARY_OPERATOR:
         DebugMsg1(("calculate(%s [T_BINARY_OPERATOR] ): t1-t2 kind %d/%d memtype %X-%X sym %s-%s type %s-%s\n",
-- 
2.43.0


From 62ad1ff326ab49e2f1efbaf02624b4590f9447f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 02/44] fix: SHL/SHR looked at the low 32 bits of the shift
 count only

---
 expreval.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expreval.c b/expreval.c
index 5bec68a..e72c1c9 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3735,9 +3735,9 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
         case T_SHL:
             /* v2.04: check for shift count < 0 */
             DebugMsg1(("calculate(SHL): value=%" I64_SPEC "X << %" I32_SPEC "u (max=%u)\n", opnd1->llvalue, opnd2->value, 8 * sizeof( opnd1->llvalue ) ));
-            if ( opnd2->value < 0 )
+            if ( opnd2->value64 < 0 )
                 fnEmitErr( COUNT_MUST_BE_POSITIVE_OR_ZERO );
-            else if ( opnd2->value >= ( 8 * sizeof( opnd1->llvalue ) ) )
+            else if ( opnd2->value64 >= ( 8 * sizeof( opnd1->llvalue ) ) )
                 opnd1->llvalue = 0;
             else
                 opnd1->llvalue = opnd1->llvalue << opnd2->value;
@@ -3760,9 +3760,9 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
              * there is a problem with some compilers if shift
              * count is >= 64. So in this case the result is zeroed manually
              */
-	            if ( opnd2->value < 0 )
+	            if ( opnd2->value64 < 0 )
 		             fnEmitErr( COUNT_MUST_BE_POSITIVE_OR_ZERO );
-	            else if ( opnd2->value >= ( 8 * sizeof( opnd1->llvalue ) ) )
+	            else if ( opnd2->value64 >= ( 8 * sizeof( opnd1->llvalue ) ) )
 		             opnd1->llvalue = 0;
 	            else {
                 /* Nidud fix v2.28*/
-- 
2.43.0


From ad85d79167235230ffba7a9d36744415eef9182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 03/44] fix: SHR in 32-bit code dropped the upper half of
 values whose low dword is all ones

---
 expreval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreval.c b/expreval.c
index e72c1c9..4d671e1 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3766,7 +3766,7 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
 		             opnd1->llvalue = 0;
 	            else {
                 /* Nidud fix v2.28*/
-		            if ( opnd1->value == -1 && ModuleInfo.Ofssize == USE32 )
+		            if ( opnd1->value64 == -1 && ModuleInfo.Ofssize == USE32 )
 		              opnd1->llvalue = (unsigned long)opnd1->llvalue >> opnd2->value;
 		           else
 		             opnd1->llvalue = opnd1->llvalue >> opnd2->value;
-- 
2.43.0


From 2e6ffea4061fd891934ea6ed9c1187049cd56e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 04/44] fix: difference of labels was wrong if the first
 operand had a negative displacement

---
 expreval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreval.c b/expreval.c
index 4d671e1..9b12864 100644
--- a/expreval.c
+++ b/expreval.c
@@ -2728,7 +2728,7 @@ static ret_code minus_op( struct expr *opnd1, struct expr *opnd2 )
             }
             /* handle first operand */
             sym = opnd1->sym;
-            opnd1->value += sym->offset;
+            opnd1->value64 += sym->offset;
 
             /* handle second operand */
             sym = opnd2->sym;
-- 
2.43.0


From 1032079d51bba4d674a47c919a04b92a2cbe54cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 05/44] fix: comparison of labels with a negative displacement
 gave wrong results

---
 expreval.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreval.c b/expreval.c
index 9b12864..3c11d45 100644
--- a/expreval.c
+++ b/expreval.c
@@ -1524,9 +1524,9 @@ static ret_code MakeConst2( struct expr *opnd1, struct expr *opnd2 )
         return( fnEmitErr( OPERANDS_MUST_BE_IN_SAME_SEGMENT ) );
     }
     opnd1->kind = EXPR_CONST;
-    opnd1->value += opnd1->sym->offset;
+    opnd1->value64 += opnd1->sym->offset;
     opnd2->kind = EXPR_CONST;
-    opnd2->value += opnd2->sym->offset;
+    opnd2->value64 += opnd2->sym->offset;
     return( NOT_ERROR );
 }
 
-- 
2.43.0


From 9d632da63f53a5eec6577db83dc8563c4f5a7662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 06/44] fix: negation of a 128-bit constant with a zero low
 half was off by one in the upper half

---
 expreval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreval.c b/expreval.c
index 3c11d45..c40f97a 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3199,7 +3199,7 @@ static ret_code negative_op( struct expr *opnd1, struct expr *opnd2 )
          * a bit hackish.
          */
         if ( opnd2->hlvalue )
-            opnd1->hlvalue = -opnd2->hlvalue - 1;
+            opnd1->hlvalue = -opnd2->hlvalue - ( opnd2->llvalue != 0 );
         opnd1->negative = 1 - opnd2->negative; /* ??? supposed to be used for EXPR_FLOAT only! */
     } else if( opnd2->kind == EXPR_FLOAT ) {
         opnd1->kind = EXPR_FLOAT;
-- 
2.43.0


From 5aa15ff699eec21465730d687b4bf8a4f70e3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 07/44] fix: Jcc with NEAR16/NEAR32 coercion to an external
 label used an 8-bit fixup for a 16/32-bit displacement

---
 branch.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/branch.c b/branch.c
index e605d71..627b8f1 100644
--- a/branch.c
+++ b/branch.c
@@ -567,6 +567,7 @@ ret_code process_branch( struct code_info *CodeInfo, unsigned CurrOpnd, const st
                 if ( opndx->Ofssize != USE_EMPTY ) {
                     CodeInfo->prefix.opsiz = OPSIZE( CodeInfo->Ofssize, opndx->Ofssize );
                     CodeInfo->opnd[OPND1].type = (opndx->Ofssize >= USE32) ? OP_I32 : OP_I16;
+                    fixup_type = (opndx->Ofssize >= USE32) ? FIX_RELOFF32 : FIX_RELOFF16;
                 } else if( CodeInfo->Ofssize > USE16 ) {
                     fixup_type = FIX_RELOFF32;
                     CodeInfo->opnd[OPND1].type = OP_I32;
-- 
2.43.0


From 93e324cc413ecc0b6a9274facb7d02ccebfa857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 08/44] fix: ALIGN above the segment alignment crashed if there
 is no FLAT group

---
 posndir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posndir.c b/posndir.c
index 4715024..4ab1363 100644
--- a/posndir.c
+++ b/posndir.c
@@ -252,7 +252,7 @@ ret_code AlignDirective( int i, struct asm_tok tokenarray[] )
     }
     if( align_value > seg_align ) {
         if (( Parse_Pass == PASS_1 )&&                   //We need 32 0r 64 bit for VEX and EVEX
-          (ModuleInfo.flat_grp->sym.isdefined == FALSE)) //No warning if "FLAT"
+          (ModuleInfo.flat_grp == NULL || ModuleInfo.flat_grp->sym.isdefined == FALSE)) //No warning if "FLAT"
 		if ( Parse_Pass == PASS_1 && ModuleInfo.Ofssize != USE64 )
             EmitWarn( 1, ALIGN_TOO_HIGH, myltoa( align_value, buffer, 10, FALSE, FALSE ) );
         //return( ERROR ); /* v2.0: don't exit */
-- 
2.43.0


From 10f088c5fa3effc336f6595ad490ffa1793b4806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 09/44] fix: ALIGN with an argument above 2^30 hung the
 assembler

---
 posndir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posndir.c b/posndir.c
index 4ab1363..a33bfcd 100644
--- a/posndir.c
+++ b/posndir.c
@@ -216,7 +216,7 @@ ret_code AlignDirective( int i, struct asm_tok tokenarray[] )
         if ( opndx.kind == EXPR_CONST ) {
             int_32 power;
             /* check that the parm is a power of 2 */
-            for( power = 1; power < align_value; power <<= 1 );
+            for( power = 1; power < align_value && power < 0x40000000; power <<= 1 );
             if( power != align_value ) {
                 return( EmitErr( POWER_OF_2, align_value ) );
             }
-- 
2.43.0


From fff8c7e5ef254551f235408d8998430c2d9e31be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 10/44] fix: INCBIN of more than 1 kB overran the segment
 buffer in OMF format

---
 assemble.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/assemble.c b/assemble.c
index 4c9e6e2..eb8522e 100644
--- a/assemble.c
+++ b/assemble.c
@@ -276,6 +276,12 @@ void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 {
 	int i;
 
+	/* OMF: the segment buffer has room for one LEDATA record only */
+	if (Options.output_format == OFORMAT_OMF) {
+		for (; len; len--)
+			OutputByte(*(pBytes++));
+		return;
+	}
 	if (write_to_file == TRUE) {
 		uint_32 idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
 #ifdef DEBUG_OUT
-- 
2.43.0


From 3d0dc91dafd6cd3b41d0af4a314bc4a66e02df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 11/44] fix: long wide strings overran the segment buffer in
 OMF format

---
 assemble.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/assemble.c b/assemble.c
index eb8522e..1de08c2 100644
--- a/assemble.c
+++ b/assemble.c
@@ -416,6 +416,14 @@ void OutputInterleavedBytes(const unsigned char *pbytes, int len, struct fixup *
 	int i = 0;
 	char *pOut = NULL;
 
+	/* OMF: the segment buffer has room for one LEDATA record only */
+	if (Options.output_format == OFORMAT_OMF && fixup == NULL) {
+		for (; len; len--) {
+			OutputByte(*(pbytes++));
+			OutputByte(0);
+		}
+		return;
+	}
 	if (write_to_file == TRUE) {
 		uint_32 idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
 #if 0 /* def DEBUG_OUT */
-- 
2.43.0


From fdec8603dd022d6678628278f1dbfb2d45b320d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 12/44] fix: INCBIN ignored its size argument and mishandled
 offsets behind the end of the file

---
 directiv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/directiv.c b/directiv.c
index 3e742fb..4a3cb6e 100644
--- a/directiv.c
+++ b/directiv.c
@@ -264,7 +264,10 @@ ret_code IncBinDirective( int i, struct asm_tok tokenarray[] )
 	{
 		/* v2.14 : Get File Size */
 		fseek( file, 0L, SEEK_END );
-		sz = ftell( file ) - fileoffset; // sz = total data size to load into segment/section.
+		sz = ftell( file ); // sz = total data size to load into segment/section.
+		sz = ( fileoffset < (uint_32)sz ? sz - fileoffset : 0 ); /* nothing is left if the offset is behind the end of the file */
+		if ( (uint_32)sz > sizemax )
+			sz = sizemax;
 		fseek( file, 0L, SEEK_SET );
 		pBinData = (unsigned char*)malloc(sz);
 		if ( fileoffset )
-- 
2.43.0


From d5fe6ceeffbff787376c783deeaf8313d373a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 13/44] fix: integer literals above 128 bits were silently
 truncated

---
 atofloat.c |  5 +++--
 equate.c   |  8 +++++---
 expreval.c | 10 +++++++---
 hll.c      |  2 +-
 invoke.c   |  2 +-
 5 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/atofloat.c b/atofloat.c
index 7ce89d7..d00d53c 100644
--- a/atofloat.c
+++ b/atofloat.c
@@ -17,7 +17,7 @@
 
 #define USESTRTOF 0 /* 0=use strtod() and convert "manually", 1=use strtof() */
 
-extern void myatoi128( const char *, uint_64[], int, int );
+extern bool myatoi128( const char *, uint_64[], int, int );
 
 /* it's ensured that 'out' points to a buffer with a size of at least 16 */
 
@@ -38,7 +38,8 @@ void atofloat( void *out, const char *inp, unsigned size, bool negative, uint_8
          *        always initializes and reads a 16-byte number ).
          *        then check that the number fits in the variable.
          */
-        myatoi128( inp, (uint_64 *)out, 16, strlen( inp ) - 1 );
+        if ( myatoi128( inp, (uint_64 *)out, 16, strlen( inp ) - 1 ) )
+            EmitErr( INVALID_DATA_INITIALIZER, inp );
         for ( p = (uint_8 *)out + size, end = (uint_8 *)out + 16; p < end; p++ )
             if ( *p != NULLC ) {
                 EmitErr( INVALID_DATA_INITIALIZER, inp );
diff --git a/equate.c b/equate.c
index 16b0bb0..ddfc4de 100644
--- a/equate.c
+++ b/equate.c
@@ -23,7 +23,7 @@
 #include "fixup.h"
 #include "myassert.h"
 
-extern void myatoi128( const char *, uint_64[], int, int );
+extern bool myatoi128( const char *, uint_64[], int, int );
 
 #if defined(LLONG_MAX) || defined(__GNUC__) || defined(__TINYC__)
 /* gcc needs suffixes if the constants won't fit in long type */
@@ -137,7 +137,8 @@ static struct asym *CreateAssemblyTimeVariable( struct asm_tok tokenarray[] )
     if ( tokenarray[2].token == T_NUM &&
          tokenarray[3].token == T_FINAL ) {
 
-        myatoi128( tokenarray[i].string_ptr, &opnd.llvalue, tokenarray[i].numbase, tokenarray[i].itemlen );
+        if ( myatoi128( tokenarray[i].string_ptr, &opnd.llvalue, tokenarray[i].numbase, tokenarray[i].itemlen ) )
+            opnd.hlvalue = -1; /* more than 128 bits */
 
 	check_number:
         opnd.kind = EXPR_CONST;
@@ -426,7 +427,8 @@ struct asym *CreateConstant( struct asm_tok tokenarray[] )
         /* value is a plain number. it will be accepted only if it fits into 32-bits.
          * Else a text macro is created.
          */
-		 myatoi128( tokenarray[2].string_ptr, &opnd.llvalue, tokenarray[2].numbase, tokenarray[2].itemlen );
+		 if ( myatoi128( tokenarray[2].string_ptr, &opnd.llvalue, tokenarray[2].numbase, tokenarray[2].itemlen ) )
+            opnd.hlvalue = -1; /* more than 128 bits */
 
     check_single_number:
         opnd.instr = EMPTY;
diff --git a/expreval.c b/expreval.c
index c40f97a..4168bf9 100644
--- a/expreval.c
+++ b/expreval.c
@@ -804,13 +804,14 @@ static uint_32 GetRecordMask( struct dsym *record )
  * generated code is run, the old strategy needed too much space.
  */
 
-void myatoi128( const char *src, uint_64 dst[], int base, int size )
+bool myatoi128( const char *src, uint_64 dst[], int base, int size )
 /******************************************************************/
 {
     uint_32             val;
     unsigned            len;
     const char          *end = src + size;
     uint_16             *px;
+    bool                overflow = FALSE;
 
     dst[0] = 0;
     dst[1] = 0;
@@ -829,9 +830,11 @@ void myatoi128( const char *src, uint_64 dst[], int base, int size )
             val >>= 16;
         };
         //myassert( val == 0 ); /* if number doesn't fit in 128 bits */
+        if ( val )
+            overflow = TRUE; /* number needs more than 128 bits */
         src++;
     } while( src < end );
-    return;
+    return( overflow );
 }
 
 /* get an operand. operands are:
@@ -896,7 +899,8 @@ static ret_code get_operand( struct expr *opnd, int *idx, struct asm_tok tokenar
     case T_NUM:
         DebugMsg1(("%u get_operand: T_NUM, %s, base=%u, len=%u\n", evallvl, tokenarray[i].string_ptr, tokenarray[i].numbase, tokenarray[i].itemlen ));
         opnd->kind = EXPR_CONST;
-        myatoi128( tokenarray[i].string_ptr, &opnd->llvalue, tokenarray[i].numbase, tokenarray[i].itemlen );
+        if ( myatoi128( tokenarray[i].string_ptr, &opnd->llvalue, tokenarray[i].numbase, tokenarray[i].itemlen ) )
+            return( fnEmitErr( CONSTANT_VALUE_TOO_LARGE_EX, opnd->hlvalue, opnd->value64 ) );
         //opnd->llvalue = tokenarray[i].value64;
         //opnd->hlvalue = ( tokenarray[i].numflg == NF_NULL ? 0 : *(uint_64 *)( tokenarray[i].string_ptr - sizeof(uint_64) ) );
         break;
diff --git a/hll.c b/hll.c
index 4cba19d..a831b14 100644
--- a/hll.c
+++ b/hll.c
@@ -66,7 +66,7 @@ typedef int64_t __int64;
 #endif
 
 int Tokenize(char *, unsigned int, struct asm_tok[], unsigned int);
-void myatoi128(const char *src, uint_64 dst[], int base, int size);
+bool myatoi128(const char *src, uint_64 dst[], int base, int size);
 #define LABELSIZE 8
 #define LABELSGLOBAL 0 /* make the generated labels global */
 #define JMPPREFIX      /* define spaces before "jmp" or "loop" */
diff --git a/invoke.c b/invoke.c
index d0678a7..7a7e829 100644
--- a/invoke.c
+++ b/invoke.c
@@ -109,7 +109,7 @@ enum reg_used_flags {
 #endif
 };
 
-extern void myatoi128( const char *, uint_64[], int, int );
+extern bool myatoi128( const char *, uint_64[], int, int );
 static int size_vararg;    /* size of :VARARG arguments */
 static int fcscratch = 0;  /* exclusively to be used by FASTCALL helper functions */
 static int vcallpass = 0;  /* static global to determine which vectorcall pass we're in */
-- 
2.43.0


From 710ac26a00b64b14a6b246f82e139b518f404b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 14/44] fix: ALIGN looked at the low 32 bits of its argument
 only

---
 posndir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posndir.c b/posndir.c
index a33bfcd..df46b90 100644
--- a/posndir.c
+++ b/posndir.c
@@ -217,7 +217,7 @@ ret_code AlignDirective( int i, struct asm_tok tokenarray[] )
             int_32 power;
             /* check that the parm is a power of 2 */
             for( power = 1; power < align_value && power < 0x40000000; power <<= 1 );
-            if( power != align_value ) {
+            if( power != opndx.value64 ) {
                 return( EmitErr( POWER_OF_2, align_value ) );
             }
         } else if ( opndx.kind == EXPR_EMPTY ) { /* ALIGN without argument? */
-- 
2.43.0


From 5f129a54b998cc25c04567819cffb3b7f4ab9c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 15/44] fix: ORG crashed for an address without symbol and took
 an external symbol for offset 0

---
 posndir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posndir.c b/posndir.c
index df46b90..a6d3fcd 100644
--- a/posndir.c
+++ b/posndir.c
@@ -126,7 +126,7 @@ ret_code OrgDirective( int i, struct asm_tok tokenarray[] )
 				AddOrgFixup(CurrSeg->e.seginfo->current_loc, opndx.value);		
 			return(SetCurrOffset(CurrSeg, opndx.value, FALSE, FALSE));
 		}
-		else if (opndx.kind == EXPR_ADDR && opndx.indirect == FALSE)
+		else if (opndx.kind == EXPR_ADDR && opndx.indirect == FALSE && opndx.sym && opndx.sym->state != SYM_EXTERNAL)
 		{
 			if ( (opndx.value > CurrSeg->e.seginfo->current_loc) && (CurrSeg->e.seginfo->current_loc > CurrSeg->e.seginfo->start_loc) )
 				AddOrgFixup(CurrSeg->e.seginfo->current_loc, opndx.sym->offset + opndx.value);
-- 
2.43.0


From 6f1b88f8405fa47827f482a12580c47cf88648c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 16/44] fix: RECORD accepted negative field widths and looked
 at the low 32 bits only

---
 types.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.c b/types.c
index be9e008..57c1235 100644
--- a/types.c
+++ b/types.c
@@ -1850,12 +1850,12 @@ ret_code RecordDirective( int i, struct asm_tok tokenarray[] )
             break;
         if ( opndx.kind != EXPR_CONST ) {
             EmitError( CONSTANT_EXPECTED );
-            opndx.value = 1;
+            opndx.value64 = 1;
         }
-        if ( opndx.value == 0 ) {
+        if ( opndx.value64 <= 0 ) {
             EmitErr( TOO_FEW_BITS_IN_RECORD, tokenarray[name_loc].string_ptr );
             break;
-        } else if ( ( opndx.value + cntBits ) > MAXRECBITS ) {
+        } else if ( opndx.value64 > ( MAXRECBITS - cntBits ) ) {
             EmitErr( TOO_MANY_BITS_IN_RECORD, tokenarray[name_loc].string_ptr );
             break;
         }
-- 
2.43.0


From b3c977e0a299b18f955fe2293ee510204f94ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:24 +0000
Subject: [PATCH 17/44] fix: ELF32 dropped the constant of a relative branch to
 an external symbol

---
 fixup.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixup.c b/fixup.c
index 2d20a7b..f5fa396 100644
--- a/fixup.c
+++ b/fixup.c
@@ -252,12 +252,12 @@ void store_fixup( struct fixup *fixup, struct dsym *seg, int_32 *pdata )
             } else
 #endif
             if ( fixup->type == FIX_RELOFF32 )
-                *pdata = -4;
+                *pdata -= 4;
 #if GNURELOCS /* v2.04: added */
             else if ( fixup->type == FIX_RELOFF16 )
-                *pdata = -2;
+                *pdata -= 2;
             else if ( fixup->type == FIX_RELOFF8 )
-                *pdata = -1;
+                *pdata -= 1;
 #endif
         }
 #endif
-- 
2.43.0


From 54bbb6d995a91c7abce5cf302c9cb8cf47fdeae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 18/44] fix: OMF dropped a segment override frame that differs
 from the target's segment

---
 omffixup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omffixup.c b/omffixup.c
index 61c8f77..2ad6e05 100644
--- a/omffixup.c
+++ b/omffixup.c
@@ -339,7 +339,7 @@ static int omf_fill_logref( const struct fixup *fixup, struct logref *lr )
     /* Optimize the fixup */
     /*--------------------*/
 
-    if( lr->frame == ( lr->target - TARGET_SEG ) ) {
+    if( lr->frame == ( lr->target - TARGET_SEG ) && lr->frame_datum == lr->target_datum ) {
         lr->frame = FRAME_TARG;
     }
 
-- 
2.43.0


From e61c2ab29080d7bc82a553f5fe7071cb1177ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 19/44] fix: offset of an assembly-time variable stored as 32
 bits in a 64-bit field (C10)

---
 fixup.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fixup.c b/fixup.c
index f5fa396..3a40e3c 100644
--- a/fixup.c
+++ b/fixup.c
@@ -278,7 +278,10 @@ void store_fixup( struct fixup *fixup, struct dsym *seg, int_32 *pdata )
         /* special handling for assembly time variables needed */
         if ( fixup->sym && fixup->sym->variable ) {
             /* add symbol's offset to the fixup location and fixup's offset */
-            *pdata += fixup->sym->offset;
+            if ( fixup->type == FIX_OFF64 )
+                *(int_64 *)pdata += fixup->sym->offset;
+            else
+                *pdata += fixup->sym->offset;
             fixup->offset         += fixup->sym->offset;
             /* and save symbol's segment in fixup */
             fixup->segment_var = fixup->sym->segment;
-- 
2.43.0


From 79c80684a2f9ae48db39a0ab025dd8b27d6713d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 20/44] fix: ELF64 8- and 16-bit pc-relative relocations lacked
 the addend (C08)

---
 elf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elf.c b/elf.c
index e0821e1..f315549 100644
--- a/elf.c
+++ b/elf.c
@@ -1176,9 +1176,9 @@ static void write_relocs64( struct dsym *curr )
         case FIX_OFF32:        elftype = R_X86_64_32;          break;
         //case FIX_???:        elftype = R_X86_64_32S;         break;
         case FIX_OFF16:        elftype = R_X86_64_16;          break;
-        case FIX_RELOFF16:     elftype = R_X86_64_PC16;        break;
+        case FIX_RELOFF16:     elftype = R_X86_64_PC16;  reloc64.r_addend = -2; break; /* addbytes is for FIX_RELOFF32 only */
         case FIX_OFF8:         elftype = R_X86_64_8;           break;
-        case FIX_RELOFF8:      elftype = R_X86_64_PC8;         break;
+        case FIX_RELOFF8:      elftype = R_X86_64_PC8;   reloc64.r_addend = -1; break;
         //case FIX_???:        elftype = R_X86_64_DPTMOD64;    break;
         //case FIX_???:        elftype = R_X86_64_DPTOFF64;    break;
         //case FIX_???:        elftype = R_X86_64_TPOFF64;     break;
-- 
2.43.0


From cb0f9aad88676746df675505ceb664e55b2a76fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:26 +0000
Subject: [PATCH 21/44] fix: COFF long section names in the section table are
 null padded (C07)

---
 coff.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coff.c b/coff.c
index f3df0e5..a7e4312 100644
--- a/coff.c
+++ b/coff.c
@@ -135,8 +135,10 @@ static ret_code coff_write_section_table( struct module_info *modinfo, struct co
          */
         if ( len <= IMAGE_SIZEOF_SHORT_NAME )
             strncpy( ish.Name, secname, IMAGE_SIZEOF_SHORT_NAME );
-        else
+        else {
+            memset( ish.Name, 0, sizeof( ish.Name ) ); /* header field is null padded */
             sprintf( ish.Name, "/%u", Coff_AllocString( cm, secname, len ) );
+        }
 
         ish.Misc.PhysicalAddress = 0;
         ish.VirtualAddress = 0;
-- 
2.43.0


From 5922b017d6bdd52d0eef8314ca340c7bcc21830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:26 +0000
Subject: [PATCH 22/44] fix: COMDAT checksum covers the section contents, not
 memory behind it (C07)

---
 coff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coff.c b/coff.c
index a7e4312..1ba052b 100644
--- a/coff.c
+++ b/coff.c
@@ -452,7 +452,7 @@ static uint_32 coff_write_symbols( struct module_info *modinfo, struct coffmod *
 
             /* CheckSum, Number and Selection are for COMDAT sections only */
             if ( curr->e.seginfo->comdat_selection ) {
-                ias.Section.CheckSum = CRC32Comdat( curr->e.seginfo->CodeBuffer, curr->sym.max_offset, 0 );
+                ias.Section.CheckSum = CRC32Comdat( curr->e.seginfo->CodeBuffer, curr->sym.max_offset - curr->e.seginfo->start_loc, 0 );
                 ias.Section.Number = curr->e.seginfo->comdat_number;
                 ias.Section.Selection = curr->e.seginfo->comdat_selection;
             }
-- 
2.43.0


From ca9f158986b39ee627d896ba99a7309f918f218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:26 +0000
Subject: [PATCH 23/44] fix: -zls counts the auxiliary records of COMDAT
 sections (C07)

---
 coff.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/coff.c b/coff.c
index 1ba052b..1277861 100644
--- a/coff.c
+++ b/coff.c
@@ -434,7 +434,7 @@ static uint_32 coff_write_symbols( struct module_info *modinfo, struct coffmod *
             p = NULL;
         }
         coff_write_symbol(p, strpos, 0, i, IMAGE_SYM_TYPE_NULL, IMAGE_SYM_CLASS_STATIC,
-            Options.no_section_aux_entry == FALSE ? 1 : 0);
+            ( Options.no_section_aux_entry == FALSE || curr->e.seginfo->comdat_selection ) ? 1 : 0);
         cntSymbols++;
 
         /* write the auxiliary symbol record for sections.
@@ -714,8 +714,9 @@ static uint_32 SetSymbolIndices( struct module_info *ModuleInfo, struct coffmod
 
     cm->sectionstart = index;
     index += ModuleInfo->g.num_segs;
-    if ( Options.no_section_aux_entry == FALSE )
-        index += ModuleInfo->g.num_segs;
+    for( curr = SymTables[TAB_SEG].head; curr; curr = curr->next )
+        if ( Options.no_section_aux_entry == FALSE || curr->e.seginfo->comdat_selection )
+            index++;
 
     /* count externals and protos */
     for( curr = SymTables[TAB_EXT].head ; curr != NULL ; curr = curr->next ) {
@@ -916,10 +917,10 @@ static ret_code coff_write_data( struct module_info *modinfo, struct coffmod *cm
     }
 
 #if HELPSYMS==0
-    for( i = 0, section = SymTables[TAB_SEG].head; section ; i++, section = section->next ) {
-        section->sym.ext_idx = cm->sectionstart + i;
-        if ( Options.no_section_aux_entry == FALSE )
-            section->sym.ext_idx += i;
+    for( i = cm->sectionstart, section = SymTables[TAB_SEG].head; section ; section = section->next ) {
+        section->sym.ext_idx = i++;
+        if ( Options.no_section_aux_entry == FALSE || section->e.seginfo->comdat_selection )
+            i++;
     }
 #endif
 
-- 
2.43.0


From 4faa8e199f29479b9774edc0696f6453bf0336ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:26 +0000
Subject: [PATCH 24/44] fix: COFF section headers and section contents agree on
 raw data and relocations (C07)

---
 H/symbols.h |  1 +
 coff.c      | 15 +++++++--------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/H/symbols.h b/H/symbols.h
index 6562c19..1a32f22 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -311,6 +311,7 @@ struct seg_info {
         uint_32         current_loc;    /* current offset in current ledata or lidata */
         uint_32         reloc_offset;   /* ELF: reloc file offset */
         uint_32         start_offset;   /* BIN: start offset in group */
+        uint_32         data_offset;    /* COFF: file offset of section data, 0 if none */
     };
 #ifdef __I86__
     uint_8 huge         *CodeBuffer;
diff --git a/coff.c b/coff.c
index 1277861..af12977 100644
--- a/coff.c
+++ b/coff.c
@@ -190,6 +190,8 @@ static ret_code coff_write_section_table( struct module_info *modinfo, struct co
             ish.Characteristics |= (uint_32)(curr->e.seginfo->characteristics & 0xFE) << 24;
         }
 
+        /* coff_write_data() writes contents and relocations of this section only if it has raw data */
+        curr->e.seginfo->data_offset = ish.PointerToRawData;
         if ( ish.PointerToRawData )
             fileoffset += ish.SizeOfRawData;
 
@@ -198,7 +200,7 @@ static ret_code coff_write_section_table( struct module_info *modinfo, struct co
          * if the true number of relocs doesn't fit in 16-bits, set the appropriate
          * flag in the section header!
          */
-        if ( curr->e.seginfo->FixupList.head ) {
+        if ( ish.PointerToRawData && curr->e.seginfo->FixupList.head ) {
             for ( fix = curr->e.seginfo->FixupList.head; fix ; fix = fix->nextrlc ) {
                 if ( fix->sym == NULL ) {
                     if ( fix->type == FIX_RELOFF32 ) {
@@ -934,13 +936,10 @@ static ret_code coff_write_data( struct module_info *modinfo, struct coffmod *cm
         uint_32 size;
         size = section->sym.max_offset;
 
-        /* don't write section data for bss and uninitialized stack segments */
-        if ( section->e.seginfo->combine == COMB_STACK && section->e.seginfo->bytes_written == 0 )
-            continue;
-        if ( section->e.seginfo->segtype == SEGTYPE_BSS )
-            continue;
-
-        if ( size ) {
+        /* don't write section data for bss and uninitialized stack segments;
+         * the section header knows (see coff_write_section_table()).
+         */
+        if ( section->e.seginfo->data_offset ) {
             offset += size;
             if ((offset & 1) && section->e.seginfo->FixupList.head ) {
                 offset++;
-- 
2.43.0


From 910d43e091deac333bfee8f7e12d81a462a434f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:57 +0000
Subject: [PATCH 25/44] fix: BIN/MZ/PE: frame of segmented references to a
 group member, 64-bit offsets with a 64-bit constant

---
 bin.c | 92 ++++++++++++++++++++++++++++-------------------------------
 1 file changed, 43 insertions(+), 49 deletions(-)

diff --git a/bin.c b/bin.c
index 2a503d4..d27c719 100644
--- a/bin.c
+++ b/bin.c
@@ -425,6 +425,24 @@ union genptr {
 #endif
 };
 
+/* get the frame number ( paragraph ) a segmented reference to segment <seg> is based on */
+
+static uint_32 GetFrame( const struct fixup *fixup, const struct dsym *seg )
+/**************************************************************************/
+{
+    uint_32 offset = seg->e.seginfo->start_offset;
+
+    if ( seg->e.seginfo->group ) {
+        /* v2.01: don't use group if fixup explicitely refers the segment!
+         * ( assembly time variables have no frame, segment_var uses its place )
+         */
+        if ( fixup->sym->variable || fixup->frame_type != FRAME_SEG )
+            return( seg->e.seginfo->group->offset >> 4 );
+        offset += seg->e.seginfo->group->offset;
+    }
+    return( offset >> 4 );
+}
+
 /* handle the fixups contained in a segment */
 
 static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
@@ -433,8 +451,8 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
     union genptr codeptr;
     struct dsym *seg;
     uint_32 value;
-#if PE_SUPPORT && AMD64_SUPPORT
-    uint_64 value64;
+#if AMD64_SUPPORT
+    uint_64 value64; /* FIX_OFF64 only */
 #endif
     uint_32 offset;  /* v2.07 */
     struct fixup *fixup;
@@ -448,6 +466,10 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
         codeptr.db = curr->e.seginfo->CodeBuffer +
             ( fixup->locofs - curr->e.seginfo->start_loc );
 
+#if AMD64_SUPPORT
+        /* the 64-bit constant is at the fixup's location; fixup->offset has 32 bits only */
+        value64 = ( fixup->type == FIX_OFF64 ? *codeptr.dq : 0 );
+#endif
         //if ( fixup->sym && fixup->sym->segment ) { /* v2.08: changed */
         if ( fixup->sym && ( fixup->sym->segment || fixup->sym->variable ) ) {
             /* assembly time variable (also $ symbol) in reloc? */
@@ -502,22 +524,19 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
                         curr->sym.name, fixup->locofs, fixup->sym->name, seg->e.seginfo->start_offset, fixup->offset, offset ));
                 break;
             default:
-                /* v2.01: don't use group if fixup explicitely refers the segment! */
-                //if ( seg->e.seginfo->group ) {
-                if ( seg && seg->e.seginfo->group && fixup->frame_type != FRAME_SEG ) {
-                    value = (seg->e.seginfo->group->offset & 0xF) + seg->e.seginfo->start_offset + fixup->offset + offset;
 #if PE_SUPPORT
-                    if ( ModuleInfo.sub_format == SFORMAT_PE || ModuleInfo.sub_format == SFORMAT_64BIT ) {
-#if AMD64_SUPPORT
-                        if ( curr->e.seginfo->Ofssize == USE64 )
-                            value64 = value + cp->imagebase64;
+                if ( ModuleInfo.sub_format == SFORMAT_PE && seg->e.seginfo->segtype != SEGTYPE_ABS ) {
+                    value = seg->e.seginfo->start_offset + offset;
+                    value64 += value + ( curr->e.seginfo->Ofssize == USE64 ? cp->imagebase64 : cp->imagebase );
+                    value += fixup->offset + cp->imagebase;
+                    break;
+                }
 #endif
-                        value += cp->imagebase;
-                    }
+                value = seg->e.seginfo->start_offset + ( seg->e.seginfo->group ? seg->e.seginfo->group->offset : 0 ) - ( GetFrame( fixup, seg ) << 4 ) + offset;
+#if AMD64_SUPPORT
+                value64 += value;
 #endif
-                } else
-                    value = (seg->e.seginfo->start_offset & 0xF) + fixup->offset + offset;
-
+                value += fixup->offset;
                 DebugMsg(("DoFixup(%s): loc=%04" I32_SPEC "X, sym=%s, target->start_offset=%" I32_SPEC "Xh, fixup->offset=%" I32_SPEC "Xh, fixup->sym->offset=%" I32_SPEC "Xh\n",
                         curr->sym.name, fixup->locofs, fixup->sym->name, seg->e.seginfo->start_offset, fixup->offset, offset ));
                 break;
@@ -579,12 +598,7 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
             break;
 #if AMD64_SUPPORT
         case FIX_OFF64:
-#if PE_SUPPORT
-            if ( ModuleInfo.sub_format == SFORMAT_PE && curr->e.seginfo->Ofssize == USE64 )
-                *codeptr.dq = value64;
-            else
-#endif
-                *codeptr.dq = value;
+            *codeptr.dq = value64;
             DebugMsg(("DoFixup(%s, %04" I32_SPEC "X): FIX_OFF64, value=%" I32_SPEC "Xh, *target=%" I64_SPEC "Xh\n", curr->sym.name, fixup->locofs, value, *codeptr.dq ));
             break;
 #endif
@@ -600,6 +614,10 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
                 *codeptr.dw = ((struct dsym *)fixup->sym)->e.seginfo->abs_frame;
                 break;
             }
+            if ( seg && seg->e.seginfo->segtype == SEGTYPE_ABS ) {
+                *codeptr.dw = seg->e.seginfo->abs_frame;
+                break;
+            }
 #if MZ_SUPPORT
             if ( ModuleInfo.sub_format == SFORMAT_MZ ) {
                 DebugMsg(("DoFixup(%s, %04" I32_SPEC "X): FIX_SEG frame=%u, ", curr->sym.name, fixup->locofs, fixup->frame_type ));
@@ -612,15 +630,9 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
                     seg = (struct dsym *)fixup->sym;
                     *codeptr.dw = ( seg->e.seginfo->start_offset + ( seg->e.seginfo->group ? seg->e.seginfo->group->offset : 0 ) ) >> 4;
                     DebugMsg(("SEGMENT symbol, start_offset=%" I32_SPEC "Xh\n", seg->e.seginfo->start_offset ));
-                //} else if ( seg->e.seginfo->group ) {
-                } else if ( fixup->frame_type == FRAME_GRP ) {
-                    /* v2.04: changed */
-                    //*codeptr.dw = (seg->e.seginfo->start_offset + seg->e.seginfo->group->offset) >> 4;
-                    *codeptr.dw = seg->e.seginfo->group->offset >> 4;
-                    DebugMsg(("group.offset=%" I32_SPEC "Xh\n", seg->e.seginfo->group->offset ));
                 } else {
-                    *codeptr.dw = seg->e.seginfo->start_offset >> 4;
-                    DebugMsg(("segment.offset=%" I32_SPEC "Xh\n", seg->e.seginfo->start_offset ));
+                    *codeptr.dw = GetFrame( fixup, seg );
+                    DebugMsg(("frame=%Xh\n", *codeptr.dw ));
                 }
                 break;
             }
@@ -640,16 +652,7 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
                 DebugMsg(("DoFixup(%s, %04" I32_SPEC "X): FIX_PTR16, seg->start=%Xh\n", curr->sym.name, fixup->locofs, seg->e.seginfo->start_offset ));
                 *codeptr.dw = value & 0xffff;
                 codeptr.dw++;
-                //if ( seg->e.seginfo->group ) { /* v2.04: changed */
-                if ( fixup->frame_type == FRAME_GRP ) {
-                    /* v2.04: changed */
-                    //*codeptr.dw = (seg->e.seginfo->start_offset + seg->e.seginfo->group->offset) >> 4;
-                    *codeptr.dw = seg->e.seginfo->group->offset >> 4;
-                } else {
-                    /* v2.05: changed */
-                    //*codeptr.dw = seg->e.seginfo->start_offset >> 4;
-                    *codeptr.dw = ( seg->e.seginfo->start_offset + ( seg->e.seginfo->group ? seg->e.seginfo->group->offset : 0 ) ) >> 4;
-                }
+                *codeptr.dw = GetFrame( fixup, seg );
                 break;
             }
 #endif
@@ -668,16 +671,7 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
                 DebugMsg(("DoFixup(%s, %04" I32_SPEC "X): FIX_PTR32\n", curr->sym.name, fixup->locofs ));
                 *codeptr.dd = value;
                 codeptr.dd++;
-                //if (seg->e.seginfo->group ) { /* v2.04: changed */
-                if ( fixup->frame_type == FRAME_GRP ) {
-                    /* v2.04: changed */
-                    //*codeptr.dw = (seg->e.seginfo->start_offset + seg->e.seginfo->group->offset) >> 4;
-                    *codeptr.dw = seg->e.seginfo->group->offset >> 4;
-                } else {
-                    /* v2.05: changed */
-                    //*codeptr.dw = seg->e.seginfo->start_offset >> 4;
-                    *codeptr.dw = ( seg->e.seginfo->start_offset + ( seg->e.seginfo->group ? seg->e.seginfo->group->offset : 0 ) ) >> 4;
-                }
+                *codeptr.dw = GetFrame( fixup, seg );
                 break;
             }
 #endif
-- 
2.43.0


From 41e95628e5df3e38387b93bfdffb0de4be8bd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:57 +0000
Subject: [PATCH 26/44] fix: BIN/MZ/PE: ORG at the start of a segment that
 isn't the first one didn't move the segment's contents

---
 bin.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/bin.c b/bin.c
index d27c719..8a9a0d5 100644
--- a/bin.c
+++ b/bin.c
@@ -253,14 +253,22 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
      * "empty" alignment sections are now added to <fileoffset>.
      * todo: VA in binary map is displayed wrong.
      */
-    if ( cp->first == FALSE ) {
-        /* v2.05: do the reset more carefully.
-         * Do reset start_loc only if
-         * - segment is in a group and
-         * - group isn't FLAT or segment's name contains '$'
-         */
-        if ( grp && ( grp != ModuleInfo.flat_grp || strchr( curr->sym.name, '$' ) ) )
-            curr->e.seginfo->start_loc = 0;
+    /* v2.05: do the reset more carefully.
+     * For plain binaries, do reset start_loc only if
+     * - it isn't the first segment and
+     * - segment is in a group and
+     * - group isn't FLAT or segment's name contains '$'
+     * The space in front of the segment's contents ( ORG ) then is part of the image.
+     */
+    if ( curr->e.seginfo->start_loc && ( ModuleInfo.sub_format != SFORMAT_NONE ||
+        ( cp->first == FALSE && grp && ( grp != ModuleInfo.flat_grp || strchr( curr->sym.name, '$' ) ) ) ) ) {
+        if ( curr->e.seginfo->CodeBuffer ) {
+            uint_8 *buffer = LclAlloc( curr->sym.max_offset );
+            memset( buffer, 0, curr->e.seginfo->start_loc );
+            memcpy( buffer + curr->e.seginfo->start_loc, curr->e.seginfo->CodeBuffer, curr->sym.max_offset - curr->e.seginfo->start_loc );
+            curr->e.seginfo->CodeBuffer = buffer;
+        }
+        curr->e.seginfo->start_loc = 0;
     }
 
     curr->e.seginfo->fileoffset = cp->fileoffset;
-- 
2.43.0


From bcc0856f1a6849b50ca202b683013fd63f8423dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:57 +0000
Subject: [PATCH 27/44] fix: MZ: a BSS segment in front of other segments
 shared its file space with the next one

---
 bin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin.c b/bin.c
index 8a9a0d5..4abc9e5 100644
--- a/bin.c
+++ b/bin.c
@@ -291,7 +291,7 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
         //fileoffset += curr->sym.max_offset;
 #if PE_SUPPORT
         cp->rva += curr->sym.max_offset - curr->e.seginfo->start_loc;
-        if ( curr->e.seginfo->segtype == SEGTYPE_BSS )
+        if ( ModuleInfo.sub_format == SFORMAT_PE && curr->e.seginfo->segtype == SEGTYPE_BSS )
             ;
         else
 #endif
-- 
2.43.0


From dcd1fb9a98e45df7d3ac14a535a1218bd88721ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:57 +0000
Subject: [PATCH 28/44] fix: BIN/MZ: wrong offsets in a group if another
 segment lies between its segments

---
 H/symbols.h | 1 +
 bin.c       | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/H/symbols.h b/H/symbols.h
index 1a32f22..9351055 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -300,6 +300,7 @@ struct grp_info {
     int                 grp_idx;        /* its group index (OMF) */
     int                 lname_idx;      /* LNAME index (OMF only) */
     unsigned            numseg;         /* OMF: number of segments in the group */
+    uint_32             fileend;        /* BIN: file offset behind the last segment of the group */
 };
 
 typedef uint_8 * (* FlushSegFunc)( struct dsym *, uint_8 *, unsigned, void * );
diff --git a/bin.c b/bin.c
index 4abc9e5..59c40ba 100644
--- a/bin.c
+++ b/bin.c
@@ -242,8 +242,10 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
             if ( grp->sym.total_size == 0 ) {
                 grp->sym.offset = cp->fileoffset - cp->sizehdr;
                 offset = 0;
-            } else
-                offset = grp->sym.total_size + alignbytes;
+            } else {
+                /* other segments may lie between the segments of the group */
+                offset = grp->sym.total_size + cp->fileoffset - grp->e.grpinfo->fileend;
+            }
         DebugMsg(("CalcOffset(%s): fileofs=%" I32_SPEC "Xh, alignbytes=%" I32_SPEC "u, ofs=%" I32_SPEC "Xh, group=%s, grp.ofs=%" I32_SPEC "Xh\n",
                   curr->sym.name, cp->fileoffset, alignbytes, offset, grp->sym.name, grp->sym.offset ));
     }
@@ -303,6 +305,7 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
     if ( grp ) {
         //grp->sym.total_size = offset + curr->e.seginfo->start_loc;
         grp->sym.total_size = offset;
+        grp->e.grpinfo->fileend = cp->fileoffset;
         /* v2.07: for 16-bit groups, ensure that it fits in 64 kB */
         if ( grp->sym.total_size > 0x10000 && grp->sym.Ofssize == USE16 ) {
             EmitWarn( 2, GROUP_EXCEEDS_64K, grp->sym.name );
-- 
2.43.0


From a9992b58b1f38f84dd614b023a08f7065e04ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:57 +0000
Subject: [PATCH 29/44] fix: PE: base relocation blocks of segments that don't
 start at a page boundary

---
 bin.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin.c b/bin.c
index 59c40ba..fa04cf7 100644
--- a/bin.c
+++ b/bin.c
@@ -1142,7 +1142,7 @@ static void pe_set_base_relocs( struct dsym *reloc )
 #if AMD64_SUPPORT
             case FIX_OFF64:
 #endif
-                currloc = curr->e.seginfo->start_offset + ( fixup->locofs & 0xFFFFF000 );
+                currloc = ( curr->e.seginfo->start_offset + fixup->locofs ) & 0xFFFFF000; /* RVA of page */
                 if ( currloc != currpage ) {
                     currpage = currloc;
                     cnt2++;
@@ -1186,7 +1186,7 @@ static void pe_set_base_relocs( struct dsym *reloc )
             default: ftype = 0;
             }
             if ( ftype ) {
-                currloc = curr->e.seginfo->start_offset + ( fixup->locofs & 0xFFFFF000 );
+                currloc = ( curr->e.seginfo->start_offset + fixup->locofs ) & 0xFFFFF000; /* RVA of page */
                 if ( currloc != baserel->VirtualAddress ) {
                     if ( baserel->VirtualAddress != -1 ) {
                         /* address of relocation header must be DWORD aligned */
@@ -1200,7 +1200,7 @@ static void pe_set_base_relocs( struct dsym *reloc )
                     baserel->VirtualAddress = currloc;
                     baserel->SizeOfBlock = sizeof( struct IMAGE_BASE_RELOCATION );
                 }
-                *prel++ = ( fixup->locofs & 0xfff ) | ( ftype << 12 );
+                *prel++ = ( ( curr->e.seginfo->start_offset + fixup->locofs ) & 0xfff ) | ( ftype << 12 );
                 baserel->SizeOfBlock += sizeof( uint_16 );
             }
         }
-- 
2.43.0


From 901720c22ba1a3056ea9f0889363b1ccb1de59fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:57 +0000
Subject: [PATCH 30/44] fix: PE: section table and file positions of sections
 with several segments

---
 bin.c | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/bin.c b/bin.c
index fa04cf7..3f3c50e 100644
--- a/bin.c
+++ b/bin.c
@@ -227,25 +227,32 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
         align = 1 << cp->alignment;
     else
         align = 1 << curr->e.seginfo->alignment;
+#if PE_SUPPORT
+    /* -pe: inside a section the distances in the file and in memory have to be the same,
+     * and pe_set_values() has aligned the RVA ( and adjusted the file offset ) already.
+     */
+    if ( ModuleInfo.sub_format == SFORMAT_PE && cp->alignment == 0 )
+        align = 1;
+#endif
     alignbytes = ((cp->fileoffset + (align - 1)) & (-align)) - cp->fileoffset;
     cp->fileoffset += alignbytes;
 
+#if PE_SUPPORT
+    if ( ModuleInfo.sub_format == SFORMAT_PE || ModuleInfo.sub_format == SFORMAT_64BIT ) {
+        offset = cp->rva; /* segments that aren't in the FLAT group are part of the image, too */
+    } else
+#endif
     if ( grp == NULL ) {
         offset = cp->fileoffset - cp->sizehdr;
         DebugMsg(("CalcOffset(%s): fileofs=%" I32_SPEC "Xh, ofs=%" I32_SPEC "Xh\n", curr->sym.name, cp->fileoffset, offset ));
     } else {
-#if PE_SUPPORT
-        if ( ModuleInfo.sub_format == SFORMAT_PE || ModuleInfo.sub_format == SFORMAT_64BIT )
-            offset = cp->rva;
-        else
-#endif
-            if ( grp->sym.total_size == 0 ) {
-                grp->sym.offset = cp->fileoffset - cp->sizehdr;
-                offset = 0;
-            } else {
-                /* other segments may lie between the segments of the group */
-                offset = grp->sym.total_size + cp->fileoffset - grp->e.grpinfo->fileend;
-            }
+        if ( grp->sym.total_size == 0 ) {
+            grp->sym.offset = cp->fileoffset - cp->sizehdr;
+            offset = 0;
+        } else {
+            /* other segments may lie between the segments of the group */
+            offset = grp->sym.total_size + cp->fileoffset - grp->e.grpinfo->fileend;
+        }
         DebugMsg(("CalcOffset(%s): fileofs=%" I32_SPEC "Xh, alignbytes=%" I32_SPEC "u, ofs=%" I32_SPEC "Xh, group=%s, grp.ofs=%" I32_SPEC "Xh\n",
                   curr->sym.name, cp->fileoffset, alignbytes, offset, grp->sym.name, grp->sym.offset ));
     }
@@ -1239,6 +1246,7 @@ static void pe_set_values( struct calc_param *cp )
     uint_32 sizehdr  = 0;
     uint_32 sizeimg  = 0;
     struct dsym *curr;
+    struct dsym *next;
     struct dsym *mzhdr;
     struct dsym *pehdr;
     struct dsym *objtab;
@@ -1311,8 +1319,11 @@ static void pe_set_values( struct calc_param *cp )
             cp->rva = (cp->rva + (malign - 1)) & (~(malign-1));
         } else {
             uint_32 align = 1 << curr->e.seginfo->alignment;
+            uint_32 rva = cp->rva;
             cp->alignment = 0;
             cp->rva = (cp->rva + (align - 1)) & (~(align-1));
+            if ( curr->e.seginfo->segtype != SEGTYPE_BSS )
+                cp->fileoffset += cp->rva - rva;
         }
         CalcOffset( curr, cp );
         DebugMsg(("pe_set_values: section %s, start ofs=%" I32_SPEC "Xh, size=%" I32_SPEC "Xh, file ofs=%" I32_SPEC "Xh\n",
@@ -1358,14 +1369,16 @@ static void pe_set_values( struct calc_param *cp )
         }
         section->Characteristics |= pe_get_characteristics( curr );
         if ( curr->e.seginfo->segtype != SEGTYPE_BSS ) {
-            section->SizeOfRawData += curr->sym.max_offset;
+            section->SizeOfRawData = curr->sym.max_offset + ( curr->e.seginfo->fileoffset - section->PointerToRawData );
         }
 
         /* v2.10: this calculation is not correct */
         //section->Misc.VirtualSize += curr->sym.max_offset;
         section->Misc.VirtualSize = curr->sym.max_offset + ( curr->e.seginfo->start_offset - section->VirtualAddress );
 
-        if ( curr->next == NULL || curr->next->e.seginfo->lname_idx != i ) {
+        /* get the next segment that isn't empty */
+        for ( next = curr->next; next && next->sym.max_offset == 0; next = next->next );
+        if ( next == NULL || next->e.seginfo->lname_idx != i ) {
 #if RAWSIZE_ROUND /* AntiVir TR/Crypt.XPACK Gen */
             section->SizeOfRawData += cp->rawpagesize - 1;
             section->SizeOfRawData &= ~(cp->rawpagesize - 1);
@@ -1381,7 +1394,7 @@ static void pe_set_values( struct calc_param *cp )
                 datasize += section->SizeOfRawData;
             }
         }
-        if ( curr->next && curr->next->e.seginfo->lname_idx != i ) {
+        if ( next && next->e.seginfo->lname_idx != i ) {
             DebugMsg(("pe_set_values: object %.8s, VA=%" I32_SPEC "X size=%" I32_SPEC "X phys ofs/size=%" I32_SPEC "Xh/%" I32_SPEC "Xh\n",
                   section->Name, section->VirtualAddress, section->Misc.VirtualSize, section->PointerToRawData, section->SizeOfRawData ));
             section++;
-- 
2.43.0


From 4dc7be027c8f711aafd852eb4de03a036e321c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:27 +0000
Subject: [PATCH 31/44] fix: register tables read out of bounds for a memory
 operand without base or with RIP or a vector register

---
 parser.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser.c b/parser.c
index fc5239a..a949470 100644
--- a/parser.c
+++ b/parser.c
@@ -697,7 +697,7 @@ static ret_code set_rm_sib(struct code_info *CodeInfo, unsigned CurrOpnd, char s
     mod_field = MOD_01; /* byte size displacement */
     }
   /* In the case of suppressed base register it has to be swapped with index v2.38 */
-  temp = GetValueSp( base );                                 /* get value from SpecialTable */
+  temp = ( base != EMPTY ? GetValueSp( base ) : OP_NONE );   /* get value from SpecialTable */
   if (temp == OP_XMM || temp == OP_YMM || temp == OP_ZMM){   /* base can be only GP register*/
     temp = index;                                            /* swap index with base */
     index = base;
@@ -1736,7 +1736,7 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
     index = ( opndx->idx_reg ? opndx->idx_reg->tokval : EMPTY );
 
     /* swap registers if base is AVX register, v2.38 */
-    if (GetValueSp(base) == OP_XMM || GetValueSp(base) == OP_YMM || GetValueSp(base) == OP_ZMM)
+    if (base != EMPTY && (GetValueSp(base) == OP_XMM || GetValueSp(base) == OP_YMM || GetValueSp(base) == OP_ZMM))
 	{
       temp    = base;
       base    = index;
@@ -1757,11 +1757,12 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
 
 
     /* UASM 2.53 check for use of register assumed to ERROR in an EA */
-    if (base != EMPTY && StdAssumeTable[GetRegNo(base)].error)
+    /* the table contains the general purpose registers only */
+    if (base != EMPTY && base != T_RIP && (GetValueSp(base) & OP_R) && StdAssumeTable[GetRegNo(base)].error)
     {
         return(EmitError(USE_OF_REGISTER_ASSUMED_TO_ERROR));
     }
-    if (index != EMPTY && StdAssumeTable[GetRegNo(index)].error)
+    if (index != EMPTY && (GetValueSp(index) & OP_R) && StdAssumeTable[GetRegNo(index)].error)
     {
         return(EmitError(USE_OF_REGISTER_ASSUMED_TO_ERROR));
     }
-- 
2.43.0


From 7a25c56ee7706199872a286986467c4663e5d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 32/44] fix: address size prefix: vector index registers
 counted, VSIB, VCVTPH2PS and VCVTPS2PD instructions excluded

---
 codegen.c |  3 +--
 parser.c  | 13 ++++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/codegen.c b/codegen.c
index ddb3f14..cfd8aba 100644
--- a/codegen.c
+++ b/codegen.c
@@ -465,8 +465,7 @@ static void output_opc(struct code_info *CodeInfo)
    * Neither Masm nor Uasm emit a warning, though.
    */
   
-  if (CodeInfo->prefix.adrsiz == TRUE && (CodeInfo->token < T_VPGATHERDD || CodeInfo->token > T_VSCATTERQPD)&&
-      CodeInfo->token != T_VCVTPH2PS && CodeInfo->token != T_VCVTPS2PD) {
+  if (CodeInfo->prefix.adrsiz == TRUE) {
 
 	  if (CodeInfo->basereg == 0x10) /* RIP used for relative addressing v2.36 */
 		  ;/* don't output 0x67 */
diff --git a/parser.c b/parser.c
index a949470..4ba8e63 100644
--- a/parser.c
+++ b/parser.c
@@ -1786,12 +1786,15 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
     /* check for index registers */
     if( index != EMPTY ) 
 	{
-        if ( ( ( GetValueSp( index ) & OP_R32) && CodeInfo->Ofssize == USE32 ) ||
+        if ( GetValueSp( index ) & ( OP_XMM | OP_YMM | OP_ZMM ) ) 
+		{
+            /* a vector index doesn't affect the address size, the base register does */
+            if ( opndx->base_reg == NULL || opndx->idx_reg == NULL )
+                CodeInfo->prefix.adrsiz = ( CodeInfo->Ofssize == USE16 );
+        } 
+		else if ( ( ( GetValueSp( index ) & OP_R32) && CodeInfo->Ofssize == USE32 ) ||
             ( ( GetValueSp( index ) & OP_R64) && CodeInfo->Ofssize == USE64 ) ||
-            ( ( GetValueSp( index ) & OP_R16) && CodeInfo->Ofssize == USE16 ) || 
-			( ( GetValueSp( index ) & OP_XMM) && CodeInfo->Ofssize == USE32 ) || // UASM 2.48 missing support base+xmm/ymm vsib addressing.
-			( ( GetValueSp( index ) & OP_YMM) && CodeInfo->Ofssize == USE32 )
-			) 
+            ( ( GetValueSp( index ) & OP_R16) && CodeInfo->Ofssize == USE16 ) ) 
 		{
             CodeInfo->prefix.adrsiz = FALSE;
         } 
-- 
2.43.0


From 45f8b8b5dbd02718ef7573e3a1f1970100c6c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 33/44] fix: RIP accepted as index register or together with an
 index register

---
 parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.c b/parser.c
index 4ba8e63..195c801 100644
--- a/parser.c
+++ b/parser.c
@@ -1744,6 +1744,12 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
       swapped = TRUE; /* this flag is on only for AVX regisres v2.38 */
     }
      
+    /* RIP has no index, and it isn't an index */
+    if (index == T_RIP || (base == T_RIP && index != EMPTY))
+    {
+        return(EmitError(INVALID_USE_OF_REGISTER));
+    }
+
 	if (index != EMPTY) CodeInfo->indexreg = GetRegNo(index);
     if (base != EMPTY)  CodeInfo->basereg = GetRegNo(base);
     
-- 
2.43.0


From 07f9b32031fc9758a93de83eabf8d14a4e5a8718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 34/44] fix: 16-bit index register accepted in 64-bit code

---
 parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.c b/parser.c
index 195c801..9618b98 100644
--- a/parser.c
+++ b/parser.c
@@ -1807,6 +1807,9 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
 		else 
 		{
             CodeInfo->prefix.adrsiz = TRUE;
+            /* 16bit addressing modes don't exist in long mode */
+            if ( ( GetValueSp( index ) & OP_R16) && CodeInfo->Ofssize == USE64 )
+                return( EmitError( INVALID_ADDRESSING_MODE_WITH_CURRENT_CPU_SETTING ) );
         }
 
         /* v2.10: register swapping has been moved to expreval.c, index_connect().
-- 
2.43.0


From 27fcb9f404bfddae0fb47fa94cfffbfe97fef809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 35/44] fix: [rip+label] got an absolute fixup

---
 parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 9618b98..4fb3c11 100644
--- a/parser.c
+++ b/parser.c
@@ -1895,7 +1895,11 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
         } 
 		else 
 		{
-            if( Ofssize == USE64 ) 
+            if( base == T_RIP ) 
+			{
+                fixup_type = FIX_RELOFF32;
+            } 
+			else if( Ofssize == USE64 ) 
 			{
                 fixup_type = FIX_OFF32;
             } 
-- 
2.43.0


From 5624decda46f74c6dc8b0391cd2c71b11ddf5962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 36/44] fix: 64-bit code: displacements from 80000000h to
 0FFFFFFFFh were sign-extended

---
 parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.c b/parser.c
index 4fb3c11..d4d7c64 100644
--- a/parser.c
+++ b/parser.c
@@ -1978,6 +1978,11 @@ static ret_code process_address( struct code_info *CodeInfo, unsigned CurrOpnd,
 			    return( EmitConstError( opndx ) );
             EmitWarn( 3, DISPLACEMENT_OUT_OF_RANGE, opndx->value64 );
         }
+        /* the displacement is sign-extended if the address has 64 bits */
+        else if ( ModuleInfo.Ofssize == USE64 && opndx->hvalue == 0 && opndx->value < 0 &&
+                 !( ( opndx->base_reg && ( GetValueSp( opndx->base_reg->tokval ) & OP_R32 ) ) ||
+                    ( opndx->idx_reg && ( GetValueSp( opndx->idx_reg->tokval ) & OP_R32 ) ) ) )
+            return( EmitConstError( opndx ) );
         if( opndx->sym == NULL || opndx->sym->state == SYM_STACK ) 
             return( memory_operand( CodeInfo, CurrOpnd, opndx, FALSE ) );
         /* do default processing */
-- 
2.43.0


From 35e622df08ea34b0bc4992dabdecd53c7e5f2503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 37/44] fix: 32-bit code: SIB byte emitted for 16-bit
 addressing

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index cfd8aba..cbfc97b 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2651,7 +2651,8 @@ static void output_opc(struct code_info *CodeInfo)
         //if( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
         //   ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 ) )
         //    return; /* no SIB for 16bit */
-        if ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) 
+        if ( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
+             ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 ) )
             return; /* no SIB for 16bit */
 
         switch ( tmp & NOT_BIT_345 ) {
-- 
2.43.0


From a85bb88aad09c8dbe053ab49b9096c225c73ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 38/44] fix: VEX instructions on general purpose registers
 dropped displacement or fixup of a memory operand

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index cbfc97b..68c0eee 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2692,7 +2692,8 @@ static void output_data(const struct code_info *CodeInfo, enum operand_type dete
 	  return;
 
 #if AVXSUPP
-    if (CodeInfo->token >= VEX_START){
+    /* the displacement of a memory operand is always output */
+    if (CodeInfo->token >= VEX_START && (determinant & OP_M_ANY) == 0){
       if ((CodeInfo->token == T_ANDN) || (CodeInfo->token == T_MULX) ||
         (CodeInfo->token == T_PDEP) || (CodeInfo->token == T_PEXT)){
         if ((CodeInfo->opnd[OPND2].data32l == 0) || (index == 2))
-- 
2.43.0


From 0ea3adbd05311a89ff03afb900db91ed8b5a3d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 39/44] fix: EVEX instructions with 16-bit addressing in 32-bit
 code got a 32-bit displacement

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 68c0eee..94f406c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2792,7 +2792,7 @@ static void output_data(const struct code_info *CodeInfo, enum operand_type dete
             break;
         case MOD_10:  /* 16- or 32-bit displacement */
             if( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
-               ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 ) && (CodeInfo->evex_flag == 0)) {
+               ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 ) ) {
                 size = 2;
             } else {
                 size = 4;
-- 
2.43.0


From 0ca49fa1664ee1082cc6467a2c186ad0e1215f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 40/44] fix: address size prefix missing in 64-bit code for
 [eax*4] and label[eax]

---
 codegenv2.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/codegenv2.c b/codegenv2.c
index ae4b814..15a77a5 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1215,6 +1215,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	unsigned char   idxRegNo = 17;
 	int             baseRegSize = 0;
 	int             idxRegSize = 0;
+	int             addrSize = 0;		/* size of the general purpose registers that form the address */
 	int             symSize = 0;
 	bool			skipSIB = FALSE;
 
@@ -1268,6 +1269,18 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 		return returnASO;
 	}
 
+	/* The address has the size of its base, or of its index if there's none (a vector index doesn't count) */
+	if (baseRegSize > 0 && baseRegSize <= 8)
+		addrSize = baseRegSize;
+	else if (idxRegSize > 0 && idxRegSize <= 8)
+		addrSize = idxRegSize;
+
+	/* Address format requires Address Size Override Prefix */
+	if ((ModuleInfo.Ofssize == USE64 && addrSize == 4) ||
+		(ModuleInfo.Ofssize == USE32 && addrSize == 2) ||
+		(ModuleInfo.Ofssize == USE16 && addrSize == 4))
+		returnASO = 1;
+
 	/* If the memory address refers to a symbol indirectly.. */
 	if (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].kind == EXPR_ADDR)
 	{
@@ -1281,14 +1294,6 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 		}
 
 	}
-	else
-	{
-		/* Address format requires Address Size Override Prefix */
-		if ((ModuleInfo.Ofssize == USE64 && baseRegSize == 4) ||
-			(ModuleInfo.Ofssize == USE32 && baseRegSize == 2) ||
-			(ModuleInfo.Ofssize == USE16 && baseRegSize == 4))
-			returnASO = 1;
-	}
 
 	/* Calculate 16bit memory addressing ModRM in 32bit mode */
 	if (ModuleInfo.Ofssize == USE32 && baseRegSize == 2)
-- 
2.43.0


From c1898028546806e48e257f794a411ee4e5e782b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 41/44] fix: 16-bit addressing in 32-bit code: wrong
 displacement size, [bp] and [si+bx] misencoded

---
 codegenv2.c | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/codegenv2.c b/codegenv2.c
index 15a77a5..87a2ca7 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1218,6 +1218,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	int             addrSize = 0;		/* size of the general purpose registers that form the address */
 	int             symSize = 0;
 	bool			skipSIB = FALSE;
+	bool			needDisp = FALSE;
 
 	/* Absolute addressing modes can skip this */
 	if (instr->memOpnd != MEM_ABS_1 && instr->memOpnd != MEM_ABS_0)
@@ -1300,26 +1301,28 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	{
 		if (instr->memOpnd < NO_MEM)
 		{
-			/* [BX + SI]	[BX + DI]	[BP + SI]	[BP + DI]	[SI]	[DI]	[disp16]	[BX] */
-			if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BX && opExpr[instr->memOpnd].idx_reg->tokval == T_SI)
-				* pmodRM |= 0;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BX && opExpr[instr->memOpnd].idx_reg->tokval == T_DI)
-				* pmodRM |= 1;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BP && opExpr[instr->memOpnd].idx_reg->tokval == T_SI)
-				* pmodRM |= 2;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BP && opExpr[instr->memOpnd].idx_reg->tokval == T_DI)
-				* pmodRM |= 3;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_SI)
-				* pmodRM |= 4;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_DI)
-				* pmodRM |= 5;
-			else if (!opExpr[instr->memOpnd].base_reg && !opExpr[instr->memOpnd].idx_reg)
+			/* [BX + SI]	[BX + DI]	[BP + SI]	[BP + DI]	[SI]	[DI]	[BP]	[BX] */
+			int base = (opExpr[instr->memOpnd].base_reg ? opExpr[instr->memOpnd].base_reg->tokval : 0);
+			int idx = (opExpr[instr->memOpnd].idx_reg ? opExpr[instr->memOpnd].idx_reg->tokval : 0);
+
+			if (base == T_SI || base == T_DI)	/* [SI + BX] is [BX + SI] */
+			{
+				int temp = base;
+				base = idx;
+				idx = temp;
+			}
+			if (base == T_BX && idx)
+				* pmodRM |= (idx == T_SI ? 0 : 1);
+			else if (base == T_BP && idx)
+				* pmodRM |= (idx == T_SI ? 2 : 3);
+			else if (idx)
+				* pmodRM |= (idx == T_SI ? 4 : 5);
+			else if (base == T_BP)
+			{
 				* pmodRM |= 6;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_BX)
+				needDisp = TRUE;				/* without a displacement it's [disp16] */
+			}
+			else
 				* pmodRM |= 7;
 
 			*needModRM |= TRUE;
@@ -1365,7 +1368,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	/* Either: User specified
 	           RIP relative addressing mandates it
 	           Specified address format can only be encoded with a displacement. */
-	if (instr->memOpnd > NO_MEM || opExpr[instr->memOpnd].value != 0 ||
+	if (instr->memOpnd > NO_MEM || needDisp || opExpr[instr->memOpnd].value != 0 ||
 		(ModuleInfo.Ofssize == USE64 && opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->token == T_RIP) ||
 		MemTable[memModeIdx].flags & MEMF_DSP || MemTable[memModeIdx].flags & MEMF_DSP32 || (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].sym->state != SYM_STACK))
 	{
@@ -1396,7 +1399,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 			}
 			else
 			{
-				if (ModuleInfo.Ofssize == USE16)
+				if (addrSize == 2 || (addrSize == 0 && ModuleInfo.Ofssize == USE16))
 					*dispSize = 2;	/* 16bit addressing. */
 				else
 					*dispSize = 4;	/* 32bit or 64bit sign extended addressing. */
-- 
2.43.0


From c78f0638168f9d751cd68ebb8341b9a23f39d2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 42/44] fix: displacement scaled for disp8*N although a 32-bit
 displacement is emitted

---
 codegenv2.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/codegenv2.c b/codegenv2.c
index 87a2ca7..c3f7ebd 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1390,9 +1390,10 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 		else
 		{
 			/* Is it 8bit or 16/32bit (RIP only allows 32bit). */
-			if (CompDisp(&opExpr[(instr->memOpnd & 7)], instr, CodeInfo) &&
-				(((!opExpr[instr->memOpnd].sym) || (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].sym->state == SYM_STACK)) &&
-				(((MemTable[memModeIdx].flags & MEMF_DSP32) == 0) && (opExpr[instr->memOpnd].value >= -128 && opExpr[instr->memOpnd].value <= 127))))
+			/* CompDisp() amends the value, so it's called if nothing else requires the full displacement. */
+			if (((!opExpr[instr->memOpnd].sym) || (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].sym->state == SYM_STACK)) &&
+				(MemTable[memModeIdx].flags & MEMF_DSP32) == 0 && CompDisp(&opExpr[(instr->memOpnd & 7)], instr, CodeInfo) &&
+				(opExpr[instr->memOpnd].value >= -128 && opExpr[instr->memOpnd].value <= 127))
 			{
 				*dispSize = 1;
 				*pmodRM |= MODRM_DISP8;
-- 
2.43.0


From f837ccdcdf727d0f80be851a32771782d4e489ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 43/44] fix: operand table read out of bounds for absolute
 memory operands

---
 codegenv2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegenv2.c b/codegenv2.c
index c3f7ebd..317fde5 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1283,7 +1283,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 		returnASO = 1;
 
 	/* If the memory address refers to a symbol indirectly.. */
-	if (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].kind == EXPR_ADDR)
+	if (instr->memOpnd < NO_MEM && opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].kind == EXPR_ADDR)
 	{
 		symSize = SizeFromMemtype(opExpr[instr->memOpnd].mem_type, ModuleInfo.Ofssize, opExpr[instr->memOpnd].sym);
 
-- 
2.43.0


From 9bc490c887b5cf24ea36636725abaef1f9da9ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:26 +0000
Subject: [PATCH 44/44] fix: 64-bit code: memory displacement beyond 32 bits
 silently truncated

---
 codegenv2.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codegenv2.c b/codegenv2.c
index 317fde5..5f22df8 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1405,6 +1405,11 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 				else
 					*dispSize = 4;	/* 32bit or 64bit sign extended addressing. */
 
+				/* A 64bit address can't have a displacement that isn't sign extended. */
+				if (ModuleInfo.Ofssize == USE64 && addrSize != 4 &&
+					opExpr[instr->memOpnd].hvalue != (opExpr[instr->memOpnd].value < 0 ? -1 : 0))
+					EmitConstError(&opExpr[instr->memOpnd]);
+
 				if ((int)(MemTable[memModeIdx].flags & MEMF_DSP32) == 0)
 					*pmodRM |= MODRM_DISP;
 			}
-- 
2.43.0

