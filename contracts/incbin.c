/* Contract for INCBIN (directiv.c): which part of the file is emitted. */
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "globals.h"
#include "memalloc.h"
#include "parser.h"
#include "segment.h"
#include "input.h"
#include "expreval.h"
#include "vf.h"

uint_8   in_ofs, in_size, in_cdc, in_noseg, in_found, in_tail, in_str;
int_8    in_k1, in_k2;
uint_32  in_fsize, in_o, in_s;

struct { int err, evals, opens, closes, sel, outs, bad, reads; long pos; const void *buf; uint_32 n, at, len; } vf;
struct module_info ModuleInfo;
struct global_options Options;
unsigned int Parse_Pass;
static struct dsym S; static struct seg_info Si;
static struct asm_tok tok[8];
static uint_8 data[16];
static char sb[600], nm[8] = "'a.bin'";
static FILE *fh;

int EmitError( int m ) { vf.err++; return ERROR; }                              /* @stub EmitError */
static int vf_emiterr( void ) { vf.err++; return ERROR; }                       /* @stub EmitErr */
#define EmitErr( ... ) vf_emiterr()
#define EmitWarn( ... ) ((void)0)
void omf_OutSelect( bool d ) { vf.sel++; }                                      /* @stub omf_OutSelect */
ret_code EvalOperand( int *i, struct asm_tok t[], int end, struct expr *op, uint_8 f )  /* @stub EvalOperand: an expression of one token */
{
    memset( op, 0, sizeof *op );
    if ( *i == 3 ) { op->kind = in_k1; op->value = in_o; if ( in_k1 != EXPR_EMPTY ) *i = 4; else *i = 3; }
    else { op->kind = in_k2; op->value = in_s; if ( in_k2 != EXPR_EMPTY ) ++*i; }
    return NOT_ERROR;
}
/* the file: in_fsize bytes, position vf.pos */                                 /* @stub SearchFile, fseek, ftell, fread, fclose: the C library */
FILE *SearchFile( const char *path, bool queue ) { if ( !in_found ) return NULL; vf.opens++; vf.pos = 0; return fh; }
static int vf_fseek( FILE *f, long o, int w )
{
    if ( f != fh || ( w != SEEK_SET && w != SEEK_END && w != SEEK_CUR ) ) vf.bad++;
    vf.pos = ( w == SEEK_SET ? 0 : w == SEEK_END ? (long)in_fsize : vf.pos ) + o;
    return 0;
}
static long vf_ftell( FILE *f ) { return vf.pos; }
static size_t vf_fread( void *p, size_t s, size_t n, FILE *f )
{
    if ( s * n ) { vf.reads++; vf.buf = p; vf.at = vf.pos; vf.n = s * n; }
    vf.pos += s * n;
    return n;
}
static int vf_fclose( FILE *f ) { vf.closes++; return 0; }
#define fseek vf_fseek
#define ftell vf_ftell
#define fread vf_fread
#define fclose vf_fclose
static void *vf_malloc( size_t n ) { vf.len = n; return data; }                 /* @stub malloc, free: an object as large as asked for */
static void vf_free( void *p ) { }
#define malloc vf_malloc
#define free vf_free
void OutputBinBytes( unsigned char *p, uint_32 n )                             /* @stub OutputBinBytes: contract proved in emit.c */
{
    if ( n && ( vf.reads != 1 || vf.buf != p || vf.n < n || vf.len < vf.n || vf.closes ) ) vf.bad++;
    if ( n ) vf.outs++;
    vf.n = n;
}

static int post_incbin( int rc )
{
    uint_32 o = in_ofs && in_k1 == EXPR_CONST ? in_o : 0, left = o < in_fsize ? in_fsize - o : 0;
    uint_32 n = in_size && in_k2 == EXPR_CONST && in_s < left ? in_s : left;
    int bad = in_str || ( in_ofs && in_k1 != EXPR_CONST && in_k1 != EXPR_EMPTY ) || ( in_size && in_k2 != EXPR_CONST && in_k2 != EXPR_EMPTY ) || in_tail || in_noseg;
    if ( bad ) return rc == ERROR && vf.err == 1 && !vf.opens && !vf.outs;
    if ( rc != NOT_ERROR || vf.err || vf.bad || vf.sel != in_cdc || vf.opens != vf.closes ) return 0;
    if ( !in_found ) return !vf.outs;
    return n ? vf.outs == 1 && vf.n == n && vf.at == o : !vf.outs;
}
#ifdef VF_CBMC
ret_code IncBinDirective( int i, struct asm_tok tokenarray[] )
REQUIRES( tokenarray == tok && i == 0 )
ASSIGNS( OBJ( &vf ), OBJ( sb ) )
ENSURES( post_incbin( __CPROVER_return_value ) )
;
#endif
#include "/repo/directiv.c"
#undef malloc
#undef free

/* @proof incbin props=C06 harness=h_incbin enforce=IncBinDirective unwind=24 solver=cadical */
void h_incbin( void )
{
    int rc, i;
    VF_IN( in_ofs ); VF_IN( in_size ); VF_IN( in_cdc ); VF_IN( in_noseg ); VF_IN( in_found ); VF_IN( in_k1 ); VF_IN( in_k2 ); VF_IN( in_tail ); VF_IN( in_str );
    VF_IN( in_fsize ); VF_IN( in_o ); VF_IN( in_s );
    VF_ASSUME( in_ofs <= 1 && in_size <= in_ofs && in_cdc <= 1 && in_noseg <= 1 && in_found <= 1 && in_tail <= 1 && in_str <= 1 && in_fsize < 0x70000000 );
    VF_ASSUME( ( ( in_k1 >= 0 && in_k1 <= EXPR_REG ) || in_k1 == EXPR_EMPTY ) && ( ( in_k2 >= 0 && in_k2 <= EXPR_REG ) || in_k2 == EXPR_EMPTY ) );
    memset( &vf, 0, sizeof vf ); memset( &ModuleInfo, 0, sizeof ModuleInfo ); memset( tok, 0, sizeof tok ); memset( &S, 0, sizeof S ); memset( &Si, 0, sizeof Si );
    fh = (FILE *)&data[8];
    CurrSeg = in_noseg ? NULL : &S; S.e.seginfo = &Si;
    ModuleInfo.CommentDataInCode = in_cdc;
    StringBufferEnd = sb;
    tok[1].token = in_str ? T_ID : T_STRING; tok[1].string_delim = '\''; tok[1].string_ptr = nm; tok[1].stringlen = 5;
    i = 2;
    if ( in_ofs ) {
        tok[i++].token = T_COMMA;
        if ( in_k1 != EXPR_EMPTY ) tok[i++].token = T_NUM;
        if ( in_size ) {
            tok[i++].token = T_COMMA;
            if ( in_k2 != EXPR_EMPTY ) tok[i++].token = T_NUM;
        }
    }
    tok[i].token = in_tail ? T_COLON : T_FINAL;
    rc = IncBinDirective( 0, tok );
    VF_POST( post_incbin( rc ), "part of the file" );
    VF_REACH( "end" );
    if ( vf.outs ) VF_REACH( "emitted" );
    if ( vf.err ) VF_REACH( "diagnosed" );
}
