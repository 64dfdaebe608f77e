/* Contracts for ALIGN, EVEN and ORG (posndir.c). */
#include <string.h>
#include "globals.h"
#include "parser.h"
#include "segment.h"
#include "expreval.h"
#include "fixup.h"
#include "input.h"
#include "listing.h"
#include "vf.h"

uint_64  in_val;
uint_32  in_loc, in_size, in_start, in_soff;
uint_8   in_kind, in_evok, in_final, in_of, in_code, in_written, in_cseg, in_salign, in_pass, in_flat, in_fix, in_struct, in_even, in_indirect, in_hassym, in_ext, in_falign;
int      in_pow;

/* ghost state: what has been put into the segment */
struct { uint_32 loc, pad, run, want, ofs; int ok, setofs, rel, sel, err, warned, instr, inarg, fstore; } vf;

struct module_info ModuleInfo;
struct global_options Options;
unsigned int Parse_Pass;
extern bool StoreState; bool StoreState;
struct symbol_queue SymTables[TAB_LAST];
struct dsym *CurrStruct;
static struct dsym vf_seg, vf_grp, vf_struct;
static struct seg_info vf_si;
static struct struct_info vf_sti;
static struct fixup vf_fix;
static struct asym vf_sym;
static struct asm_tok tok[4];

/* no-operation instructions of each length, per mode (Intel SDM): mov ax,ax / lea r32,[same r32+0] / nop r/m / xchg */
static const uint_8 nops[3][8][8] = {
  { {0}, { 0x90 }, { 0x8b, 0xc0 }, { 0x2e, 0x8b, 0xc0 } },
  { {0}, { 0x90 }, { 0x8b, 0xff }, { 0x8d, 0x40, 0 }, { 0x8d, 0x44, 0x20, 0 }, { 0x2e, 0x8d, 0x44, 0x20, 0 },
    { 0x8d, 0x80, 0, 0, 0, 0 }, { 0x8d, 0xa4, 0x24, 0, 0, 0, 0 } },
  { {0}, { 0x90 }, { 0x66, 0x90 }, { 0x0f, 0x1f, 0 }, { 0x0f, 0x1f, 0x40, 0 }, { 0x0f, 0x1f, 0x44, 0, 0 },
    { 0x66, 0x0f, 0x1f, 0x44, 0, 0 }, { 0x0f, 0x1f, 0x80, 0, 0, 0, 0 } } };
static unsigned maxnop( void ) { return in_of == USE16 ? 3 : 7; }
/* pos bytes of a no-op of length run have been seen; a new one starts with the length the remaining gap allows */
static void pad_byte( unsigned char b )
{
    if ( vf.run == 0 ) {
        vf.want = in_size - vf.pad < maxnop() ? in_size - vf.pad : maxnop();
    }
    if ( vf.want > 7 || b != nops[in_of][vf.want & 7][vf.run & 7] ) vf.ok = 0;
    vf.pad++; vf.run++;
    if ( vf.run == vf.want ) vf.run = 0;
}

#define SEG ( ModuleInfo.currseg->e.seginfo )
void OutputByte( unsigned char b ) { pad_byte( b ); vf.run == vf.run; vf_si.current_loc++; }        /* @stub OutputByte: advances the location counter by one (contract of C06) */
void FillDataBytes( unsigned char b, int len )                                                     /* @stub FillDataBytes: len times the same byte (contract of C06) */
{
    if ( b != 0 ) vf.ok = 0;
    vf.pad += len; vf_si.current_loc += len;
}
ret_code SetCurrOffset( struct dsym *seg, uint_32 value, bool relative, bool select_data )         /* @stub SetCurrOffset: moves the location counter (contract of C06) */
{
    vf.setofs++; vf.rel = relative; vf.sel = select_data;
    if ( seg != ModuleInfo.currseg ) vf.ok = 0;
    if ( relative ) { vf.pad += value; value += seg->e.seginfo->current_loc; }
    seg->e.seginfo->current_loc = value;
    return NOT_ERROR;
}
uint_32 GetCurrOffset( void ) { return ModuleInfo.currseg ? SEG->current_loc : 0; }                /* @stub GetCurrOffset: same text as segment.c */
uint_32 GetCurrSegAlign( void )                                                                    /* @stub GetCurrSegAlign: same text as segment.c */
{
    if ( ModuleInfo.currseg == NULL ) return 0;
    return SEG->alignment == MAX_SEGALIGNMENT ? 0x40 : 1u << SEG->alignment;
}
ret_code AlignInStruct( int value ) { vf.instr++; vf.inarg = value; return NOT_ERROR; }             /* @stub AlignInStruct (proof align_struct) */
ret_code SetStructCurrentOffset( int_32 ofs ) { vf.instr++; vf.inarg = ofs; return NOT_ERROR; }     /* @stub SetStructCurrentOffset (proof org_struct) */
void AddOrgFixup( int a, int b ) {}                                                                /* @stub AddOrgFixup: the table it builds is never read */
void StoreLine( const char *s, int f, uint_32 l ) { vf.fstore++; }                                        /* @stub StoreLine */
void LstWrite( enum lsttype t, uint_32 ofs, void *v ) {}                                           /* @stub LstWrite */
char *myltoa( uint_32 value, char *buffer, unsigned radix, bool sign, bool addzero ) { return buffer; }   /* @stub myltoa */
int EmitError( int m ) { vf.err++; return ERROR; }                                                 /* @stub EmitError */
static int vf_emiterr( void ) { vf.err++; return ERROR; }                                          /* @stub EmitErr */
#define EmitErr( ... ) vf_emiterr()
#define EmitWarn( ... ) ( vf.warned++ )
/* @stub EvalOperand: yields any expression */
ret_code EvalOperand( int *i, struct asm_tok tokenarray[], int end, struct expr *op, uint_8 flags )
{
    if ( in_evok == 0 ) return ERROR;
    memset( op, 0, sizeof *op );
    op->llvalue = in_val; op->kind = in_kind; op->indirect = in_indirect; op->sym = in_hassym ? &vf_sym : NULL;
    *i = 2;
    return NOT_ERROR;
}

#ifdef P_FILL
static int post_fill( void )
{
    if ( vf_si.current_loc != (uint_32)( in_loc + in_size ) || !vf.ok || vf.pad != in_size ) return 0;
    /* nothing initialized so far: no bytes are written. Otherwise no offset is set */
    return in_written ? !vf.setofs && vf.run == 0 : vf.setofs == 1 && vf.rel && vf.run == 0;
}
# ifdef VF_CBMC
static void fill_in_objfile_space( unsigned size )
REQUIRES( size == in_size && size > 0 )
ASSIGNS( OBJ( &vf ), vf_si.current_loc )
ENSURES( post_fill() )
;
# endif
#else
# ifdef VF_CBMC
static void fill_in_objfile_space( unsigned size )
REQUIRES( size > 0 )
ASSIGNS( vf.pad, vf_si.current_loc )
ENSURES( vf_si.current_loc == (uint_32)( __CPROVER_old( vf_si.current_loc ) + size ) && vf.pad == size )
;
# endif
#endif

static int pow2( uint_64 v ) { return v && !( v & ( v - 1 ) ) && v <= 0x40000000; }
/* the alignment asked for; 0 = none (error) */
static uint_32 want_align( void )
{
    if ( in_even ) return 2;
    if ( !in_evok ) return 0;
    if ( in_kind == EXPR_CONST ) return pow2( in_val ) ? in_val : 0;
    if ( in_kind == EXPR_EMPTY ) return in_struct ? in_falign : in_cseg ? ( in_salign == MAX_SEGALIGNMENT ? 0x40 : 1u << in_salign ) : 0;
    return 0;
}
static int post_align( int rc )
{
    uint_32 a = want_align();
    uint_32 p;
    if ( in_even == 0 && in_kind == EXPR_EMPTY && !in_cseg && !in_struct && in_evok ) a = 1;    /* diagnosed below */
    if ( !a || !in_final || ( !in_struct && !in_cseg ) )
        return rc == ERROR && ( vf.err == 1 || ( !in_even && !in_evok ) ) && vf_si.current_loc == in_loc && !vf.instr && !vf.pad;
    if ( in_struct ) return rc == NOT_ERROR && !vf.err && vf.instr == 1 && vf.inarg == a && vf_si.current_loc == in_loc && !vf.pad;
    p = in_loc % a ? a - in_loc % a : 0;
    return rc == NOT_ERROR && !vf.err && !vf.instr && vf.pad == p && vf_si.current_loc == (uint_32)( in_loc + p )
        && ( in_pass != PASS_1 || !in_fix || vf_fix.orgoccured );
}
static int post_cur( void )
{
    uint_32 a = 1u << in_pow, p = in_loc % a ? a - in_loc % a : 0;
    return vf.pad == p && vf_si.current_loc == (uint_32)( in_loc + p );
}
static int post_org( int rc )
{
    int bad = !in_evok || !in_final || ( in_struct ? in_kind != EXPR_CONST : !in_cseg || ( in_kind != EXPR_CONST && ( in_kind != EXPR_ADDR || in_indirect || !in_hassym || in_ext ) ) );
    uint_32 v = (uint_32)in_val + ( in_kind == EXPR_ADDR ? in_soff : 0 );
    if ( bad ) return rc == ERROR && ( vf.err == 1 || !in_evok ) && !vf.setofs && !vf.instr && vf_si.current_loc == in_loc;
    if ( in_struct ) return rc == NOT_ERROR && !vf.err && vf.instr == 1 && vf.inarg == (int_32)(uint_32)in_val && !vf.setofs;
    return rc == NOT_ERROR && !vf.err && !vf.instr && vf.setofs == 1 && !vf.rel && vf.ok && vf_si.current_loc == v
        && ( in_pass != PASS_1 || !in_fix || vf_fix.orgoccured );
}
#ifdef VF_CBMC
ret_code AlignDirective( int i, struct asm_tok tokenarray[] )
REQUIRES( tokenarray == tok && i == 0 )
ASSIGNS( OBJ( &vf ), OBJ( &vf_si ), OBJ( &vf_fix ) )
ENSURES( post_align( __CPROVER_return_value ) )
;
void AlignCurrOffset( int value )
REQUIRES( value == in_pow )
ASSIGNS( OBJ( &vf ), OBJ( &vf_si ) )
ENSURES( post_cur() )
;
ret_code OrgDirective( int i, struct asm_tok tokenarray[] )
REQUIRES( tokenarray == tok && i == 0 )
ASSIGNS( OBJ( &vf ), OBJ( &vf_si ), OBJ( &vf_fix ) )
ENSURES( post_org( __CPROVER_return_value ) )
;
#endif
#include "/repo/posndir.c"

static void setup( void )
{
    VF_IN( in_val ); VF_IN( in_loc ); VF_IN( in_size ); VF_IN( in_start ); VF_IN( in_soff ); VF_IN( in_kind ); VF_IN( in_evok ); VF_IN( in_final );
    VF_IN( in_of ); VF_IN( in_code ); VF_IN( in_written ); VF_IN( in_cseg ); VF_IN( in_salign ); VF_IN( in_pass ); VF_IN( in_flat );
    VF_IN( in_fix ); VF_IN( in_struct ); VF_IN( in_even ); VF_IN( in_indirect ); VF_IN( in_hassym ); VF_IN( in_ext ); VF_IN( in_pow ); VF_IN( in_falign );
    VF_ASSUME( in_evok <= 1 && in_final <= 1 && in_of <= 2 && in_code <= SEGTYPE_ERROR && in_written <= 1 && in_cseg <= 1 && in_pass <= 2 );
    VF_ASSUME( in_flat <= 2 && in_fix <= 1 && in_struct <= 1 && in_even <= 1 && in_indirect <= 1 && in_hassym <= 1 && in_ext <= 1 && in_kind <= EXPR_REG );
    VF_ASSUME( in_salign <= 30 || in_salign == MAX_SEGALIGNMENT );
    VF_ASSUME( in_falign == 1 || in_falign == 2 || in_falign == 4 || in_falign == 8 || in_falign == 16 || in_falign == 32 );
    memset( &ModuleInfo, 0, sizeof ModuleInfo ); memset( &Options, 0, sizeof Options );
    memset( &vf, 0, sizeof vf ); memset( &vf_si, 0, sizeof vf_si ); memset( &vf_seg, 0, sizeof vf_seg ); memset( &vf_fix, 0, sizeof vf_fix );
    memset( &vf_sym, 0, sizeof vf_sym ); memset( &vf_struct, 0, sizeof vf_struct ); memset( &vf_sti, 0, sizeof vf_sti ); memset( &vf_grp, 0, sizeof vf_grp );
    memset( tok, 0, sizeof tok );
    vf.ok = 1;
    ModuleInfo.Ofssize = in_of;
    ModuleInfo.currseg = in_cseg ? &vf_seg : NULL;
    ModuleInfo.flat_grp = in_flat ? &vf_grp : NULL; vf_grp.sym.isdefined = in_flat == 2;
    vf_seg.e.seginfo = &vf_si;
    vf_si.current_loc = in_loc; vf_si.start_loc = in_start; vf_si.segtype = in_code; vf_si.written = in_written; vf_si.alignment = in_salign;
    if ( in_fix ) vf_si.FixupList.head = &vf_fix;
    CurrStruct = in_struct ? &vf_struct : NULL; vf_struct.e.structinfo = &vf_sti; vf_sti.alignment = in_falign;
    vf_sym.offset = in_soff; vf_sym.state = in_ext ? SYM_EXTERNAL : SYM_INTERNAL;
    Parse_Pass = in_pass; StoreState = TRUE;
    tok[0].tokval = in_even ? T_EVEN : T_ALIGN;
    tok[1].token = tok[2].token = in_final ? T_FINAL : T_COMMA;
}
#ifdef P_FILL
/* @proof align_fill16 props=C05 harness=h_fill enforce=fill_in_objfile_space defs=P_FILL,OF=0 unwind=10 solver=cadical pre=--unwindset@fill_in_objfile_space.0:8 loops=align.json fallback=align_fill16_b */
/* @proof align_fill16_b props=C05 harness=h_fill enforce=fill_in_objfile_space defs=P_FILL,OF=0,MAXSIZE=32 unwind=12 solver=cadical tier=fallback bounded=gaps_of_up_to_32_bytes */
/* @proof align_fill32 props=C05 harness=h_fill enforce=fill_in_objfile_space defs=P_FILL,OF=1 unwind=10 solver=cadical pre=--unwindset@fill_in_objfile_space.0:8 loops=align.json fallback=align_fill32_b */
/* @proof align_fill32_b props=C05 harness=h_fill enforce=fill_in_objfile_space defs=P_FILL,OF=1,MAXSIZE=32 unwind=12 solver=cadical tier=fallback bounded=gaps_of_up_to_32_bytes */
/* @proof align_fill64 props=C05 harness=h_fill enforce=fill_in_objfile_space defs=P_FILL,OF=2 unwind=10 solver=cadical pre=--unwindset@fill_in_objfile_space.0:8 loops=align.json fallback=align_fill64_b */
/* @proof align_fill64_b props=C05 harness=h_fill enforce=fill_in_objfile_space defs=P_FILL,OF=2,MAXSIZE=32 unwind=12 solver=cadical tier=fallback bounded=gaps_of_up_to_32_bytes */
/* @proof align_fill_data props=C05 harness=h_fill enforce=fill_in_objfile_space defs=P_FILL unwind=10 solver=cadical */
# ifndef MAXSIZE
#  define MAXSIZE 0x40000000
# endif
void h_fill( void )
{
    setup();
    VF_ASSUME( in_cseg && in_size > 0 && in_size <= MAXSIZE );
# ifdef OF
    VF_ASSUME( in_of == OF && in_code == SEGTYPE_CODE && in_written );
    in_of = OF; in_code = SEGTYPE_CODE; in_written = 1;
    ModuleInfo.Ofssize = OF; vf_si.segtype = SEGTYPE_CODE; vf_si.written = 1;
# else
    VF_ASSUME( in_code != SEGTYPE_CODE || !in_written );
# endif
    fill_in_objfile_space( in_size );
    VF_POST( post_fill(), "gap filled" );
    VF_REACH( "end" );
    if ( in_size > 20 ) VF_REACH( "large" );
}
#else
/* @proof align_dir props=C05 harness=h_align enforce=AlignDirective replace=fill_in_objfile_space unwind=34 solver=cadical */
void h_align( void )
{
    int rc;
    setup();
    rc = AlignDirective( 0, tok );
    VF_POST( post_align( rc ), "ALIGN/EVEN pads to the next multiple" );
    VF_REACH( "end" );
    if ( vf.pad ) VF_REACH( "padded" );
    if ( vf.err ) VF_REACH( "error" );
    if ( vf.instr ) VF_REACH( "struct" );
}
/* @proof align_cur props=C05 harness=h_cur enforce=AlignCurrOffset replace=fill_in_objfile_space unwind=24 solver=cadical */
void h_cur( void )
{
    setup();
    VF_ASSUME( in_cseg && in_pow >= 0 && in_pow <= 30 );
    AlignCurrOffset( in_pow );
    VF_POST( post_cur(), "procedure start aligned" );
    VF_REACH( "end" );
}
/* @proof org_dir props=C05 harness=h_org enforce=OrgDirective unwind=24 solver=cadical */
void h_org( void )
{
    int rc;
    setup();
    rc = OrgDirective( 0, tok );
    VF_POST( post_org( rc ), "ORG sets the location counter" );
    VF_REACH( "end" );
    if ( vf.setofs ) VF_REACH( "moved" );
    if ( vf.err ) VF_REACH( "error" );
}
#endif
