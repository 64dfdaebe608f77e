/* Contracts for STRUCT, UNION and RECORD layout (types.c). */
#include <string.h>
#include "globals.h"
#include "parser.h"
#include "memalloc.h"
#include "expreval.h"
#include "input.h"
#include "listing.h"
#include "vf.h"

uint_8   in_union, in_named, in_align, in_type, in_tkind, in_org, in_old, in_pass, in_nested, in_dup, in_i, in_unmatched, in_final, in_head;
uint_32  in_size, in_ofs, in_tot, in_max, in_vmax, in_ptot, in_pofs, in_pmax, in_o0;
int_32   in_val, in_neg;
uint_64  in_v64;
uint_8   in_evok, in_ekind, in_arg, in_directive, in_fieldalign, in_curr, in_known;
int_64   in_w[3];
uint_8   in_nf;

extern struct dsym *CurrStruct;
struct { int err, created, upd, looked; uint_32 fsize; unsigned allocs; int evals; } vf;

struct module_info ModuleInfo;
struct global_options Options;
unsigned int Parse_Pass;
struct symbol_queue SymTables[TAB_LAST];
static struct dsym S, P, T;             /* the structure, its parent, a nested type */
static struct struct_info Si, Pi, Ti;
static const struct dsym Zd; static const struct struct_info Zs; static const struct sfield Zf; static const struct asym Za;
static struct sfield F0, FN, R[3];
static struct asym gs; static struct dsym ed; static struct struct_info Ei;
#define es ed.sym
static char names[4][4];
#ifdef SD
static struct asm_tok tok[4];
#else
static struct asm_tok tok[20];
#endif
static char nm[2] = { 'x', 0 }, nm2[4];
static char buf[64];

int EmitError( int m ) { vf.err++; return ERROR; }                              /* @stub EmitError */
static int vf_emiterr( void ) { vf.err++; return ERROR; }                       /* @stub EmitErr */
#define EmitErr( ... ) vf_emiterr()
#define EmitWarn( ... ) ((void)0)
void LstWrite( enum lsttype t, uint_32 ofs, void *v ) {}                        /* @stub LstWrite */
void *LclAlloc( size_t n )                                                    /* @stub LclAlloc: hands out a fresh object of the size asked for */
{
    if ( n == sizeof( struct struct_info ) ) return &Ti;
#ifdef P_RECORD
    unsigned k = vf.allocs++;
    return k % 2 ? (void *)names[k / 2 % 4] : (void *)&R[k / 2 % 3];
#else
    return vf.allocs++ ? (void *)nm2 : (void *)&FN;
#endif
}
struct asym *SymCreate( const char *n ) { return &T.sym; }                       /* @stub SymCreate: a new symbol */
struct asym *SymAlloc( const char *n ) { return &T.sym; }                        /* @stub SymAlloc */
struct asym *SymLookup( const char *n ) { return &gs; }                         /* @stub SymLookup */
struct asym *SymSearch( const char *n ) { return in_known ? &es : NULL; }       /* @stub SymSearch: not found, or some existing symbol */
struct asym *SymAddGlobal( struct asym *s ) { return s; }                                          /* @stub SymAddGlobal */
void SymSimd( struct dsym *s ) {}                                               /* @stub SymSimd: classifies the type for VECTORCALL */
int (*SymCmpFunc)( const void *, const void *, size_t );
static int vf_cmp( const void *a, const void *b, size_t n ) { return in_unmatched; }  /* @stub SymCmpFunc */
ret_code EvalOperand( int *i, struct asm_tok t[], int end, struct expr *op, uint_8 f )  /* @stub EvalOperand: any expression */
{
    memset( op, 0, sizeof *op );
#ifdef P_RECORD
    op->kind = EXPR_CONST; op->value64 = in_w[vf.evals++ % 3]; *i += 1;
    return NOT_ERROR;
#else
    if ( !in_evok ) return ERROR;
    op->kind = in_ekind; op->llvalue = in_v64; *i = 3;
    return NOT_ERROR;
#endif
}

/* smallest multiple of a (a power of 2) not below x */
static uint_32 up( uint_32 x, uint_32 a ) { return x % a ? x + a - x % a : x; }
static int p2( uint_32 a ) { return a && !( a & ( a - 1 ) ); }
static uint_32 mn( uint_32 a, uint_32 b ) { return a < b ? a : b; }

/* --- fields --- */
/* size that counts for the alignment of the new field: the largest member of a nested structure */
static uint_32 fsize( void ) { return in_type && ( in_tkind == TYPE_STRUCT || in_tkind == TYPE_UNION ) ? in_vmax : in_size; }
static int post_field( const struct asym *r )
{
    uint_32 s = fsize(), o;
    if ( in_named && in_dup ) return r == NULL && vf.err == 1 && S.sym.offset == in_ofs && S.sym.total_size == in_tot && Si.tail == ( in_head ? &F0 : NULL );
    if ( r == NULL || r != &FN.sym || FN.sym.state != SYM_STRUCT_FIELD || FN.next != NULL || vf.err ) return 0;
    if ( Si.tail != &FN || ( in_head ? Si.head != &F0 || F0.next != &FN : Si.head != &FN ) ) return 0;
    if ( S.sym.max_mbr_size != ( s > in_max ? s : in_max ) ) return 0;
    if ( in_align <= 1 || s == 0 ) o = in_ofs;
    else if ( s > in_align || p2( s ) ) o = up( in_ofs, mn( s, in_align ) );
    else o = FN.sym.offset;                     /* odd sizes (6, 10 bytes): only required not to overlap */
    if ( (uint_32)FN.sym.offset != o || o < in_ofs || o - in_ofs >= ( in_align > 1 ? in_align : 1 ) ) return 0;
    if ( in_union ) return S.sym.offset == in_ofs && S.sym.total_size == in_tot;
    return (uint_32)S.sym.offset == o && S.sym.total_size == ( o > in_tot ? o : in_tot );
}
static int post_update( void )
{
    if ( in_union ) return S.sym.offset == in_ofs && S.sym.total_size == ( in_size > in_tot ? in_size : in_tot );
    return S.sym.offset == in_ofs + in_size && S.sym.total_size == ( in_ofs + in_size > in_tot ? in_ofs + in_size : in_tot );
}
static int post_alignin( int rc )
{
    if ( rc != NOT_ERROR || vf.err ) return 0;
    if ( in_union ) return S.sym.offset == in_ofs && S.sym.total_size == in_tot;
    return S.sym.offset == up( in_ofs, in_size ) && S.sym.total_size == ( up( in_ofs, in_size ) > in_tot ? up( in_ofs, in_size ) : in_tot );
}
static int post_orgin( int rc )
{
    if ( in_union ) return rc == ERROR && vf.err == 1 && S.sym.offset == in_ofs && S.sym.total_size == in_tot;
    return rc == NOT_ERROR && !vf.err && S.sym.offset == in_val && Si.OrgInside && S.sym.total_size == ( in_val > (int_32)in_tot ? in_val : in_tot );
}
/* --- ENDS --- */
static uint_32 final_size( void )
{
    uint_32 t = in_tot, m = in_max ? in_max : 1;
    if ( in_org && in_head && in_neg < 0 ) t -= in_neg;
    if ( m > in_align ) m = in_align;
    if ( in_align > 1 ) {
        if ( p2( m ) ) t = up( t, m );
        else t = S.sym.total_size;      /* largest member not a power of 2: see field */
    }
    return t;
}
static int CurrStruct_is( int nested );
static int post_ends( int rc )
{
    uint_32 t = final_size(), u;
    int mt;
    if ( in_pass > PASS_1 ) {
        if ( rc != NOT_ERROR || S.sym.offset != 0 || S.sym.total_size != in_tot || CurrStruct_is( in_nested ) == 0 ) return 0;
        if ( in_nested ) return P.sym.offset == ( in_union ? in_pofs : in_pofs + in_tot );
        return 1;
    }
    if ( ( in_i == 1 ) == in_nested || ( in_i && in_unmatched ) ) return rc == ERROR && vf.err == 1;
    if ( in_final != ( rc == NOT_ERROR ) || S.sym.offset != 0 || Si.isOpen || !S.sym.isdefined || !CurrStruct_is( in_nested ) ) return 0;
    if ( S.sym.total_size != t || t < in_tot ) return 0;
    mt = t == 1 ? MT_BYTE : t == 2 ? MT_WORD : t == 4 ? MT_DWORD : t == 6 ? MT_FWORD : t == 8 ? MT_QWORD : MT_EMPTY;
    if ( S.sym.mem_type != mt ) return 0;
    if ( in_nested ) {
        if ( vf.created != 1 || vf.fsize != t ) return 0;
        if ( P.sym.max_mbr_size != ( in_max > in_pmax ? in_max : in_pmax ) ) return 0;
        /* the parent grows by the nested structure (a union takes the larger one) */
        if ( in_union ) return P.sym.total_size == ( t > in_ptot ? t : in_ptot );
        return P.sym.offset == in_pofs + t;
    }
    return vf.created == 0;
}

static int CurrStruct_is( int nested ) { return CurrStruct == ( nested ? &P : NULL ); }

/* --- STRUCT / UNION --- */
static int argbad( void ) { return in_evok && ( in_ekind != EXPR_EMPTY ) && ( in_ekind != EXPR_CONST || (int_32)in_v64 > MAX_STRUCT_ALIGN || (int_32)in_v64 <= 0 || !p2( (int_32)in_v64 ) ); }

static int post_struct( int rc )
{
    unsigned a = 1u << in_fieldalign;
    if ( in_curr ) {
        if ( !in_final ) return rc == ERROR && vf.err == 1 && CurrStruct == &P;
        if ( in_named && in_dup ) return rc == ERROR && vf.err == 1 && CurrStruct == &P;
        if ( in_pass == PASS_1 ) a = Pi.alignment;
    } else if ( in_arg ) {
        if ( argbad() ) { if ( !vf.err ) return 0; }
        else if ( in_evok && in_ekind == EXPR_CONST ) a = in_v64;
        if ( !in_final ) return rc == ERROR && vf.err;
    } else if ( !in_final && !in_arg ) return 1;
    if ( !in_curr && in_known ) return rc == ERROR && vf.err && CurrStruct == NULL;     /* some other symbol has that name */
    if ( rc != NOT_ERROR || vf.err != ( !in_curr && in_arg && argbad() ) ) return 0;
    return CurrStruct == &T && T.next == ( in_curr ? &P : NULL ) && T.sym.offset == 0 && T.sym.typekind == ( in_union ? TYPE_UNION : TYPE_STRUCT )
        && Ti.alignment == a && Ti.isOpen;
}

/* --- RECORD --- */
static int post_record( int rc )
{
    int k, used = 0, sum = 0, n = 0;
    for ( k = 0; k < in_nf; k++ ) {
        if ( in_w[k] <= 0 || in_w[k] > 128 - sum ) break;
        sum += in_w[k]; n++;
    }
    if ( rc != NOT_ERROR || ( n < in_nf ) != ( vf.err > 0 ) ) return 0;
    if ( T.sym.typekind != TYPE_RECORD || T.sym.total_size != ( sum <= 8 ? 1 : sum <= 16 ? 2 : sum <= 32 ? 4 : sum <= 64 ? 8 : 16 ) ) return 0;
    if ( T.sym.mem_type != ( sum <= 8 ? MT_BYTE : sum <= 16 ? MT_WORD : sum <= 32 ? MT_DWORD : sum <= 64 ? MT_QWORD : MT_OWORD ) ) return 0;
    for ( k = 0; k < n; k++ ) {
        used += in_w[k];
        if ( R[k].sym.offset != sum - used || R[k].sym.total_size != in_w[k] || R[k].sym.mem_type != MT_BITS || R[k].sym.state != SYM_STRUCT_FIELD ) return 0;
        if ( ( k + 1 < n ? &R[k + 1] : NULL ) != R[k].next ) return 0;
    }
    return Ti.head == ( n ? &R[0] : NULL );
}

#ifdef VF_CBMC
# ifdef P_ENDS
struct asym *CreateStructField( int loc, struct asm_tok tokenarray[], const char *name, enum memtype mem_type, struct asym *vartype, uint_32 size )
REQUIRES( loc == -1 && mem_type == MT_TYPE )
ASSIGNS( OBJ( &vf ), P.sym.offset, P.sym.max_mbr_size, P.sym.total_size, FN.sym.total_size )
ENSURES( __CPROVER_return_value == &FN.sym && vf.created == __CPROVER_old( vf.created ) + 1 && vf.fsize == size && vf.err == __CPROVER_old( vf.err )
    && P.sym.offset == in_pofs && P.sym.max_mbr_size == in_pmax && P.sym.total_size == in_ptot )
;
# else
struct asym *CreateStructField( int loc, struct asm_tok tokenarray[], const char *name, enum memtype mem_type, struct asym *vartype, uint_32 size )
REQUIRES( loc == -1 && size == in_size )
ASSIGNS( OBJ( &vf ), OBJ( &S ), OBJ( &Si ), OBJ( &FN ), OBJ( &F0 ), OBJ( nm2 ), OBJ( &gs ) )
ENSURES( post_field( __CPROVER_return_value ) )
;
# endif
struct asym *SearchNameInStruct( const struct asym *tstruct, const char *name, uint_32 *poffset, int level )
REQUIRES( 1 )
ASSIGNS( *poffset )
ENSURES( __CPROVER_return_value == ( in_dup ? &es : NULL ) )
;
static ret_code CheckAnonymousStruct( struct dsym *type )
REQUIRES( 1 )
ASSIGNS()
ENSURES( 1 )
;
void UpdateStructSize( struct asym *sym )
REQUIRES( sym == &FN.sym )
ASSIGNS( S.sym.offset, S.sym.total_size )
ENSURES( post_update() )
;
ret_code AlignInStruct( int value )
REQUIRES( value == (int)in_size )
ASSIGNS( S.sym.offset, S.sym.total_size )
ENSURES( post_alignin( __CPROVER_return_value ) )
;
ret_code SetStructCurrentOffset( int_32 offset )
REQUIRES( offset == in_val )
ASSIGNS( OBJ( &vf ), OBJ( &S ), OBJ( &Si ) )
ENSURES( post_orgin( __CPROVER_return_value ) )
;
ret_code EndstructDirective( int i, struct asm_tok tokenarray[] )
REQUIRES( tokenarray == tok && i == in_i )
ASSIGNS( OBJ( &vf ), OBJ( &S ), OBJ( &Si ), OBJ( &P ), OBJ( &FN ), CurrStruct )
ENSURES( post_ends( __CPROVER_return_value ) )
;
# ifdef SD
ret_code SD( int i, struct asm_tok tokenarray[] )
REQUIRES( tokenarray == tok && i == ( in_curr ? 0 : 1 ) )
ASSIGNS( OBJ( &vf ), OBJ( &T ), OBJ( &Ti ), OBJ( &ed ), CurrStruct )
ENSURES( post_struct( __CPROVER_return_value ) )
;
# endif
ret_code RecordDirective( int i, struct asm_tok tokenarray[] )
REQUIRES( tokenarray == tok && i == 1 )
ASSIGNS( OBJ( &vf ), OBJ( &T ), OBJ( &Ti ), OBJ( R ), OBJ( names ) )
ENSURES( post_record( __CPROVER_return_value ) )
;
#endif
#include "/repo/types.c"

static void setup( void )
{
    VF_IN( in_union ); VF_IN( in_named ); VF_IN( in_align ); VF_IN( in_type ); VF_IN( in_tkind ); VF_IN( in_org ); VF_IN( in_old ); VF_IN( in_pass );
    VF_IN( in_nested ); VF_IN( in_dup ); VF_IN( in_i ); VF_IN( in_unmatched ); VF_IN( in_final ); VF_IN( in_head );
    VF_IN( in_size ); VF_IN( in_ofs ); VF_IN( in_tot ); VF_IN( in_max ); VF_IN( in_vmax ); VF_IN( in_ptot ); VF_IN( in_pofs ); VF_IN( in_pmax );
    VF_IN( in_val ); VF_IN( in_neg ); VF_IN( in_known );
    VF_ASSUME( in_union <= 1 && in_named <= 1 && in_type <= 1 && in_org <= 1 && in_old <= 1 && in_pass <= 2 && in_nested <= 1 && in_dup <= 1 && in_i <= 1 && in_unmatched <= 1 && in_final <= 1 && in_head <= 1 && in_known <= 1 );
    VF_ASSUME( in_align == 1 || in_align == 2 || in_align == 4 || in_align == 8 || in_align == 16 || in_align == 32 );
    VF_ASSUME( in_tkind <= TYPE_RECORD );
    VF_ASSUME( in_size < 0x10000000 && in_ofs < 0x10000000 && in_tot < 0x20000000 && in_max < 0x10000000 && in_vmax < 0x10000000 && in_ptot < 0x10000000 && in_pofs < 0x10000000 && in_pmax < 0x10000000 );
    VF_ASSUME( in_neg > -0x10000000 && in_neg < 0x10000000 );
    memset( &vf, 0, sizeof vf ); memset( &ModuleInfo, 0, sizeof ModuleInfo );
    S = P = T = Zd; Si = Pi = Ti = Zs; F0 = FN = Zf; gs = Za; ed = Zd; Ei = Zs; ed.e.structinfo = &Ei; memset( tok, 0, sizeof tok );
    redef_struct = NULL;
    SymCmpFunc = vf_cmp;
    Parse_Pass = in_pass;
    ModuleInfo.oldstructs = in_old;
    nm[0] = 'x'; nm[1] = 0;
    S.e.structinfo = &Si; P.e.structinfo = &Pi; T.e.structinfo = &Ti;
    S.sym.name = nm; P.sym.name = nm; T.sym.name = nm; es.name = nm; F0.sym.name = nm; gs.name = nm;
    S.sym.state = P.sym.state = SYM_TYPE;
    S.sym.typekind = in_union ? TYPE_UNION : TYPE_STRUCT;
    S.sym.offset = in_ofs; S.sym.total_size = in_tot; S.sym.max_mbr_size = in_max;
    Si.alignment = in_align; Si.isOpen = 1;
    if ( in_head ) { Si.head = Si.tail = &F0; }
    P.sym.typekind = in_union ? TYPE_UNION : TYPE_STRUCT; P.sym.offset = in_pofs; P.sym.total_size = in_ptot; P.sym.max_mbr_size = in_pmax;
    T.sym.typekind = in_tkind; T.sym.max_mbr_size = in_vmax;
    S.next = in_nested ? &P : NULL;
    CurrStruct = &S;
}
#if defined P_ENDS
/* @proof struct_ends props=C17 harness=h_ends enforce=EndstructDirective replace=CreateStructField defs=P_ENDS unwind=24 solver=cadical under=UpdateStructSize */
void h_ends( void )
{
    int rc;
    setup();
    VF_ASSUME( in_i || in_pass <= 2 );
    Si.OrgInside = in_org; F0.sym.offset = in_neg;
    tok[0].string_ptr = tok[1].string_ptr = tok[2].string_ptr = nm;
    tok[in_i ? 2 : 1].token = tok[1].token = tok[2].token = in_final ? T_FINAL : T_COMMA;
    rc = EndstructDirective( in_i, tok );
    VF_POST( post_ends( rc ), "structure closed" );
    VF_REACH( "end" );
    if ( vf.created ) VF_REACH( "nested" );
}
#elif defined SD
/* @proof struct_dir props=C17 harness=h_struct enforce=StructDirective replace=SearchNameInStruct defs=SD=StructDirective,NEST=0 unwind=24 solver=cadical */
/* @proof struct_cdir props=C17 harness=h_struct enforce=CStructDirective replace=SearchNameInStruct defs=SD=CStructDirective,NEST=0 unwind=24 solver=cadical */
/* @proof struct_rdir props=C17 harness=h_struct enforce=RAWStructDirective replace=SearchNameInStruct defs=SD=RAWStructDirective,NEST=0 unwind=24 solver=cadical */
/* @proof struct_mdir props=C17 harness=h_struct enforce=COMStructDirective replace=SearchNameInStruct defs=SD=COMStructDirective,NEST=0 unwind=24 solver=cadical */
void h_struct( void )
{
    int rc;
    setup();
    VF_IN( in_arg ); VF_IN( in_v64 ); VF_IN( in_evok ); VF_IN( in_ekind ); VF_IN( in_fieldalign ); VF_IN( in_curr );
    VF_ASSUME( in_arg <= 1 && in_evok <= 1 && in_ekind <= EXPR_REG && in_fieldalign <= 5 && in_curr <= 1 && (uint_64)( in_v64 + 0x80000000 ) < 0x100000000 );
    VF_ASSUME( in_curr == NEST ); in_curr = NEST;
    Parse_Pass = PASS_1; in_pass = PASS_1;
    ModuleInfo.fieldalign = in_fieldalign;
    P.next = NULL; Pi.alignment = in_align;
    CurrStruct = in_curr ? &P : NULL;
    es.state = SYM_INTERNAL; es.offset = 0;
    tok[0].string_ptr = tok[1].string_ptr = tok[2].string_ptr = tok[3].string_ptr = nm;
    tok[0].tokpos = tok[1].tokpos = tok[2].tokpos = tok[3].tokpos = nm;
    tok[3].token = in_final ? T_FINAL : T_COLON;
    if ( in_curr ) {
        tok[0].tokval = in_union ? T_UNION : T_STRUCT;
        tok[1].token = in_named ? T_ID : tok[3].token; tok[2].token = tok[3].token;
    } else {
        tok[1].tokval = in_union ? T_UNION : T_STRUCT;
        tok[2].token = in_arg ? T_NUM : tok[3].token;
        VF_ASSUME( in_arg || in_final );
        VF_ASSUME( !in_arg || in_evok || 1 );
        if ( in_arg && !in_evok ) VF_ASSUME( 0 );   /* EvalOperand diagnoses */
    }
    rc = SD( in_curr ? 0 : 1, tok );
    VF_POST( post_struct( rc ), "structure opened" );
    VF_REACH( "end" );
    if ( CurrStruct == &T ) VF_REACH( "opened" );
    if ( rc == ERROR ) VF_REACH( "error" );
}
#elif defined P_RECORD
/* @proof record1 props=C17 harness=h_record enforce=RecordDirective defs=P_RECORD,NF=1 unwind=24 solver=cadical bounded=records_of_1_field */
/* @proof record2 props=C17 harness=h_record enforce=RecordDirective defs=P_RECORD,NF=2 unwind=24 solver=cadical bounded=records_of_2_fields */
/* @proof record3 props=C17 harness=h_record enforce=RecordDirective defs=P_RECORD,NF=3,GOOD unwind=24 solver=cadical bounded=records_of_3_fields */
void h_record( void )
{
    int rc, k;
    setup();
    VF_IN_ARR( in_w, 3 ); in_nf = NF;
# ifdef GOOD
    VF_ASSUME( in_w[0] > 0 && in_w[1] > 0 && in_w[2] > 0 && in_w[0] <= 128 && in_w[1] <= 128 && in_w[2] <= 128 && in_w[0] + in_w[1] + in_w[2] <= 128 );
# endif
    VF_ASSUME( !in_known ); in_known = 0;
    Parse_Pass = PASS_1; ModuleInfo.oldstructs = 0;
    memset( R, 0, sizeof R );
    for ( k = 0; k < 20; k++ ) { tok[k].string_ptr = nm; tok[k].tokpos = nm; }
    for ( k = 0; k < NF; k++ ) {
        tok[2 + 4 * k].token = T_ID; tok[3 + 4 * k].token = T_COLON; tok[4 + 4 * k].token = T_NUM; tok[5 + 4 * k].token = T_COMMA;
    }
    tok[1 + 4 * NF].token = T_FINAL; Token_Count = 1 + 4 * NF;
    rc = RecordDirective( 1, tok );
    VF_POST( post_record( rc ), "record fields packed" );
    VF_REACH( "end" );
# ifndef GOOD
    if ( vf.err ) VF_REACH( "diagnosed" );
# endif
    if ( R[NF-1].sym.total_size == 60 ) VF_REACH( "all fields" );
}
#else
/* @proof struct_field props=C17 harness=h_field enforce=CreateStructField replace=SearchNameInStruct,CheckAnonymousStruct unwind=24 solver=cadical */
void h_field( void )
{
    struct asym *r;
    setup();
    Parse_Pass = PASS_1;
    /* the current offset of a union stays 0, a structure is at least as large as its offset */
    VF_ASSUME( in_ofs <= in_tot && ( !in_union || in_ofs == 0 ) );
    r = CreateStructField( -1, NULL, in_named ? nm : NULL, in_type ? MT_TYPE : MT_BYTE, in_type ? &T.sym : NULL, in_size );
    VF_POST( post_field( r ), "field placed" );
    VF_REACH( "end" );
    if ( r && S.sym.offset > in_ofs ) VF_REACH( "aligned" );
}
/* @proof struct_update props=C17 harness=h_update enforce=UpdateStructSize unwind=24 solver=cadical */
void h_update( void )
{
    setup();
    FN.sym.total_size = in_size;
    UpdateStructSize( &FN.sym );
    VF_POST( post_update(), "structure grows by the field" );
    VF_REACH( "end" );
}
/* @proof align_struct props=C05,C17 harness=h_alignin enforce=AlignInStruct unwind=24 solver=cadical */
void h_alignin( void )
{
    int rc;
    setup();
    VF_ASSUME( p2( in_size ) );
    rc = AlignInStruct( in_size );
    VF_POST( post_alignin( rc ), "ALIGN inside a structure" );
    VF_REACH( "end" );
}
/* @proof org_struct props=C05,C17 harness=h_orgin enforce=SetStructCurrentOffset unwind=24 solver=cadical */
void h_orgin( void )
{
    int rc;
    setup();
    rc = SetStructCurrentOffset( in_val );
    VF_POST( post_orgin( rc ), "ORG inside a structure" );
    VF_REACH( "end" );
}
#endif
