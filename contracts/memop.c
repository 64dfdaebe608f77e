/* Contracts for memory operands (parser.c: process_address, memory_operand,
 * set_rm_sib, seg_override, segm_override; codegen.c: output_data).
 */
#include <string.h>
#include "globals.h"
#include "parser.h"
#include "fixup.h"
#include "expreval.h"
#include "segment.h"
#include "codegen.h"
#include "assume.h"
#include "vf.h"

/* ------------------------------------------------------------- ghost state */
uint_8   in_of;                 /* 16/32/64-bit code                          */
uint_8   in_base, in_idx;       /* registers: index into R[], 0 = none         */
uint_8   in_scale;
uint_8   in_kind;               /* see K_xxx                                   */
uint_8   in_ovr;                /* segment register prefix: 0=none, 1+ES,CS,SS,DS,FS,GS */
uint_8   in_asm;                /* segment register ASSUME finds for the symbol */
uint_8   in_symof;              /* offset size of the symbol                   */
uint_8   in_opnd;               /* first/second operand                        */
uint_8   in_lea, in_cpu, in_pass, in_mt, in_rm;
int_64   in_value;              /* displacement                                */
struct vf_log { int errcnt, warncnt, fixcnt, fixtype; struct asym *fixsym; } vf;

#define K_IND   0               /* [reg...+disp]                                */
#define K_STACK 1               /* the same, LOCAL or parameter                 */
#define K_LAB   2               /* label[reg...]                                */
#define K_DLAB  3               /* label                                        */
#define K_DIR   4               /* seg:[disp]                                   */

struct module_info ModuleInfo;
struct global_options Options;
unsigned int Parse_Pass;
struct assume_info SegAssumeTable[NUM_SEGREGS];
struct assume_info StdAssumeTable[16];
enum fixup_types dummy_ft;
static struct asym vf_sym;
static struct fixup vf_fix;
static struct fixup *vf_fixp;
static struct code_info *vf_ci;
static struct format_options vf_fmt;
static struct asm_tok bt, it, ot;

#define EmitErr( msg, ... ) vf_emiterr( msg )
static int vf_emiterr( int msg ) { vf.errcnt++; return( ERROR ); }                         /* @stub EmitErr: records that a diagnostic was issued */
int EmitError( int msg ) { vf.errcnt++; return( ERROR ); }                                  /* @stub EmitError */
ret_code EmitConstError( const struct expr *o ) { vf.errcnt++; return( ERROR ); }           /* @stub EmitConstError */
#define EmitWarn( lvl, msg, ... ) vf_emitwarn()
static void vf_emitwarn( void ) { vf.warncnt++; }                                           /* @stub EmitWarn */
struct fixup *CreateFixup( struct asym *sym, enum fixup_types t, enum fixup_options o )      /* @stub CreateFixup: records its arguments */
{
    vf.fixcnt++; vf.fixsym = sym; vf_fix.type = t; vf_fix.sym = sym;
    return &vf_fix;
}
void SetFixupFrame( const struct asym *sym, char ign ) { }                                  /* @stub SetFixupFrame: contract in fixup.c */
struct asym *GetOverrideAssume( enum assume_segreg r ) { return NULL; }                      /* @stub GetOverrideAssume: no segment assumed */
enum assume_segreg GetAssume( const struct asym *o, const struct asym *s, enum assume_segreg d, struct asym **a ) { *a = NULL; return in_asm; } /* @stub GetAssume: any segment register */
int GetSymOfssize( const struct asym *sym ) { return in_symof; }                             /* @stub GetSymOfssize: any offset size */

/* ------------------------------------------------------------ specification */
static const struct { unsigned short tok; unsigned char size, num; } R[] = {
 { 0, 0, 0 },
 { T_BX, 16, 3 }, { T_BP, 16, 5 }, { T_SI, 16, 6 }, { T_DI, 16, 7 },
 { T_EAX, 32, 0 }, { T_ECX, 32, 1 }, { T_EDX, 32, 2 }, { T_EBX, 32, 3 }, { T_ESP, 32, 4 }, { T_EBP, 32, 5 }, { T_ESI, 32, 6 }, { T_EDI, 32, 7 },
 { T_R8D, 32, 8 }, { T_R9D, 32, 9 }, { T_R10D, 32, 10 }, { T_R11D, 32, 11 }, { T_R12D, 32, 12 }, { T_R13D, 32, 13 }, { T_R14D, 32, 14 }, { T_R15D, 32, 15 },
 { T_RAX, 64, 0 }, { T_RCX, 64, 1 }, { T_RDX, 64, 2 }, { T_RBX, 64, 3 }, { T_RSP, 64, 4 }, { T_RBP, 64, 5 }, { T_RSI, 64, 6 }, { T_RDI, 64, 7 },
 { T_R8, 64, 8 }, { T_R9, 64, 9 }, { T_R10, 64, 10 }, { T_R11, 64, 11 }, { T_R12, 64, 12 }, { T_R13, 64, 13 }, { T_R14, 64, 14 }, { T_R15, 64, 15 },
 { T_RIP, 64, 99 } };
#define NR ( sizeof R / sizeof R[0] )
#define BSZ R[in_base].size
#define ISZ R[in_idx].size
#define BNO R[in_base].num
#define INO R[in_idx].num

/* what ModRM, SIB, REX and the address size mean (Intel SDM vol. 2, tables 2-1, 2-2, 2-3 and section 2.2.1) */
struct dec { int ok, as, base, idx, scale, dsize, rip; };     /* registers: -1 = none */
static int asize( int of, int a67 ) { return of == USE16 ? ( a67 ? 32 : 16 ) : of == USE32 ? ( a67 ? 16 : 32 ) : a67 ? 32 : 64; }
static struct dec decode( int of, int a67, int modrm, int sib, int B, int X )
{
    struct dec D;
    int mod = ( modrm >> 6 ) & 3, rm = modrm & 7;
    D.ok = 1; D.as = asize( of, a67 ); D.base = D.idx = -1; D.scale = 1; D.dsize = 0; D.rip = 0;
    if ( mod == 3 ) { D.ok = 0; return D; }
    if ( D.as == 16 ) {
        static const signed char b[8] = { 3, 3, 5, 5, -1, -1, 5, 3 }, i[8] = { 6, 7, 6, 7, 6, 7, -1, -1 };
        D.base = b[rm]; D.idx = i[rm];
        D.dsize = mod == 1 ? 1 : mod == 2 ? 2 : 0;
        if ( mod == 0 && rm == 6 ) { D.base = -1; D.dsize = 2; }
        return D;
    }
    D.dsize = mod == 1 ? 1 : mod == 2 ? 4 : 0;
    if ( rm != 4 ) {
        D.base = rm + ( B ? 8 : 0 );
        if ( mod == 0 && rm == 5 ) { D.base = -1; D.dsize = 4; D.rip = of == USE64; }
        return D;
    }
    D.base = ( sib & 7 ) + ( B ? 8 : 0 );
    D.idx = ( ( sib >> 3 ) & 7 ) + ( X ? 8 : 0 );
    D.scale = 1 << ( ( sib >> 6 ) & 3 );
    if ( D.idx == 4 ) { D.idx = -1; D.scale = 1; }
    if ( ( sib & 7 ) == 5 && mod == 0 ) { D.base = -1; D.dsize = 4; }
    return D;
}
static int is16( int n, int a, int b ) { return n == a || n == b; }
static int direct( void ) { return !in_base && !in_idx; }
static int isfix( void ) { return in_kind == K_LAB || in_kind == K_DLAB; }
static int isrip( void ) { return R[in_base].tok == T_RIP; }
static int scl( void ) { return in_scale ? in_scale : 1; }
static int rsz( void ) { return in_base ? BSZ : in_idx ? ISZ : 0; }
/* does the processor have this combination of registers? */
static int encodable( void )
{
    int sz = rsz();
    if ( direct() ) return 1;
    if ( in_base && in_idx && BSZ != ISZ ) return 0;
    if ( sz == 16 ) {
        if ( in_of == USE64 || in_scale ) return 0;
        if ( in_base && in_idx ) return is16( BNO, 3, 5 ) != is16( INO, 3, 5 );
        return in_base != 0;
    }
    if ( sz == 64 && in_of != USE64 ) return 0;
    if ( in_cpu < 3 ) return 0;
    if ( isrip() ) return in_of == USE64 && in_idx == 0;
    if ( in_idx ) { if ( INO == 4 || R[in_idx].tok == T_RIP ) return 0; if ( in_scale != 0 && in_scale != 1 && in_scale != 2 && in_scale != 4 && in_scale != 8 ) return 0; }
    return 1;
}
static int dispok( void )
{
    int as = rsz();
    if ( in_of != USE64 || as == 0 ) return 1;
    if ( as == 32 ) return in_value == (int_32)in_value || in_value == (uint_32)in_value;
    return in_value == (int_32)in_value;                           /* sign-extended to 64 bits */
}
/* default segment of the addressing form (1+register): SS if the base is [E|R]BP or [E|R]SP */
static int defseg( struct dec D )
{
    if ( D.as == 16 ) return D.base == 5 ? 3 : 4;
    return D.base == 4 || D.base == 5 ? 3 : 4;
}
static struct dec decci( const struct code_info *ci )
{
    int modrm = ci->rm_byte, B = ( ci->prefix.rex & REX_B ) != 0, X = ( ci->prefix.rex & REX_X ) != 0;
    if ( in_opnd == OPND2 ) { modrm = ( modrm & 0xc0 ) | ( ( modrm >> 3 ) & 7 ); B = ( ci->prefix.rex & REX_R ) != 0; }
    return decode( in_of, ci->prefix.adrsiz && ci->basereg != 0x10, modrm, ci->sib, B, X );
}
static int post_form( const struct code_info *ci, ret_code rc )
{
    struct dec D = decci( ci );
    int b = in_base && !isrip() ? BNO : -1, i = in_idx ? INO : -1, t;
    if ( rc != NOT_ERROR || vf.errcnt ) return 1;
    if ( !D.ok ) return 0;
    if ( rsz() && D.as != rsz() ) return 0;
    if ( D.scale != ( in_idx ? scl() : 1 ) ) return 0;
    if ( D.as == 16 && is16( i, 3, 5 ) ) { t = b; b = i; i = t; }
    if ( D.as == 16 && is16( b, 6, 7 ) ) { t = b; b = i; i = t; }
    if ( D.base != b || D.idx != i ) return 0;
    return !isrip() || D.rip;
}
/* the displacement field can hold the displacement */
static int post_disp( const struct code_info *ci, ret_code rc )
{
    int_64 v = in_value;
    struct dec D = decci( ci );
    if ( rc != NOT_ERROR || vf.errcnt ) return 1;
    if ( (int_64)ci->opnd[in_opnd].data64 != v ) return 0;
    if ( isfix() ) {
        if ( vf.fixcnt != 1 || ci->opnd[in_opnd].InsFixup != vf_fixp || vf.fixsym != &vf_sym ) return 0;
        if ( D.dsize == 2 ) return vf_fix.type == FIX_OFF16;
        if ( D.dsize != 4 ) return 0;
        return vf_fix.type == ( D.rip ? FIX_RELOFF32 : FIX_OFF32 );
    }
    if ( vf.fixcnt || ci->opnd[in_opnd].InsFixup ) return 0;
    switch ( D.dsize ) {
    case 0: return D.as == 16 ? (int_16)v == 0 : (int_32)v == 0;
    case 1: return D.as == 16 ? (int_16)v == (int_8)v : (int_32)v == (int_8)v;
    }
    return 1;
}
/* the operand is accessed through the requested segment */
static int post_seg( const struct code_info *ci, ret_code rc )
{
    int eff, want;
    struct dec D = decci( ci );
    if ( rc != NOT_ERROR || vf.errcnt || in_lea ) return 1;
    eff = ci->prefix.RegOverride == EMPTY ? defseg( D ) : ci->prefix.RegOverride + 1;
    if ( in_ovr ) want = in_ovr;
    else if ( in_kind == K_IND || in_asm == (uint_8)ASSUME_NOTHING ) want = defseg( D );
    else want = in_asm + 1;
    if ( in_of == USE64 && want <= 4 && eff <= 4 ) return 1;        /* ES, CS, SS and DS have base 0 */
    return eff == want;
}
/* diagnosed exactly when the processor has no such address */
static int post_err( ret_code rc )
{
    int ok = rc == NOT_ERROR && vf.errcnt == 0;
    if ( !encodable() || !dispok() ) return !ok;
    if ( in_of == USE64 && in_ovr && in_ovr <= 4 ) return !ok;
    return ok || rsz() == 0;
}

#ifdef P_ADDR
extern struct asym *SegOverride;
static enum assume_segreg LastRegOverride;
static ret_code process_address( struct code_info *CodeInfo, unsigned CurrOpnd, struct expr *opndx );
# ifdef VF_CBMC
static ret_code process_address( struct code_info *CodeInfo, unsigned CurrOpnd, struct expr *opndx )
REQUIRES( CodeInfo == vf_ci && vf.errcnt == 0 )
ENSURES( post_form( CodeInfo, __CPROVER_return_value ) )
ENSURES( post_disp( CodeInfo, __CPROVER_return_value ) )
ENSURES( post_seg( CodeInfo, __CPROVER_return_value ) )
ENSURES( post_err( __CPROVER_return_value ) )
ASSIGNS( OBJ( CodeInfo ), OBJ( opndx ), OBJ( &vf ), OBJ( &vf_fix ), SegOverride, LastRegOverride )
;
# endif
#include "/repo/parser.c"

static struct code_info ci;
static struct expr ox;
static struct instr_item II;
# ifdef VF_CBMC
int SizeFromRegister( int registertoken )
REQUIRES( in_base >= 1 && in_base < NR && registertoken == R[in_base].tok )
ENSURES( __CPROVER_return_value == R[in_base].size / 8 )
ASSIGNS()
;
# endif
/* @proof memop_regsize props=C13 harness=h_regsize enforce=SizeFromRegister defs=P_ADDR,CASE=1 link=reswords.c unwind=26 solver=cadical */
void h_regsize( void )
{
    int n;
    VF_IN( in_base );
    VF_ASSUME( in_base >= 1 && in_base < NR );
    memset( &ModuleInfo, 0, sizeof ModuleInfo ); ModuleInfo.Ofssize = USE64;
    n = SizeFromRegister( R[in_base].tok );
    VF_POST( n == R[in_base].size / 8, "size of a general purpose register" );
    VF_REACH( "end" );
}
/* @proof memop_addr props=C13 harness=h_addr enforce=process_address defs=P_ADDR,CASE=0 link=reswords.c unwind=26 solver=cadical */
void h_addr( void )
{
    ret_code rc;
    VF_IN( in_of ); VF_IN( in_base ); VF_IN( in_idx ); VF_IN( in_scale ); VF_IN( in_kind ); VF_IN( in_ovr ); VF_IN( in_asm ); VF_IN( in_symof );
    VF_IN( in_opnd ); VF_IN( in_lea ); VF_IN( in_cpu ); VF_IN( in_pass ); VF_IN( in_rm ); VF_IN( in_value );
    VF_ASSUME( in_of <= USE64 && in_base < NR && in_idx < NR && in_kind <= K_DIR && in_ovr <= 6 && in_asm <= ASSUME_GS && in_symof <= USE64 && in_opnd <= OPND2 && in_lea <= 1 && in_cpu <= 6 && in_pass <= 2 );
    VF_ASSUME( in_of == USE16 || in_cpu >= 3 );
    VF_ASSUME( in_of == USE64 || ( ( !in_base || ( R[in_base].size < 64 && R[in_base].num < 8 ) ) && ( !in_idx || ( R[in_idx].size < 64 && R[in_idx].num < 8 ) ) ) );   /* the tokenizer knows the registers of the mode only */
    VF_ASSUME( in_cpu >= 3 || ( R[in_base].size <= 16 && R[in_idx].size <= 16 ) );
    VF_ASSUME( ( in_kind >= K_DLAB ) == ( !in_base && !in_idx ) );
    VF_ASSUME( in_idx ? in_base || in_scale : in_scale == 0 );                     /* a lone register without scale is the base */
    VF_ASSUME( in_kind != K_DIR || in_ovr );
    VF_ASSUME( ( in_of == USE64 ) == ( in_symof == USE64 ) );                       /* 64-bit segments aren't mixed with others */
    memset( &ModuleInfo, 0, sizeof ModuleInfo ); memset( &Options, 0, sizeof Options ); memset( &vf, 0, sizeof vf );
    memset( &ci, 0, sizeof ci ); memset( &ox, 0, sizeof ox ); memset( &vf_sym, 0, sizeof vf_sym ); memset( &vf_fix, 0, sizeof vf_fix );
    memset( SegAssumeTable, 0, sizeof SegAssumeTable ); memset( StdAssumeTable, 0, sizeof StdAssumeTable ); memset( &II, 0, sizeof II );
    vf_ci = &ci; vf_fixp = &vf_fix; SegOverride = NULL;
    ModuleInfo.curr_cpu = in_cpu << 4; ModuleInfo.Ofssize = in_of; ModuleInfo.defOfssize = in_of; Parse_Pass = in_pass;
    ci.token = in_lea ? T_LEA : T_MOV; ci.pinstr = &II; ci.Ofssize = in_of; ci.mem_type = MT_EMPTY; ci.prefix.ins = EMPTY; ci.prefix.RegOverride = EMPTY; ci.rm_byte = in_opnd == OPND2 ? in_rm & 7 : 0; ci.basereg = ci.indexreg = 0xff;
    bt.token = it.token = ot.token = T_REG; bt.tokval = R[in_base].tok; it.tokval = R[in_idx].tok;
    { static const unsigned short sr[] = { T_ES, T_CS, T_SS, T_DS, T_FS, T_GS }; if ( in_ovr ) ot.tokval = sr[in_ovr-1]; }
    vf_sym.name = ""; vf_sym.mem_type = MT_DWORD; vf_sym.state = in_kind == K_STACK ? SYM_STACK : SYM_INTERNAL;
    ox.kind = EXPR_ADDR; ox.value64 = in_value; ox.base_reg = in_base ? &bt : NULL; ox.idx_reg = in_idx ? &it : NULL; ox.override = in_ovr ? &ot : NULL; ox.instr = EMPTY;
    ox.mem_type = MT_DWORD; ox.scale = in_scale; ox.Ofssize = USE_EMPTY; ox.indirect = in_kind <= K_LAB; ox.sym = in_kind == K_IND || in_kind == K_DIR ? NULL : &vf_sym;
    rc = process_address( &ci, in_opnd, &ox );
    VF_POST( post_form( &ci, rc ), "base, index and scale of a memory operand" );
    VF_POST( post_disp( &ci, rc ), "displacement field of a memory operand" );
    VF_POST( post_seg( &ci, rc ), "segment of a memory operand" );
    VF_POST( post_err( rc ), "addresses that don't exist are diagnosed, others are not" );
    if ( rc == NOT_ERROR && !vf.errcnt ) VF_REACH( "ok" );
    if ( vf.errcnt ) VF_REACH( "error" );
}
#endif


#ifdef P_OPC
/* --- codegen.c: the bytes of an instruction with a memory operand --- */
uint_8 in_a67, in_o66, in_modrm, in_sib, in_rex, in_dir, in_opc, in_b1, in_breg, in_det;
static struct instr_item II;
struct vf_bytes { int n, fix; uint_8 b[24]; } vb;
static int vf_prefix( uint_8 c ) { return c == 0x66 || c == 0x67 || c == 0x26 || c == 0x2e || c == 0x36 || c == 0x3e || c == 0x64 || c == 0x65 || c == 0xf2 || c == 0xf3; }
/* what the processor finds in front of the displacement */
struct ins { int a67, seg, rex, esc, opc, modrm, sib, len; };
static struct ins fetch( void )
{
    struct ins I;
    int k;
    I.a67 = I.seg = I.rex = 0; I.sib = -1; I.esc = 0;
    for ( k = 0; k < 8 && vf_prefix( vb.b[k] ); k++ )
        switch ( vb.b[k] ) {
        case 0x67: I.a67 = 1; break;
        case 0x26: I.seg = 1; break;
        case 0x2e: I.seg = 2; break;
        case 0x36: I.seg = 3; break;
        case 0x3e: I.seg = 4; break;
        case 0x64: I.seg = 5; break;
        case 0x65: I.seg = 6; break;
        }
    if ( in_of == USE64 && ( vb.b[k] & 0xf0 ) == 0x40 ) I.rex = vb.b[k++] & 15;
    if ( vb.b[k] == 0x0f ) { I.esc = 1; k++; if ( vb.b[k] == 0x38 ) { I.esc = 2; k++; } else if ( vb.b[k] == 0x3a ) { I.esc = 3; k++; } }
    I.opc = vb.b[k++]; I.modrm = vb.b[k++];
    if ( asize( in_of, I.a67 ) != 16 && ( I.modrm & 7 ) == 4 && ( I.modrm & 0xc0 ) != 0xc0 ) I.sib = vb.b[k++];
    I.len = k;
    return I;
}
static int post_bytes( void )
{
    struct ins I = fetch();
    int modrm = in_modrm, rex = in_rex;
    if ( vf.errcnt ) return 1;
    if ( in_dir ) { modrm = ( modrm & 0xc0 ) | ( ( modrm >> 3 ) & 7 ) | ( ( modrm & 7 ) << 3 ); rex = ( rex & 10 ) | ( ( rex & 4 ) >> 2 ) | ( ( rex & 1 ) << 2 ); }
    return I.a67 == ( in_a67 && in_breg != 0x10 ) && I.seg == in_ovr && I.rex == rex && I.opc == ( in_opc | 0 ) && I.modrm == modrm && ( I.sib == -1 || I.sib == in_sib ) && I.len == vb.n;
}
/* the number of displacement bytes that the ModRM and SIB bytes announce */
static int post_dbytes( void )
{
    struct dec D = decode( in_of, in_a67 && in_breg != 0x10, in_modrm, in_sib, 0, 0 );
    int k;
    if ( vf.errcnt ) return in_of == USE64 && D.dsize == 4 && ( in_modrm & 0xc0 ) == 0 && in_value != (int_32)in_value;
    if ( vb.n != D.dsize ) return 0;
    for ( k = 0; k < 4; k++ ) if ( k < D.dsize && vb.b[k] != (uint_8)( (uint_64)in_value >> ( 8 * k ) ) ) return 0;
    return vb.fix == ( in_kind == K_LAB && D.dsize > 0 && write_to_file );
}
uint_8 in_wtf, in_tok;
bool write_to_file;
uint_32 GetCurrOffset( void ) { return 0; }
void OutputByte( unsigned char c ) { if ( vb.n < 24 ) vb.b[vb.n] = c; vb.n++; }               /* @stub OutputByte: records the byte */
void OutputBytes( const unsigned char *p, int n, struct fixup *f )                             /* @stub OutputBytes: records the bytes */
{
    int k;
    for ( k = 0; k < 8; k++ ) if ( k < n ) OutputByte( p[k] );
    if ( f ) vb.fix = n;
    if ( f ) vb.fix = 1;
}
static void output_opc( struct code_info *CodeInfo );
static void output_data( const struct code_info *CodeInfo, enum operand_type determinant, int index );
# ifdef VF_CBMC
static void output_opc( struct code_info *CodeInfo )
REQUIRES( CodeInfo == vf_ci && vf.errcnt == 0 && vb.n == 0 )
ENSURES( post_bytes() )
ASSIGNS( OBJ( CodeInfo ), OBJ( &vf ), OBJ( &vb ) )
;
static void output_data( const struct code_info *CodeInfo, enum operand_type determinant, int index )
REQUIRES( CodeInfo == vf_ci && vf.errcnt == 0 && vb.n == 0 )
ENSURES( post_dbytes() )
ASSIGNS( OBJ( &vf ), OBJ( &vb ), OBJ( &vf_fix ) )
;
# endif
#include "/repo/codegen.c"
static struct code_info ci;
static void setup( void )
{
    memset( &ModuleInfo, 0, sizeof ModuleInfo ); memset( &Options, 0, sizeof Options ); memset( &vf, 0, sizeof vf ); memset( &vb, 0, sizeof vb );
    memset( &ci, 0, sizeof ci ); memset( &II, 0, sizeof II ); memset( &vf_fix, 0, sizeof vf_fix );
    evex = evexflag = decoflags = broadflags = 0;
    ModuleInfo.curr_cpu = 0x7f; ModuleInfo.Ofssize = in_of; vf_ci = &ci; ci.pinstr = &II; ci.Ofssize = in_of; ci.mem_type = MT_EMPTY; ci.prefix.ins = EMPTY;
    ci.prefix.RegOverride = in_ovr ? in_ovr - 1 : EMPTY; ci.prefix.adrsiz = in_a67; ci.rm_byte = in_modrm; ci.sib = in_sib; ci.prefix.rex = in_rex;
    ci.reg1 = ci.reg2 = ci.reg3 = ci.indexreg = 0xff; ci.basereg = in_breg; ci.basetype = 0xff;
}
/* @proof memop_opc props=C13 harness=h_opc enforce=output_opc defs=P_OPC,CASE=0 link=reswords.c unwind=26 solver=cadical */
void h_opc( void )
{
    VF_IN( in_of ); VF_IN( in_a67 ); VF_IN( in_o66 ); VF_IN( in_ovr ); VF_IN( in_modrm ); VF_IN( in_sib ); VF_IN( in_rex ); VF_IN( in_dir ); VF_IN( in_opc ); VF_IN( in_b1 ); VF_IN( in_breg );
    VF_ASSUME( in_of <= USE64 && in_a67 <= 1 && in_o66 <= 1 && in_ovr <= 6 && ( in_modrm & 0xc0 ) != 0xc0 && in_rex <= 15 && ( in_of == USE64 || !in_rex ) && in_dir <= 1 );
    VF_ASSUME( !in_dir || ( in_modrm & 0xc0 ) == 0 );
    VF_ASSUME( !vf_prefix( in_opc ) && ( in_opc & 0xf0 ) != 0x40 && in_opc != 0x0f && in_opc != 0x38 && in_opc != 0x3a );
    VF_ASSUME( in_b1 == 0 || in_b1 == F_16 || in_b1 == F_32 || ( in_b1 >= F_0F && in_b1 != F_0F0F && in_b1 != F_480F && in_b1 <= F_F20F38 ) );
    VF_ASSUME( in_breg != 0x10 || ( in_of == USE64 && in_modrm == 5 ) );
    setup();
    ci.token = T_ADD; ResWordTable[T_ADD].flags = 0; ci.prefix.opsiz = in_o66; II.opnd_dir = in_dir; II.opcode = in_opc; II.byte1_info = in_b1;
    output_opc( &ci );
    VF_POST( post_bytes(), "prefixes, opcode, ModRM and SIB bytes of an instruction" );
    if ( !vf.errcnt ) VF_REACH( "ok" );
}
/* @proof memop_data props=C13 harness=h_data enforce=output_data defs=P_OPC,CASE=1 link=reswords.c unwind=26 solver=cadical */
void h_data( void )
{
    int op;
    VF_IN( in_of ); VF_IN( in_a67 ); VF_IN( in_modrm ); VF_IN( in_sib ); VF_IN( in_breg ); VF_IN( in_value ); VF_IN( in_kind ); VF_IN( in_tok ); VF_IN( in_opnd ); VF_IN( in_pass ); VF_IN( in_wtf ); VF_IN( in_lea );
    VF_ASSUME( in_of <= USE64 && in_a67 <= 1 && ( in_modrm & 0xc0 ) != 0xc0 && ( in_kind == K_LAB || in_kind == K_IND ) && in_opnd <= OPND2 && in_pass <= 2 && in_wtf <= 1 && in_lea <= 1 );
    VF_ASSUME( in_breg != 0x10 || ( in_of == USE64 && in_modrm == 5 ) );
    VF_ASSUME( in_kind != K_LAB || decode( in_of, in_a67 && in_breg != 0x10, in_modrm, in_sib, 0, 0 ).dsize >= 2 );       /* a fixup needs a field: contract memop_addr */
    setup();
    { static const short t[] = { T_ADD, T_LEA, T_ANDN, T_BEXTR, T_BZHI, T_MULX, T_SHLX, T_VADDPS, T_VPSLLW, T_IMUL }; VF_ASSUME( in_tok < sizeof t / sizeof t[0] ); ci.token = t[in_tok]; }
    op = in_opnd; ci.opnd[op].type = OP_M32; ci.opnd[1-op].type = OP_R32; ci.opnd[op].data64 = in_value; II.opcode = 0x03; write_to_file = in_wtf; Parse_Pass = in_pass;
    II.byte1_info = F_0F;
    if ( in_kind == K_LAB ) { ci.opnd[op].InsFixup = &vf_fix; vf_fix.type = FIX_OFF32; }
    ModuleInfo.fmtopt = &vf_fmt;
    output_data( &ci, OP_M32, op );
    VF_POST( post_dbytes(), "displacement bytes of an instruction" );
    if ( !vf.errcnt ) VF_REACH( "ok" );
}
#endif
#ifdef P_V2
# undef EmitErr
# undef EmitWarn
int EmitErr( int msg, ... );
/* --- codegenv2.c: the table driven code generator (MOV, SSE and AVX instructions in 32- and 64-bit code) --- */
# include "codegenv2.h"
# define MemTable32 const MemTable32            /* the tables aren't modified: see the frame condition */
# define MemTable64 const MemTable64
# include "MemTable32.h"
# include "MemTable64.h"
# undef MemTable32
# undef MemTable64
uint_8 in_mem;                  /* the operand that is in memory              */
uint_8 in_size, in_elem, in_bcst, in_brd, in_evex, in_vex, in_abs, in_rexin;
struct vf_out2 { unsigned char modrm, sib, rex; bool nmodrm, nsib, B, X, RR; unsigned int dsize; uint_64 disp; } v2o;
static struct expr *vf_ox;
/* bytes of a displacement unit (disp8*N) */
static int unit( void ) { return !in_evex ? 1 : in_brd && !in_bcst ? in_size : in_size / in_elem; }
static struct dec dec2( int aso ) { return decode( in_of, aso, v2o.modrm, v2o.sib, v2o.B, v2o.X ); }
static int post2_form( int rc )
{
    struct dec D = dec2( rc );
    int b = in_base && !isrip() ? BNO : -1, i = in_idx ? INO : -1, t;
    if ( vf.errcnt ) return 1;
    if ( in_abs ) return rc == 0 && !v2o.nsib && v2o.modrm == 0 && v2o.rex == in_rexin && !v2o.B && !v2o.X;
    if ( !D.ok || !v2o.nmodrm ) return 0;
    if ( v2o.nsib != ( D.as != 16 && ( v2o.modrm & 7 ) == 4 ) ) return 0;
    if ( v2o.rex != ( in_vex ? in_rexin : ( in_rexin | ( v2o.B ? 0x41 : 0 ) | ( v2o.X ? 0x42 : 0 ) ) ) ) return 0;
    if ( rsz() && D.as != rsz() ) return 0;
    if ( D.scale != ( in_idx ? scl() : 1 ) ) return 0;
    if ( D.as == 16 && is16( i, 3, 5 ) ) { t = b; b = i; i = t; }
    if ( D.as == 16 && is16( b, 6, 7 ) ) { t = b; b = i; i = t; }
    if ( D.base != b || D.idx != i ) return 0;
    if ( in_of == USE64 && isfix() && !rsz() ) return D.rip;       /* what the fixup assumes */
    return D.rip == isrip();
}
static int post2_disp( int rc )
{
    struct dec D = dec2( rc );
    if ( vf.errcnt ) return 1;
    if ( in_abs ) return v2o.dsize == ( in_of == USE64 ? 8 : 4 ) && ( in_of == USE64 ? v2o.disp == (uint_64)in_value : (uint_32)v2o.disp == (uint_32)in_value );
    if ( v2o.dsize != D.dsize ) return 0;
    switch ( D.dsize ) {
    case 0: return !isfix() && ( D.as == 16 ? (uint_16)in_value == 0 : (uint_32)in_value == 0 );
    case 1: return !isfix() && ( D.as == 16 ? (uint_16)( (int_8)v2o.disp * unit() ) == (uint_16)in_value : (uint_32)( (int_8)v2o.disp * unit() ) == (uint_32)in_value );
    case 2: return D.as == 16 && (uint_16)v2o.disp == (uint_16)in_value;
    }
    if ( D.as == 64 && in_value != (int_32)in_value ) return 0;   /* sign-extended */
    return (uint_32)v2o.disp == (uint_32)in_value;
}
static int post2_err( void )
{
    if ( isfix() && in_of == USE64 && in_idx && !in_base ) return 1;
    if ( in_of == USE64 && !in_abs && rsz() != 32 && in_value != (int_32)in_value ) return vf.errcnt != 0;
    return vf.errcnt == 0;
}
static struct Instr_Def V2I;
int BuildMemoryEncoding( unsigned char *pmodRM, unsigned char *pSIB, unsigned char *pREX, bool *needModRM, bool *needSIB, unsigned int *dispSize, uint_64 *pDisp, struct Instr_Def *instr,
    struct expr opExpr[4], bool *needB, bool *needX, bool *needRR, struct code_info *CodeInfo )
REQUIRES( vf.errcnt == 0 && instr == &V2I && opExpr == vf_ox )
ENSURES( post2_form( __CPROVER_return_value ) )
ENSURES( post2_disp( __CPROVER_return_value ) )
ENSURES( post2_err() )
ASSIGNS( OBJ( &v2o ), OBJ( opExpr ), OBJ( &vf ) )
;
# define EmitErr( msg, ... ) vf_emiterr( msg )
# define EmitWarn( lvl, msg, ... ) vf_emitwarn()
int SizeFromRegister( int tok )                                                              /* @stub SizeFromRegister: contract memop_regsize */
{
    unsigned k;
    for ( k = 1; k < NR; k++ ) if ( R[k].tok == tok ) return R[k].size / 8;
    return 0;
}
int SizeFromMemtype( enum memtype m, int of, struct asym *t ) { return 4; }                  /* @stub SizeFromMemtype: the result isn't used */
# include "/repo/codegenv2.c"

static struct code_info ci;
static struct expr oxs[4];
/* @proof memop_v2 props=C13 harness=h_v2 enforce=BuildMemoryEncoding defs=P_V2 link=reswords.c unwind=44 solver=cadical */
void h_v2( void )
{
    int rc;
    struct expr *o;
    VF_IN( in_of ); VF_IN( in_base ); VF_IN( in_idx ); VF_IN( in_scale ); VF_IN( in_kind ); VF_IN( in_ovr ); VF_IN( in_value ); VF_IN( in_cpu );
    VF_IN( in_mem ); VF_IN( in_size ); VF_IN( in_elem ); VF_IN( in_bcst ); VF_IN( in_brd ); VF_IN( in_evex ); VF_IN( in_vex ); VF_IN( in_abs ); VF_IN( in_rexin );
    VF_ASSUME( ( in_of == USE32 || in_of == USE64 ) && in_base < NR && in_idx < NR && in_kind <= K_DIR && in_ovr <= 6 && in_cpu == 6 && in_mem <= 3 && in_abs <= 1 && in_evex <= 1 && in_vex <= 1 && in_brd <= 1 && in_bcst <= 1 );
    VF_ASSUME( in_of == USE64 || ( ( !in_base || ( R[in_base].size < 64 && R[in_base].num < 8 ) ) && ( !in_idx || ( R[in_idx].size < 64 && R[in_idx].num < 8 ) ) ) );
    VF_ASSUME( ( in_kind >= K_DLAB ) == ( !in_base && !in_idx ) );
    VF_ASSUME( in_idx ? in_base || in_scale : in_scale == 0 );
    VF_ASSUME( in_kind != K_DIR || in_ovr );
    VF_ASSUME( encodable() && dispok() );                                          /* process_address() has accepted it: contract memop_addr */
    VF_ASSUME( in_size >= 1 && in_size <= 64 && in_elem >= 1 && in_size % in_elem == 0 && ( !in_evex || in_vex ) );
    VF_ASSUME( !in_abs || ( in_kind == K_DIR && !in_evex ) || ( in_kind == K_DLAB && !in_evex ) );
    VF_ASSUME( !in_rexin || in_of == USE64 );
    memset( &ModuleInfo, 0, sizeof ModuleInfo ); memset( &Options, 0, sizeof Options ); memset( &vf, 0, sizeof vf ); memset( &v2o, 0, sizeof v2o );
    memset( &ci, 0, sizeof ci ); memset( oxs, 0, sizeof oxs ); memset( &vf_sym, 0, sizeof vf_sym ); memset( &V2I, 0, sizeof V2I );
    ModuleInfo.Ofssize = ModuleInfo.defOfssize = in_of; ci.Ofssize = in_of; ci.evex_flag = in_evex;
    MemTable = (struct Mem_Def *)( in_of == USE64 ? MemTable64 : MemTable32 );
    broadflags = in_bcst ? 0x10 : 0;
    V2I.memOpnd = in_abs ? MEM_ABS_0 + ( in_mem & 1 ) : in_mem; V2I.op_elements = in_elem; V2I.op_size = in_size; V2I.vexflags = in_vex ? VEX | EVEX : NO_VEX; V2I.evexflags = in_brd ? EVEX_BRD : NO_EVEX;
    bt.token = it.token = T_REG; bt.tokval = R[in_base].tok; it.tokval = R[in_idx].tok;
    vf_sym.name = ""; vf_sym.mem_type = MT_DWORD; vf_sym.state = in_kind == K_STACK ? SYM_STACK : SYM_INTERNAL;
    vf_ox = oxs; o = &oxs[V2I.memOpnd & 7];
    o->kind = EXPR_ADDR; o->value64 = in_value; o->base_reg = in_base ? &bt : NULL; o->idx_reg = in_idx ? &it : NULL; o->scale = in_scale; o->mem_type = MT_DWORD;
    o->indirect = in_kind <= K_LAB; o->sym = in_kind == K_IND || in_kind == K_DIR ? NULL : &vf_sym;
    v2o.rex = in_rexin;
    rc = BuildMemoryEncoding( &v2o.modrm, &v2o.sib, &v2o.rex, &v2o.nmodrm, &v2o.nsib, &v2o.dsize, &v2o.disp, &V2I, oxs, &v2o.B, &v2o.X, &v2o.RR, &ci );
    VF_POST( post2_form( rc ), "base, index and scale of a memory operand" );
    VF_POST( post2_disp( rc ), "displacement of a memory operand" );
    VF_POST( post2_err(), "addresses that don't exist are diagnosed, others are not" );
    if ( !vf.errcnt ) VF_REACH( "ok" );
    if ( vf.errcnt ) VF_REACH( "error" );
}
#endif
