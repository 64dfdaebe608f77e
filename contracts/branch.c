/* Contracts for the displacement of relative branches (branch.c: process_branch,
 * jumpExtend, FarCallToNear; backptch.c: DoPatch).
 */
#include <string.h>
#include "globals.h"
#include "parser.h"
#include "fixup.h"
#include "expreval.h"
#include "segment.h"
#include "codegen.h"
#include "assume.h"
#include "vf.h"

/* ------------------------------------------------------------- ghost state */
unsigned in_tok;                /* CALL, JMP, Jcc, JxCXZ, LOOPxx              */
uint_8   in_of;                 /* 16/32/64-bit code                          */
uint_8   in_ext;                /* type coercion: USE16/USE32/none            */
uint_8   in_expl, in_short;     /* NEAR PTR / SHORT                           */
uint_8   in_mt;                 /* type of the operand                        */
uint_8   in_symfar;             /* label is FAR                               */
uint_8   in_bnd, in_ljmp, in_weak, in_state, in_pass, in_lpass, in_cpu, in_flat, in_grp, in_symof;
int_32   in_value;              /* constant added to the label                */
int_32   in_off;                /* offset of the label                        */
uint_32  in_cur;                /* location counter                           */
struct vf_log {                 /* what the code under proof did */
    uint_8   out[4];
    unsigned nout;
    int      errcnt, errmsg, warncnt, fixcnt, framecnt, fixtype, fixopt;
    struct asym *fixsym;
} vf;
struct code_info *vf_ci;

struct module_info ModuleInfo;
struct global_options Options;
unsigned int Parse_Pass;
struct asym *SegOverride;
static struct asym vf_sym;
static struct dsym vf_seg, vf_seg2, vf_group;
static struct seg_info vf_si, vf_si2;
static struct fixup vf_fix;
static struct fixup *vf_fixp;
static struct asym *vf_symp;

/* ------------------------------------- environment (contracts as C bodies) */
uint_32 GetCurrOffset( void ) { return in_cur + vf.nout; }        /* @stub location counter: advances with each byte written */
void OutputByte( unsigned char b ) { if ( vf.nout < 4 ) vf.out[vf.nout] = b; vf.nout++; }  /* @stub OutputByte: records the byte */
#define EmitErr( msg, ... ) vf_emiterr( msg )
static int vf_emiterr( int msg ) { vf.errcnt++; vf.errmsg = msg; return( ERROR ); }             /* @stub EmitErr: records that a diagnostic was issued */
int EmitError( int msg ) { vf.errcnt++; vf.errmsg = msg; return( ERROR ); }                /* @stub EmitError */
#define EmitWarn( lvl, msg, ... ) vf_emitwarn()
static void vf_emitwarn( void ) { vf.warncnt++; }                                   /* @stub EmitWarn */
struct fixup *CreateFixup( struct asym *sym, enum fixup_types t, enum fixup_options o )    /* @stub CreateFixup: records its arguments */
{
    vf.fixcnt++; vf.fixsym = sym; vf.fixtype = t; vf.fixopt = o;
    return &vf_fix;
}
void set_frame( const struct asym *sym ) { vf.framecnt++; }                                /* @stub set_frame */
ret_code segm_override( const struct expr *o, struct code_info *c ) { return NOT_ERROR; }  /* @stub segm_override: never reached (no override in the harness) */
struct asym *GetOverrideAssume( enum assume_segreg r ) { return NULL; }                    /* @stub GetOverrideAssume: never reached */
int GetSymOfssize( const struct asym *sym ) { return in_symof; }                           /* @stub GetSymOfssize: any offset size */

/* ------------------------------------------------------------ specification */
static int is_xcx( unsigned t ) { return t >= T_JCXZ && t <= T_LOOPNZW; }
static int is_jcc( unsigned t ) { return t != T_CALL && t != T_JMP && !is_xcx( t ); }
/* JCXZ/LOOPxx variants that name the count register: 67h unless it is the
 * register of the mode (Intel SDM: address size attribute) */
static int spec_a67( void )
{
    switch ( in_tok ) {
    case T_JCXZ: case T_LOOPW: case T_LOOPEW: case T_LOOPZW: case T_LOOPNEW: case T_LOOPNZW: return in_of != USE16;
    case T_JECXZ: case T_LOOPD: case T_LOOPED: case T_LOOPZD: case T_LOOPNED: case T_LOOPNZD: return in_of != USE32;
    }
    return 0;
}
/* condition codes (Intel SDM vol. 2, appendix B.1.4.7) */
static int spec_cc( unsigned t )
{
    switch ( t ) {
    case T_JO: return 0;
    case T_JNO: return 1;
    case T_JB: case T_JC: case T_JNAE: return 2;
    case T_JAE: case T_JNB: case T_JNC: return 3;
    case T_JE: case T_JZ: return 4;
    case T_JNE: case T_JNZ: return 5;
    case T_JBE: case T_JNA: return 6;
    case T_JA: case T_JNBE: return 7;
    case T_JS: return 8;
    case T_JNS: return 9;
    case T_JP: case T_JPE: return 10;
    case T_JNP: case T_JPO: return 11;
    case T_JL: case T_JNGE: return 12;
    case T_JGE: case T_JNL: return 13;
    case T_JLE: case T_JNG: return 14;
    case T_JG: case T_JNLE: return 15;
    }
    return -1;
}
static int spec_is286( void ) { return in_cpu < 3; }
/* displacement size of a near branch */
static int spec_size( void )
{
    if ( in_ext != USE_EMPTY ) return in_ext == USE16 ? 2 : 4;
    return in_of == USE16 ? 2 : 4;
}
static int spec_o66( void ) { return in_ext != USE_EMPTY && in_ext != in_of; }
/* length of the encoded instruction (Intel SDM vol. 2) */
static int spec_len( int disp8 )
{
    int n = spec_a67() + in_bnd;
    if ( disp8 ) return n + 2;
    return n + spec_o66() + ( is_jcc( in_tok ) ? 2 : 1 ) + spec_size();
}
static uint_32 spec_target( void ) { return (uint_32)in_off + (uint_32)in_value; }
static uint_32 spec_disp( int disp8 ) { return spec_target() - ( in_cur + vf.nout + spec_len( disp8 ) ); }
static int fits8( uint_32 d ) { return (int_32)d >= -128 && (int_32)d <= 127; }

static int pushcs( void ) { return in_tok == T_CALL && in_symfar && vf_ci->mem_type == MT_NEAR && !in_expl; }
/* the branch is resolved now: no fixup, displacement + end of instruction == target */
static int post_near( const struct code_info *ci, ret_code rc )
{
    int t = ci->opnd[OPND1].type;
    uint_32 d = ci->opnd[OPND1].data32l;
    int can8;
    if ( rc != NOT_ERROR ) return vf.errcnt > 0;
    if ( vf.errcnt || vf.fixcnt || ci->opnd[OPND1].data32h ) return 0;
    if ( ci->token == in_tok ) {
        /* only a FAR label called without coercion writes ahead: PUSH CS */
        if ( in_tok == T_CALL && in_symfar && !in_expl ) {
            if ( vf.nout != 1 || vf.out[0] != 0x0E ) return 0;
        } else if ( vf.nout != 0 ) return 0;
        if ( t == OP_I8 )
            return in_tok != T_CALL && !( in_expl && !in_short && in_mt == MT_NEAR ) && fits8( d ) && d == spec_disp( 1 );
        if ( t != ( spec_size() == 2 ? OP_I16 : OP_I32 ) ) return 0;
        if ( ci->prefix.opsiz != spec_o66() ) return 0;
        return d == spec_disp( 0 );
    }
    /* 8086-80286: Jncc $+3|5, JMP dest */
    if ( ci->token != T_JMP || !is_jcc( in_tok ) || !spec_is286() || !in_ljmp ) return 0;
    if ( vf.nout != 2 || ci->pinstr->opcode != 0xEB || vf.out[0] != 0x70 + ( spec_cc( in_tok ) ^ 1 ) ) return 0;
    if ( t != ( spec_size() == 2 ? OP_I16 : OP_I32 ) ) return 0;
    /* the short jump skips exactly the JMP */
    if ( vf.out[1] != 1 + spec_size() + spec_o66() ) return 0;
    return d == spec_target() - ( in_cur + 2 + 1 + spec_size() + spec_o66() );
}
/* shortest form: a displacement that fits 8 bits is encoded so unless NEAR was requested */
static int post_short( const struct code_info *ci, ret_code rc )
{
    int forced = in_tok == T_CALL || ( in_expl && !in_short );
    if ( forced || !fits8( spec_target() - ( in_cur + spec_len( 1 ) ) ) ) return rc != NOT_ERROR || ci->opnd[OPND1].type != OP_I8;
    return rc == NOT_ERROR && ci->opnd[OPND1].type == OP_I8;
}
/* diagnosed exactly when no encoding exists */
static int post_range( ret_code rc )
{
    int forced = in_tok == T_CALL || ( in_expl && !in_short );
    int f = !forced && fits8( spec_target() - ( in_cur + spec_len( 1 ) ) );
    if ( f ) return rc == NOT_ERROR;
    if ( in_short || is_xcx( in_tok ) ) return rc == ERROR;
    if ( is_jcc( in_tok ) && spec_is286() && ( in_expl || !in_ljmp ) ) return rc == ERROR;
    return rc == NOT_ERROR;
}

/* ------------- label elsewhere (external, other segment, not yet known) */
static int is_undef( void ) { return in_state == SYM_UNDEFINED || ( in_state == SYM_EXTERNAL && in_weak ); }
/* the one fixup created covers exactly the bytes of the operand */
static int post_fixsize( const struct code_info *ci, ret_code rc )
{
    int t = ci->opnd[OPND1].type;
    if ( rc != NOT_ERROR ) return vf.errcnt > 0 && vf.fixcnt == 0;
    if ( vf.errcnt ) return 0;
    if ( vf.fixcnt != 1 || ci->opnd[OPND1].InsFixup != vf_fixp || vf.fixsym != vf_symp ) return 0;
    if ( ci->isfar ) {
        /* ptr16:16 is 4 bytes, ptr16:32 is 6 bytes; operand size of the instruction fits */
        if ( t == OP_I32 ) return vf.fixtype == FIX_PTR16 && ( in_of == USE16 ) == !ci->prefix.opsiz;
        if ( t == OP_I48 ) return vf.fixtype == FIX_PTR32 && ( in_of == USE16 ) == ci->prefix.opsiz;
        return 0;
    }
    if ( t == OP_I8 ) return vf.fixtype == FIX_RELOFF8;
    if ( t == OP_I16 ) return vf.fixtype == FIX_RELOFF16;
    if ( t == OP_I32 ) return vf.fixtype == FIX_RELOFF32;
    return 0;
}
/* the constant added to the label becomes the addend */
static int post_fixadd( const struct code_info *ci, ret_code rc )
{
    if ( rc != NOT_ERROR || is_undef() ) return 1;
    return ci->opnd[OPND1].data32l == (uint_32)in_value && ci->opnd[OPND1].data32h == 0;
}
/* distance of the branch: NEAR takes the full displacement of the mode, or of the coerced type */
static int post_fixdist( const struct code_info *ci, ret_code rc )
{
    int t = ci->opnd[OPND1].type;
    if ( rc != NOT_ERROR ) return 1;
    if ( is_xcx( in_tok ) ) return !in_expl && t == OP_I8 && !ci->isfar && vf.fixopt == OPTJ_EXPLICIT;
    if ( in_tok == T_CALL && t == OP_I8 ) return 0;
    if ( in_short ) return t == OP_I8 && !ci->isfar && vf.fixopt == OPTJ_EXPLICIT && vf.nout == 0;
    if ( ci->isfar ) return in_mt == MT_FAR;
    if ( t == OP_I8 ) return !in_expl && ( is_undef() || ( in_mt == MT_EMPTY && vf.nout == 0 ) );
    return t == ( spec_size() == 2 ? OP_I16 : OP_I32 ) && ci->prefix.opsiz == spec_o66();
}
static int post_fixerr( ret_code rc )
{
    if ( in_tok == T_CALL && in_short ) return rc == ERROR;
    if ( is_xcx( in_tok ) ) return in_expl ? rc == ERROR : 1;
    if ( is_jcc( in_tok ) && !in_short && in_mt == MT_FAR && !is_undef() && !in_ljmp ) return rc == ERROR;
    if ( is_jcc( in_tok ) && spec_is286() && in_expl && !in_ljmp ) return rc == ERROR;
    if ( !is_xcx( in_tok ) && !in_expl && !in_short && in_state == SYM_EXTERNAL && in_mt == MT_NEAR && !( is_jcc( in_tok ) && spec_is286() ) ) return rc == NOT_ERROR;
    return 1;
}

#ifdef VF_CBMC
ret_code process_branch( struct code_info *CodeInfo, unsigned CurrOpnd, const struct expr *opndx )
# ifdef VF_PROOF_branch_near
REQUIRES( CodeInfo == vf_ci && CurrOpnd == OPND1 && opndx->sym == &vf_sym && vf.nout == 0 && vf.errcnt == 0 )
ENSURES( post_near( CodeInfo, __CPROVER_return_value ) )
ENSURES( post_short( CodeInfo, __CPROVER_return_value ) )
ENSURES( post_range( __CPROVER_return_value ) )
# endif
# ifdef VF_PROOF_branch_fix
REQUIRES( CodeInfo == vf_ci && CurrOpnd == OPND1 && opndx->sym == vf_symp && vf.nout == 0 && vf.errcnt == 0 )
ENSURES( post_fixsize( CodeInfo, __CPROVER_return_value ) )
ENSURES( post_fixadd( CodeInfo, __CPROVER_return_value ) )
ENSURES( post_fixdist( CodeInfo, __CPROVER_return_value ) )
ENSURES( post_fixerr( __CPROVER_return_value ) )
# endif
ASSIGNS( OBJ( CodeInfo ), OBJ( &vf ) )
;
#endif

#include "/repo/branch.c"

static struct code_info ci;
static struct expr ox;
static void setup( void )
{
    VF_IN( in_tok ); VF_IN( in_of ); VF_IN( in_ext ); VF_IN( in_expl ); VF_IN( in_short ); VF_IN( in_mt ); VF_IN( in_symfar );
    VF_IN( in_bnd ); VF_IN( in_ljmp ); VF_IN( in_weak ); VF_IN( in_state ); VF_IN( in_pass ); VF_IN( in_lpass ); VF_IN( in_cpu );
    VF_IN( in_flat ); VF_IN( in_grp ); VF_IN( in_symof );
    VF_IN( in_value ); VF_IN( in_off ); VF_IN( in_cur );
    memset( &ModuleInfo, 0, sizeof ModuleInfo ); memset( &Options, 0, sizeof Options );
    memset( &vf_sym, 0, sizeof vf_sym ); memset( &vf_seg, 0, sizeof vf_seg ); memset( &vf_seg2, 0, sizeof vf_seg2 );
    memset( &vf_group, 0, sizeof vf_group ); memset( &vf_si, 0, sizeof vf_si ); memset( &vf_si2, 0, sizeof vf_si2 );
    memset( &ci, 0, sizeof ci ); memset( &ox, 0, sizeof ox );
    memset( &vf, 0, sizeof vf );
    vf_ci = &ci; vf_fixp = &vf_fix; vf_symp = &vf_sym;
    vf_seg.e.seginfo = &vf_si; vf_seg2.e.seginfo = &vf_si2;
    vf_seg.sym.name = ""; vf_seg2.sym.name = ""; vf_sym.name = "";
    SegOverride = NULL;
    CurrSeg = &vf_seg;
    VF_ASSUME( in_tok >= T_CALL && in_tok <= T_LOOPNZW );
    VF_ASSUME( in_of == USE16 || in_of == USE32 || in_of == USE64 );
    VF_ASSUME( in_ext == USE_EMPTY || in_ext == USE16 || in_ext == USE32 );
    VF_ASSUME( in_expl <= 1 && in_short <= 1 && in_symfar <= 1 && in_bnd <= 1 && in_ljmp <= 1 && in_cpu <= 6 );
    ModuleInfo.curr_cpu = in_cpu << 4;
    ModuleInfo.ljmp = in_ljmp;
    ModuleInfo.Ofssize = in_of;
    vf_si.Ofssize = in_of;
    ci.token = in_tok;
    ci.pinstr = &InstrTable[ IndexFromToken( in_tok ) ];
    ci.Ofssize = in_of;
    ci.mem_type = MT_EMPTY;
    ci.prefix.ins = in_bnd ? T_BND : EMPTY;
    ox.sym = &vf_sym; ox.kind = EXPR_ADDR;
    ox.value = in_value;
    ox.Ofssize = in_ext;
    ox.explicit = in_expl;
    ox.instr = in_short ? T_SHORT : EMPTY;
    ox.mem_type = in_mt;
    vf_sym.offset = in_off;
    vf_sym.segment = &vf_seg.sym;
    vf_sym.mem_type = in_symfar ? MT_FAR : MT_NEAR;
}

/* label in the current segment: displacement is exact */
/* @proof branch_near props=C04 harness=h_near enforce=process_branch link=reswords.c static=optable_idx unwind=24 solver=cadical */
void h_near( void )
{
    ret_code rc;
    setup();
    vf_sym.state = SYM_INTERNAL;
    Parse_Pass = in_pass;
    vf_sym.asmpass = in_lpass;
    /* known in this pass, or a forward reference (its offset of the previous pass) */
    VF_ASSUME( in_off >= 0 && in_cur < 0x7fffffff );     /* segments below 2 GB */
    VF_ASSUME( in_lpass == in_pass || in_off >= in_cur );
    /* a coerced operand is NEAR; without coercion the operand has the type of the label */
    VF_ASSUME( in_mt == ( in_symfar && !in_expl ? MT_FAR : MT_NEAR ) );
    VF_ASSUME( in_expl || in_ext == USE_EMPTY );
    VF_ASSUME( !( in_expl && in_short ) );
    VF_ASSUME( in_of == USE16 || in_cpu >= 3 );         /* 32/64-bit code needs a 386 */
    VF_ASSUME( in_of != USE64 || in_ext != USE16 );
    VF_ASSUME( !in_bnd || in_cpu >= 3 );                /* BND (MPX) does not exist before the 386 */
    rc = process_branch( &ci, OPND1, &ox );
    VF_POST( post_near( &ci, rc ), "displacement reaches the label" );
    VF_POST( post_short( &ci, rc ), "shortest encoding" );
    VF_POST( post_range( rc ), "out of range branches are diagnosed" );
    if ( rc == NOT_ERROR && ci.opnd[OPND1].type == OP_I8 ) VF_REACH( "short" );
    if ( rc == NOT_ERROR && ci.opnd[OPND1].type == OP_I32 ) VF_REACH( "near32" );
    if ( rc == NOT_ERROR && ci.opnd[OPND1].type == OP_I16 ) VF_REACH( "near16" );
    if ( rc == NOT_ERROR && ci.token != in_tok ) VF_REACH( "extended" );
    if ( rc != NOT_ERROR ) VF_REACH( "error" );
}

/* label elsewhere: one fixup, as wide as the operand, with the right addend */
/* @proof branch_fix props=C04 harness=h_fix enforce=process_branch link=reswords.c static=optable_idx unwind=24 solver=cadical */
void h_fix( void )
{
    ret_code rc;
    setup();
    Parse_Pass = in_pass;
    VF_ASSUME( in_state == SYM_EXTERNAL || in_state == SYM_UNDEFINED || in_state == SYM_INTERNAL );
    VF_ASSUME( in_weak <= 1 && in_flat <= 1 && in_grp <= 1 && in_symof <= 2 );
    vf_sym.state = in_state;
    if ( in_state == SYM_EXTERNAL ) { vf_sym.weak = in_weak; }
    else if ( in_state == SYM_INTERNAL ) { vf_sym.segment = &vf_seg2.sym; vf_sym.asmpass = in_lpass; }
    else { vf_sym.segment = NULL; VF_ASSUME( !in_symfar ); }
    vf_si2.Ofssize = in_symof;
    if ( in_grp ) vf_si.group = vf_si2.group = &vf_group.sym;
    if ( in_flat ) ModuleInfo.flat_grp = &vf_group;
    VF_ASSUME( in_off >= 0 && in_cur < 0x7fffffff );     /* segments below 2 GB */
    VF_ASSUME( in_mt == MT_NEAR || in_mt == MT_FAR || in_mt == MT_EMPTY );
    VF_ASSUME( !in_expl || in_mt != MT_EMPTY );
    VF_ASSUME( in_expl || ( in_ext == USE_EMPTY && ( is_undef() ? in_mt != MT_FAR : 1 ) ) );
    VF_ASSUME( !( in_expl && in_short ) );
    VF_ASSUME( in_of == USE16 || in_cpu >= 3 );
    VF_ASSUME( in_of != USE64 || in_ext != USE16 );
    VF_ASSUME( !in_bnd || in_cpu >= 3 );
    VF_ASSUME( in_ext != USE32 || in_cpu >= 3 );
    rc = process_branch( &ci, OPND1, &ox );
    VF_POST( post_fixsize( &ci, rc ), "fixup covers the operand" );
    VF_POST( post_fixadd( &ci, rc ), "addend" );
    VF_POST( post_fixdist( &ci, rc ), "distance" );
    VF_POST( post_fixerr( rc ), "impossible branches are diagnosed" );
    if ( rc == NOT_ERROR && ci.opnd[OPND1].type == OP_I8 ) VF_REACH( "short" );
    if ( rc == NOT_ERROR && ci.opnd[OPND1].type == OP_I32 && !ci.isfar ) VF_REACH( "near32" );
    if ( rc == NOT_ERROR && ci.opnd[OPND1].type == OP_I16 ) VF_REACH( "near16" );
    if ( rc == NOT_ERROR && ci.opnd[OPND1].type == OP_I48 ) VF_REACH( "far32" );
    if ( rc == NOT_ERROR && ci.opnd[OPND1].type == OP_I32 && ci.isfar ) VF_REACH( "far16" );
    if ( rc != NOT_ERROR ) VF_REACH( "error" );
}

/* opcodes of the relative branches (Intel SDM): short E0-E3, EB, 70-7F; near E8, E9, 0F 80-8F; far 9A, EA */
extern const struct opnd_class opnd_clstab[];
static int spec_op8( unsigned t )
{
    switch ( t ) {
    case T_JMP: return 0xEB;
    case T_JCXZ: case T_JECXZ: case T_JRCXZ: return 0xE3;
    case T_LOOP: case T_LOOPD: case T_LOOPW: return 0xE2;
    case T_LOOPE: case T_LOOPZ: case T_LOOPED: case T_LOOPZD: case T_LOOPEW: case T_LOOPZW: return 0xE1;
    case T_LOOPNE: case T_LOOPNZ: case T_LOOPNED: case T_LOOPNZD: case T_LOOPNEW: case T_LOOPNZW: return 0xE0;
    }
    return spec_cc( t ) < 0 ? -1 : 0x70 + spec_cc( t );
}
static int spec_nrow( unsigned t ) { return t == T_JMP || t == T_CALL ? 8 : is_jcc( t ) ? 2 : 1; }
unsigned in_row;
/* @proof branch_table props=C04 harness=h_table under=InstrTable,optable_idx link=reswords.c static=optable_idx solver=cadical unwind=3 */
void h_table( void )
{
    const struct instr_item *p;
    unsigned t1;
    VF_IN( in_tok ); VF_IN( in_row );
    VF_ASSUME( in_tok >= T_CALL && in_tok <= T_LOOPNZW && in_row < spec_nrow( in_tok ) );
    p = &InstrTable[ IndexFromToken( in_tok ) ] + in_row;
    t1 = opnd_clstab[p->opclsidx].opnd_type[OPND1];
    VF_CHECK( ( in_row == 0 ) == ( p->first == 1 ) || in_row > 4, "rows of a branch are adjacent" );
    VF_CHECK( opnd_clstab[p->opclsidx].opnd_type[OPND2] == OP_NONE, "one operand" );
    if ( in_tok == T_CALL ) {
        if ( in_row <= 1 ) VF_CHECK( p->opcode == 0xE8 && t1 == ( in_row ? OP_I32 : OP_I16 ) && p->byte1_info == 0 && p->rm_info == no_RM, "CALL near" );
        if ( in_row == 5 ) VF_CHECK( p->opcode == 0x9A && t1 == OP_I32 && p->byte1_info == F_16 && p->rm_info == no_RM, "CALL far 16:16" );
        if ( in_row == 6 ) VF_CHECK( p->opcode == 0x9A && t1 == OP_I48 && p->byte1_info == F_32 && p->rm_info == no_RM, "CALL far 16:32" );
    } else if ( in_row == 0 ) {
        VF_CHECK( p->opcode == spec_op8( in_tok ) && t1 == OP_I8 && p->rm_info == no_RM, "short form" );
        VF_CHECK( p->byte1_info == 0 || is_xcx( in_tok ), "no prefix" );
    } else if ( in_tok == T_JMP ) {
        if ( in_row <= 2 ) VF_CHECK( p->opcode == 0xE9 && t1 == ( in_row == 1 ? OP_I16 : OP_I32 ) && p->byte1_info == 0 && p->rm_info == no_RM, "JMP near" );
        if ( in_row == 6 ) VF_CHECK( p->opcode == 0xEA && t1 == OP_I32 && p->byte1_info == F_16 && p->rm_info == no_RM, "JMP far 16:16" );
        if ( in_row == 7 ) VF_CHECK( p->opcode == 0xEA && t1 == OP_I48 && p->byte1_info == F_32 && p->rm_info == no_RM, "JMP far 16:32" );
    } else
        VF_CHECK( p->opcode == 0x80 + spec_cc( in_tok ) && t1 == OP_I && p->byte1_info == F_0F && p->rm_info == no_RM, "Jcc near" );
    VF_REACH( "end" );
}
