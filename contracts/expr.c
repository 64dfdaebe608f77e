/* Contracts for the constant-expression operators (expreval.c).
 *
 * The text of /repo/expreval.c is included unchanged; the contracts sit on the
 * forward declarations in front of it.
 */
#include <string.h>
#include "globals.h"
#include "parser.h"
#include "expreval.h"
#include "vf.h"

/* ------------------------------------------------------------- ghost state */
uint_64 in_a, in_b;             /* operand values                              */
uint_64 in_ah, in_bh;           /* upper 64 bits (unary +/- only)              */
unsigned in_op;                 /* operator                                    */
uint_8  in_of;                  /* 16/32/64-bit mode                           */
uint_8  in_m510;                /* -Zm                                         */
uint_8  in_pass;
int     in_mt1, in_mt2;
int_32  in_off1, in_off2;       /* label offsets                               */
uint_8  in_seg1, in_seg2;       /* segment number of the labels (0/1)          */
int     vf_errcnt, vf_errmsg;

/* ------------------------------------------------------------ spec function */
/* value of <a OP b>; *ok=0: the operation must be rejected                    */
static uint_64 spec_binary( unsigned op, uint_64 a, uint_64 b, int use32, int m510, int *ok )
{
    *ok = 1;
    switch ( op ) {
    case '+': return a + b;
    case '-': return a - b;
    case '*': return a * b;
    case '/':
        if ( b == 0 ) { *ok = 0; return 0; }
        if ( b == ~(uint_64)0 ) return 0 - a;       /* also MIN / -1 */
        return (uint_64)( (int_64)a / (int_64)b );  /* signed, truncating */
    case T_MOD:
        if ( b == 0 ) { *ok = 0; return 0; }
        return a % b;                               /* unsigned */
    case T_SHL:
        if ( (int_64)b < 0 ) { *ok = 0; return 0; }
        a = ( b >= 64 ) ? 0 : a << b;
        return m510 ? ( a & 0xffffffffULL ) : a;
    case T_SHR:
        if ( (int_64)b < 0 ) { *ok = 0; return 0; }
        if ( b >= 64 ) return 0;
        if ( use32 && a == ~(uint_64)0 ) a = 0xffffffffULL;   /* -1 is 32-bit in 32-bit code */
        return a >> b;
    case T_AND: return a & b;
    case T_OR:  return a | b;
    case T_XOR: return a ^ b;
    case T_EQ:  return a == b ? ~(uint_64)0 : 0;
    case T_NE:  return a != b ? ~(uint_64)0 : 0;
    case T_LT:  return (int_64)a <  (int_64)b ? ~(uint_64)0 : 0;
    case T_LE:  return (int_64)a <= (int_64)b ? ~(uint_64)0 : 0;
    case T_GT:  return (int_64)a >  (int_64)b ? ~(uint_64)0 : 0;
    case T_GE:  return (int_64)a >= (int_64)b ? ~(uint_64)0 : 0;
    }
    *ok = 0;
    return 0;
}
static uint_64 spec_unary( unsigned op, uint_64 a )
{
    switch ( op ) {
    case T_NOT:      return ~a;
    case T_LOW:      return a & 0xff;
    case T_HIGH:     return ( a >> 8 ) & 0xff;
    case T_LOWWORD:  return a & 0xffff;
    case T_HIGHWORD: return ( a >> 16 ) & 0xffff;
    case T_LOW32:    return a & 0xffffffffULL;
    case T_HIGH32:   return a >> 32;
    }
    return 0;
}
static int is_binop( unsigned op )
{
    return op == '+' || op == '-' || op == '*' || op == '/' || op == T_MOD || op == T_SHL || op == T_SHR ||
        op == T_AND || op == T_OR || op == T_XOR || op == T_EQ || op == T_NE || op == T_LT || op == T_LE ||
        op == T_GT || op == T_GE;
}
static int is_unop( unsigned op )
{
    return op == T_NOT || op == T_LOW || op == T_HIGH || op == T_LOWWORD || op == T_HIGHWORD ||
        op == T_LOW32 || op == T_HIGH32;
}

/* postcondition of calculate() on two plain constants */
static int post_binary( const struct expr *o, ret_code rc )
{
    int ok;
    uint_64 v = spec_binary( in_op, in_a, in_b, in_of == USE32, in_m510, &ok );
    if ( !ok ) return vf_errcnt > 0;             /* rejected with a diagnostic */
    return rc == NOT_ERROR && vf_errcnt == 0 && o->kind == EXPR_CONST && o->llvalue == v;
}
static int post_binary_frame( const struct expr *o, ret_code rc )
{
    int ok;
    (void)spec_binary( in_op, in_a, in_b, in_of == USE32, in_m510, &ok );
    if ( !ok || rc != NOT_ERROR ) return 1;
    return o->sym == NULL && o->mbr == NULL && o->base_reg == NULL && o->idx_reg == NULL && o->override == NULL
        && o->indirect == 0 && o->hlvalue == 0;
}
static int post_unary( const struct expr *o, ret_code rc )
{
    return rc == NOT_ERROR && vf_errcnt == 0 && o->kind == EXPR_CONST && o->llvalue == spec_unary( in_op, in_a )
        && o->hlvalue == 0 && o->sym == NULL && o->indirect == 0;
}
#if defined VF_PROOF_expr_labels || defined VF_PROOF_expr_labcon
/* two labels of one segment: difference and comparison work on their addresses */
static int post_labels( const struct expr *o, ret_code rc )
{
    uint_64 x = in_a + (uint_64)(int_64)in_off1;
    uint_64 y = in_b + (uint_64)(int_64)in_off2;
    int ok;
    if ( in_seg1 != in_seg2 ) {
        if ( in_op == '-' && in_pass == PASS_1 ) return 1;   /* diagnosed in a later pass */
        return rc == ERROR && vf_errcnt > 0;
    }
    return rc == NOT_ERROR && vf_errcnt == 0 && o->kind == EXPR_CONST
        && o->llvalue == spec_binary( in_op, x, y, 0, 0, &ok );
}
static struct asym vf_sym1, vf_sym2;
/* label + constant, constant + label, label - constant: displacement exact */
static int post_labcon( const struct expr *o, ret_code rc )
{
    return rc == NOT_ERROR && vf_errcnt == 0 && o->kind == EXPR_ADDR && o->sym == &vf_sym1
        && o->llvalue == ( in_op == '-' ? in_a - in_b : in_a + in_b );
}
#endif
/* unary minus / plus work on 128-bit constants */
static int post_sign( const struct expr *o, ret_code rc )
{
    if ( rc != NOT_ERROR || vf_errcnt != 0 || o->kind != EXPR_CONST ) return 0;
    if ( in_op == '+' ) return o->llvalue == in_a && o->hlvalue == in_ah;
    if ( o->llvalue != 0 - in_a ) return 0;
    if ( in_ah == 0 ) return 1;
    return o->hlvalue == ~in_ah + ( in_a == 0 );
}

/* ---------------------------------------------------------------- contracts */
#ifdef VF_CBMC
static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct asm_tok *oper )
REQUIRES( opnd1 != NULL && opnd2 != NULL && opnd1 != opnd2 && vf_errcnt == 0 )
ASSIGNS( OBJ( opnd1 ), OBJ( opnd2 ), vf_errcnt, vf_errmsg )
#if defined VF_PROOF_expr_binary || defined VF_PROOF_expr_mul || defined VF_PROOF_expr_div || defined VF_PROOF_expr_mod
ENSURES( post_binary( opnd1, __CPROVER_return_value ) )
ENSURES( post_binary_frame( opnd1, __CPROVER_return_value ) )
#elif defined VF_PROOF_expr_labels
ENSURES( post_labels( opnd1, __CPROVER_return_value ) )
#elif defined VF_PROOF_expr_labcon
ENSURES( post_labcon( opnd1, __CPROVER_return_value ) )
#elif defined VF_PROOF_expr_unary
ENSURES( post_unary( opnd1, __CPROVER_return_value ) )
#else
ENSURES( post_sign( opnd1, __CPROVER_return_value ) )
#endif
;
#endif

#include "/repo/expreval.c"

/* ------------------------------------------------------------- environment */
struct module_info ModuleInfo;
struct global_options Options;
unsigned int Parse_Pass;
static int vf_err( int msg, ... ) { vf_errcnt++; vf_errmsg = msg; return( ERROR ); }   /* @stub EmitErr: records that a diagnostic was issued */

static void plain_const( struct expr *e, uint_64 lo, uint_64 hi )
{
    init_expr( e );
    e->kind = EXPR_CONST;
    e->llvalue = lo;
    e->hlvalue = hi;
}
static const char vf_opstr[] = "op x";

static void setup( struct asm_tok *t )
{
    VF_IN( in_of ); VF_IN( in_m510 ); VF_IN( in_pass ); VF_IN( in_mt1 ); VF_IN( in_mt2 );
    VF_ASSUME( in_of <= USE64 && in_m510 <= 1 && in_pass <= 2 );
    memset( &ModuleInfo, 0, sizeof( ModuleInfo ) );
    memset( &Options, 0, sizeof( Options ) );
    ModuleInfo.Ofssize = in_of;
    ModuleInfo.m510 = in_m510;
    Parse_Pass = in_pass;
    fnEmitErr = vf_err;
    vf_errcnt = 0;
    memset( t, 0, sizeof( *t ) );
    t->string_ptr = (char *)vf_opstr;
    t->tokpos = (char *)vf_opstr;
}

/* @proof expr_binary props=C01 harness=h_binary enforce=calculate weight=3 */
/* @proof expr_mul props=C01 harness=h_binary enforce=calculate defs=ONLY_OP='*' solver=cvc5,z3,cadical weight=5 */
/* @proof expr_div props=C01 harness=h_binary enforce=calculate defs=ONLY_OP='/' checks=signed-overflow-check solver=cvc5,z3,cadical weight=5 */
/* @proof expr_mod props=C01 harness=h_binary enforce=calculate defs=ONLY_OP=T_MOD solver=cvc5,z3,cadical weight=5 */
void h_binary( void )
{
    struct expr a, b;
    struct asm_tok op;
    ret_code rc;
    int ok;
    VF_IN( in_a ); VF_IN( in_b ); VF_IN( in_op );
    setup( &op );
    VF_ASSUME( is_binop( in_op ) );
#ifdef ONLY_OP
    VF_ASSUME( in_op == ONLY_OP );
    in_op = ONLY_OP;
#else
    VF_ASSUME( in_op != '*' && in_op != '/' && in_op != T_MOD );
#endif
    plain_const( &a, in_a, 0 );
    plain_const( &b, in_b, 0 );
    a.mem_type = in_mt1; b.mem_type = in_mt2;
    if ( in_op == '+' || in_op == '-' ) { op.token = in_op; op.specval = BINARY_PLUSMINUS; }
    else if ( in_op == '*' || in_op == '/' ) op.token = in_op;
    else {
        op.token = T_BINARY_OPERATOR; op.tokval = in_op;
        op.precedence = ( in_op == T_EQ || in_op == T_NE || in_op == T_LT || in_op == T_LE || in_op == T_GT || in_op == T_GE ) ? 10 : 8;
    }
    rc = calculate( &a, &b, &op );
    VF_POST( post_binary( &a, rc ), "constant expression value" );
    VF_POST( post_binary_frame( &a, rc ), "constant result stays a plain constant" );
    if ( rc == NOT_ERROR ) VF_REACH( "accepted" );
#if !defined VF_PROOF_expr_mul
    if ( vf_errcnt ) VF_REACH( "rejected" );
#endif
}

/* @proof expr_unary props=C01 harness=h_unary enforce=calculate link=reswords.c unwindset=strlen.0:6 */
void h_unary( void )
{
    struct expr a, b;
    struct asm_tok op;
    ret_code rc;
    VF_IN( in_a ); VF_IN( in_op );
    setup( &op );
    VF_ASSUME( is_unop( in_op ) );
    init_expr( &a );
    plain_const( &b, in_a, 0 );
    op.token = T_UNARY_OPERATOR; op.tokval = in_op;
    rc = calculate( &a, &b, &op );
    VF_POST( post_unary( &a, rc ), "unary operator value" );
    VF_REACH( "end" );
}

/* @proof expr_sign props=C01 harness=h_sign enforce=calculate */
void h_sign( void )
{
    struct expr a, b;
    struct asm_tok op;
    ret_code rc;
    VF_IN( in_a ); VF_IN( in_ah ); VF_IN( in_op );
    setup( &op );
    VF_ASSUME( in_op == '+' || in_op == '-' );
    init_expr( &a );
    plain_const( &b, in_a, in_ah );
    op.token = in_op; op.specval = UNARY_PLUSMINUS;
    rc = calculate( &a, &b, &op );
    VF_POST( post_sign( &a, rc ), "sign operator value" );
    VF_REACH( "end" );
}

#if defined VF_PROOF_expr_labels || defined VF_PROOF_expr_labcon
static struct dsym vf_seg[2];
static const char vf_name[] = "x";

static void label_opnd( struct expr *e, struct asym *s, struct asm_tok *tok, uint_64 disp, int_32 ofs, int seg )
{
    memset( s, 0, sizeof( *s ) );
    s->state = SYM_INTERNAL;
    s->offset = ofs;
    s->segment = &vf_seg[seg].sym;
    s->name = (char *)vf_name;
    s->mem_type = MT_NEAR;
    init_expr( e );
    e->kind = EXPR_ADDR;
    e->sym = s;
    e->label_tok = tok;
    e->llvalue = disp;
}

/* @proof expr_labels props=C01 harness=h_labels enforce=calculate weight=3 */
void h_labels( void )
{
    struct expr a, b;
    struct asm_tok op, t1, t2;
    ret_code rc;
    VF_IN( in_a ); VF_IN( in_b ); VF_IN( in_op ); VF_IN( in_off1 ); VF_IN( in_off2 ); VF_IN( in_seg1 ); VF_IN( in_seg2 );
    setup( &op );
    VF_ASSUME( in_off1 >= 0 && in_off2 >= 0 && in_seg1 <= 1 && in_seg2 <= 1 );
    VF_ASSUME( in_op == '-' || in_op == T_EQ || in_op == T_NE || in_op == T_LT || in_op == T_LE || in_op == T_GT || in_op == T_GE );
    memset( &t1, 0, sizeof t1 ); memset( &t2, 0, sizeof t2 );
    t1.token = T_ID; t2.token = T_ID;
    t1.string_ptr = t2.string_ptr = (char *)vf_name;
    label_opnd( &a, &vf_sym1, &t1, in_a, in_off1, in_seg1 );
    label_opnd( &b, &vf_sym2, &t2, in_b, in_off2, in_seg2 );
    if ( in_op == '-' ) { op.token = in_op; op.specval = BINARY_PLUSMINUS; }
    else { op.token = T_BINARY_OPERATOR; op.tokval = in_op; op.precedence = 10; }
    rc = calculate( &a, &b, &op );
    VF_POST( post_labels( &a, rc ), "difference/comparison of two labels" );
    if ( rc == NOT_ERROR ) VF_REACH( "accepted" );
    if ( rc != NOT_ERROR ) VF_REACH( "rejected" );
}

/* @proof expr_labcon props=C01 harness=h_labcon enforce=calculate */
void h_labcon( void )
{
    struct expr a, b;
    struct asm_tok op, t1;
    ret_code rc;
    VF_IN( in_a ); VF_IN( in_b ); VF_IN( in_op ); VF_IN( in_off1 ); VF_IN( in_seg1 );
    setup( &op );
    VF_ASSUME( in_off1 >= 0 && in_seg1 <= 1 );
    VF_ASSUME( in_op == '-' || in_op == '+' || in_op == 'r' );
    memset( &t1, 0, sizeof t1 );
    t1.token = T_ID; t1.string_ptr = (char *)vf_name;
    if ( in_op == 'r' ) {
        plain_const( &a, in_a, 0 );
        label_opnd( &b, &vf_sym1, &t1, in_b, in_off1, in_seg1 );
    } else {
        label_opnd( &a, &vf_sym1, &t1, in_a, in_off1, in_seg1 );
        plain_const( &b, in_b, 0 );
    }
    op.token = in_op == 'r' ? '+' : in_op; op.specval = BINARY_PLUSMINUS;
    rc = calculate( &a, &b, &op );
    VF_POST( post_labcon( &a, rc ), "label +/- constant keeps the label and the exact displacement" );
    VF_REACH( "end" );
}
#endif
