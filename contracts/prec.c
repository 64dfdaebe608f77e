/* Contracts for operator precedence (expreval.c: get_precedence, is_expr_item,
 * evaluate; reswords.c/special.h: precedence of the operator keywords).
 */
#include <string.h>
#include "globals.h"
#include "parser.h"
#include "reswords.h"
#include "expreval.h"
#include "vf.h"
#define U_PM 0   /* asm_tok.specval of a sign: unary */
#define B_PM 1   /* binary */ 

uint_8   in_tok;
unsigned in_tokval;
uint_8   in_prec;
uint_8   in_spec;
uint_8   in_m510;
uint_8   in_o1, in_o2, in_u1, in_u2;      /* operator numbers */
uint_8   in_shape;
int vf_errcnt;

/* ------------------------------------------------ specification (MASM manual) */
static int spec_prec( const struct asm_tok *t )
{
    switch ( t->token ) {
    case T_UNARY_OPERATOR: case T_BINARY_OPERATOR: return t->precedence;
    case T_OP_BRACKET: case T_OP_SQ_BRACKET: return in_m510 ? 9 : 1;
    case T_DOT: return 2;
    case T_COLON: return 3;
    case '*': case '/': return 8;
    case '+': case '-': return t->specval == U_PM ? 7 : 9;
    }
    return ERROR;
}
static int is_op_token( int t )
{
    return t == T_UNARY_OPERATOR || t == T_BINARY_OPERATOR || t == T_OP_BRACKET || t == T_OP_SQ_BRACKET || t == T_DOT
        || t == T_COLON || t == '*' || t == '/' || t == '+' || t == '-';
}
/* instruction mnemonics that are operators inside an expression */
static int spec_instr_op( unsigned tv, int *tok, int *prec )
{
    switch ( tv ) {
    case T_SHL: case T_SHR: *tok = T_BINARY_OPERATOR; *prec = 8;  return 1;
    case T_NOT:             *tok = T_UNARY_OPERATOR;  *prec = 11; return 1;
    case T_AND:             *tok = T_BINARY_OPERATOR; *prec = 12; return 1;
    case T_OR: case T_XOR:  *tok = T_BINARY_OPERATOR; *prec = 13; return 1;
    }
    return 0;
}
static int post_item( const struct asm_tok *t, int res )
{
    int tok, prec;
    if ( in_tok == T_INSTRUCTION ) {
        if ( spec_instr_op( in_tokval, &tok, &prec ) )
            return res && t->token == tok && t->precedence == prec && t->tokval == in_tokval;
        return !res && t->token == T_INSTRUCTION && t->tokval == in_tokval;
    }
    if ( in_tok == T_COMMA ) return !res;
    if ( in_tok == T_RES_ID && in_tokval == T_DUP ) return !res;
    if ( in_tok == T_DIRECTIVE ) return in_tokval == T_PROC ? ( res && t->token == T_STYPE ) : !res;
    return res && t->token == in_tok && t->tokval == in_tokval && t->precedence == in_prec;
}

#ifdef VF_CBMC
static int get_precedence( const struct asm_tok *item )
REQUIRES( item != NULL && is_op_token( item->token ) )
ASSIGNS()
ENSURES( __CPROVER_return_value == spec_prec( item ) )
;
static bool is_expr_item( struct asm_tok *item )
REQUIRES( item != NULL && item->token == in_tok && item->tokval == in_tokval && item->precedence == in_prec )
ASSIGNS( OBJ( item ) )
ENSURES( post_item( item, __CPROVER_return_value ) )
;
#endif

#include "/repo/expreval.c"

struct module_info ModuleInfo;
struct global_options Options;
unsigned int Parse_Pass;
static int vf_err( int msg, ... ) { vf_errcnt++; return( ERROR ); }   /* @stub EmitErr: records that a diagnostic was issued */
/* contract of myatoi128 (proved under C03) for one decimal digit */
bool vf_atoi( const char *src, uint_64 dst[], int base, int size )              /* @stub myatoi128: by contract */
{
    VF_CHECK( size == 1 && base == 10, "literal is one decimal digit" );
    dst[0] = src[0] - '0'; dst[1] = 0;
    return FALSE;
}
static const char vf_str[] = "7";

static void setup( void )
{
    VF_IN( in_m510 );
    VF_ASSUME( in_m510 <= 1 );
    memset( &ModuleInfo, 0, sizeof ModuleInfo );
    memset( &Options, 0, sizeof Options );
    ModuleInfo.m510 = in_m510;
    ModuleInfo.Ofssize = USE32;
    vf_errcnt = 0;
    fnEmitErr = vf_err;
    Parse_Pass = PASS_2;
}

/* @proof prec_get props=C02 harness=h_prec enforce=get_precedence */
void h_prec( void )
{
    struct asm_tok t;
    int r;
    VF_IN( in_tok ); VF_IN( in_prec ); VF_IN( in_spec );
    setup();
    VF_ASSUME( is_op_token( in_tok ) );
    memset( &t, 0, sizeof t );
    t.token = in_tok;
    if ( in_tok == '+' || in_tok == '-' ) {
        VF_ASSUME( in_spec == U_PM || in_spec == B_PM );
        t.specval = in_spec;
    } else
        t.precedence = in_prec;
    r = get_precedence( &t );
    VF_POST( r == spec_prec( &t ), "operator precedence" );
    VF_REACH( "end" );
}

/* @proof prec_item props=C02 harness=h_item enforce=is_expr_item */
void h_item( void )
{
    struct asm_tok t;
    int r;
    VF_IN( in_tok ); VF_IN( in_prec ); VF_IN( in_tokval );
    setup();
    memset( &t, 0, sizeof t );
    t.token = in_tok;
    t.precedence = in_prec;
    t.tokval = in_tokval;
    r = is_expr_item( &t );
    VF_POST( post_item( &t, r ), "operator keyword recognised with its precedence" );
    if ( r ) VF_REACH( "item" );
    if ( !r ) VF_REACH( "no item" );
}

/* precedence of the keyword operators, as stored in the reserved word table */
static int spec_kw( unsigned tv )
{
    switch ( tv ) {
    case T_DOT_TYPE: case T_OPATTR: case T_SHORT: return 14;
    case T_HIGH: case T_HIGH32: case T_HIGHWORD: case T_LOW: case T_LOW32: case T_LOWWORD: return 6;
    case T_IMAGEREL: case T_SECTIONREL: case T_LROFFSET: case T_OFFSET: case T_SEG: case T_THIS: case T_TYPE: return 5;
    case T_LENGTH: case T_LENGTHOF: case T_SIZE: case T_SIZEOF: case T_MASK: case T_WIDTH: return 3;
    case T_EQ: case T_NE: case T_GE: case T_GT: case T_LE: case T_LT: return 10;
    case T_MOD: return 8;
    case T_PTR: return 4;
    }
    return 0;
}
/* @proof prec_table props=C02 harness=h_table under=SpecialTable link=reswords.c */
void h_table( void )
{
    int k;
    VF_IN( in_tokval );
    k = spec_kw( in_tokval );
    VF_ASSUME( k != 0 );
    VF_CHECK( SpecialTable[in_tokval].bytval == k, "precedence of operator keyword" );
    VF_CHECK( SpecialTable[in_tokval].type == ( k == 10 || k == 8 || k == 4 ? RWT_BINARY_OP : RWT_UNARY_OP ), "kind of operator keyword" );
    VF_REACH( "end" );
}

/* ---------------------------------------------------- order of application */
#ifdef VF_SHAPE
static const struct { uint_8 tok, prec; uint_16 tokval; } binop[] = {
    { '+', 9, '+' }, { '-', 9, '-' }, { '*', 8, '*' }, { '/', 8, '/' },
    { T_BINARY_OPERATOR, 8, T_MOD }, { T_BINARY_OPERATOR, 8, T_SHL }, { T_BINARY_OPERATOR, 8, T_SHR },
    { T_BINARY_OPERATOR, 10, T_EQ }, { T_BINARY_OPERATOR, 10, T_LT }, { T_BINARY_OPERATOR, 12, T_AND },
    { T_BINARY_OPERATOR, 13, T_OR }, { T_BINARY_OPERATOR, 13, T_XOR },
};
static const struct { uint_8 tok, prec; uint_16 tokval; } unop[] = {
    { '-', 7, '-' }, { '+', 7, '+' }, { T_UNARY_OPERATOR, 11, T_NOT }, { T_UNARY_OPERATOR, 6, T_LOW }, { T_UNARY_OPERATOR, 6, T_HIGH },
};
#define NBIN 12
#define NUN  5
static struct asm_tok T[10];
static int nT;

static uint_64 app2( int b, uint_64 l, uint_64 r )
{
    switch ( binop[b].tokval ) {
    case '+': return l + r;  case '-': return l - r;  case '*': return l * r;
    case '/': return r ? (uint_64)( (int_64)l / (int_64)r ) : 0;
    case T_MOD: return r ? l % r : 0;
    case T_SHL: return r > 63 ? 0 : l << r;  case T_SHR: return r > 63 ? 0 : l >> r;
    case T_EQ: return l == r ? ~(uint_64)0 : 0;  case T_LT: return (int_64)l < (int_64)r ? ~(uint_64)0 : 0;
    case T_AND: return l & r;  case T_OR: return l | r;
    }
    return l ^ r;
}
static uint_64 app1( int u, uint_64 r )
{
    switch ( unop[u].tokval ) {
    case '-': return 0 - r; case '+': return r; case T_NOT: return ~r; case T_LOW: return r & 255;
    }
    return ( r >> 8 ) & 255;
}
uint_8 in_a, in_b, in_c;            /* operand values: one digit */
static char digits[3][2];
static void num( int v, int k )
{
    digits[k][0] = '0' + v; digits[k][1] = 0;
    T[nT].token = T_NUM; T[nT].numbase = 10; T[nT].itemlen = 1; T[nT].string_ptr = digits[k]; nT++;
}
static void bop( int b )
{
    T[nT].token = binop[b].tok;
    T[nT].string_ptr = (char *)vf_str;
    if ( binop[b].tok == T_BINARY_OPERATOR ) { T[nT].precedence = binop[b].prec; T[nT].tokval = binop[b].tokval; }
    nT++;
}
static void uop( int u )
{
    T[nT].token = unop[u].tok;
    T[nT].string_ptr = (char *)vf_str;
    if ( unop[u].tok == T_UNARY_OPERATOR ) { T[nT].precedence = unop[u].prec; T[nT].tokval = unop[u].tokval; }
    nT++;
}
static void sep( int t ) { T[nT].token = t; T[nT].string_ptr = (char *)vf_str; nT++; }

#define A in_a
#define B in_b
#define C in_c
/* expected value, built from the rule: higher precedence first, equal
 * precedence left to right, parentheses first */
static uint_64 expected( void )
{
    int hi2 = binop[in_o2].prec < binop[in_o1].prec;    /* second operator binds tighter */
    switch ( VF_SHAPE ) {
    case 1: /* a o1 b o2 c */
        return hi2 ? app2( in_o1, A, app2( in_o2, B, C ) ) : app2( in_o2, app2( in_o1, A, B ), C );
    case 2: /* u a o1 b */
        return binop[in_o1].prec < unop[in_u1].prec ? app1( in_u1, app2( in_o1, A, B ) ) : app2( in_o1, app1( in_u1, A ), B );
    case 3: /* a o1 u b */
        return app2( in_o1, A, app1( in_u1, B ) );
    case 4: /* ( a o1 b ) o2 c */
        return app2( in_o2, app2( in_o1, A, B ), C );
    case 5: /* a o1 ( b o2 c ) */
        return app2( in_o1, A, app2( in_o2, B, C ) );
    case 6: /* u ( a o1 b ) */
        return app1( in_u1, app2( in_o1, A, B ) );
    case 7: /* u1 u2 a */
        return app1( in_u1, app1( in_u2, A ) );
    }
    return 0;
}
static const uint_8 vals[2][3] = { { 9, 9, 7 }, { 3, 6, 2 } };
static void one( void )
{
    struct expr e;
    int i = 0;
    ret_code rc;
    uint_64 x;
    memset( T, 0, sizeof T );
    T[3].string_ptr = T[4].string_ptr = T[5].string_ptr = T[6].string_ptr = T[7].string_ptr = (char *)vf_str;
    nT = 0;
    switch ( VF_SHAPE ) {
    case 1: num( in_a, 0 ); bop( in_o1 ); num( in_b, 1 ); bop( in_o2 ); num( in_c, 2 ); break;
    case 2: uop( in_u1 ); num( in_a, 0 ); bop( in_o1 ); num( in_b, 1 ); break;
    case 3: num( in_a, 0 ); bop( in_o1 ); uop( in_u1 ); num( in_b, 1 ); break;
    case 4: sep( T_OP_BRACKET ); num( in_a, 0 ); bop( in_o1 ); num( in_b, 1 ); sep( T_CL_BRACKET ); bop( in_o2 ); num( in_c, 2 ); break;
    case 5: num( in_a, 0 ); bop( in_o1 ); sep( T_OP_BRACKET ); num( in_b, 1 ); bop( in_o2 ); num( in_c, 2 ); sep( T_CL_BRACKET ); break;
    case 6: uop( in_u1 ); sep( T_OP_BRACKET ); num( in_a, 0 ); bop( in_o1 ); num( in_b, 1 ); sep( T_CL_BRACKET ); break;
    case 7: uop( in_u1 ); uop( in_u2 ); num( in_a, 0 ); break;
    }
    init_expr( &e );
    rc = evaluate( &e, &i, T, nT, 0 );
    x = expected();
    if ( rc == NOT_ERROR && vf_errcnt == 0 ) {
        VF_CHECK( i == nT, "whole expression consumed" );
        VF_CHECK( e.kind == EXPR_CONST && e.llvalue == x, "operators applied by precedence, then left to right" );
    } else {
        VF_CHECK( vf_errcnt != 0, "diagnostic" );
    }
}
/* @proof prec_eval1 props=C02 harness=h_eval defs=VF_SHAPE=1,VF_V=0 under=evaluate calls=myatoi128:vf_atoi link=reswords.c nodfcc lite objbits=16 unwind=13 bounded=expressions_a_op_b_op_c_(all_operators) */
/* @proof prec_eval1b props=C02 harness=h_eval defs=VF_SHAPE=1,VF_V=1 under=evaluate calls=myatoi128:vf_atoi link=reswords.c nodfcc lite objbits=16 unwind=13 bounded=expressions_a_op_b_op_c_(all_operators) */
/* @proof prec_eval2 props=C02 harness=h_eval defs=VF_SHAPE=2 under=evaluate calls=myatoi128:vf_atoi link=reswords.c nodfcc lite objbits=16 unwind=13 bounded=expressions_unary_a_op_b_(all_operators) */
/* @proof prec_eval3 props=C02 harness=h_eval defs=VF_SHAPE=3 under=evaluate calls=myatoi128:vf_atoi link=reswords.c nodfcc lite objbits=16 unwind=13 bounded=expressions_a_op_unary_b_(all_operators) */
/* @proof prec_eval5 props=C02 harness=h_eval defs=VF_SHAPE=5,VF_V=1 under=evaluate calls=myatoi128:vf_atoi link=reswords.c nodfcc lite objbits=16 unwind=13 bounded=expressions_a_op_(b_op_c)_(all_operators) */
/* @proof prec_eval6 props=C02 harness=h_eval defs=VF_SHAPE=6 under=evaluate calls=myatoi128:vf_atoi link=reswords.c nodfcc lite objbits=16 unwind=13 bounded=expressions_unary_(a_op_b)_(all_operators) */
/* @proof prec_eval7 props=C02 harness=h_eval defs=VF_SHAPE=7 under=evaluate calls=myatoi128:vf_atoi link=reswords.c nodfcc lite objbits=16 unwind=13 bounded=expressions_unary_unary_a_(all_operators) */
void h_eval( void )
{
    int o1, o2, u1, v;
    memset( &ModuleInfo, 0, sizeof ModuleInfo );
    memset( &Options, 0, sizeof Options );
    ModuleInfo.Ofssize = USE32;
    fnEmitErr = vf_err;
    Parse_Pass = PASS_2;
#ifdef VF_V
    for ( v = VF_V; v <= VF_V; v++ ) {
#else
    for ( v = 0; v < 2; v++ ) {
#endif
        in_a = vals[v][0]; in_b = vals[v][1]; in_c = vals[v][2];
        for ( o1 = 0; o1 < ( VF_SHAPE == 7 ? NUN : NBIN ); o1++ )
            for ( o2 = 0; o2 < ( VF_SHAPE == 1 || VF_SHAPE == 4 || VF_SHAPE == 5 ? NBIN : NUN ); o2++ ) {
                vf_errcnt = 0;
                in_o1 = o1; in_o2 = o2; in_u1 = o2; in_u2 = o1;
                one();
            }
    }
    VF_REACH( "end" );
}
#endif
