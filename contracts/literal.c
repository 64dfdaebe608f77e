/* Contracts for the syntax of integer literals (tokenize.c: get_number). */
#include <string.h>
#include "globals.h"
#include "parser.h"
#include "tokenize.h"
#include "vf.h"
#include <ctype.h>

#define N 13
char     in_s[N+1];
uint_8   in_radix;
static struct asm_tok tok;
static struct line_status ls;
static char vf_out[N+2];
struct { int isfloat; } vf;
struct module_info ModuleInfo;
struct global_options Options;
unsigned int Parse_Pass;

/* ------------------------------------------------------------ specification (MASM manual, numbers) */
static int hexv( char c ) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int lower( char c ) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int idchar( char c ) { return hexv( c ) >= 0 || ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) || c == '_' || c == '@' || c == '$' || c == '?'; }
enum { NUM, BAD, FLT, REAL };
struct { int kind, base, len, total; } spec;
static void spec_number( void )
{
    int i = 0, k, max = -1, maxp = -1, n, c, hx = 0;
    if ( in_s[0] == '0' && lower( in_s[1] ) == 'x' ) { i = 2; hx = 1; }
    for ( k = i; hexv( in_s[k] ) >= 0; k++ ) {
        maxp = max;                                       /* highest digit without the last one */
        if ( hexv( in_s[k] ) > max ) max = hexv( in_s[k] );
    }
    n = k - i;
    c = lower( in_s[k] );
    spec.kind = NUM; spec.len = n; spec.base = 0; spec.total = k;
    if ( c == '.' ) { spec.kind = FLT; return; }
    if ( hx ) { spec.base = n ? 16 : 0; }
    else if ( c == 'r' ) { spec.kind = REAL; spec.total = k + 1; return; }
    else if ( c == 'h' ) { spec.base = 16; spec.total = k + 1; }
    else if ( c == 'y' ) { if ( max <= 1 ) { spec.base = 2; spec.total = k + 1; } }
    else if ( c == 't' ) { if ( max <= 9 ) { spec.base = 10; spec.total = k + 1; } }
    else if ( c == 'o' || c == 'q' ) { if ( max <= 7 ) { spec.base = 8; spec.total = k + 1; } }
    else {
        int last = lower( in_s[k-1] );
        /* a trailing B/D is a radix specifier unless the current radix makes it a digit */
        if ( max >= in_radix && ( last == 'b' || last == 'd' ) && maxp <= ( last == 'b' ? 1 : 9 ) ) {
            spec.base = last == 'b' ? 2 : 10; spec.len = n - 1;
        }
        else if ( max < in_radix ) spec.base = in_radix;
    }
    if ( spec.base == 0 ) {
        spec.kind = BAD;
        for ( ; idchar( in_s[k] ); k++ );
        spec.total = k;
    }
}
static int post_number( const struct asm_tok *b, const struct line_status *p, ret_code rc )
{
    int i;
    if ( spec.kind == FLT ) return vf.isfloat;
    if ( rc != NOT_ERROR || vf.isfloat ) return 0;
    if ( p->input != in_s + spec.total || p->output != vf_out + spec.total + 1 ) return 0;
    for ( i = 0; i < spec.total; i++ ) if ( vf_out[i] != in_s[i] ) return 0;
    if ( vf_out[spec.total] != 0 ) return 0;
    if ( spec.kind == BAD ) return b->token == T_BAD_NUM;
    if ( spec.kind == REAL ) return b->token == T_FLOAT && b->floattype == 'r';
    return b->token == T_NUM && b->numbase == spec.base && b->itemlen == spec.len;
}
#ifdef VF_CBMC
static ret_code get_float( struct asm_tok *buf, struct line_status *p )
REQUIRES( buf == &tok )
ASSIGNS( vf.isfloat, OBJ( buf ), OBJ( p ), OBJ( vf_out ) )
ENSURES( vf.isfloat == 1 )
;
static ret_code get_number( struct asm_tok *buf, struct line_status *p )
REQUIRES( buf == &tok && p == &ls && p->input == in_s && p->output == vf_out )
ASSIGNS( OBJ( buf ), OBJ( p ), OBJ( vf_out ), OBJ( &vf ) )
ENSURES( post_number( buf, p, __CPROVER_return_value ) )
;
#endif
#include "/repo/tokenize.c"

#ifdef VF_PROOF_lit_syntax
/* @proof lit_syntax props=C03 harness=h_number enforce=get_number replace=get_float link=ltype.c static=_ltype unwind=17 solver=cadical bounded=tokens_of_up_to_13_characters */
void h_number( void )
{
    int r;
    VF_IN_ARR( in_s, N + 1 ); VF_IN( in_radix );
    memset( &ModuleInfo, 0, sizeof ModuleInfo ); memset( &Options, 0, sizeof Options );
    memset( &tok, 0, sizeof tok ); memset( &ls, 0, sizeof ls );
    VF_ASSUME( in_radix >= 2 && in_radix <= 16 );
    VF_ASSUME( in_s[0] >= '0' && in_s[0] <= '9' && in_s[N] == 0 );
    { int i; for ( i = 0; i < N; i++ ) VF_ASSUME( !( in_s[i] & 0x80 ) ); }
    ModuleInfo.radix = in_radix;
    vf.isfloat = 0;
    ls.input = in_s; ls.output = vf_out;
    spec_number();
    r = get_number( &tok, &ls );
    VF_POST( post_number( &tok, &ls, r ), "radix and digits of the literal" );
    if ( tok.token == T_NUM ) VF_REACH( "number" );
    if ( tok.token == T_BAD_NUM ) VF_REACH( "bad number" );
}
#endif
#ifdef VF_PROOF_lit_class
uint_8 in_c;
/* character classes used by the scanner */
/* @proof lit_class props=C03 harness=h_class under=_ltype link=ltype.c static=_ltype solver=cadical */
void h_class( void )
{
    int c;
    VF_IN( in_c );
    c = in_c;
    VF_CHECK( !!isldigit( c ) == ( c >= '0' && c <= '9' ), "digit" );
    VF_CHECK( !!islxdigit( c ) == ( c < 128 && hexv( c ) >= 0 ), "hex digit" );
    VF_CHECK( !!islalpha( c ) == ( ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) ), "letter" );
    VF_CHECK( !!islspace( c ) == ( c == ' ' || ( c >= 9 && c <= 13 ) ), "white space" );
    if ( c < 128 ) VF_CHECK( !!is_valid_id_char( c ) == idchar( c ), "identifier character" );
    VF_REACH( "end" );
}
#endif
