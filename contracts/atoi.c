/* Contracts for the value of integer literals (expreval.c: myatoi128). */
#include <string.h>
#include "globals.h"
#include "parser.h"
#include "expreval.h"
#include "vf.h"

#ifndef LEN
# define LEN 8
#endif
#ifndef BASE
# define BASE 16
#endif
char     in_s[LEN+1];
uint_64  pv_lo[LEN+1], pv_hi[LEN+1];    /* value of the first k digits, modulo 2^128 */
uint_8   ov[LEN+1];                     /* does it exceed 128 bits? */
unsigned in_len;
uint_64  vf_dst[2];
typedef unsigned __int128 u128;
struct { u128 v; int ovf; } spec;

static unsigned dig( char c ) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }
static int is_dig( char c ) { return ( c >= '0' && c <= '9' && c - '0' < BASE ) || ( BASE == 16 && ( ( c >= 'a' && c <= 'f' ) || ( c >= 'A' && c <= 'F' ) ) ); }
/* sum of digit * base^position, and whether it exceeds 128 bits */
static void value( void )
{
    unsigned i;
    spec.v = 0; spec.ovf = 0;
    for ( i = 0; i < in_len; i++ ) {
        pv_lo[i] = spec.v; pv_hi[i] = spec.v >> 64; ov[i] = spec.ovf;
        unsigned d = dig( in_s[i] );
        if ( spec.v > ~(u128)0 / BASE || ( spec.v == ~(u128)0 / BASE && d > (unsigned)( ~(u128)0 % BASE ) ) ) spec.ovf = 1;
        spec.v = spec.v * BASE + d;
    }
    pv_lo[i] = spec.v; pv_hi[i] = spec.v >> 64; ov[i] = spec.ovf;
}
static int post_atoi( const uint_64 *dst, int res )
{
    if ( spec.ovf ) return res;
    return !res && dst[0] == (uint_64)spec.v && dst[1] == (uint_64)( spec.v >> 64 );
}
#ifdef VF_CBMC
bool myatoi128( const char *src, uint_64 dst[], int base, int size )
REQUIRES( src == in_s && base == BASE && size == in_len && dst == vf_dst )
ASSIGNS( OBJ( dst ) )
ENSURES( post_atoi( dst, __CPROVER_return_value ) )
;
#endif
#include "/repo/expreval.c"

struct module_info ModuleInfo;
struct global_options Options;
unsigned int Parse_Pass;
/* @proof lit_hex props=C03 harness=h_atoi enforce=myatoi128 defs=BASE=16,LEN=34 unwind=36 solver=cadical pre=--unwindset@myatoi128.0:9 loops=atoi.json bounded=literals_of_up_to_34_digits fallback=lit_hex_b */
/* @proof lit_dec props=C03 harness=h_atoi enforce=myatoi128 defs=BASE=10,LEN=22 unwind=24 solver=cadical pre=--unwindset@myatoi128.0:9 loops=atoi.json bounded=literals_of_up_to_22_digits fallback=lit_dec_b */
/* @proof lit_oct props=C03 harness=h_atoi enforce=myatoi128 defs=BASE=8,LEN=24 unwind=26 solver=cadical pre=--unwindset@myatoi128.0:9 loops=atoi.json bounded=literals_of_up_to_24_digits fallback=lit_oct_b */
/* @proof lit_bin props=C03 harness=h_atoi enforce=myatoi128 defs=BASE=2,LEN=66 unwind=68 solver=cadical pre=--unwindset@myatoi128.0:9 loops=atoi.json bounded=literals_of_up_to_66_digits fallback=lit_bin_b */
/* @proof lit_dec_long props=C03 harness=h_atoi enforce=myatoi128 defs=BASE=10,LEN=40 unwind=42 solver=cadical pre=--unwindset@myatoi128.0:9 loops=atoi.json bounded=literals_of_up_to_40_digits tier=thorough timeout=800 fallback=lit_dec_b */
/* @proof lit_oct_long props=C03 harness=h_atoi enforce=myatoi128 defs=BASE=8,LEN=44 unwind=46 solver=cadical pre=--unwindset@myatoi128.0:9 loops=atoi.json bounded=literals_of_up_to_44_digits tier=thorough timeout=800 fallback=lit_oct_b */
/* @proof lit_bin_long props=C03 harness=h_atoi enforce=myatoi128 defs=BASE=2,LEN=130 unwind=132 solver=cadical pre=--unwindset@myatoi128.0:9 loops=atoi.json bounded=literals_of_up_to_130_digits tier=thorough timeout=800 fallback=lit_bin_b */
/* @proof lit_hex_b props=C03 harness=h_atoi enforce=myatoi128 defs=BASE=16,LEN=34 unwind=36 solver=cadical bounded=literals_of_up_to_34_digits tier=fallback */
/* @proof lit_dec_b props=C03 harness=h_atoi enforce=myatoi128 defs=BASE=10,LEN=10 unwind=12 solver=cadical bounded=literals_of_up_to_10_digits tier=fallback */
/* @proof lit_oct_b props=C03 harness=h_atoi enforce=myatoi128 defs=BASE=8,LEN=24 unwind=26 solver=cadical bounded=literals_of_up_to_24_digits tier=fallback */
/* @proof lit_bin_b props=C03 harness=h_atoi enforce=myatoi128 defs=BASE=2,LEN=66 unwind=68 solver=cadical bounded=literals_of_up_to_66_digits tier=fallback */
void h_atoi( void )
{
    int i, r;
    VF_IN_ARR( in_s, LEN ); VF_IN( in_len );
    VF_ASSUME( in_len >= 1 && in_len <= LEN );
    for ( i = 0; i < LEN; i++ )
        VF_ASSUME( is_dig( in_s[i] ) );
    in_s[in_len] = 0;
    value();
    r = myatoi128( in_s, vf_dst, BASE, in_len );
    VF_POST( post_atoi( vf_dst, r ), "value of the literal" );
#if BASE == 16 || LEN == 40 || LEN == 44 || LEN == 130
    if ( r ) VF_REACH( "overflow" );
#endif
    if ( !r ) VF_REACH( "ok" );
}
