/* Contracts for LEDATA/COMDAT and FIXUPP output (omf.c). */
#include <string.h>
#include "globals.h"
#include "memalloc.h"
#include "parser.h"
#include "segment.h"
#include "fixup.h"
#include "omf.h"
#include "omfint.h"
#include "omfspec.h"
#include "tokenize.h"
#include "vf.h"

uint_8   in_write, in_comdat, in_used, in_code, in_flat, in_fix, in_al, in_n, in_type[3], in_is32;
uint_16  in_cidx;
uint_32  in_cur, in_start, in_len[3];
unsigned in_sidx;
struct { unsigned recs, fixrec, gen; int bad; uint_8 cmd[3], is32[3]; uint_32 len[3]; uint_8 b[4]; uint_8 fidx[3], attr, al; unsigned lidx, cidx; uint_32 ofs; const void *data[3]; uint_8 sz; } vf;
struct module_info ModuleInfo;
struct global_options Options;
extern bool write_to_file;
int_32 LastCodeBufSize;
static int startext;
static struct dsym S; static struct seg_info Si;
static const struct dsym Zd; static const struct seg_info Zi;
static struct fixup F[3];
static uint_8 cb[16];
static char sbuf[2048];

void omf_write_record( const struct omf_rec *r )                                /* @stub omf_write_record: contract proved in omfrec.c */
{
    unsigned n = vf.recs++;
    if ( n > 2 ) { vf.bad++; return; }
    vf.cmd[n] = r->command; vf.is32[n] = r->is_32; vf.len[n] = r->length; vf.data[n] = r->data;
    switch ( r->command ) {
    case CMD_CEXTDEF: vf.b[0] = r->data[0]; vf.b[1] = r->data[1]; vf.b[2] = r->data[2]; break;
    case CMD_LEDATA: vf.lidx = r->d.ledata.idx; vf.ofs = r->d.ledata.offset; break;
    case CMD_COMDAT: vf.ofs = r->d.comdat.offset; vf.cidx = r->d.comdat.public_lname_idx; vf.attr = r->d.comdat.attributes; vf.al = r->d.comdat.align;
        if ( r->d.comdat.flags || r->d.comdat.type_idx ) vf.bad++;
        break;
    }
}
/* contract of OmfFixGenFix, widened: any subrecord length (real ones are at most FIX_GEN_MAX, so three fixups reach the buffer limit) */
unsigned OmfFixGenFix( const struct fixup *f, uint_32 start, uint_8 *buf, enum fixgen_types t ) /* @stub OmfFixGenFix: contract proved in omffix.c */
{
    int k = f == &F[0] ? 0 : f == &F[1] ? 1 : 2;
    if ( start != in_start || t != ( in_is32 ? FIX_GEN_MS386 : FIX_GEN_INTEL ) || vf.gen > 2 ) vf.bad++; else vf.fidx[vf.gen++] = k;
    if ( (char *)buf < sbuf || (char *)buf - sbuf > 1020 - FIX_GEN_MAX ) vf.bad++;
    return in_len[k];
}

static int wide( int t ) { return t == FIX_RELOFF32 || t == FIX_OFF32 || t == FIX_PTR32; }
static int post_fixupp( void )
{
    unsigned i, k = 0, r = 0; uint_32 sum = 0;
    if ( vf.bad ) return 0;
    for ( i = 0; i < 3; i++ ) if ( i < in_n && wide( in_type[i] ) == in_is32 ) {
        if ( k >= vf.gen || vf.fidx[k] != i ) return 0;         /* each fixup of this width, once, in order */
        k++;
        if ( sum > 1020 - FIX_GEN_MAX ) { if ( r > 2 || vf.len[r] != sum ) return 0; r++; sum = 0; }
        sum += in_len[i];
    }
    if ( k != vf.gen ) return 0;
    if ( sum ) { if ( r > 2 || vf.len[r] != sum ) return 0; r++; }
    if ( r != vf.recs ) return 0;
    for ( i = 0; i < 3; i++ ) if ( i < r && ( vf.cmd[i] != CMD_FIXUPP || vf.is32[i] != in_is32 || vf.data[i] != sbuf ) ) return 0;
    return 1;
}
static int post_ledata( void )
{
    uint_32 size = in_cur - in_start; unsigned n = 0;
    if ( vf.bad || Si.start_loc != in_cur || Si.current_loc != in_cur ) return 0;
    if ( !size || !in_write ) return vf.recs == 0 && vf.fixrec == 0 && LastCodeBufSize == 77;
    if ( LastCodeBufSize != size ) return 0;
    if ( in_comdat && in_used ) {
        if ( vf.cmd[0] != CMD_CEXTDEF || vf.is32[0] ) return 0;
        if ( in_cidx > 0x7f ? vf.len[0] != 3 || vf.b[0] != ( 0x80 | in_cidx >> 8 ) || vf.b[1] != ( in_cidx & 255 ) || vf.b[2] : vf.len[0] != 2 || vf.b[0] != in_cidx || vf.b[1] ) return 0;
        n = 1;
    }
    if ( vf.recs != n + 1 || vf.len[n] != size || vf.data[n] != cb || vf.is32[n] != ( in_start > 0xffff ) || vf.ofs != in_start ) return 0;
    if ( in_comdat ) {
        if ( vf.cmd[n] != CMD_COMDAT || vf.cidx != in_cidx || vf.attr != ( in_code ? ( in_flat ? 3 : 1 ) : ( in_flat ? 4 : 2 ) ) ) return 0;
        if ( Si.seg_idx != ( in_used && !in_sidx ? 9 : in_sidx ) ) return 0;
    } else if ( vf.cmd[n] != CMD_LEDATA || vf.lidx != in_sidx || Si.seg_idx != in_sidx ) return 0;
    if ( vf.fixrec != ( in_fix ? 3 : 0 ) ) return 0;            /* bit 0: 16-bit, bit 1: 32-bit */
    return Si.FixupList.head == NULL && Si.FixupList.tail == NULL;
}
#ifdef VF_CBMC
static void omf_write_fixupp( struct dsym *seg, char is32 )
REQUIRES( seg == &S && ( is32 == 0 || is32 == 1 ) )
# ifdef P_FIX
ASSIGNS( OBJ( &vf ) )
ENSURES( post_fixupp() )
# else
ASSIGNS( OBJ( &vf ) )
ENSURES( vf.fixrec == ( __CPROVER_old( vf.fixrec ) | ( is32 ? 2 : 1 ) ) && vf.bad == __CPROVER_old( vf.bad ) && vf.recs == __CPROVER_old( vf.recs ) && vf.ofs == __CPROVER_old( vf.ofs )
  && vf.cmd[0] == __CPROVER_old( vf.cmd[0] ) && vf.cmd[1] == __CPROVER_old( vf.cmd[1] ) && vf.is32[0] == __CPROVER_old( vf.is32[0] ) && vf.is32[1] == __CPROVER_old( vf.is32[1] )
  && vf.len[0] == __CPROVER_old( vf.len[0] ) && vf.len[1] == __CPROVER_old( vf.len[1] ) && vf.data[0] == __CPROVER_old( vf.data[0] ) && vf.data[1] == __CPROVER_old( vf.data[1] )
  && vf.b[0] == __CPROVER_old( vf.b[0] ) && vf.b[1] == __CPROVER_old( vf.b[1] ) && vf.b[2] == __CPROVER_old( vf.b[2] ) && vf.attr == __CPROVER_old( vf.attr ) && vf.al == __CPROVER_old( vf.al )
  && vf.lidx == __CPROVER_old( vf.lidx ) && vf.cidx == __CPROVER_old( vf.cidx ) )
# endif
;
static void omf_write_ledata( struct dsym *seg )
REQUIRES( seg == &S )
ASSIGNS( OBJ( &vf ), OBJ( &Si ), OBJ( sbuf ), LastCodeBufSize, startext )
ENSURES( post_ledata() )
;
#endif
#include "/repo/omf.c"

static void setup( void )
{
    VF_IN( in_write ); VF_IN( in_comdat ); VF_IN( in_used ); VF_IN( in_code ); VF_IN( in_flat ); VF_IN( in_fix ); VF_IN( in_al ); VF_IN( in_cidx ); VF_IN( in_cur ); VF_IN( in_start ); VF_IN( in_sidx );
    VF_ASSUME( in_write <= 1 && in_comdat <= 1 && in_used <= 1 && in_code <= 1 && in_flat <= 1 && in_fix <= 1 && in_cidx <= 0x7fff && in_sidx <= 0x7fff && in_start <= in_cur && in_cur - in_start <= 1024 );
    memset( &vf, 0, sizeof vf ); S = Zd; Si = Zi;
    S.e.seginfo = &Si; S.sym.used = in_used;
    Si.start_loc = in_start; Si.current_loc = in_cur; Si.CodeBuffer = cb; Si.seg_idx = in_sidx; Si.comdat_idx = in_cidx; Si.comdat_selection = in_comdat; Si.alignment = in_al;
    Si.segtype = in_code ? SEGTYPE_CODE : SEGTYPE_DATA;
    ModuleInfo.model = in_flat ? MODEL_FLAT : MODEL_SMALL;
    write_to_file = in_write; StringBufferEnd = sbuf; LastCodeBufSize = 77; startext = 9;
}
#ifdef P_FIX
/* @proof omf_fixupp16 props=C09 harness=h_fixupp enforce=omf_write_fixupp defs=P_FIX,IS32=0 unwind=24 unwindset=omf_write_fixupp.0:5,omf_write_fixupp.1:5,omf_write_fixupp.2:5 solver=cadical bounded=lists_of_up_to_3_fixups */
/* @proof omf_fixupp32 props=C09 harness=h_fixupp enforce=omf_write_fixupp defs=P_FIX,IS32=1 unwind=24 unwindset=omf_write_fixupp.0:5,omf_write_fixupp.1:5,omf_write_fixupp.2:5 solver=cadical bounded=lists_of_up_to_3_fixups */
void h_fixupp( void )
{
    unsigned i;
    VF_IN( in_n ); VF_IN_ARR( in_type, sizeof in_type ); VF_IN_ARR( in_len, sizeof in_len );
    setup();
    in_is32 = IS32;
    VF_ASSUME( in_n <= 3 && in_len[0] <= 500 && in_len[1] <= 500 && in_len[2] <= 500 );
    for ( i = 0; i < 3; i++ ) {
        memset( &F[i], 0, sizeof F[i] );
        VF_ASSUME( in_type[i] >= FIX_RELOFF8 && in_type[i] <= FIX_HIBYTE && in_type[i] != FIX_OFF64 );
        F[i].type = in_type[i]; F[i].nextrlc = i + 1 < in_n ? &F[i+1] : NULL;
    }
    Si.FixupList.head = in_n ? &F[0] : NULL;
    omf_write_fixupp( &S, IS32 );
    VF_POST( post_fixupp(), "FIXUPP records" );
    VF_REACH( "end" );
}
#else
/* @proof omf_ledata_out props=C09,C06 harness=h_ledata enforce=omf_write_ledata replace=omf_write_fixupp unwind=24 solver=cadical */
void h_ledata( void )
{
    setup();
    memset( &F[0], 0, sizeof F[0] );
    F[0].type = FIX_OFF16;
    if ( in_fix ) Si.FixupList.head = Si.FixupList.tail = &F[0];
#ifdef VF_REPLAY
    if ( in_fix ) vf.fixrec = 3;
#endif
    omf_write_ledata( &S );
    VF_POST( post_ledata(), "LEDATA record" );
    VF_REACH( "end" );
}
#endif
