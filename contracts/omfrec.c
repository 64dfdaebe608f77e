/* Contracts for OMF record output (omfint.c). */
#include <string.h>
#include <stdio.h>
#include "globals.h"
#include "omfint.h"
#include "omfspec.h"
#include "vf.h"

uint_8   in_is32, in_cmd, in_b0, in_b1, in_b2, in_b3, in_b4;
uint_16  in_w0, in_w1, in_w2, in_w3;
uint_32  in_d0, in_len, in_q, in_n;
#ifndef DATA
# ifdef P_END
#  define DATA 64
# else
#  define DATA 1024
# endif
#endif
uint_8   in_data[DATA];
struct { unsigned writes, n; uint_8 cmd, h[16], at; int bad; const void *dst, *src; unsigned copies, len; } vf;
struct module_info ModuleInfo;
struct global_options Options;
static struct omf_rec R;
static const struct omf_rec Zr;
void WriteError( void ) { vf.bad++; }                                           /* @stub WriteError */
void Fatal( int m, ... ) { vf.bad++; }                                           /* @stub Fatal */
static char fobj;

/* --- the record as specified: header fields, then the data; sp.h holds the bytes in front of the data --- */
static struct { uint_8 h[16]; unsigned n, cmd; } sp;
static void b1( uint_8 v ) { if ( sp.n < 16 ) sp.h[sp.n++] = v; }
static void b2( uint_16 v ) { b1( v ); b1( v >> 8 ); }
static void bofs( uint_32 v ) { b2( v ); if ( in_is32 ) b2( v >> 16 ); }
static void bidx( uint_16 v ) { if ( v > 0x7f ) b1( 0x80 | ( v >> 8 ) ); b1( v ); }
static void base( void ) { bidx( in_w0 ); bidx( in_w1 ); if ( !in_w0 && !in_w1 ) b2( in_w2 ); }
static void spec( void )
{
    sp.n = 0; sp.cmd = in_cmd | in_is32;
    switch ( in_cmd ) {
    case CMD_COMENT: b1( in_b0 ); b1( in_b1 ); sp.cmd = in_cmd; break;
    case CMD_SEGDEF:
        b1( in_b0 << 5 | in_b1 << 2 | ( !in_is32 && in_d0 == 0x10000 ? 2 : 0 ) | in_b2 );
        if ( in_b0 == SEGDEF_ALIGN_ABS ) { b2( in_w3 ); b1( in_b3 ); }
        bofs( in_d0 ); bidx( in_w0 ); bidx( in_w1 ); bidx( in_w2 ); break;
    case CMD_LEDATA: case CMD_LIDATA: bidx( in_w0 ); bofs( in_d0 ); break;
    case CMD_MODEND: b1( ( in_b0 ? 0x80 : 0 ) | ( in_b1 ? 0x41 : 0 ) ); if ( !in_b1 ) sp.cmd = in_cmd; break;
    case CMD_PUBDEF: case CMD_LPUBDEF: case CMD_LINNUM: base(); break;
    case CMD_COMDAT:
        b1( in_b0 ); b1( in_b1 ); b1( in_b2 ); bofs( in_d0 ); bidx( in_w3 );
        if ( !( in_b1 & 15 ) ) base();
        bidx( in_w3 ); break;
    case CMD_LINSYM: b1( in_b0 ); bidx( in_w3 ); break;
    case CMD_FIXUPP: case CMD_BAKPAT: case CMD_NBKPAT: break;
    default: sp.cmd = in_cmd;
    }
}
static unsigned datalen( void ) { return in_cmd == CMD_SEGDEF || ( in_cmd == CMD_MODEND && !in_b1 ) ? 0 : in_len; }
static int post_record( void )
{
    unsigned k;
    if ( vf.bad || vf.writes != 1 || vf.cmd != sp.cmd || vf.n != sp.n + datalen() ) return 0;
    for ( k = 0; k < 16; k++ ) if ( k < sp.n && vf.h[k] != sp.h[k] ) return 0;
#ifdef VF_CBMC  /* one arbitrary byte of the data */
    if ( datalen() && ( vf.copies != 1 || vf.len != in_len ) ) return 0;
#endif
    return in_q < sp.n || in_q >= vf.n || vf.at == in_data[in_q - sp.n];
}
#ifdef P_END
static int post_end( void )
{
    uint_16 l = in_n + 1;
    uint_8 c = in_cmd + ( l & 0xff ) + ( l >> 8 );
    unsigned k;
    for ( k = 0; k < DATA; k++ ) if ( k < in_n ) c += in_data[k];
    return !vf.bad && vf.writes == 1 && vf.n == in_n + 4 && vf.cmd == in_cmd && vf.h[0] == (uint_8)l && vf.h[1] == l >> 8 && vf.at == (uint_8)-c
        && ( in_q >= in_n || vf.h[2] == in_data[in_q] );
}
#endif
static size_t vf_fwrite( const void *p, size_t s, size_t n, FILE *f )           /* @stub fwrite: all bytes are written */
{
    const uint_8 *b = p;
    if ( s != 1 || f != (FILE *)&fobj ) vf.bad++;
    vf.writes++;
#ifdef P_END
    vf.cmd = b[0]; vf.h[0] = b[1]; vf.h[1] = b[2]; vf.n = n; vf.at = b[n-1]; if ( in_q < in_n ) vf.h[2] = b[3+in_q];
#else
    { unsigned i; uint_8 c = 0; vf.cmd = b[0]; vf.n = n - 4; for ( i = 0; i < 16; i++ ) if ( i < vf.n ) vf.h[i] = b[3+i]; if ( in_q < vf.n ) vf.at = b[3+in_q];
      for ( i = 0; i < n; i++ ) c += b[i];
      if ( c || b[1] + b[2] * 256 != (int)( n - 3 ) ) vf.bad++; }
#endif
    return n;
}
#define fwrite vf_fwrite
#ifndef P_END
# ifdef VF_CBMC
/* contract of memcpy, for one arbitrary byte */
static void *vf_memcpy( void *d, const void *s, size_t n )                      /* @stub memcpy: by contract */
{
    VF_CHECK( s == in_data && n <= sizeof in_data, "copy inside the buffers" );
    vf.copies++; vf.len = n;
    if ( in_q >= sp.n && in_q - sp.n < n ) ((uint_8 *)d)[in_q - sp.n] = ((const uint_8 *)s)[in_q - sp.n];
    return d;
}
#  define memcpy vf_memcpy
# endif
#endif
#include "/repo/omfint.c"
#undef memcpy
#ifdef P_END
static struct outbuff O;
#endif
#ifdef VF_CBMC
# ifdef P_END
static void WEndRec( struct outbuff *out )
REQUIRES( out == &O )
ASSIGNS( OBJ( &vf ), OBJ( &O ) )
ENSURES( post_end() )
;
# else
static void WEndRec( struct outbuff *out )
REQUIRES( out->in_buf < OBJ_BUFFER_SIZE )
ASSIGNS( OBJ( &vf ) )
ENSURES( vf.writes == __CPROVER_old( vf.writes ) + 1 && vf.bad == __CPROVER_old( vf.bad ) && vf.copies == __CPROVER_old( vf.copies ) && vf.len == __CPROVER_old( vf.len ) && vf.n == out->in_buf && vf.cmd == out->cmd && vf.h[0] == out->buffer[0] && vf.h[1] == out->buffer[1]
  && vf.h[2] == out->buffer[2] && vf.h[3] == out->buffer[3] && vf.h[4] == out->buffer[4] && vf.h[5] == out->buffer[5] && vf.h[6] == out->buffer[6] && vf.h[7] == out->buffer[7]
  && vf.h[8] == out->buffer[8] && vf.h[9] == out->buffer[9] && vf.h[10] == out->buffer[10] && vf.h[11] == out->buffer[11] && vf.h[12] == out->buffer[12] && vf.h[13] == out->buffer[13]
  && vf.h[14] == out->buffer[14] && vf.h[15] == out->buffer[15] && vf.at == out->buffer[in_q] )
;
void omf_write_record( const struct omf_rec *objr )
REQUIRES( objr == &R )
ASSIGNS( OBJ( &vf ) )
ENSURES( post_record() )
;
# endif
#endif

#ifdef P_END
/* @proof omf_end_t props=C09 harness=h_end enforce=WEndRec defs=P_END,DATA=200 tier=thorough unwind=202 bounded=records_of_up_to_200_data_bytes solver=cadical */
/* @proof omf_end props=C09 harness=h_end enforce=WEndRec defs=P_END unwind=66 bounded=records_of_up_to_64_data_bytes solver=cadical */
void h_end( void )
{
    unsigned i;
    VF_IN( in_cmd ); VF_IN( in_n ); VF_IN( in_q ); VF_IN_ARR( in_data, sizeof in_data );
    VF_ASSUME( in_n <= sizeof in_data && in_cmd );
    memset( &vf, 0, sizeof vf );
    CurrFile[OBJ] = (FILE *)&fobj;
    O.cmd = in_cmd; O.in_buf = in_n; O.reclen = 0;
    for ( i = 0; i < sizeof in_data; i++ ) O.buffer[i] = in_data[i];
    WEndRec( &O );
    VF_POST( post_end(), "record written" );
    VF_REACH( "end" );
}
#else
# ifndef CMD
#  define CMD CMD_LEDATA
# endif
/* @proof omf_theadr props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_THEADR unwind=24 solver=cadical */
/* @proof omf_coment props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_COMENT unwind=24 solver=cadical */
/* @proof omf_modend props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_MODEND unwind=24 solver=cadical */
/* @proof omf_extdef props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_EXTDEF unwind=24 solver=cadical */
/* @proof omf_pubdef props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_PUBDEF unwind=24 solver=cadical */
/* @proof omf_lpubdef props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_LPUBDEF unwind=24 solver=cadical */
/* @proof omf_linnum props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_LINNUM unwind=24 solver=cadical */
/* @proof omf_lnames props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_LNAMES unwind=24 solver=cadical */
/* @proof omf_segdef props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_SEGDEF unwind=24 solver=cadical */
/* @proof omf_grpdef props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_GRPDEF unwind=24 solver=cadical */
/* @proof omf_fixupp props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_FIXUPP unwind=24 solver=cadical */
/* @proof omf_ledata props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_LEDATA unwind=24 solver=cadical */
/* @proof omf_comdef props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_COMDEF unwind=24 solver=cadical */
/* @proof omf_lextdef props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_LEXTDEF unwind=24 solver=cadical */
/* @proof omf_cextdef props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_CEXTDEF unwind=24 solver=cadical */
/* @proof omf_comdat props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_COMDAT unwind=24 solver=cadical */
/* @proof omf_linsym props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_LINSYM unwind=24 solver=cadical */
/* @proof omf_alias props=C09 harness=h_record enforce=omf_write_record replace=WEndRec defs=CMD=CMD_ALIAS unwind=24 solver=cadical */
void h_record( void )
{
    VF_IN( in_is32 ); VF_IN( in_b0 ); VF_IN( in_b1 ); VF_IN( in_b2 ); VF_IN( in_b3 ); VF_IN( in_w0 ); VF_IN( in_w1 ); VF_IN( in_w2 ); VF_IN( in_w3 );
    VF_IN( in_d0 ); VF_IN( in_len ); VF_IN( in_q ); VF_IN_ARR( in_data, sizeof in_data );
    in_cmd = CMD;
    VF_ASSUME( in_is32 <= 1 && in_len <= sizeof in_data && in_w0 <= 0x7fff && in_w1 <= 0x7fff && in_w3 <= 0x7fff && in_q < 1100 );
    memset( &vf, 0, sizeof vf ); R = Zr;
    CurrFile[OBJ] = (FILE *)&fobj;
    R.command = CMD; R.is_32 = in_is32; R.data = in_data; R.length = in_len;
    switch ( CMD ) {
    case CMD_COMENT: R.d.coment.attr = in_b0; R.d.coment.cmt_class = in_b1; break;
    case CMD_MODEND: R.d.modend.main_module = in_b0; R.d.modend.start_addrs = in_b1; break;
    case CMD_SEGDEF:
        VF_ASSUME( in_b0 < 8 && in_b1 < 8 && in_b2 <= 1 && in_w2 <= 0x7fff && ( in_is32 || in_d0 <= 0x10000 ) );
        R.d.segdef.align = in_b0; R.d.segdef.combine = in_b1; R.d.segdef.use_32 = in_b2; R.d.segdef.abs.frame = in_w3; R.d.segdef.abs.offset = in_b3;
        R.d.segdef.seg_length = in_d0; R.d.segdef.seg_lname_idx = in_w0; R.d.segdef.class_lname_idx = in_w1; R.d.segdef.ovl_lname_idx = in_w2; break;
    case CMD_LEDATA: R.d.ledata.idx = in_w0; R.d.ledata.offset = in_d0; VF_ASSUME( in_is32 || in_d0 < 0x10000 ); break;
    case CMD_PUBDEF: case CMD_LPUBDEF: R.d.pubdef.base.grp_idx = in_w0; R.d.pubdef.base.seg_idx = in_w1; R.d.pubdef.base.frame = in_w2; break;
    case CMD_LINNUM: R.d.linnum.base.grp_idx = in_w0; R.d.linnum.base.seg_idx = in_w1; R.d.linnum.base.frame = in_w2; break;
    case CMD_COMDAT:
        VF_ASSUME( in_is32 || in_d0 < 0x10000 );
        R.d.comdat.flags = in_b0; R.d.comdat.attributes = in_b1; R.d.comdat.align = in_b2; R.d.comdat.offset = in_d0; R.d.comdat.type_idx = in_w3; R.d.comdat.public_lname_idx = in_w3;
        R.d.comdat.base.grp_idx = in_w0; R.d.comdat.base.seg_idx = in_w1; R.d.comdat.base.frame = in_w2; break;
    case CMD_LINSYM: R.d.linsym.flags = in_b0; R.d.linsym.public_lname_idx = in_w3; break;
    case CMD_EXTDEF: case CMD_LNAMES: case CMD_GRPDEF: case CMD_COMDEF: case CMD_LEXTDEF: case CMD_CEXTDEF: case CMD_ALIAS: case CMD_THEADR: VF_ASSUME( !in_is32 ); in_is32 = 0; R.is_32 = 0; break;
    }
    spec();
    omf_write_record( &R );
    VF_POST( post_record(), "record contents" );
    VF_REACH( "end" );
}
#endif
