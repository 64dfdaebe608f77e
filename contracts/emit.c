/* Contracts for the emission of bytes into the current segment (assemble.c). */
#include <string.h>
#include "globals.h"
#include "memalloc.h"
#include "parser.h"
#include "segment.h"
#include "fixup.h"
#include "omf.h"
#include "input.h"
#include "vf.h"

uint_8   in_omf, in_write, in_fix, in_rel, in_sel, in_cdc, in_other, in_b;
uint_32  in_cur, in_start, in_max, in_wr, in_value, in_len, in_idx, in_k, in_f;
uint_8   in_p[600];

struct { unsigned flush, stored, sel; int bad; uint_32 fl_start, fl_cur, at; unsigned copies; size_t len; void *dst; unsigned n; } vf;

struct module_info ModuleInfo;
struct global_options Options;
unsigned int Parse_Pass;
int_32 LastCodeBufSize;
extern bool write_to_file;
static struct dsym S, S2; static struct seg_info Si, S2i;
static const struct dsym Zd; static const struct seg_info Zi;
static struct fixup F;
#ifdef OMF
# define CBSIZE 1024
#else
# define CBSIZE 200
#endif
static uint_8 cb[CBSIZE], cb0[CBSIZE];
#ifdef VF_REPLAY
static uint_8 out[8192]; static unsigned outlen;
#endif

/* the record written by omf_FlushCurrSeg() starts at start_loc and ends at current_loc, and next one starts there (see omf_write_ledata) */
void omf_FlushCurrSeg( void )                                                   /* @stub omf_FlushCurrSeg: contract proved in omfrec.c (omf_ledata) */
{
    vf.flush++; vf.fl_start = Si.start_loc; vf.fl_cur = Si.current_loc;
    if ( (uint_32)( Si.current_loc - Si.start_loc ) > 1024 ) vf.bad++;
#ifdef VF_REPLAY
    memcpy( out + outlen, cb, Si.current_loc - Si.start_loc ); outlen += Si.current_loc - Si.start_loc;
#endif
    Si.start_loc = Si.current_loc;
}
void omf_OutSelect( bool d ) { vf.sel++; }                                      /* @stub omf_OutSelect */
void store_fixup( struct fixup *f, struct dsym *s, int_32 *p )                  /* @stub store_fixup: queues the fixup */
{
    if ( f != &F || s != &S ) vf.bad++;
    vf.stored++; vf.at = Si.current_loc - Si.start_loc;
}
#if defined P_BYTES && !defined MAXLEN
/* contract of memcpy: n bytes are copied between valid, disjoint ranges (checked for one arbitrary byte) */
static void *vf_memcpy( void *d, const void *s, size_t n )                      /* @stub memcpy: by contract */
{
    vf.copies++; vf.dst = d; vf.len = n;
    VF_CHECK( (uint_8 *)d >= cb && (uint_8 *)d + n <= cb + CBSIZE && (uint_8 *)s >= in_p && (uint_8 *)s + n <= in_p + sizeof in_p, "copy inside the buffers" );
    if ( in_k < n ) ((uint_8 *)d)[in_k] = ((const uint_8 *)s)[in_k];
    return d;
}
# define memcpy vf_memcpy
#elif defined P_BYTES
static void *vf_memcpy( void *d, const void *s, size_t n )
{
    size_t i;
    for ( i = 0; i < n; i++ ) ((uint_8 *)d)[i] = ((const uint_8 *)s)[i];
    return d;
}
# define memcpy vf_memcpy
#endif
#ifndef MAXLEN
# define MAXLEN (sizeof in_p)
#endif
static uint_32 umax( uint_32 a, uint_32 b ) { return a > b ? a : b; }

/* where n bytes go that must not be separated */
static int flushed( uint_32 n, uint_32 limit ) { return in_omf && in_cur - in_start + n > limit; }
static uint_32 pos( uint_32 n, uint_32 limit ) { return flushed( n, limit ) ? 0 : in_cur - in_start; }
/* the counters after n bytes */
static int counters( uint_32 n )
{
    return Si.current_loc == in_cur + n && (uint_32)Si.bytes_written == in_wr + n && Si.written && S.sym.max_offset == umax( in_max, in_cur + n );
}
static int starts( int fl )
{
    if ( !in_write ) return !vf.flush && Si.start_loc == ( in_cur < in_start ? in_cur : in_start );
    if ( fl ) return vf.flush == 1 && vf.fl_start == in_start && vf.fl_cur == in_cur && Si.start_loc == in_cur;
    return !vf.flush && Si.start_loc == in_start;
}
static int post_byte( void )
{
    if ( vf.bad || !counters( 1 ) || !starts( flushed( 1, MAX_LEDATA_THRESHOLD ) ) ) return 0;
    if ( in_f < CBSIZE && !( in_write && in_f == pos( 1, MAX_LEDATA_THRESHOLD ) ) && cb[in_f] != cb0[in_f] ) return 0;
    return !in_write || cb[pos( 1, MAX_LEDATA_THRESHOLD )] == in_b;
}
static int post_bytes( void )
{
    uint_32 p = pos( in_len, MAX_LEDATA_THRESHOLD );
    if ( vf.bad || !counters( in_len ) || !starts( flushed( in_len, MAX_LEDATA_THRESHOLD ) ) ) return 0;
    if ( vf.stored != ( in_write && in_fix ) || ( vf.stored && vf.at != p ) ) return 0;
    if ( vf.copies > 1 || ( vf.copies && ( !in_write || vf.dst != cb + p || vf.len != in_len ) ) ) return 0;
    if ( in_f < CBSIZE && !( in_write && in_f >= p && in_f < p + in_len ) && cb[in_f] != cb0[in_f] ) return 0;
    return !in_write || in_k >= in_len || cb[p + in_k] == in_p[in_k];
}
static int post_bin( unsigned step )
{
    uint_32 p = in_cur - in_start;
    if ( vf.bad || vf.stored || !counters( in_len * step ) || !starts( 0 ) ) return 0;
    if ( in_f < CBSIZE && !( in_write && in_f >= p && in_f < p + in_len * step ) && cb[in_f] != cb0[in_f] ) return 0;
    return !in_write || in_k >= in_len || ( cb[p + step * in_k] == in_p[in_k] && ( step == 1 || cb[p + step * in_k + 1] == 0 ) );
}
static int post_ofs( int rc )
{
    uint_32 v = in_rel ? in_cur + in_value : in_value;
    struct dsym *s = in_other ? &S2 : &S; struct seg_info *i = in_other ? &S2i : &Si;
    if ( rc != NOT_ERROR || i->current_loc != v || i->written || (uint_32)i->bytes_written != in_wr || s->sym.max_offset != umax( in_max, v ) ) return 0;
    /* OMF starts a new record there, after having written the old one; elsewhere the start of the contents is fixed by an ORG before the first byte */
    if ( in_omf ) return i->start_loc == v && vf.flush == ( in_write && !in_other ) && ( !vf.flush || ( vf.fl_cur == in_cur && vf.fl_start == in_start ) );
    return !vf.flush && i->start_loc == ( !in_write && !in_rel && in_wr == 0 ? v : in_start );
}

#ifdef P_SEQ    /* 1: bytes as they are, 2: interleaved with zeros, 3: filler */
# define nth( k ) ( P_SEQ == 1 ? in_p[(k)] : P_SEQ == 3 ? in_b : (k) & 1 ? 0 : in_p[(k) / 2] )
static int post_seq( void )
{
# ifdef VF_REPLAY     /* what has been written, and what is left in the buffer */
    unsigned i, n = in_len * ( P_SEQ == 2 ? 2 : 1 );
    if ( in_write ) {
        memcpy( out + outlen, cb, Si.current_loc - Si.start_loc ); outlen += Si.current_loc - Si.start_loc;
        if ( outlen != in_cur - in_start + n ) return 0;
        for ( i = 0; i < n; i++ ) if ( out[in_cur - in_start + i] != nth( i ) ) return 0;
    }
    return !vf.bad && counters( n ) && vf.sel == ( P_SEQ == 3 && in_cdc );
# endif
    return !vf.bad && !vf.flush && vf.n == in_len * ( P_SEQ == 2 ? 2 : 1 ) && vf.sel == ( P_SEQ == 3 && in_cdc );
}
#endif
#ifdef VF_CBMC
# ifdef P_SEQ
void OutputByte( unsigned char byte )
REQUIRES( vf.n < 2 * sizeof in_p )
ASSIGNS( vf.n, vf.bad )
ENSURES( vf.n == __CPROVER_old( vf.n ) + 1 && vf.bad == __CPROVER_old( vf.bad ) + ( byte != nth( __CPROVER_old( vf.n ) ) ) )
;
#  if P_SEQ == 1
void OutputBinBytes( unsigned char *pBytes, uint_32 len )
REQUIRES( pBytes == in_p && len == in_len )
ASSIGNS( OBJ( &vf ), OBJ( cb ), OBJ( &S ), OBJ( &Si ) )
ENSURES( post_seq() )
;
#  elif P_SEQ == 2
void OutputInterleavedBytes( const unsigned char *pbytes, int len, struct fixup *fixup )
REQUIRES( pbytes == in_p && len == (int)in_len && fixup == NULL )
ASSIGNS( OBJ( &vf ), OBJ( cb ), OBJ( &S ), OBJ( &Si ) )
ENSURES( post_seq() )
;
#  else
void FillDataBytes( unsigned char byte, int len )
REQUIRES( byte == in_b && len == (int)in_len )
ASSIGNS( OBJ( &vf ) )
ENSURES( post_seq() )
;
#  endif
# else
void OutputByte( unsigned char byte )
REQUIRES( byte == in_b )
ASSIGNS( OBJ( &vf ), OBJ( cb ), OBJ( &S ), OBJ( &Si ) )
ENSURES( post_byte() )
;
void OutputBytes( const unsigned char *pbytes, int len, struct fixup *fixup )
REQUIRES( pbytes == in_p && len == (int)in_len && fixup == ( in_fix ? &F : NULL ) )
ASSIGNS( OBJ( &vf ), OBJ( cb ), OBJ( &S ), OBJ( &Si ) )
ENSURES( post_bytes() )
;
void OutputBinBytes( unsigned char *pBytes, uint_32 len )
REQUIRES( pBytes == in_p && len == in_len )
ASSIGNS( OBJ( &vf ), OBJ( cb ), OBJ( &S ), OBJ( &Si ) )
ENSURES( post_bin( 1 ) )
;
void OutputInterleavedBytes( const unsigned char *pbytes, int len, struct fixup *fixup )
REQUIRES( pbytes == in_p && len == (int)in_len && fixup == NULL )
ASSIGNS( OBJ( &vf ), OBJ( cb ), OBJ( &S ), OBJ( &Si ) )
ENSURES( post_bin( 2 ) )
;
ret_code SetCurrOffset( struct dsym *seg, uint_32 value, bool relative, bool select_data )
REQUIRES( seg == ( in_other ? &S2 : &S ) && value == in_value && relative == in_rel && select_data == in_sel )
ASSIGNS( OBJ( &vf ), OBJ( &S ), OBJ( &Si ), OBJ( &S2 ), OBJ( &S2i ), LastCodeBufSize )
ENSURES( post_ofs( __CPROVER_return_value ) )
;
# endif
#endif
#include "/repo/assemble.c"

static void setup( void )
{
    VF_IN( in_omf ); VF_IN( in_write ); VF_IN( in_fix ); VF_IN( in_rel ); VF_IN( in_sel ); VF_IN( in_cdc ); VF_IN( in_other ); VF_IN( in_b );
    VF_IN( in_cur ); VF_IN( in_start ); VF_IN( in_max ); VF_IN( in_wr ); VF_IN( in_value ); VF_IN( in_len ); VF_IN( in_k ); VF_IN( in_f );
    VF_IN_ARR( in_p, sizeof in_p ); VF_IN_ARR( cb, sizeof cb );
    VF_ASSUME( in_omf <= 1 && in_write <= 1 && in_fix <= 1 && in_rel <= 1 && in_sel <= 1 && in_cdc <= 1 && in_other <= 1 );
    VF_ASSUME( in_cur < 0x70000000 && in_start < 0x70000000 && in_max < 0x70000000 && in_wr < 0x70000000 && in_value < 0x70000000 && in_len <= MAXLEN && in_k < sizeof in_p );
    memset( &vf, 0, sizeof vf );
    memset( &ModuleInfo, 0, sizeof ModuleInfo );
#ifdef OMF
    VF_ASSUME( in_omf ); in_omf = 1;
    Options.output_format = OFORMAT_OMF;
#else
    VF_ASSUME( !in_omf ); in_omf = 0;
    Options.output_format = OFORMAT_COFF;
#endif
    write_to_file = in_write;
    ModuleInfo.CommentDataInCode = in_cdc;
    if ( in_f < CBSIZE ) cb0[in_f] = cb[in_f];
    S = S2 = Zd; Si = S2i = Zi;
    S.e.seginfo = &Si; S2.e.seginfo = &S2i;
    Si.CodeBuffer = cb; S2i.CodeBuffer = cb;
    Si.current_loc = S2i.current_loc = in_cur; Si.start_loc = S2i.start_loc = in_start; S.sym.max_offset = S2.sym.max_offset = in_max; Si.bytes_written = S2i.bytes_written = in_wr;
    CurrSeg = &S;
    /* while writing the location is behind the start of the buffer; for OMF the buffer is not above its limit, for other formats it is large enough */
    VF_ASSUME( !in_write || in_cur >= in_start );
#ifdef OMF
    VF_ASSUME( !in_write || in_cur - in_start <= MAX_LEDATA_THRESHOLD );
#endif
}
/* @proof emit_byte_omf props=C06 harness=h_byte enforce=OutputByte defs=OMF unwind=24 solver=cadical */
/* @proof emit_byte props=C06 harness=h_byte enforce=OutputByte unwind=24 solver=cadical */
void h_byte( void )
{
    setup();
#ifndef OMF
    VF_ASSUME( !in_write || in_cur - in_start < CBSIZE );
#endif
    OutputByte( in_b );
    VF_POST( post_byte(), "byte emitted" );
    VF_REACH( "end" );
#ifdef OMF
    if ( vf.flush ) VF_REACH( "flushed" );
#endif
}
/* @proof emit_bytes_omf props=C06 harness=h_bytes enforce=OutputBytes defs=P_BYTES,OMF unwind=24 solver=cadical fallback=emit_bytes_omf_b */
/* @proof emit_bytes props=C06 harness=h_bytes enforce=OutputBytes defs=P_BYTES unwind=24 solver=cadical fallback=emit_bytes_b */
/* @proof emit_bytes_omf_b props=C06 harness=h_bytes enforce=OutputBytes defs=P_BYTES,OMF,MAXLEN=4 unwind=24 solver=cadical tier=fallback bounded=up_to_4_bytes_at_a_time */
/* @proof emit_bytes_b props=C06 harness=h_bytes enforce=OutputBytes defs=P_BYTES,MAXLEN=4 unwind=24 solver=cadical tier=fallback bounded=up_to_4_bytes_at_a_time */
void h_bytes( void )
{
    setup();
#ifndef OMF
    VF_ASSUME( !in_write || in_cur - in_start + in_len <= CBSIZE );
#endif
    OutputBytes( in_p, in_len, in_fix ? &F : NULL );
    VF_POST( post_bytes(), "bytes emitted" );
    VF_REACH( "end" );
    if ( vf.stored ) VF_REACH( "fixup" );
#ifdef OMF
    if ( vf.flush ) VF_REACH( "flushed" );
#endif
}
/* @proof emit_ofs_omf props=C06 harness=h_ofs enforce=SetCurrOffset defs=OMF unwind=24 solver=cadical */
/* @proof emit_ofs props=C06 harness=h_ofs enforce=SetCurrOffset unwind=24 solver=cadical */
void h_ofs( void )
{
    int rc;
    setup();
    rc = SetCurrOffset( in_other ? &S2 : &S, in_value, in_rel, in_sel );
    VF_POST( post_ofs( rc ), "location set" );
    VF_REACH( "end" );
}
/* @proof emit_bin_omf props=C06 harness=h_bin enforce=OutputBinBytes replace=OutputByte defs=OMF,P_SEQ=1 unwind=24 solver=cadical loops=emit_bin.json fallback=emit_bin_omf_b */
/* @proof emit_bin_omf_b props=C06 harness=h_bin enforce=OutputBinBytes replace=OutputByte defs=OMF,P_SEQ=1,MAXLEN=5 unwind=24 solver=cadical tier=fallback bounded=up_to_5_bytes_at_a_time */
/* @proof emit_bin props=C06 harness=h_bin enforce=OutputBinBytes replace=OutputByte defs=P_BIN unwind=24 solver=cadical loops=emit_bin.json fallback=emit_bin_b */
/* @proof emit_bin_b props=C06 harness=h_bin enforce=OutputBinBytes replace=OutputByte defs=P_BIN,MAXLEN=5 unwind=24 solver=cadical tier=fallback bounded=up_to_5_bytes_at_a_time */
/* @proof emit_wide_omf props=C06 harness=h_wide enforce=OutputInterleavedBytes replace=OutputByte defs=OMF,P_SEQ=2 unwind=24 solver=cadical loops=emit_wide.json fallback=emit_wide_omf_b */
/* @proof emit_wide_omf_b props=C06 harness=h_wide enforce=OutputInterleavedBytes replace=OutputByte defs=OMF,P_SEQ=2,MAXLEN=5 unwind=24 solver=cadical tier=fallback bounded=up_to_5_bytes_at_a_time */
/* @proof emit_wide props=C06 harness=h_wide enforce=OutputInterleavedBytes replace=OutputByte defs=P_BIN unwind=24 solver=cadical loops=emit_wide.json fallback=emit_wide_b */
/* @proof emit_wide_b props=C06 harness=h_wide enforce=OutputInterleavedBytes replace=OutputByte defs=P_BIN,MAXLEN=5 unwind=24 solver=cadical tier=fallback bounded=up_to_5_bytes_at_a_time */
/* @proof emit_fill props=C06 harness=h_filler enforce=FillDataBytes replace=OutputByte defs=P_SEQ=3 unwind=24 solver=cadical loops=emit_fill.json fallback=emit_fill_b */
/* @proof emit_fill_b props=C06 harness=h_filler enforce=FillDataBytes replace=OutputByte defs=P_SEQ=3,MAXLEN=5 unwind=24 solver=cadical tier=fallback bounded=up_to_5_bytes_at_a_time */
#ifdef P_SEQ
# define POST( n ) post_seq()
#else
# define POST( n ) post_bin( n )
#endif
void h_bin( void )
{
    setup();
#ifndef OMF
    VF_ASSUME( !in_write || in_cur - in_start + in_len <= CBSIZE );
#endif
    OutputBinBytes( in_p, in_len );
    VF_POST( POST( 1 ), "binary data emitted" );
    VF_REACH( "end" );
}
void h_wide( void )
{
    setup();
#ifndef OMF
    VF_ASSUME( !in_write || in_cur - in_start + 2 * in_len <= CBSIZE );
#endif
    OutputInterleavedBytes( in_p, in_len, NULL );
    VF_POST( POST( 2 ), "wide string emitted" );
    VF_REACH( "end" );
}
#if defined P_SEQ && P_SEQ == 3
void h_filler( void )
{
    setup();
    FillDataBytes( in_b, in_len );
    VF_POST( POST( 1 ), "filler emitted" );
    VF_REACH( "end" );
}
#endif
