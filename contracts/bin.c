/* Contracts for the plain binary, MZ and PE writer (bin.c). */
#include <string.h>
#include <stdio.h>
#include <time.h>
#include "globals.h"
#include "memalloc.h"
#include "parser.h"
#include "fixup.h"
#include "segment.h"
#include "extern.h"
#include "bin.h"
#include "input.h"
#include "omfspec.h"
#include "vf.h"

#ifndef NFIX
# define NFIX 1
#endif
uint_8   in_type[2],  in_add[2], in_var, in_seg[3], in_fmt, in_ofsz[3], in_abs[3], in_buf[12 * NFIX], in_hasgrp, in_first, in_gsize, in_stype, in_align, in_palign, in_cb, in_info, in_ent, in_hdr;
int_8    in_frame[2];
uint_16  in_absf[3];
uint_32  in_start[3], in_sloc[3], in_gofs[2], in_ofs[2], in_con[2], in_imgstart, in_fofs, in_max[3], in_hdrsize, in_rva, in_gofs0, in_gtot, in_foff[3], in_written[3], in_loc[2];
uint_64  in_base;
struct module_info ModuleInfo;
struct global_options Options;
struct symbol_queue SymTables[TAB_LAST];
static struct fixup F[2]; static struct dsym S[3], Y[2], G[2]; static struct seg_info Si[3]; static uint_8 buf[12 * NFIX], buf2[40]; static struct format_options Fo;
static const struct dsym Zd; static const struct seg_info Zi; static const struct fixup Zf;
struct { unsigned err, warn, nal, bad; } vf;
#undef EmitWarn
#define EmitErr( ... ) ( vf.err++, ERROR )
#define EmitWarn( lvl, code, ... ) ( vf.warn += ( code ) == GROUP_EXCEEDS_64K ? 1 : 100 )
#ifdef P_RELOC
static uint_8 rbuf[48];
void *LclAlloc( size_t n ) { if ( n > sizeof rbuf || vf.nal ) { vf.bad = 1; return NULL; } vf.nal++; return rbuf; }
#else
void *LclAlloc( size_t n ) { if ( n > sizeof buf2 || vf.nal ) { vf.bad = 1; return NULL; } vf.nal++; return buf2; }
#endif
/* @stub LclAlloc: fresh memory */

struct calc_param;
struct dsym;
static void CalcOffset( struct dsym *curr, struct calc_param *cp );
static ret_code DoFixup( struct dsym *curr, struct calc_param *cp );
static int GetSegRelocs( uint_16 *pDst );
static uint_32 GetImageSize( bool memimage );

#ifdef P_FIX
#define POS( i ) ( (i) ? 14 : 2 )
#define SLOCOF( s ) ( (s) ? in_sloc[s] : SLOC )
#define KINDOF( i ) ( (i) == 1 ? K_LABEL : KIND )
#ifndef KNOWN
# define KNOWN 0
#endif
enum { K_NONE, K_LABEL, K_VAR, K_SEG, K_GRP, K_CONST };
static uint_8 exp_[12 * NFIX]; static unsigned exp_err;
static int fsize( int t )
{
    switch ( t ) {
    case FIX_RELOFF8: case FIX_OFF8: case FIX_HIBYTE: return 1;
    case FIX_RELOFF16: case FIX_OFF16: case FIX_SEG: return 2;
    case FIX_RELOFF32: case FIX_OFF32: case FIX_PTR16: case FIX_OFF32_IMGREL: case FIX_OFF32_SECREL: return 4;
    case FIX_OFF64: return 8; case FIX_PTR32: return 6;
    }
    return 0;
}
static void put( int i, int ofs, int n, uint_64 v ) { int k; for ( k = 0; k < 8; k++ ) if ( k < n ) exp_[POS( i ) + ofs + k] = v >> 8 * k; }
static uint_64 get64( int i ) { uint_64 v = 0; int k; for ( k = 0; k < 8; k++ ) v |= (uint_64)exp_[POS( i ) + k] << 8 * k; return v; }
static uint_32 grpofs( int s ) { return in_seg[s] ? in_gofs[in_seg[s]-1] : 0; }
static void spec( int i )
{
    int t = in_type[i], s = SEL, k = KINDOF( i ), pe = in_fmt == SFORMAT_PE, tgt = k == K_LABEL || k == K_VAR || k == K_SEG, useg;
    uint_32 frame, ofs = k == K_LABEL ? in_ofs[i] : 0, loc = SLOC + POS( i ), v;
    if ( fsize( t ) == 0 ) { exp_err++; return; }
    /* address of the target in the image ( PE: RVA ): in_start + grpofs + ofs; frame: the paragraph the reference is based on */
    useg = k != K_VAR && in_frame[i] == FRAME_SEG || !in_seg[s];
    frame = ( useg ? in_start[s] + grpofs( s ) : grpofs( s ) ) >> 4;
    switch ( t ) {
    case FIX_RELOFF8: case FIX_RELOFF16: case FIX_RELOFF32:         /* distance from the end of the field / the instruction */
        v = ( tgt ? in_start[s] + in_con[i] + ofs : 0 ) - ( loc + in_start[0] );      /* same group */
        put( i, 0, fsize( t ), ( KNOWN ? 0 : get64( i ) ) + ( v - ( t == FIX_RELOFF32 && in_ofsz[0] == USE64 ? in_add[i] : fsize( t ) ) ) );
        return;
    case FIX_OFF32_IMGREL: put( i, 0, 4, tgt ? in_con[i] + ofs + in_start[s] - in_imgstart : 0 ); return;
    case FIX_OFF32_SECREL: put( i, 0, 4, !tgt ? 0 : s == 1 && DOLLAR && PRIM ? in_con[i] + ofs + in_start[s] - in_start[2] : in_con[i] + ofs - SLOCOF( s ) ); return;
    case FIX_OFF64: put( i, 0, 8, get64( i ) + ( !tgt ? 0 : pe && !in_abs[s] ? (uint_64)( in_start[s] + ofs ) + ( in_ofsz[0] == USE64 ? in_base : (uint_32)in_base ) : (uint_32)( in_start[s] + grpofs( s ) - 16 * frame + ofs ) ) ); return;
    case FIX_SEG:
        if ( tgt && in_abs[s] ) { put( i, 0, 2, in_absf[s] ); return; }
        if ( in_fmt != SFORMAT_MZ ) { exp_err++; return; }
        put( i, 0, 2, k == K_GRP ? in_gofs[s & 1] >> 4 : k == K_SEG ? ( in_start[s] + grpofs( s ) ) >> 4 : frame );
        return;
    }
    v = !tgt ? KNOWN ? in_con[i] : 0 : pe && !in_abs[s] ? in_start[s] + ofs + ( in_con[i] + (uint_32)in_base ) : in_start[s] + grpofs( s ) - 16 * frame + ofs + in_con[i];
    switch ( t ) {
    case FIX_OFF8: put( i, 0, 1, v ); return;
    case FIX_OFF16: put( i, 0, 2, v ); return;
    case FIX_OFF32: put( i, 0, 4, v ); return;
    case FIX_HIBYTE: put( i, 0, 1, v >> 8 ); return;
    case FIX_PTR16: case FIX_PTR32:
        if ( !( tgt && in_abs[s] ) && in_fmt != SFORMAT_MZ ) { exp_err++; return; }
        put( i, 0, fsize( t ) - 2, v );
        put( i, fsize( t ) - 2, 2, in_abs[s] ? in_absf[s] : frame );
    }
}
static int post( int r )
{
    int i;
    if ( r != NOT_ERROR || vf.err != exp_err || vf.bad ) return 0;
    for ( i = 0; i < 12 * NFIX; i++ ) if ( buf[i] != exp_[i] ) return 0;
    return 1;
}
static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
    ENSURES( post( __CPROVER_return_value ) ) ASSIGNS( OBJ( &vf ), OBJ( buf ), F[0].locofs, F[1].locofs );
#endif

#ifdef P_CALC
static struct { uint_32 fo, start, sloc, size, gofs, gtot, gend, rva, img, ent; struct asym *entseg; int skip, moved, grp, warn; uint_8 b[16]; } sc;
static struct grp_info Gi;
static uint_8 cbuf[16];
static void spec_calc( void );
static int post_calc( void );
static void CalcOffset( struct dsym *curr, struct calc_param *cp )
    ENSURES( post_calc() ) ASSIGNS( OBJ( &vf ), OBJ( cp ), OBJ( &S ), OBJ( &Si ), OBJ( &G ), OBJ( &Gi ), OBJ( buf2 ) );
#endif
#ifdef P_SEGREL
static uint_16 dst[8];
static int exp_n; static uint_32 exp_a[4];
static uint_8 in_null;
static int post_rel( int n )
{
    int i;
    if ( n != exp_n || vf.bad || vf.err ) return 0;
    for ( i = 0; i < 4; i++ ) {
        if ( i < exp_n && !in_null && (uint_32)dst[2*i] + 16u * dst[2*i+1] != exp_a[i] ) return 0;
        if ( ( i >= exp_n || in_null ) && ( dst[2*i] || dst[2*i+1] ) ) return 0;
    }
    return 1;
}
static int GetSegRelocs( uint_16 *pDst )
    ENSURES( post_rel( __CPROVER_return_value ) ) ASSIGNS( OBJ( dst ) );
#endif
#ifdef P_SIZE
static uint_32 exp_size;
static uint_32 GetImageSize( bool memimage )
    ENSURES( __CPROVER_return_value == exp_size ) ASSIGNS();
#endif
#ifdef P_RELOC
static uint_8 exp_r[48]; static unsigned exp_rn;
static uint_8 rbuf[48];
static int post_reloc( void )
{
    int i;
    if ( S[2].sym.max_offset != exp_rn || vf.bad || vf.err || Si[2].CodeBuffer != rbuf ) return 0;
    for ( i = 0; i < 48; i++ ) if ( i < exp_rn && rbuf[i] != exp_r[i] ) return 0;
    return 1;
}
static void pe_set_base_relocs( struct dsym *reloc )
    ENSURES( post_reloc() ) ASSIGNS( OBJ( &vf ), OBJ( rbuf ), OBJ( &S ), OBJ( &Si ) );
#endif

#include "/repo/bin.c"

#ifdef P_FIX
/* @proof bin_fixup_label props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_LABEL,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0 unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical timeout=150 fallback=bin_fixup_label_s */
/* @proof bin_fixup_dollar props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_LABEL,SEL=1,SLOC=0x12345670,DOLLAR=1,PRIM=1 unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical timeout=150 fallback=bin_fixup_dollar_s */
/* @proof bin_fixup_dollar2 props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_LABEL,SEL=1,SLOC=0x12345670,DOLLAR=1,PRIM=0 unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical timeout=150 fallback=bin_fixup_dollar2_s */
/* @proof bin_fixup_self props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_LABEL,SEL=0,SLOC=0x12345670,DOLLAR=0,PRIM=0 unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical timeout=150 fallback=bin_fixup_self_s */
/* @proof bin_fixup_var props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_VAR,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0 unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical timeout=150 fallback=bin_fixup_var_s */
/* @proof bin_fixup_seg props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_SEG,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0 unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical timeout=150 fallback=bin_fixup_seg_s */
/* @proof bin_fixup_none props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_NONE,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0 unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical timeout=150 fallback=bin_fixup_none_s */
/* @proof bin_fixup_grp props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_GRP,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0 unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical timeout=150 fallback=bin_fixup_grp_s */
/* @proof bin_fixup_const props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_CONST,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0 unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical timeout=150 fallback=bin_fixup_const_s */
/* @proof bin_fixups props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=2,KIND=K_LABEL,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0 unwind=26 bounded=2_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical timeout=200 fallback=bin_fixups_s */
/* the same with addresses of few bits: decides if the terms of a sum were reordered */
/* @proof bin_fixup_label_s props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_LABEL,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0,SMALL unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical tier=fallback */
/* @proof bin_fixup_dollar_s props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_LABEL,SEL=1,SLOC=0x12345670,DOLLAR=1,PRIM=1,SMALL unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical tier=fallback */
/* @proof bin_fixup_dollar2_s props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_LABEL,SEL=1,SLOC=0x12345670,DOLLAR=1,PRIM=0,SMALL unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical tier=fallback */
/* @proof bin_fixup_self_s props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_LABEL,SEL=0,SLOC=0x12345670,DOLLAR=0,PRIM=0,SMALL unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical tier=fallback */
/* @proof bin_fixup_var_s props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_VAR,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0,SMALL unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical tier=fallback */
/* @proof bin_fixup_seg_s props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_SEG,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0,SMALL unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical tier=fallback */
/* @proof bin_fixup_none_s props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_NONE,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0,SMALL unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical tier=fallback */
/* @proof bin_fixup_grp_s props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_GRP,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0,SMALL unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical tier=fallback */
/* @proof bin_fixup_const_s props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_CONST,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0,SMALL unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical tier=fallback */
/* @proof bin_fixups_s props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=2,KIND=K_LABEL,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0,SMALL unwind=26 bounded=2_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical tier=fallback */
/* @proof bin_rel_const props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_LABEL,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0,KNOWN=1 unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical known=yes */
/* @proof bin_nosym_const props=C11 harness=h_fixup enforce=DoFixup defs=P_FIX,NFIX=1,KIND=K_CONST,SEL=1,SLOC=0x12345670,DOLLAR=0,PRIM=0,KNOWN=1 unwind=26 bounded=1_fixup,_3_segments,_names_of_up_to_3_characters,_one_location solver=cadical known=yes */
void h_fixup( void )
{
    static struct calc_param cp; static const struct calc_param Zc;
    int i, s, t;
    VF_IN_ARR( in_type, 2 ); VF_IN_ARR( in_add, 2 ); VF_IN_ARR( in_frame, 2 ); VF_IN_ARR( in_ofs, 2 ); VF_IN_ARR( in_con, 2 );
    VF_IN_ARR( in_seg, 3 ); VF_IN_ARR( in_ofsz, 3 ); VF_IN_ARR( in_abs, 3 ); VF_IN_ARR( in_absf, 3 ); VF_IN_ARR( in_start, 3 ); VF_IN_ARR( in_sloc, 3 ); VF_IN_ARR( in_gofs, 2 ); VF_IN_ARR( in_buf, 12 * NFIX );
    VF_IN( in_fmt ); VF_IN( in_imgstart ); VF_IN( in_base );
    VF_ASSUME( in_fmt == SFORMAT_NONE || in_fmt == SFORMAT_MZ || in_fmt == SFORMAT_PE  );
#ifdef SMALL
    for ( i = 0; i < 3; i++ ) { VF_ASSUME( in_start[i] <= 0xff && in_sloc[i] <= 3 ); if ( i < 2 ) VF_ASSUME( in_ofs[i] <= 3 && ( in_con[i] <= 3 || in_con[i] == -16 ) && in_gofs[i] <= 0xff ); }
    VF_ASSUME( in_imgstart <= 3 && ( in_base == 0 || in_base == 0x400000 || in_base == 0x180000000 ) );
#endif
    for ( i = 0; i < 12 * NFIX; i++ ) exp_[i] = buf[i] = in_buf[i];
    memset( &vf, 0, sizeof vf ); exp_err = 0;
    for ( s = 0; s < 3; s++ ) {
        VF_ASSUME( in_seg[s] <= 2 && in_abs[s] <= 1 && in_ofsz[s] <= USE64 );
        if ( in_fmt == SFORMAT_PE ) VF_ASSUME( in_seg[s] == 0 || in_gofs[in_seg[s]-1] == 0 );        /* the FLAT group */
        if ( in_abs[s] ) VF_ASSUME( in_start[s] == (uint_32)in_absf[s] << 4 && in_seg[s] == 0 );     /* see CalcOffset */
        S[s] = Zd; Si[s] = Zi; S[s].e.seginfo = &Si[s]; S[s].sym.state = SYM_SEG; S[s].sym.segment = &S[s].sym;
        S[s].sym.name = s == 0 ? "T" : s == 2 ? "D" : DOLLAR ? "D$A" : "DA"; S[s].sym.name_size = s != 1 ? 1 : DOLLAR ? 3 : 2;
        Si[s].Ofssize = in_ofsz[s]; Si[s].start_offset = in_start[s]; Si[s].start_loc = SLOCOF( s ); Si[s].segtype = in_abs[s] ? SEGTYPE_ABS : SEGTYPE_DATA; Si[s].abs_frame = in_absf[s];
        Si[s].group = in_seg[s] ? &G[in_seg[s]-1].sym : NULL;
    }
    for ( i = 0; i < 2; i++ ) { G[i] = Zd; G[i].sym.state = SYM_GRP; G[i].sym.offset = in_gofs[i]; }
    VF_ASSUME( !in_abs[0] );
    SymTables[TAB_SEG].head = &S[0]; S[0].next = &S[1]; if ( PRIM ) S[1].next = &S[2];
    Si[0].CodeBuffer = buf; Si[0].FixupList.head = &F[0]; ModuleInfo.sub_format = in_fmt; ModuleInfo.fmtopt = &Fo;
    
    if ( NFIX == 2 ) VF_ASSUME( in_type[1] == FIX_OFF16 && in_fmt != SFORMAT_PE );
    for ( i = 0; i < NFIX; i++ ) {
        t = in_type[i];
        VF_ASSUME( t > FIX_VOID && t < FIX_LAST && KINDOF( i ) <= K_CONST && in_frame[i] >= FRAME_SEG && in_frame[i] <= FRAME_NONE );
        /* the constant of a relative reference is either in the field or in the fixup, and a reference without a symbol has none; for the
         * known finding: it's in both (the assembler stores it in both) */
        if ( KNOWN ) VF_ASSUME( KINDOF( i ) == K_CONST ? t == FIX_OFF32 : t == FIX_RELOFF32 && in_con[i] && ( in_buf[2] | in_buf[3] << 8 | in_buf[4] << 16 | (uint_32)in_buf[5] << 24 ) == in_con[i] );
        else {
            if ( t >= FIX_RELOFF8 && t <= FIX_RELOFF32 ) VF_ASSUME( in_con[i] == 0 || i == 0 && in_buf[2] == 0 && ( fsize( t ) < 2 || in_buf[3] == 0 ) && ( fsize( t ) < 4 || in_buf[4] == 0 && in_buf[5] == 0 ) );
            if ( KINDOF( i ) == K_NONE || KINDOF( i ) == K_GRP || KINDOF( i ) == K_CONST ) VF_ASSUME( in_con[i] == 0 );
        }
        /* a segment part needs a symbol with a frame; for the group of a segment-less symbol there's only the operator SEG */
        if ( t == FIX_SEG ) VF_ASSUME( KINDOF( i ) != K_NONE && KINDOF( i ) != K_CONST );
        if ( t == FIX_PTR16 || t == FIX_PTR32 ) VF_ASSUME( KINDOF( i ) == K_LABEL || KINDOF( i ) == K_VAR || KINDOF( i ) == K_SEG );
        if ( KINDOF( i ) == K_LABEL || KINDOF( i ) == K_VAR || KINDOF( i ) == K_SEG ) {
            if ( t >= FIX_RELOFF8 && t <= FIX_RELOFF32 ) VF_ASSUME( in_seg[SEL] == in_seg[0] );           /* same CS / same address space */
            if ( t == FIX_OFF32_IMGREL ) VF_ASSUME( grpofs( SEL ) == 0 );
            if ( t == FIX_OFF32_SECREL ) VF_ASSUME( grpofs( SEL ) == grpofs( 2 ) );
        }
        F[i] = Zf; Y[i] = Zd; F[i].type = t; F[i].locofs = SLOC + POS( i ); F[i].offset = in_con[i]; F[i].addbytes = in_add[i]; F[i].frame_type = in_frame[i];
        Y[i].sym.name = "x"; Y[i].sym.state = SYM_INTERNAL;
        switch ( KINDOF( i ) ) {
        case K_LABEL: F[i].sym = &Y[i].sym; Y[i].sym.segment = &S[SEL].sym; Y[i].sym.offset = in_ofs[i]; break;
        case K_VAR: F[i].sym = &Y[i].sym; Y[i].sym.variable = TRUE; Y[i].sym.segment = &S[0].sym; Y[i].sym.offset = in_ofs[i]; F[i].segment_var = &S[SEL].sym; break;
        case K_SEG: F[i].sym = &S[SEL].sym; break;
        case K_GRP: F[i].sym = &G[SEL & 1].sym; break;
        case K_CONST: F[i].sym = &Y[i].sym; break;
        }
    }
    if ( NFIX == 2 ) F[0].nextrlc = &F[1];
    cp = Zc; cp.imagestart = in_imgstart; cp.imagebase64 = in_base;
    spec( 0 ); if ( NFIX == 2 ) spec( 1 );
    t = DoFixup( &S[0], &cp );
    VF_POST( post( t ), "value stored at the location of a reference" );
    VF_REACH( "end" );
}
#endif

#ifdef P_CALC
static struct calc_param Cp, Cp0;
static struct dsym S0; static struct seg_info Si0; static struct dsym G0; static uint_32 gend0;
static uint_32 up( uint_32 x, int a ) { uint_32 m = ( 1u << a ) - 1; return x + m - ( x + m ) % ( m + 1 ); }
static void spec_calc( void )
{
    const int none = in_fmt == SFORMAT_NONE, pe = in_fmt == SFORMAT_PE;
    int i, a = in_palign > in_align ? in_palign : in_align;
    memset( &sc, 0, sizeof sc );
    sc.skip = in_stype == SEGTYPE_ABS || in_info;
    sc.grp = in_hasgrp;
    if ( pe && in_palign == 0 ) a = 0;                  /* the caller did it */
    sc.fo = up( in_fofs, a );
    sc.moved = in_sloc[0] && ( !none || !in_first && ( in_hasgrp == 1 || in_hasgrp == 2 && DOLLAR ) );
    sc.sloc = sc.moved ? 0 : in_sloc[0];
    sc.size = in_max[0] - sc.sloc;                      /* size in the file, and in memory unless the space isn't part of the image */
    sc.gofs = in_gofs0; sc.gtot = in_gtot; sc.gend = gend0;
    if ( pe ) sc.start = in_rva;
    else if ( !in_hasgrp ) sc.start = sc.fo - in_hdrsize;
    else if ( in_gtot == 0 ) { sc.start = 0; sc.gofs = sc.fo - in_hdrsize; }
    else sc.start = in_gtot + ( sc.fo - gend0 );
    sc.rva = none ? in_rva : in_rva + sc.size;
    sc.img = none && in_first ? sc.sloc : in_imgstart;
    sc.ent = none && in_ent == 0 ? sc.start : in_ent ? 77 : -1; sc.entseg = none && in_ent == 0 ? &S[0].sym : NULL;
    if ( in_hasgrp ) { sc.gtot = sc.start + in_max[0]; sc.gend = sc.fo + ( pe && in_stype == SEGTYPE_BSS ? 0 : sc.size ); sc.warn = in_gsize == USE16 && sc.gtot > 0x10000; }
    for ( i = 0; i < 16; i++ ) sc.b[i] = i < in_sloc[0] ? 0 : cbuf[i - in_sloc[0]];
}
static int post_calc( void )
{
    int i;
    const int pe = in_fmt == SFORMAT_PE;
    if ( vf.bad || vf.err ) return 0;
    if ( in_stype == SEGTYPE_ABS ) return Si[0].start_offset == (uint_32)in_absf[0] << 4 && vf.warn == 0 && Cp.fileoffset == in_fofs && Cp.rva == in_rva && Cp.first == in_first && Cp.entryoffset == ( in_ent ? 77 : -1 ) && Cp.imagestart == in_imgstart && G[0].sym.offset == in_gofs0 && G[0].sym.total_size == in_gtot;
    if ( in_info ) return vf.warn == 0 && Cp.fileoffset == in_fofs && Cp.rva == in_rva && Cp.first == in_first && Cp.entryoffset == ( in_ent ? 77 : -1 ) && Cp.imagestart == in_imgstart && G[0].sym.offset == in_gofs0 && G[0].sym.total_size == in_gtot;
    if ( vf.warn != sc.warn || Si[0].fileoffset != sc.fo || Si[0].start_offset != sc.start || Si[0].start_loc != sc.sloc || S[0].sym.max_offset != in_max[0] ) return 0;
    if ( Cp.fileoffset != sc.fo + ( pe && in_stype == SEGTYPE_BSS ? 0 : sc.size ) || Cp.rva != sc.rva || Cp.imagestart != sc.img || Cp.entryoffset != sc.ent || Cp.entryseg != sc.entseg || Cp.first ) return 0;
    if ( Cp.sizehdr != in_hdrsize || G[0].sym.offset != sc.gofs || G[0].sym.total_size != sc.gtot || !pe && in_hasgrp && Gi.fileend != sc.gend ) return 0;
    if ( !sc.moved || !in_cb ) return Si[0].CodeBuffer == ( in_cb ? cbuf : NULL );
    if ( Si[0].CodeBuffer == NULL ) return 0;
    for ( i = 0; i < 16; i++ ) if ( i < in_max[0] && Si[0].CodeBuffer[i] != sc.b[i] ) return 0;
    return 1;
}
/* @proof bin_calc props=C11 harness=h_calc enforce=CalcOffset defs=P_CALC,DOLLAR=0 unwind=26 bounded=contents_of_up_to_16_bytes solver=cadical */
/* @proof bin_calc_dollar props=C11 harness=h_calc enforce=CalcOffset defs=P_CALC,DOLLAR=1 unwind=26 bounded=contents_of_up_to_16_bytes solver=cadical */
void h_calc( void )
{
    int i;
    VF_IN( in_fmt ); VF_IN( in_stype ); VF_IN( in_info ); VF_IN( in_hasgrp ); VF_IN( in_first ); VF_IN( in_gsize ); VF_IN( in_align ); VF_IN( in_palign ); VF_IN( in_cb ); VF_IN( in_ent ); VF_IN_ARR( in_absf, 3 ); VF_IN_ARR( in_sloc, 3 ); VF_IN_ARR( in_max, 3 );
    VF_IN( in_fofs ); VF_IN( in_hdrsize ); VF_IN( in_rva ); VF_IN( in_gofs0 ); VF_IN( in_gtot ); VF_IN( in_imgstart ); VF_IN_ARR( in_buf, 12 * NFIX );
    VF_ASSUME( in_fmt == SFORMAT_NONE || in_fmt == SFORMAT_MZ || in_fmt == SFORMAT_PE );
    VF_ASSUME( in_stype <= SEGTYPE_ABS && in_info <= 1 && in_first <= 1 && in_cb <= 1 && in_ent <= 1 && in_gsize <= USE64 && in_align <= 13 && in_palign <= 13 && in_hasgrp <= 2 );
    VF_ASSUME( in_hdrsize <= in_fofs && in_fofs < 0x10000000 && in_rva < 0x10000000 && in_max[0] < 0x10000000 && in_sloc[0] <= in_max[0] && in_gtot < 0x10000000 );
    VF_ASSUME( in_sloc[0] == 0 || !in_cb || in_max[0] <= 16 );
    if ( in_stype == SEGTYPE_ABS ) VF_ASSUME( in_hasgrp == 0 );
    memset( &vf, 0, sizeof vf ); memset( buf2, 0xEE, sizeof buf2 );
    for ( i = 0; i < 12; i++ ) cbuf[i] = in_buf[i];
    S[0] = Zd; Si[0] = Zi; S[0].e.seginfo = &Si[0]; S[0].sym.segment = &S[0].sym; S[0].sym.name = DOLLAR ? "D$A" : "DA"; S[0].sym.max_offset = in_max[0];
    Si[0].start_loc = in_sloc[0]; Si[0].segtype = in_stype; Si[0].abs_frame = in_absf[0]; Si[0].info = in_info; Si[0].alignment = in_align; Si[0].CodeBuffer = in_cb ? cbuf : NULL; Si[0].group = in_hasgrp ? &G[0].sym : NULL;
    G[0] = Zd; Gi.fileend = gend0 = in_gofs0 & 0x0fffffff; G[0].e.grpinfo = &Gi; G[0].sym.name = "G"; G[0].sym.Ofssize = in_gsize; G[0].sym.offset = in_gofs0; G[0].sym.total_size = in_gtot;
    VF_ASSUME( gend0 <= in_fofs );
    ModuleInfo.flat_grp = in_hasgrp == 2 ? &G[0] : NULL; ModuleInfo.sub_format = in_fmt;
    memset( &Cp, 0, sizeof Cp );
    Cp.first = in_first; Cp.alignment = in_palign; Cp.fileoffset = in_fofs; Cp.sizehdr = in_hdrsize; Cp.entryoffset = in_ent ? 77 : -1; Cp.imagestart = in_imgstart; Cp.rva = in_rva;
    spec_calc();
    CalcOffset( &S[0], &Cp );
    VF_POST( post_calc(), "position of a segment in the file and in the image" );
    VF_REACH( "end" );
}
#endif

#ifdef P_SEGREL
/* @proof bin_segrelocs props=C11 harness=h_segrel enforce=GetSegRelocs defs=P_SEGREL,LOCMAX=0x100ff unwind=26 bounded=2_segments,_4_fixups,_locations_below_100FFh solver=cadical timeout=300 fallback=bin_segrelocs_s */
/* @proof bin_segrelocs_s props=C11 harness=h_segrel enforce=GetSegRelocs defs=P_SEGREL,LOCMAX=0x1001f tier=fallback unwind=26 bounded=2_segments,_4_fixups,_locations_below_1001Fh solver=cadical */
void h_segrel( void )
{
    static struct fixup X[4]; static struct seg_info Sa; static struct dsym A; static uint_8 in_t[4], in_k[4], in_sabs; static uint_32 in_l[4];
    int i, n;
    VF_IN_ARR( in_t, 4 ); VF_IN_ARR( in_k, 4 ); VF_IN_ARR( in_l, 4 ); VF_IN( in_null ); VF_IN( in_sabs ); VF_IN_ARR( in_start, 3 ); VF_IN_ARR( in_gofs, 2 ); VF_IN_ARR( in_seg, 3 );
    VF_ASSUME( in_null <= 1 && in_sabs <= 1 && in_seg[0] <= 1 && in_seg[1] <= 1 );
    memset( &vf, 0, sizeof vf ); memset( dst, 0, sizeof dst ); exp_n = 0; memset( exp_a, 0, sizeof exp_a );
    G[0] = Zd; G[0].sym.offset = in_gofs[0]; A = Zd; Sa = Zi; A.e.seginfo = &Sa; A.sym.segment = &A.sym; A.sym.state = SYM_SEG; Sa.segtype = SEGTYPE_ABS; SymTables[TAB_SEG].head = &A; A.next = &S[0];
    for ( i = 0; i < 2; i++ ) {
        S[i] = Zd; Si[i] = Zi; S[i].e.seginfo = &Si[i]; S[i].sym.segment = &S[i].sym; S[i].sym.state = SYM_SEG; S[i].sym.name = "S";
        Si[i].start_offset = in_start[i]; Si[i].group = in_seg[i] ? &G[0].sym : NULL; Si[i].segtype = i && in_sabs ? SEGTYPE_ABS : SEGTYPE_DATA; Si[i].FixupList.head = &X[2*i];
        Y[i] = Zd; Y[i].sym.segment = i ? &A.sym : &S[1].sym;
        VF_ASSUME( in_start[i] <= 0xfffff && in_gofs[0] <= 0xfffff );
    }
    S[0].next = &S[1];
    Sa.FixupList.head = &X[3];                          /* never relocated */
    for ( i = 0; i < 4; i++ ) {
        uint_32 a = in_l[i] + in_start[i/2] + ( in_seg[i/2] ? in_gofs[0] : 0 );
        VF_ASSUME( in_t[i] > FIX_VOID && in_t[i] < FIX_LAST && in_k[i] <= 3 && in_l[i] <= LOCMAX && a + 4 <= 0xfffff );       /* real mode: 1 MB */
        X[i] = Zf; X[i].type = in_t[i]; X[i].locofs = in_l[i]; X[i].nextrlc = i & 1 ? NULL : &X[i+1];
        /* label, label of an absolute segment, segment, none/group */
        X[i].sym = in_k[i] == 0 ? &Y[0].sym : in_k[i] == 1 ? &Y[1].sym : in_k[i] == 2 ? &S[0].sym : &G[0].sym;
        if ( in_k[i] == 0 && in_sabs ) continue;
        if ( in_k[i] == 1 || i >= 2 && in_sabs ) continue;
        if ( in_t[i] == FIX_SEG ) exp_a[exp_n++] = a;
        else if ( in_t[i] == FIX_PTR16 ) exp_a[exp_n++] = a + 2;
        else if ( in_t[i] == FIX_PTR32 ) exp_a[exp_n++] = a + 4;
    }
    n = GetSegRelocs( in_null ? NULL : dst );
    VF_POST( post_rel( n ), "relocation table of the MZ header" );
    VF_REACH( "end" );
}
#endif

#ifdef P_SIZE
/* @proof bin_imagesize props=C11 harness=h_size enforce=GetImageSize defs=P_SIZE unwind=26 bounded=3_segments solver=cadical */
void h_size( void )
{
    static uint_8 in_skip[3], in_mem;
    int i, last = -1, first = 1;
    uint_32 hid = 0, r, e;
    VF_IN_ARR( in_skip, 3 ); VF_IN( in_mem ); VF_IN_ARR( in_foff, 3 ); VF_IN_ARR( in_max, 3 ); VF_IN_ARR( in_sloc, 3 ); VF_IN_ARR( in_written, 3 );
    VF_ASSUME( in_mem <= 1 );
    memset( &vf, 0, sizeof vf ); exp_size = 0;
    for ( i = 0; i < 3; i++ ) {
        VF_ASSUME( in_skip[i] <= 2 && in_foff[i] < 0x8000000 && in_max[i] < 0x8000000 && in_sloc[i] <= in_max[i] );
        S[i] = Zd; Si[i] = Zi; S[i].e.seginfo = &Si[i]; S[i].sym.name = "S"; S[i].sym.max_offset = in_max[i]; S[i].next = i < 2 ? &S[i+1] : NULL;
        Si[i].start_loc = in_sloc[i]; Si[i].fileoffset = in_foff[i]; Si[i].bytes_written = in_written[i]; Si[i].segtype = in_skip[i] == 1 ? SEGTYPE_ABS : SEGTYPE_DATA; Si[i].info = in_skip[i] == 2;
        if ( in_written[i] ) last = i;                  /* segments behind the last one with contents aren't stored in the file */
    }
    SymTables[TAB_SEG].head = &S[0];
    for ( i = 0; i < 3; i++ ) {
        if ( in_skip[i] || !in_mem && i > last ) continue;
        if ( !first ) hid += in_sloc[i];                /* space that isn't in the file */
        first = 0;
        e = in_foff[i] + in_max[i] - in_sloc[i] + ( in_mem ? hid : 0 );
        if ( e > exp_size ) exp_size = e;
    }
    r = GetImageSize( in_mem );
    VF_POST( r == exp_size, "size of the image" );
    VF_REACH( "end" );
}
#endif

#ifdef P_RELOC
static void w16( uint_32 v ) { exp_r[exp_rn++] = v; exp_r[exp_rn++] = v >> 8; }
/* @proof bin_baserelocs props=C11 harness=h_reloc enforce=pe_set_base_relocs defs=P_RELOC unwind=50 bounded=2_segments,_3_fixups solver=cadical */
void h_reloc( void )
{
    static struct fixup X[4]; static uint_8 in_t[4]; static uint_32 in_l[4];
    int i, k, open = -1, ft;
    uint_32 a, page = 0;
    VF_IN_ARR( in_t, 4 ); VF_IN_ARR( in_l, 4 ); VF_IN_ARR( in_start, 3 );
    memset( &vf, 0, sizeof vf ); memset( exp_r, 0, sizeof exp_r ); memset( rbuf, 0, sizeof rbuf ); exp_rn = 0;
    for ( i = 0; i < 3; i++ ) { S[i] = Zd; Si[i] = Zi; S[i].e.seginfo = &Si[i]; S[i].sym.name = "S"; S[i].next = i < 2 ? &S[i+1] : NULL; Si[i].start_offset = in_start[i]; Si[i].segtype = i == 2 ? SEGTYPE_RELOC : SEGTYPE_DATA; VF_ASSUME( in_start[i] < 0x40000000 ); }
    { static struct dsym H; static struct seg_info Hi; H = Zd; Hi = Zi; H.e.seginfo = &Hi; H.next = &S[0]; Hi.segtype = SEGTYPE_HDR; Hi.FixupList.head = &X[3]; SymTables[TAB_SEG].head = &H; }
    Si[0].FixupList.head = &X[0]; Si[1].FixupList.head = &X[2];
    for ( i = 0; i < 4; i++ ) { VF_ASSUME( in_t[i] < FIX_LAST && in_l[i] < 0x40000000 ); X[i] = Zf; X[i].type = in_t[i]; X[i].locofs = in_l[i]; }
    X[0].nextrlc = &X[1];
    for ( i = 0; i < 3; i++ ) {
        ft = in_t[i] == FIX_OFF16 ? 2 : in_t[i] == FIX_OFF32 ? 3 : in_t[i] == FIX_OFF64 ? 10 : 0;      /* LOW, HIGHLOW, DIR64 */
        if ( !ft ) continue;
        a = in_start[i/2] + in_l[i];
        if ( open < 0 || a >> 12 != page ) {            /* a block per page, at a 4 byte boundary */
            if ( open >= 0 && exp_rn % 4 ) { w16( 0 ); exp_r[open+4] += 2; }
            open = exp_rn; page = a >> 12; w16( page << 12 ); w16( page >> 4 ); w16( 8 ); w16( 0 );
        }
        w16( a % 4096 | ft << 12 ); exp_r[open+4] += 2;
    }
    pe_set_base_relocs( &S[2] );
    VF_POST( post_reloc(), "base relocations" );
    VF_REACH( "end" );
}
#endif
