/* Contracts for OMF FIXUPP subrecords (omffixup.c) and fixup storage (fixup.c). */
#include <string.h>
#include "globals.h"
#include "memalloc.h"
#include "parser.h"
#include "segment.h"
#include "fixup.h"
#include "omfint.h"
#include "omfspec.h"
#include "vf.h"

uint_8   in_type, in_state, in_var, in_comdat, in_ldr, in_nosym, in_noseg;
int_8    in_ftype;
uint_16  in_fdatum, in_gidx, in_sidx, in_eidx, in_xgrp;
uint_32  in_locofs, in_start, in_symofs, in_displ;
struct { unsigned err; } vf;
struct module_info ModuleInfo;
struct global_options Options;
const char szNull[] = "";
static struct format_options Fmt;
static struct fixup F; static struct dsym Y, Sg, G; static struct seg_info Si; static struct grp_info Gi;
static const struct dsym Zd; static const struct seg_info Zi; static const struct grp_info Zg;
static uint_8 buf[32];
unsigned omf_GetGrpIdx( struct asym *sym ) { return in_xgrp; }                  /* @stub omf_GetGrpIdx: index of the symbol's group */
#define EmitErr( ... ) ( vf.err++, ERROR )

/* --- specification: TIS OMF 1.1, FIXUPP record --- */
static struct { int none, frame, target, displ; uint_16 fd, td; uint_32 off; } sp;
static void spec_ref( int modend )
{
    sp.none = 0; sp.fd = in_fdatum; sp.frame = in_ftype; sp.displ = modend; sp.off = modend ? in_symofs + in_displ : 0;
    if ( in_nosym ) {           /* constant with a frame: the frame is the target */
        if ( in_ftype == FRAME_NONE ) sp.none = 1;
        sp.target = in_ftype; sp.td = in_fdatum; sp.frame = FRAME_TARG;
        return;
    }
    switch ( in_state ) {
    case SYM_UNDEFINED: sp.none = 1; return;
    case SYM_GRP: sp.target = 1; sp.td = in_gidx; if ( in_ftype == FRAME_NONE ) sp.frame = FRAME_TARG; break;
    case SYM_SEG: sp.target = 0; sp.td = in_sidx; if ( in_ftype == FRAME_NONE ) sp.frame = FRAME_TARG; break;
    case SYM_EXTERNAL:
        sp.target = 2; sp.td = in_eidx;
        if ( in_ftype == FRAME_GRP && in_fdatum == 0 ) sp.fd = in_xgrp;
        if ( in_ftype == FRAME_NONE ) sp.frame = FRAME_TARG;
        break;
    default:
        if ( !modend && in_var ) { sp.target = in_ftype == FRAME_GRP ? 1 : 0; sp.td = in_fdatum; if ( in_ftype == FRAME_NONE ) sp.frame = FRAME_TARG; break; }
        if ( in_noseg && !modend ) { sp.none = 1; return; }
        sp.target = 0; sp.td = in_noseg ? 0 : in_sidx;
        if ( !modend && in_comdat ) { sp.target = 2; sp.frame = FRAME_TARG; break; }
        if ( in_ftype == FRAME_NONE ) sp.frame = FRAME_TARG;
        break;
    }
    if ( modend ) { if ( in_ftype == FRAME_SEG ) sp.frame = FRAME_TARG; }
    else if ( sp.frame == sp.target && sp.fd == sp.td ) sp.frame = FRAME_TARG;     /* the frame is that of the target: shorter form */
}
static int spec_loc( void )
{
    switch ( in_type ) {
    case FIX_RELOFF8: case FIX_OFF8: return 0;
    case FIX_RELOFF16: case FIX_OFF16: return in_ldr ? 5 : 1;
    case FIX_SEG: return 2;
    case FIX_PTR16: return 3;
    case FIX_HIBYTE: return 4;
    case FIX_RELOFF32: case FIX_OFF32: return in_ldr ? 13 : 9;
    case FIX_PTR32: return 11;
    }
    return -1;
}
static unsigned idx( const uint_8 *p, uint_16 v ) { return v > 0x7f ? ( p[0] == ( 0x80 | v >> 8 ) && p[1] == ( v & 255 ) ? 2 : 99 ) : p[0] == v ? 1 : 99; }
static unsigned ref_len( const uint_8 *p )              /* length of the reference at p if it is the specified one, else > 99 */
{
    unsigned n = 1;
    if ( p[0] != ( sp.frame << 4 | ( sp.displ ? 0 : 4 ) | sp.target ) ) return 200;
    if ( sp.frame <= FRAME_EXT ) n += idx( p + n, sp.fd );
    if ( n > 90 ) return 200;
    n += idx( p + n, sp.td );
    if ( n > 90 ) return 200;
    if ( sp.displ ) {
        if ( p[n] != (uint_8)sp.off || p[n+1] != (uint_8)( sp.off >> 8 ) ) return 200;
        n += 2;
        if ( T32 ) { if ( p[n] != (uint_8)( sp.off >> 16 ) || p[n+1] != sp.off >> 24 ) return 200; n += 2; }
    }
    return n;
}
static int post_fix( unsigned r )
{
    uint_32 ofs = in_locofs - in_start;
    int loc = spec_loc();
    if ( loc < 0 ) return r == 0 && vf.err == 1;
    if ( sp.none ) return r == 0 && vf.err == ( !in_nosym && ( in_state == SYM_UNDEFINED || in_noseg ) );
    return vf.err == 0 && r <= FIX_GEN_MAX && r == 2 + ref_len( buf + 2 ) && buf[0] == ( 0x80 | ( in_type == FIX_RELOFF8 || in_type == FIX_RELOFF16 || in_type == FIX_RELOFF32 ? 0 : 0x40 ) | loc << 2 | ofs >> 8 ) && buf[1] == ( ofs & 255 );
}
static int post_modend( unsigned r )
{
    return vf.err == 0 && r <= FIX_GEN_MODEND_MAX && r == ref_len( buf );
}
#ifdef VF_CBMC
unsigned OmfFixGenFix( const struct fixup *fixup, uint_32 start_loc, uint_8 *b, enum fixgen_types type )
REQUIRES( fixup == &F && b == buf && fixup->locofs - start_loc < 1024 )
ASSIGNS( OBJ( &vf ), OBJ( buf ) )
ENSURES( post_fix( __CPROVER_return_value ) )
;
unsigned OmfFixGenFixModend( const struct fixup *fixup, uint_8 *b, uint_32 displ, enum fixgen_types type )
REQUIRES( fixup == &F && b == buf && displ == in_displ )
ASSIGNS( OBJ( &vf ), OBJ( buf ) )
ENSURES( post_modend( __CPROVER_return_value ) )
;
#endif
unsigned GetSegIdx( const struct asym *sym ) { return sym ? ((struct dsym *)sym)->e.seginfo->seg_idx : 0; }     /* @stub GetSegIdx: as in segment.c */
#include "/repo/omffixup.c"

static void setup( void )
{
    VF_IN( in_type ); VF_IN( in_state ); VF_IN( in_var ); VF_IN( in_comdat ); VF_IN( in_ldr ); VF_IN( in_nosym ); VF_IN( in_noseg ); VF_IN( in_ftype ); VF_IN( in_fdatum ); VF_IN( in_gidx );
    VF_IN( in_sidx ); VF_IN( in_eidx ); VF_IN( in_xgrp ); VF_IN( in_locofs ); VF_IN( in_start ); VF_IN( in_symofs ); VF_IN( in_displ );
    VF_ASSUME( in_var <= 1 && in_comdat <= 1 && in_ldr <= 1 && in_nosym <= 1 && in_noseg <= 1 && in_fdatum <= 0x7fff && in_gidx <= 0x7fff && in_sidx <= 0x7fff && in_eidx <= 0x7fff && in_xgrp <= 0x7fff );
    VF_ASSUME( in_ftype == FRAME_SEG || in_ftype == FRAME_GRP || in_ftype == FRAME_NONE );
    VF_ASSUME( in_state == SYM_INTERNAL || in_state == SYM_EXTERNAL || in_state == SYM_SEG || in_state == SYM_GRP || in_state == SYM_UNDEFINED );
    VF_ASSUME( in_type <= FIX_LAST && in_locofs - in_start < 1024 );
    memset( &vf, 0, sizeof vf ); memset( &F, 0, sizeof F ); Y = Zd; Sg = Zd; G = Zd; Si = Zi; Gi = Zg;
    ModuleInfo.fmtopt = &Fmt;
    F.type = in_type; F.locofs = in_locofs; F.frame_type = in_ftype; F.frame_datum = in_fdatum; F.loader_resolved = in_ldr;
    F.sym = in_nosym ? NULL : &Y.sym;
    Y.sym.state = in_state; Y.sym.offset = in_symofs; Y.sym.name = "x"; Y.sym.variable = in_var;
    Si.seg_idx = in_sidx; Si.comdat_selection = in_comdat; Gi.grp_idx = in_gidx; Sg.e.seginfo = &Si;
    if ( in_state == SYM_GRP ) Y.e.grpinfo = &Gi;
    else if ( in_state == SYM_SEG ) { Y.e.seginfo = &Si; Y.sym.segment = &Y.sym; }
    else if ( in_state == SYM_EXTERNAL ) Y.sym.ext_idx1 = in_eidx;
    if ( in_state == SYM_INTERNAL ) Y.sym.segment = in_noseg ? NULL : &Sg.sym; else VF_ASSUME( !in_noseg );
}
/* @proof omf_genfix props=C10 harness=h_fix enforce=OmfFixGenFix defs=T32=0 unwind=24 solver=cadical */
/* @proof omf_genfix32 props=C10 harness=h_fix enforce=OmfFixGenFix defs=T32=1 unwind=24 solver=cadical */
void h_fix( void )
{
    unsigned r;
    setup();
    spec_ref( 0 );
    r = OmfFixGenFix( &F, in_start, buf, T32 ? FIX_GEN_MS386 : FIX_GEN_INTEL );
    VF_POST( post_fix( r ), "FIXUPP subrecord" );
    VF_REACH( "end" );
}
/* @proof omf_genmodend props=C10 harness=h_modend enforce=OmfFixGenFixModend defs=T32=0 unwind=24 solver=cadical */
/* @proof omf_genmodend32 props=C10 harness=h_modend enforce=OmfFixGenFixModend defs=T32=1 unwind=24 solver=cadical */
void h_modend( void )
{
    unsigned r;
    setup();
    VF_ASSUME( !in_nosym && !in_noseg && ( in_state == SYM_INTERNAL || in_state == SYM_EXTERNAL ) && !in_var && !in_comdat );
    spec_ref( 1 );
    r = OmfFixGenFixModend( &F, buf, in_displ, T32 ? FIX_GEN_MS386 : FIX_GEN_INTEL );
    VF_POST( post_modend( r ), "MODEND start address" );
    VF_REACH( "end" );
}
