/* Contracts for fixup creation and storage (fixup.c). */
#include <string.h>
#include "globals.h"
#include "memalloc.h"
#include "parser.h"
#include "segment.h"
#include "fixup.h"
#include "omfspec.h"
#include "vf.h"

uint_8   in_type, in_state, in_var, in_nosym, in_seg, in_omf, in_elf, in_64, in_queue, in_pass, in_frame0, in_opt, in_ign, in_grp;
uint_16  in_fdatum, in_gidx, in_sidx;
uint_32  in_cur, in_symofs, in_data, in_hi;
struct { unsigned allocs; union { int_32 data; int_64 data64; }; } vf;
struct module_info ModuleInfo;
struct global_options Options;
unsigned int Parse_Pass;
static struct fixup F, Q; static struct dsym Y, Sg, G; static struct seg_info Si; static struct grp_info Gi;
static const struct dsym Zd; static const struct seg_info Zi; static const struct grp_info Zg; static const struct fixup Zf;
void *LclAlloc( size_t n ) { vf.allocs++; return n <= sizeof F ? &F : NULL; }   /* @stub LclAlloc: fresh memory */
uint_32 GetCurrOffset( void ) { return in_cur; }                                /* @stub GetCurrOffset: current offset */
unsigned GetSegIdx( const struct asym *sym ) { return sym ? ((struct dsym *)sym)->e.seginfo->seg_idx : 0; }     /* @stub GetSegIdx: as in segment.c */
struct asym *GetGroup( const struct asym *sym ) { return in_grp ? &G.sym : NULL; }                              /* @stub GetGroup: group of the symbol's segment, if any */

#ifdef P_CREATE
static int post_create( const struct fixup *r )
{
    if ( r != &F || vf.allocs != 1 || F.sym != ( in_nosym ? NULL : &Y.sym ) || F.locofs != in_cur || F.offset || F.type != in_type || F.option != in_opt || F.flags
      || F.frame_type != (int_8)in_frame0 || F.frame_datum != in_fdatum || F.def_seg != ( in_seg ? &Sg : NULL ) ) return 0;
    if ( in_pass == PASS_1 ) {  /* chained to the symbol and to the segment */
        if ( !in_nosym && ( Y.sym.bp_fixup != &F || F.nextbp != ( in_queue ? &Q : NULL ) ) ) return 0;
        if ( in_seg && ( Si.FixupList.head != &F || F.nextrlc != ( in_queue ? &Q : NULL ) ) ) return 0;
        return 1;
    }
    return Y.sym.bp_fixup == ( in_queue ? &Q : NULL ) && Si.FixupList.head == ( in_queue ? &Q : NULL );
}
#else
static int post_store( void )
{
    uint_32 d = in_data, o = in_data;
    int inl = !in_omf && in_elf && !in_64;
    if ( in_omf ) { if ( in_type != FIX_SEG && !in_nosym ) d += in_symofs; }    /* OMF: target offset inline */
    else {
        if ( inl ) d -= in_type == FIX_RELOFF32 ? 4 : in_type == FIX_RELOFF16 ? 2 : in_type == FIX_RELOFF8 ? 1 : 0;     /* REL addend is relative to the field */
        if ( !in_nosym && in_var ) { d += in_symofs; o += in_symofs; if ( F.segment_var != &Sg.sym ) return 0; }
    }
    if ( !in_omf && !in_nosym && in_var && in_type == FIX_OFF64 ) { if ( vf.data64 != (int_64)( ( (uint_64)in_hi << 32 | in_data ) + (int_64)(int_32)in_symofs ) ) return 0; }      /* a field of 8 bytes */
    else if ( vf.data64 != (int_64)( (uint_64)in_hi << 32 | d ) ) return 0;
    if ( F.offset != o || F.nextrlc != NULL || F.type != in_type || F.locofs != in_cur || F.sym != ( in_nosym ? NULL : &Y.sym ) ) return 0;
    return Si.FixupList.tail == &F && ( in_queue ? Si.FixupList.head == &Q && Q.nextrlc == &F : Si.FixupList.head == &F );
}
#endif
int_8 Frame_Type; uint_16 Frame_Datum;
static int post_frame( void )
{
    int t = 77, d = 78;                 /* previous values */
    if ( !in_nosym ) switch ( in_state ) {
    case SYM_INTERNAL: case SYM_EXTERNAL:
        if ( in_seg ) { if ( !in_ign && in_grp ) { t = FRAME_GRP; d = in_gidx; } else { t = FRAME_SEG; d = in_sidx; } }
        break;
    case SYM_SEG: t = FRAME_SEG; d = in_sidx; break;
    case SYM_GRP: t = FRAME_GRP; d = in_gidx; break;
    }
    return Frame_Type == t && Frame_Datum == d;
}
#ifdef VF_CBMC
# ifdef P_CREATE
struct fixup *CreateFixup( struct asym *sym, enum fixup_types type, enum fixup_options option )
REQUIRES( type == in_type && option == in_opt && sym == ( in_nosym ? NULL : &Y.sym ) )
ASSIGNS( OBJ( &vf ), OBJ( &F ), Y.sym, OBJ( &Si ) )
ENSURES( post_create( __CPROVER_return_value ) )
;
# else
void store_fixup( struct fixup *fixup, struct dsym *seg, int_32 *pdata )
REQUIRES( fixup == &F && seg == &Sg && pdata == &vf.data )
ASSIGNS( OBJ( &vf ), OBJ( &F ), OBJ( &Q ), OBJ( &Si ) )
ENSURES( post_store() )
;
# endif
void SetFixupFrame( const struct asym *sym, char ign_grp )
REQUIRES( sym == ( in_nosym ? NULL : &Y.sym ) && ign_grp == in_ign )
ASSIGNS( Frame_Type, Frame_Datum )
ENSURES( post_frame() )
;
#endif
#include "/repo/fixup.c"

static void setup( void )
{
    VF_IN( in_type ); VF_IN( in_state ); VF_IN( in_var ); VF_IN( in_nosym ); VF_IN( in_seg ); VF_IN( in_omf ); VF_IN( in_elf ); VF_IN( in_64 ); VF_IN( in_queue ); VF_IN( in_pass ); VF_IN( in_frame0 ); VF_IN( in_opt );
    VF_IN( in_ign ); VF_IN( in_grp ); VF_IN( in_fdatum ); VF_IN( in_gidx ); VF_IN( in_sidx ); VF_IN( in_cur ); VF_IN( in_symofs ); VF_IN( in_data );
    VF_ASSUME( in_type < FIX_LAST && in_var <= 1 && in_nosym <= 1 && in_seg <= 1 && in_omf <= 1 && in_elf <= 1 && in_64 <= 1 && in_queue <= 1 && in_ign <= 1 && in_grp <= 1 && in_pass <= 2 && in_opt <= 3 );
    VF_ASSUME( in_state == SYM_INTERNAL || in_state == SYM_EXTERNAL || in_state == SYM_SEG || in_state == SYM_GRP || in_state == SYM_UNDEFINED );
    memset( &vf, 0, sizeof vf ); F = Zf; Q = Zf; Y = Zd; Sg = Zd; G = Zd; Si = Zi; Gi = Zg;
    Sg.e.seginfo = &Si; Sg.sym.segment = &Sg.sym; Si.seg_idx = in_sidx; G.e.grpinfo = &Gi; Gi.grp_idx = in_gidx;
    Y.sym.state = in_state; Y.sym.variable = in_var; Y.sym.offset = in_symofs; Y.sym.name = "x"; Y.sym.segment = &Sg.sym;
    Frame_Type = 77; Frame_Datum = 78;
    Parse_Pass = in_pass;
    Options.output_format = in_omf ? OFORMAT_OMF : in_elf ? OFORMAT_ELF : OFORMAT_COFF;
    ModuleInfo.defOfssize = in_64 ? USE64 : USE32;
    ModuleInfo.currseg = in_seg ? &Sg : NULL;
}
#ifdef P_CREATE
/* @proof fixup_create props=C10,C07,C08 harness=h_create enforce=CreateFixup defs=P_CREATE unwind=24 solver=cadical */
void h_create( void )
{
    struct fixup *r;
    setup();
    Frame_Type = in_frame0; Frame_Datum = in_fdatum;
    if ( in_queue ) { Y.sym.bp_fixup = &Q; Si.FixupList.head = &Q; }
    r = CreateFixup( in_nosym ? NULL : &Y.sym, in_type, in_opt );
    VF_POST( post_create( r ), "new fixup" );
    VF_REACH( "end" );
}
#else
/* @proof fixup_store props=C10,C07,C08 harness=h_store enforce=store_fixup unwind=24 solver=cadical */
void h_store( void )
{
    setup();
    VF_ASSUME( in_type != FIX_VOID );
    F.type = in_type; F.locofs = in_cur; F.sym = in_nosym ? NULL : &Y.sym; F.nextrlc = &F;
    if ( in_queue ) Si.FixupList.head = Si.FixupList.tail = &Q;
    VF_IN( in_hi ); vf.data64 = (uint_64)in_hi << 32 | in_data;
    store_fixup( &F, &Sg, &vf.data );
    VF_POST( post_store(), "stored fixup" );
    VF_REACH( "end" );
}
/* @proof fixup_frame props=C10 harness=h_frame enforce=SetFixupFrame unwind=24 solver=cadical */
void h_frame( void )
{
    setup();
    if ( in_state == SYM_GRP ) Y.e.grpinfo = &Gi;
    if ( in_state == SYM_SEG ) { Y.e.seginfo = &Si; Y.sym.segment = &Y.sym; }
    if ( !in_seg && in_state != SYM_SEG ) Y.sym.segment = NULL;
    SetFixupFrame( in_nosym ? NULL : &Y.sym, in_ign );
    VF_POST( post_frame(), "frame" );
    VF_REACH( "end" );
}
#endif
