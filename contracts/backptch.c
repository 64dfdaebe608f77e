/* Contracts for back patching of forward references (backptch.c: DoPatch). */
#include <string.h>
#include "globals.h"
#include "parser.h"
#include "fixup.h"
#include "segment.h"
#include "vf.h"

uint_8   in_type, in_opt, in_far, in_of, in_other, in_pass, in_org;
uint_32  in_addend, in_loc;
int_32   in_off, in_l0, in_l1;
uint_32  in_f0;
uint_8   in_fs;
struct { unsigned nout, freed, warned; } vf;
struct module_info ModuleInfo;
struct global_options Options;
unsigned int Parse_Pass;
static struct asym vf_sym, vf_sym2;
static struct dsym vf_seg, vf_seg2, L0, L1;
static struct seg_info vf_si;
static struct fixup vf_fix, F0;

void OutputByte( unsigned char b ) { vf.nout++; }              /* @stub OutputByte: counts */
void FreeFixup( struct fixup *f ) { if ( f == &vf_fix ) vf.freed++; }   /* @stub FreeFixup */
#define EmitWarn( lvl, msg, ... ) vf_emitwarn()
static void vf_emitwarn( void ) { vf.warned++; }               /* @stub EmitWarn */

/* distance between the end of the branch and the label, in exact arithmetic */
static int_64 dist( int size ) { return (int_64)(int_32)( in_addend + (uint_32)in_off - in_loc - size ); }
static int fits( int type, int_64 d )
{
    return type == FIX_RELOFF8 ? d >= -128 && d <= 127 : type == FIX_RELOFF16 ? d >= -32768 && d <= 32767 : 1;
}
/* bytes a short jump grows by when it becomes near */
static unsigned grow( void )
{
    unsigned near_ = in_of == USE16 ? 2 : 4;
    if ( in_opt == OPTJ_EXTEND ) return 3 + near_ - 2 + ( 0 );    /* jncc $+3|5 + E9 disp: 2+1+near instead of 2 */
    if ( in_opt == OPTJ_JXX ) return 2 + near_ - 2 + 0;           /* 0F 8x disp: 2+near instead of 2 */
    return 1 + near_ - 2 + 0;                                     /* E9 disp: 1+near instead of 2 */
}
/* 0 unaffected, 1 fixup simply dropped, 2 jump has to become longer */
static int spec( void )
{
    int t = in_type;
    if ( in_other ) return 0;
    if ( in_pass == PASS_1 ) {
        if ( in_far && in_opt == OPTJ_CALL ) return 3;
        if ( t == FIX_RELOFF32 || t == FIX_RELOFF16 ) return 1;
        if ( t == FIX_OFF8 && in_opt == OPTJ_PUSH ) return 2;
    }
    if ( t == FIX_RELOFF8 ) return fits( t, dist( 2 ) ) ? 1 : 2;
    if ( t == FIX_RELOFF16 ) return fits( t, dist( 3 ) ) ? 1 : 4;
    if ( t == FIX_RELOFF32 ) return 1;
    return 0;
}
static int post_patch( void )
{
    int k = spec();
    switch ( k ) {
    case 0: return !ModuleInfo.PhaseError && !vf.nout && !vf.freed && vf_sym.offset == in_off && L0.sym.offset == in_l0 && L1.sym.offset == in_l1 && F0.locofs == in_f0;
    case 1: return !ModuleInfo.PhaseError && !vf.nout && vf.freed == 1 && vf_sym.offset == in_off && L0.sym.offset == in_l0 && L1.sym.offset == in_l1 && F0.locofs == in_f0;
    case 3: return ModuleInfo.PhaseError && vf.nout == 1 && vf_sym.offset == in_off + 1;
    case 4: return ModuleInfo.PhaseError && vf.nout == 0 && vf_sym.offset == in_off;
    }
    /* another pass is forced; the code behind the jump moves by exactly the growth */
    if ( !ModuleInfo.PhaseError ) return 0;
    if ( in_opt == OPTJ_EXPLICIT ) return !vf.nout && vf_sym.offset == in_off;
    if ( in_pass == PASS_1 && in_org && ( in_fs ) ) return !vf.nout;
    return vf.nout == grow() && vf.freed == 1
        && L0.sym.offset == in_l0 + ( in_l0 > (int_32)in_loc ? grow() : 0 )
        && L1.sym.offset == in_l1 + ( in_l1 > (int_32)in_loc ? grow() : 0 )
        && F0.locofs == in_f0 + ( in_pass == PASS_1 && in_fs && in_f0 > in_loc ? grow() : 0 );
}

#ifdef VF_CBMC
static void DoPatch( struct asym *sym, struct fixup *fixup )
REQUIRES( sym == &vf_sym && fixup == &vf_fix && !ModuleInfo.PhaseError )
ASSIGNS( ModuleInfo, vf_sym.offset, L0.sym.offset, L1.sym.offset, F0.locofs, OBJ( &vf ) )
ENSURES( post_patch() )
;
#endif

#include "/repo/backptch.c"

/* @proof backpatch props=C04 harness=h_patch enforce=DoPatch unwind=24 solver=cadical bounded=label_list_of_2,_fixup_list_of_1 */
void h_patch( void )
{
    VF_IN( in_type ); VF_IN( in_opt ); VF_IN( in_far ); VF_IN( in_of ); VF_IN( in_other ); VF_IN( in_pass ); VF_IN( in_org );
    VF_IN( in_addend ); VF_IN( in_loc ); VF_IN( in_off ); VF_IN( in_l0 ); VF_IN( in_l1 ); VF_IN( in_f0 ); VF_IN( in_fs );
    memset( &ModuleInfo, 0, sizeof ModuleInfo );
    memset( &vf, 0, sizeof vf ); memset( &vf_fix, 0, sizeof vf_fix ); memset( &F0, 0, sizeof F0 );
    memset( &vf_sym, 0, sizeof vf_sym ); memset( &L0, 0, sizeof L0 ); memset( &L1, 0, sizeof L1 );
    memset( &vf_seg, 0, sizeof vf_seg ); memset( &vf_si, 0, sizeof vf_si );
    VF_ASSUME( in_type <= FIX_LAST && in_opt <= OPTJ_PUSH && in_far <= 1 && in_of <= 2 && in_other <= 1 && in_pass <= 2 && in_org <= 1 && in_fs <= 1 );
    /* segment offsets below 2 GB */
    VF_ASSUME( in_off >= 0 && in_loc < 0x7fffff00 && in_off < 0x7fffff00 && in_l0 >= 0 && in_l0 < 0x7fffff00 && in_l1 >= 0 && in_l1 <= in_l0 && in_f0 < 0x7fffff00 );
    Parse_Pass = in_pass;
    vf_seg.e.seginfo = &vf_si;
    vf_si.Ofssize = in_of;
    vf_si.label_list = &L0.sym; L0.next = &L1; L0.sym.offset = in_l0; L1.sym.offset = in_l1;
    if ( in_fs ) { vf_si.FixupList.head = &F0; F0.locofs = in_f0; F0.orgoccured = in_org; F0.sym = &vf_sym2; }
    vf_sym.segment = in_other ? &vf_seg2.sym : &vf_seg.sym;
    vf_sym.offset = in_off;
    vf_sym.mem_type = in_far ? MT_FAR : MT_NEAR;
    vf_fix.type = in_type; vf_fix.option = in_opt; vf_fix.offset = in_addend; vf_fix.locofs = in_loc;
    vf_fix.def_seg = &vf_seg; vf_fix.sym = &vf_sym;
    F0.locofs = in_f0;
    L0.sym.offset = in_l0; L1.sym.offset = in_l1;
    DoPatch( &vf_sym, &vf_fix );
    VF_POST( post_patch(), "forward branch patched" );
    VF_REACH( "end" );
    if ( spec() == 1 ) VF_REACH( "in range" );
    if ( spec() == 2 && in_opt == OPTJ_JXX ) VF_REACH( "grow" );
}
