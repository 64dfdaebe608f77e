/* Contracts for the COFF writer (coff.c). */
#include <string.h>
#include <stdio.h>
#include <time.h>
#include "globals.h"
#include "memalloc.h"
#include "mangle.h"
#include "parser.h"
#include "fixup.h"
#include "segment.h"
#include "extern.h"
#include "coff.h"
#include "input.h"
#include "omfspec.h"
#include "vf.h"

/* records as laid out in the PE/COFF specification */
#pragma pack(push,1)
typedef struct { uint_16 Machine, NumberOfSections; uint_32 TimeDateStamp, PointerToSymbolTable, NumberOfSymbols; uint_16 SizeOfOptionalHeader, Characteristics; } XFH;
typedef struct { char Name[8]; uint_32 VirtualSize, VirtualAddress, SizeOfRawData, PointerToRawData, PointerToRelocations, PointerToLinenumbers; uint_16 NumberOfRelocations, NumberOfLinenumbers; uint_32 Characteristics; } XSH;
typedef struct { uint_32 VirtualAddress, SymbolTableIndex; uint_16 Type; } XREL;
typedef struct { union { char name[8]; uint_32 l[2]; }; uint_32 value; int_16 section; uint_16 type; uint_8 class, aux; } XSYM;
#pragma pack(pop)
uint_8   in_type[3], in_add[3], in_sel[3], in_inc[3], in_lines, in_proc, in_nosym[3], in_ofsz, in_code[2], in_bss[2], in_bssn[2], in_info[2], in_ro[2], in_align[2], in_const[2], in_stack[2], in_written[2], in_nobuf[2], in_comdat[2], in_dir[2], in_64,
         in_state, in_abs, in_comm, in_near, in_alt, in_lfile, in_subst;
uint_32  in_loc[3], in_idx[6], in_max[2], in_start[2], in_char[2], in_ofs[6], in_total, in_n, in_pos, in_next, in_rel[2], in_lin[2], in_crc[2];
int_32   in_code4[2];
struct module_info ModuleInfo;
struct global_options Options;
struct symbol_queue SymTables[TAB_LAST];
static struct fixup F[3]; static struct dsym S[2], Y[6]; static struct seg_info Si[2]; static struct qnode Q[3]; static struct debug_info Dbg, Dbg2;
static const struct dsym Zd; static const struct seg_info Zi; static const struct fixup Zf; static const struct debug_info Zb;

/* --- file model --- */
#define NLOG 24
struct {
    unsigned err, werr, n, nrel, nsh, pos, bad, npub, nal, nrec, base, symtab, nsyms;
    struct { uint_32 pos, size; const void *p; } log[NLOG];
    XREL rel[6]; XSH sh[4]; XFH fh;
    XSYM rec[40];
    struct asym *pub[3];
    uint_32 ssize;
} vf;
#define EmitErr( ... ) ( vf.err++, ERROR )
void WriteError( void ) { vf.werr++; }
unsigned GetSegIdx( const struct asym *sym ) { return sym ? ((struct dsym *)sym)->e.seginfo->seg_idx : 0; }     /* @stub GetSegIdx: as in segment.c */
void AddPublicData( struct asym *sym )
{
#ifdef P_SYMS
    Q[2].sym = sym; Q[2].next = NULL; Q[1].next = &Q[2];
#endif
    if ( vf.npub < 3 ) vf.pub[vf.npub] = sym;
    vf.npub++;
}       /* @stub AddPublicData: appends the symbol to the public queue */
static const char fn_short[] = "a.asm", fn_long[] = "0123456789/234567.asm";
static struct fname_item Fn[3];
const struct fname_item *GetFName( unsigned i ) { return &Fn[i < 3 ? i : 0]; }                                           /* @stub GetFName: entry of the file table */
int Mangle( struct asym *sym, char *buf ) { int i; buf[0] = '_'; for ( i = 0; i < 12; i++ ) { buf[i+1] = sym->name[i]; if ( sym->name[i] == 0 ) break; } return i + 1; }    /* @stub Mangle: some decoration; here an underscore in front of the name */
/* @stub ConvertSectionName: some name for the section; says whether the segment name stands for a BSS section */
char *ConvertSectionName( const struct asym *sym, enum seg_type *pst, char *buf )
{
    int i = sym == &S[1].sym;
    if ( pst && in_bssn[i] ) *pst = SEGTYPE_BSS;
    return sym->name;
}
static union { void *a; char c[40]; } pool[6];
void *LclAlloc( size_t n ) { if ( n > sizeof pool[0] || vf.nal >= 6 ) { vf.bad = 1; return NULL; } return &pool[vf.nal++]; }      /* @stub LclAlloc: fresh memory */
static size_t vf_fwrite( const void *p, size_t sz, size_t n, FILE *f );         /* @stub fwrite, fseek: all bytes are written at the current position, which fseek sets */
static int vf_fseek( FILE *f, long pos, int how );
#define fwrite vf_fwrite
#define fseek vf_fseek
#ifdef VF_CBMC
/* @stub sprintf: "/%u" of a number below 10000000, as in the C library */
static int vf_sprintf( char *b, const char *f, size_t a, ... )
{
    int i, n = 1;
    size_t d = 1;
    if ( f[0] != '/' || f[1] != '%' || f[2] != 'u' || f[3] || a > 9999999 ) return 0;
    *b++ = '/';
    for ( i = 0; i < 6 && a / d >= 10; i++ ) d *= 10;
    for ( i = 0; i < 7 && d; i++, n++ ) { *b++ = '0' + a / d % 10; d /= 10; }
    *b = 0;
    return n;
}
# define sprintf vf_sprintf
#endif
#define time( p ) ( *( p ) = 0 )

/* --- relocations --- */
static int spec_type( int t, int add )           /* PE/COFF specification; -1: none */
{
    if ( in_ofsz == USE64 ) switch ( t ) {
    case FIX_OFF64: return 1; case FIX_OFF32: return 2; case FIX_OFF32_IMGREL: return 3; case FIX_RELOFF32: return 4 + ( add - 4 ); case FIX_SEG: return 10; case FIX_OFF32_SECREL: return 11;
    } else switch ( t ) {
    case FIX_OFF16: return 1; case FIX_RELOFF16: return 2; case FIX_OFF32: return 6; case FIX_OFF32_IMGREL: return 7; case FIX_SEG: return 10; case FIX_OFF32_SECREL: return 11; case FIX_RELOFF32: return 20;
    }
    return -1;
}
#ifdef P_FIX
enum { P0, L0, L1, E0, V0 };
static struct { XREL r[4]; unsigned n, err, npub; uint_32 idx; struct asym *pub[2]; int inc[2]; } sp;
static void spec_fix( void )
{
    int i, t, s;
    memset( &sp, 0, sizeof sp ); sp.idx = in_next;
    sp.inc[0] = in_inc[0]; sp.inc[1] = in_inc[1];
    if ( OVFL ) { sp.r[0].VirtualAddress = in_n + 1; sp.n = 1; }
    for ( i = 0; i < 2; i++ ) {
        if ( in_type[i] == FIX_VOID ) continue;
        t = spec_type( in_type[i], in_add[i] );
        if ( t < 0 ) { sp.err++; continue; }
        s = in_sel[i];
        sp.r[sp.n].VirtualAddress = in_loc[i]; sp.r[sp.n].Type = t;
        sp.r[sp.n].SymbolTableIndex = s == V0 ? in_idx[5] : in_idx[s];
        if ( s == L0 || s == L1 ) {
            if ( !sp.inc[s-L0] ) { sp.inc[s-L0] = 1; sp.pub[sp.npub++] = &Y[s].sym; in_idx[s] = sp.idx++; if ( in_lines && ( in_proc >> ( s - L0 ) & 1 ) ) sp.idx += 6; }
            sp.r[sp.n].SymbolTableIndex = in_idx[s];
        }
        sp.n++;
    }
}
static int post_fix( const uint_32 *po, const uint_32 *pi )
{
    int i;
    if ( vf.bad || vf.werr || vf.err != sp.err || vf.nrel != sp.n || vf.n != sp.n || *po != in_pos + 10 * sp.n || *pi != sp.idx || vf.npub != sp.npub || Si[0].num_relocs != sp.n - OVFL ) return 0;
    for ( i = 0; i < 3; i++ )
        if ( i < sp.n && ( vf.rel[i].VirtualAddress != sp.r[i].VirtualAddress || vf.rel[i].SymbolTableIndex != sp.r[i].SymbolTableIndex || ( !OVFL || i > 0 ) && vf.rel[i].Type != sp.r[i].Type ) ) return 0;
    for ( i = 0; i < 2; i++ )
        if ( i < sp.npub && vf.pub[i] != sp.pub[i] || Y[L0+i].sym.included != sp.inc[i] || sp.inc[i] && Y[L0+i].sym.ext_idx != in_idx[L0+i] ) return 0;
    return 1;
}
#endif

/* --- section table --- */
#ifdef P_TABLE
static uint_8 cbuf[2][8];
#ifdef VF_CBMC
# define SYMRECS 5
# define NLONG 1
#else
# define SYMRECS vf.nrec         /* the replay writes real symbol records, among them the section names once more */
# define NLONG 2
#endif
/* @stub coff_create_drectve, coff_write_symbols (in the section table proofs): no directives section; writes some symbol records */
void vf_drectve( struct module_info *m, struct coffmod *cm ) { }
uint_32 vf_symbols( struct module_info *m, struct coffmod *cm ) { vf.symtab = vf.pos; vf.pos += 5 * 18; return 5; }
uint_32 vf_indices( struct module_info *m, struct coffmod *cm ) { cm->sectionstart = 1; return 9; }     /* @stub SetSymbolIndices (in the section table proofs) */
static int nreloc( int i ) { int k, n = 0; for ( k = 0; k < 2; k++ ) if ( ( k < NF0 ? 0 : 1 ) == i && !in_nosym[k] ) n++; return n; }
static int uninit( int i ) { return !in_info[i] && !in_code[i] && !in_ro[i] && !in_const[i] && ( in_bss[i] || in_bssn[i] || in_stack[i] && !in_written[i] ); }
static uint_32 spec_char( int i )
{
    uint_32 c;
    if ( in_info[i] ) c = 0x240;
    else {
        c = in_align[i] == MAX_SEGALIGNMENT ? 0 : ( in_align[i] + 1 ) << 20;
        if ( in_comdat[i] ) c |= 0x1000;
        if ( in_code[i] ) c |= 0x60000020; else if ( in_ro[i] || in_const[i] ) c |= 0x40000040; else if ( uninit( i ) ) c |= 0xC0000080; else c |= 0xC0000040;
    }
    if ( in_char[i] ) c = c & 0x1ffffff | ( in_char[i] & 0xfe ) << 24;
    return c;
}
static int wrote( uint_32 pos, uint_32 lo, uint_32 hi, const void *p )
{
    int i, k = 0;
    for ( i = 0; i < 9; i++ ) if ( i < vf.n && vf.log[i].pos == pos && vf.log[i].size >= lo && vf.log[i].size <= hi && ( p == NULL || vf.log[i].p == p ) ) k++;
    return k == 1;
}
static int post_table( void )
{
    const XSH *h = vf.sh;
    int i, j, k, n, writes = 2 + NLONG, r = 0;
    uint_32 end = 20 + 2 * 40, sym = vf.symtab;
    if ( vf.bad || vf.werr || vf.err || vf.nsh != 2 ) return 0;
    if ( vf.fh.Machine != ( in_64 ? 0x8664 : 0x14c ) || vf.fh.NumberOfSections != 2 || vf.fh.PointerToSymbolTable != sym || vf.fh.NumberOfSymbols != SYMRECS || vf.fh.SizeOfOptionalHeader || vf.fh.Characteristics ) return 0;
    for ( i = 0; i < 2; i++ ) {
        if ( i == 0 ) { if ( memcmp( h[0].Name, "seg1\0\0\0", 8 ) ) return 0; }
        else if ( memcmp( h[1].Name, "/4\0\0\0\0\0", 8 ) ) return 0;
        n = NF0 + NF1 && ( in_max[i] == 0 || uninit( i ) ) ? 0 : nreloc( i );
        if ( h[i].VirtualSize || h[i].VirtualAddress || h[i].NumberOfRelocations != n || h[i].Characteristics != spec_char( i ) || h[i].NumberOfLinenumbers ) return 0;
        if ( uninit( i ) || in_max[i] == 0 ) { if ( h[i].PointerToRawData || h[i].SizeOfRawData != ( in_stack[i] && !in_bss[i] && !in_bssn[i] && uninit( i ) ? 0 : in_max[i] ) ) return 0; }
        else {
            if ( h[i].SizeOfRawData != in_max[i] || h[i].PointerToRawData < end ) return 0;
            end = h[i].PointerToRawData + in_max[i];
            if ( !in_nobuf[i] ) { writes++; if ( !wrote( h[i].PointerToRawData + in_start[i], in_max[i] - in_start[i], in_max[i] - in_start[i] + 1, cbuf[i] ) ) return 0; }
        }
        if ( n ) {
            if ( h[i].PointerToRelocations < end ) return 0;
            for ( j = k = 0; j < 2; j++ ) {
                if ( ( j < NF0 ? 0 : 1 ) != i || in_nosym[j] ) continue;
                writes++;
                if ( !wrote( h[i].PointerToRelocations + k * 10, 10, 10, NULL ) || vf.rel[r].VirtualAddress != in_loc[j] ) return 0;
                k++; r++;
            }
            end = h[i].PointerToRelocations + n * 10;
        }
    }
    if ( S[0].sym.ext_idx != S[1].sym.ext_idx - 1 - ( !in_lfile || in_comdat[0] ) ) return 0;      /* a section has one or two symbol records */
    if ( sym < end || vf.ssize != 4 + 10 * NLONG || !wrote( sym + SYMRECS * 18 + 4, 10, 10, pool[0].c + sizeof( void * ) ) || vf.n != writes ) return 0;
    return 1;
}
#endif

#ifdef VF_CBMC
# ifdef P_FIX
static void coff_write_fixups( struct dsym *section, uint_32 *poffset, uint_32 *pindex )
REQUIRES( section == &S[0] && poffset != NULL && pindex != NULL )
ASSIGNS( OBJ( &vf ), *poffset, *pindex, OBJ( &Si ), OBJ( &Y ), OBJ( &F ) )
ENSURES( post_fix( poffset, pindex ) )
;
# endif
# ifdef P_SYMS
static int post_idx( uint_32 r ), post_syms( uint_32 r ), Nsyms;
#  ifdef IDX
static uint_32 SetSymbolIndices( struct module_info *m, struct coffmod *cm )
REQUIRES( m == &ModuleInfo && cm != NULL )
ASSIGNS( OBJ( &vf ), OBJ( cm ), OBJ( &Y ), OBJ( &Q ), OBJ( &Dbg ) )
ENSURES( post_idx( __CPROVER_return_value ) )
;
#  else
static uint_32 coff_write_symbols( struct module_info *m, struct coffmod *cm )
REQUIRES( m == &ModuleInfo && cm != NULL )
ASSIGNS( OBJ( &vf ), OBJ( cm ), OBJ( &pool ) )
ENSURES( post_syms( __CPROVER_return_value ) )
;
#  endif
# endif
# ifdef P_TABLE
static ret_code coff_write_module( struct module_info *modinfo )
REQUIRES( modinfo == &ModuleInfo )
ASSIGNS( OBJ( &vf ), OBJ( &Si ), OBJ( &S ), OBJ( &Y ), OBJ( &F ), OBJ( &pool ), OBJ( &cbuf ) )
ENSURES( post_table() )
;
# endif
#endif
#include "/repo/coff.c"
#undef fwrite
#undef sprintf
#undef fseek

static size_t vf_fwrite( const void *p, size_t sz, size_t n, FILE *f )
{
    if ( sz != 1 ) vf.bad = 1;
#ifdef P_TABLE
    if ( vf.nsh < 2 ) {                 /* section table first */
        if ( n == 40 && vf.pos == 20 + 40 * vf.nsh ) vf.sh[vf.nsh] = *(const XSH *)p; else vf.bad = 1;
        vf.nsh++; vf.pos += n; return n;
    }
#ifndef VF_CBMC
    if ( n == 18 && p != cbuf[0] && p != cbuf[1] ) { if ( !vf.symtab ) vf.symtab = vf.pos; vf.nrec++; vf.pos += n; return n; }
#endif
    if ( vf.pos == 0 && n == 20 && p != cbuf[0] && p != cbuf[1] ) vf.fh = *(const XFH *)p;
    else if ( n == 4 && vf.symtab && vf.nsyms++ == 0 ) vf.ssize = *(const uint_32 *)p;
#endif
    if ( vf.n < NLOG ) { vf.log[vf.n].pos = vf.pos; vf.log[vf.n].size = n; vf.log[vf.n].p = p; }
    vf.n++;
#if defined( P_FIX ) || defined( P_TABLE )
    if ( n == 10 && !vf.symtab && vf.nrel < 6
# ifdef P_TABLE
        && p != cbuf[0] && p != cbuf[1]
# endif
        ) vf.rel[vf.nrel++] = *(const XREL *)p;
#endif
#ifdef P_SYMS
    if ( n != 18 ) vf.bad = 1;
    else if ( vf.nrec < 40 ) vf.rec[vf.nrec++] = *(const XSYM *)p;
#endif
    vf.pos += n;
    return n;
}
static int vf_fseek( FILE *f, long pos, int how ) { if ( how == SEEK_SET ) vf.pos = pos; else if ( how == SEEK_CUR ) vf.pos += pos; else vf.bad = 1; return 0; }

#ifdef P_FIX
/* @proof coff_fixups props=C07 harness=h_fix enforce=coff_write_fixups defs=P_FIX,OVFL=0 unwind=24 bounded=lists_of_up_to_2_fixups solver=cadical */
/* @proof coff_fixups_ovfl props=C07 harness=h_fix enforce=coff_write_fixups defs=P_FIX,OVFL=1 unwind=24 bounded=lists_of_up_to_2_fixups solver=cadical */
void h_fix( void )
{
    int i;
    uint_32 o, x;
    VF_IN_ARR( in_type, sizeof in_type ); VF_IN_ARR( in_add, sizeof in_add ); VF_IN_ARR( in_sel, sizeof in_sel ); VF_IN_ARR( in_inc, sizeof in_inc ); VF_IN_ARR( in_loc, sizeof in_loc ); VF_IN_ARR( in_idx, sizeof in_idx );
    VF_IN( in_lines ); VF_IN( in_proc ); VF_IN( in_ofsz ); VF_IN( in_n ); VF_IN( in_pos ); VF_IN( in_next );
    VF_ASSUME( in_ofsz <= USE64 && in_lines <= 1 && in_inc[0] <= 1 && in_inc[1] <= 1 && ( OVFL ? in_n > 0xffff && in_n < 0x1000000 : in_n <= 0xffff ) && in_next < 0x1000000 );
    memset( &vf, 0, sizeof vf ); S[0] = Zd; Si[0] = Zi; S[0].e.seginfo = &Si[0]; S[0].sym.name = "s"; S[0].sym.ext_idx = in_idx[5]; Si[0].Ofssize = in_ofsz; Si[0].num_relocs = in_n;
    Options.line_numbers = in_lines; Options.debug_symbols = 0;
    for ( i = 0; i < 5; i++ ) { VF_ASSUME( in_idx[i] < 0x1000000 ); Y[i] = Zd; Y[i].sym.state = i == E0 ? SYM_EXTERNAL : SYM_INTERNAL; Y[i].sym.ext_idx = in_idx[i]; }
    Y[P0].sym.ispublic = TRUE; Y[V0].sym.variable = TRUE;
    Y[L0].sym.included = in_inc[0]; Y[L1].sym.included = in_inc[1]; Y[L0].sym.isproc = in_proc & 1; Y[L1].sym.isproc = in_proc >> 1 & 1;
    for ( i = 0; i < 2; i++ ) {
        VF_ASSUME( in_type[i] <= FIX_LAST && in_sel[i] <= V0 && in_add[i] >= 4 && in_add[i] <= 9 );
        F[i] = Zf; F[i].type = in_type[i]; F[i].addbytes = in_add[i]; F[i].locofs = in_loc[i]; F[i].sym = &Y[in_sel[i]].sym; F[i].segment_var = &S[0].sym;
    }
    Si[0].FixupList.head = &F[0]; F[0].nextrlc = &F[1];
    o = in_pos; x = in_next;
    spec_fix();
    coff_write_fixups( &S[0], &o, &x );
    VF_POST( post_fix( &o, &x ), "relocation entries" );
    VF_REACH( "end" );
}
#endif

#ifdef P_TABLE
/* @proof coff_table_0 props=C07 harness=h_table enforce=coff_write_module calls=coff_write_symbols:vf_symbols,coff_create_drectve:vf_drectve,SetSymbolIndices:vf_indices defs=P_TABLE,NF0=1,NF1=1 unwind=24 bounded=2_sections,_2_relocations solver=cadical */
/* @proof coff_table_1 props=C07 harness=h_table enforce=coff_write_module calls=coff_write_symbols:vf_symbols,coff_create_drectve:vf_drectve,SetSymbolIndices:vf_indices defs=P_TABLE,NF0=0,NF1=2 unwind=24 bounded=2_sections,_2_relocations solver=cadical */
/* @proof coff_table_2 props=C07 harness=h_table enforce=coff_write_module calls=coff_write_symbols:vf_symbols,coff_create_drectve:vf_drectve,SetSymbolIndices:vf_indices defs=P_TABLE,NF0=2,NF1=0 unwind=24 bounded=2_sections,_2_relocations solver=cadical */
void h_table( void )
{
    static struct asym Cls[2];
    int i, s;
    VF_IN_ARR( in_max, sizeof in_max ); VF_IN_ARR( in_start, sizeof in_start ); VF_IN_ARR( in_code, sizeof in_code ); VF_IN_ARR( in_bss, sizeof in_bss ); VF_IN_ARR( in_bssn, sizeof in_bssn ); VF_IN_ARR( in_info, sizeof in_info ); VF_IN_ARR( in_ro, sizeof in_ro );
    VF_IN_ARR( in_align, sizeof in_align ); VF_IN_ARR( in_const, sizeof in_const ); VF_IN_ARR( in_stack, sizeof in_stack ); VF_IN_ARR( in_written, sizeof in_written ); VF_IN_ARR( in_nobuf, sizeof in_nobuf ); VF_IN_ARR( in_comdat, sizeof in_comdat ); VF_IN_ARR( in_char, sizeof in_char );
    VF_IN_ARR( in_loc, sizeof in_loc ); VF_IN_ARR( in_type, sizeof in_type ); VF_IN_ARR( in_add, sizeof in_add ); VF_IN_ARR( in_nosym, sizeof in_nosym ); VF_IN_ARR( in_idx, sizeof in_idx ); VF_IN( in_64 ); VF_IN( in_lfile );
    VF_ASSUME( in_64 <= 1 && in_lfile <= 1 );
    memset( &vf, 0, sizeof vf ); memset( pool, 0, sizeof pool );
    ModuleInfo.defOfssize = in_64 ? USE64 : USE32; in_ofsz = ModuleInfo.defOfssize; ModuleInfo.g.num_segs = 2; ModuleInfo.g.SafeSEHQueue.head = NULL;
    Options.debug_symbols = 0; Options.line_numbers = 0; Options.no_section_aux_entry = in_lfile; Options.no_file_entry = 1;
    memset( SymTables, 0, sizeof SymTables );
    SymTables[TAB_SEG].head = &S[0];
    for ( i = 0; i < 2; i++ ) {
        VF_ASSUME( in_code[i] <= 1 && in_bss[i] <= 1 && in_bssn[i] <= 1 && in_info[i] <= 1 && in_ro[i] <= 1 && in_const[i] <= 1 && in_stack[i] <= 1 && in_nobuf[i] <= 1 && in_comdat[i] <= 6 && !( in_code[i] && in_bss[i] ) );
        VF_ASSUME( in_max[i] < 0x8000000 && in_start[i] <= in_max[i] && ( in_align[i] <= 13 || in_align[i] == MAX_SEGALIGNMENT ) && in_char[i] <= 0xff && ( !in_nobuf[i] || in_start[i] == 0 ) );
        S[i] = Zd; Si[i] = Zi; S[i].e.seginfo = &Si[i]; S[i].sym.segment = &S[i].sym; Si[i].seg_idx = i + 1; S[i].sym.name = i ? "longname1" : "seg1"; S[i].sym.state = SYM_SEG; S[i].sym.max_offset = in_max[i];
        Si[i].segtype = in_code[i] ? SEGTYPE_CODE : in_bss[i] ? SEGTYPE_BSS : SEGTYPE_DATA; Si[i].info = in_info[i]; Si[i].readonly = in_ro[i]; Si[i].start_loc = in_start[i]; Si[i].alignment = in_align[i]; Si[i].CodeBuffer = in_nobuf[i] ? NULL : cbuf[i];
        Si[i].combine = in_stack[i] ? COMB_STACK : COMB_ADDOFF; Si[i].bytes_written = in_written[i]; Si[i].comdat_selection = in_comdat[i]; Si[i].characteristics = in_char[i]; Si[i].Ofssize = in_ofsz;
        Cls[i].name = in_const[i] ? "CONST" : "DATA"; Si[i].clsym = &Cls[i];
        memset( cbuf[i], 0, 8 );
    }
    S[0].next = &S[1];
    for ( i = 0; i < 2; i++ ) {
        s = i < NF0 ? 0 : 1;
        VF_ASSUME( ( in_type[i] == FIX_OFF32 || in_type[i] == FIX_RELOFF32 || in_type[i] == FIX_SEG ) && in_nosym[i] <= 1 && in_add[i] >= 4 && in_add[i] <= 9 && in_loc[i] >= in_start[s] && in_loc[i] - in_start[s] <= 4 && in_max[s] >= in_loc[i] + 4 && ( !in_nosym[i] || !in_nobuf[s] ) );
        F[i] = Zf; Y[i] = Zd; Y[i].sym.name = "x"; F[i].type = in_type[i]; F[i].sym = in_nosym[i] ? NULL : &Y[i].sym; F[i].locofs = in_loc[i]; F[i].addbytes = in_add[i]; Y[i].sym.state = SYM_EXTERNAL; Y[i].sym.ext_idx = in_idx[i];
    }
    if ( NF0 ) Si[0].FixupList.head = &F[0];
    if ( NF1 ) Si[1].FixupList.head = &F[NF0];
    if ( NF0 == 2 || NF1 == 2 ) F[0].nextrlc = &F[1];
    coff_write_module( &ModuleInfo );
    VF_POST( post_table(), "file header, section table, section contents and relocations" );
    VF_REACH( "end" );
}
#endif

#ifdef P_SYMS
# ifdef IDX     /* no records are written: the shape of the module is symbolic */
static uint_8 in_f[9];
#  define FEAT in_f[0]
#  define FILEN in_f[1]
#  define NOAUX in_f[2]
#  define CD in_f[3]
#  define ALT in_f[4]
#  define PRIV in_f[6]
#  define ALIASES in_f[7]
#  define FILE2 in_f[8]
# else
#  define FILE2 0
# endif
enum { E0, E1, P0, P1, P2, A0 };        /* unused externdef, external/communal, publics, private procedure, alias */
static struct coffmod Cm;
static struct { int idx[6], sec[2], file, pfile, pfile2, feat, n, end; } sp;
#define SECAUX( i ) ( !NOAUX || CD && (i) == 1 )
static void spec_idx( void )
{
    int i, k = 0;
    sp.feat = sp.file = sp.pfile = -1;
    if ( FEAT ) sp.feat = k++;
    if ( FILEN ) { sp.file = k; k += FILEN == 1 ? 2 : 3; }
    for ( i = 0; i < 2; i++ ) { sp.sec[i] = k++; if ( SECAUX( i ) ) k++; }
    sp.idx[E0] = -1; sp.idx[E1] = k++; if ( ALT ) k++;
    for ( i = P0; i <= P2; i++ ) {
        if ( i == P2 && !PRIV ) { sp.idx[i] = -1; continue; }
        if ( i == P1 && LINES ) { sp.pfile = k; k += 3; }
        if ( i == P2 && LINES && FILE2 ) { sp.pfile2 = k; k += 2; }
        sp.idx[i] = k++;
        if ( i >= P1 && LINES ) k += 6;
    }
    sp.end = k;
    sp.idx[A0] = -1; if ( ALIASES ) { sp.idx[A0] = k; k += 2; }
    sp.n = k;
}
static int post_idx( uint_32 r )
{
    int i;
    if ( r != sp.end || vf.bad || Cm.sectionstart != sp.sec[0] ) return 0;
    for ( i = E1; i <= P2; i++ ) if ( sp.idx[i] >= 0 && Y[i].sym.ext_idx != sp.idx[i] ) return 0;
    if ( PRIV && ( vf.npub != 1 || vf.pub[0] != &Y[P2].sym || !Y[P2].sym.included ) || !PRIV && vf.npub ) return 0;
    if ( LINES && Dbg.next_file != ( PRIV && FILE2 ? sp.pfile2 : 55 ) ) return 0;
    return Cm.start_files == ( LINES ? sp.pfile : 0 );
}
static int str_is( uint_32 ofs, const char *n )         /* string table entry */
{
    uint_32 o = 4;
    struct stringitem *p = Cm.LongNames.head;
    int i, k;
    for ( i = 0; i < 5 && p; i++, p = p->next ) {
        if ( o == ofs ) { for ( k = 0; k < 14; k++ ) { if ( p->string[k] != n[k] ) return 0; if ( n[k] == 0 ) return o + k + 1 <= Cm.LongNames.size; } return 0; }
        o += strlen( p->string ) + 1;
    }
    return 0;
}
static int rec_is( int k, const char *n, uint_32 value, int section, int type, int class, int aux )
{
    const XSYM *r = &vf.rec[k];
    int i, z = 0;
    if ( r->value != value || r->section != section || r->type != type || r->class != class || r->aux != aux ) return 0;
    if ( strlen( n ) > 8 ) return r->l[0] == 0 && str_is( r->l[1], n );
    for ( i = 0; i < 8; i++ ) { if ( r->name[i] != ( z ? 0 : n[i] ) ) return 0; if ( !z && n[i] == 0 ) z = 1; }
    return 1;
}
static int aux_name( int k, const char *n, int ofs )     /* part of a file name */
{
    int i, z = 0;
    for ( i = 0; i < ofs; i++ ) if ( n[i] == 0 ) z = 1;
    for ( i = 0; i < 18; i++ ) { if ( ((char *)&vf.rec[k])[i] != ( z ? 0 : n[ofs+i] ) ) return 0; if ( !z && n[ofs+i] == 0 ) z = 1; }
    return 1;
}
static uint_32 u32( int k, int o ) { const uint_8 *p = (const uint_8 *)&vf.rec[k] + o; return p[0] | p[1] << 8 | p[2] << 16 | (uint_32)p[3] << 24; }
static uint_32 u16( int k, int o ) { const uint_8 *p = (const uint_8 *)&vf.rec[k] + o; return p[0] | p[1] << 8; }
static uint_8 cdbuf[16];
static uint_32 spec_crc( const uint_8 *p, int n )       /* CRC-32, not inverted */
{
    uint_32 c = 0;
    int i, j;
    for ( i = 0; i < n; i++ ) for ( c ^= p[i], j = 0; j < 8; j++ ) c = c & 1 ? c >> 1 ^ 0xEDB88320 : c >> 1;
    return c;
}
/* @stub CRC32Comdat (in the symbol table proofs): some checksum; the buffer must be read within its size */
uint_32 vf_crc( uint_8 *p, uint_32 n, uint_32 crc ) { if ( p != cdbuf || n > in_max[1] - in_start[1] || crc ) vf.bad = 1; return in_crc[1]; }
static int cls( int i ) { return Y[i].sym.ispublic ? 2 : in_near && i != P1 && i != P2 ? 6 : 3; }
static const char *const xnm[6] = { "_e0", "_e1", "_pub1", "_longpublic", "_privproc", "_alias" };
static int post_syms( uint_32 r )
{
    int i, k;
    if ( r != sp.n || vf.nrec != sp.n || vf.bad || vf.werr ) return 0;
    if ( FEAT && !rec_is( sp.feat, "@feat.00", 1, -1, 0, 3, 0 ) ) return 0;
    if ( FILEN ) {
        if ( !rec_is( sp.file, ".file", LINES ? in_n : 0, -2, 0, 103, FILEN == 1 ? 1 : 2 ) || !aux_name( sp.file + 1, FILEN == 1 ? fn_short : fn_long, 0 ) ) return 0;
        if ( FILEN == 2 && !aux_name( sp.file + 2, fn_long, 18 ) ) return 0;
    }
    for ( i = 0; i < 2; i++ ) {
        k = sp.sec[i];
        if ( !rec_is( k, i ? "longname1" : "seg1", 0, i + 1, 0, 3, SECAUX( i ) ) ) return 0;
        if ( SECAUX( i ) && ( u32( k + 1, 0 ) != in_max[i] || u16( k + 1, 4 ) != ( in_rel[i] > 0xffff ? 0xffff : in_rel[i] ) || u16( k + 1, 6 ) != ( LINES ? in_lin[i] & 0xffff : 0 ) ) ) return 0;
        if ( SECAUX( i ) && CD && i == 1 && ( u16( k + 1, 12 ) != 7 || ( u16( k + 1, 14 ) & 0xff ) != in_comdat[1] || u32( k + 1, 8 ) != in_crc[1] ) ) return 0;
    }
    if ( !rec_is( sp.idx[E1], xnm[E1], in_comm ? in_total : 0, 0, in_proc ? 0x20 : 0, ALT ? 105 : 2, ALT ) ) return 0;
    if ( ALT && ( u32( sp.idx[E1] + 1, 0 ) != sp.idx[P0] || u32( sp.idx[E1] + 1, 4 ) != 2 ) ) return 0;
    for ( i = P0; i <= P2; i++ ) {
        k = sp.idx[i];
        if ( k >= 0 && !rec_is( k, xnm[i], in_ofs[i], i == P0 && in_abs ? -1 : 2, i == P0 ? 0 : 0x20, cls( i ), i >= P1 && LINES ) ) return 0;
    }
    if ( LINES ) {
        k = sp.idx[P1];
        if ( !rec_is( sp.pfile, ".file", 55, -2, 0, 103, 2 ) || !aux_name( sp.pfile + 1, fn_long, 0 ) || !aux_name( sp.pfile + 2, fn_long, 18 ) ) return 0;
        if ( u32( k + 1, 0 ) != k + 2 || u32( k + 1, 4 ) != in_total || u32( k + 1, 8 ) != in_pos || u32( k + 1, 12 ) != in_next ) return 0;
        if ( !rec_is( k + 2, ".bf", in_ofs[P1], 2, 0, 101, 1 ) || u16( k + 3, 4 ) != 11 || u32( k + 3, 12 ) != ( in_next ? in_next + 2 : 0 ) || !rec_is( k + 4, ".lf", 22, 2, 0, 101, 0 ) || !rec_is( k + 5, ".ef", in_ofs[P1] + in_total, 2, 0, 101, 1 ) || u16( k + 6, 4 ) != 33 ) return 0;
        if ( PRIV ) {
            k = sp.idx[P2];
            if ( u32( k + 1, 0 ) != k + 2 || u32( k + 1, 4 ) != 66 || u32( k + 1, 8 ) != 5 || u32( k + 1, 12 ) != 6 ) return 0;
            if ( !rec_is( k + 2, ".bf", in_ofs[P2], 2, 0, 101, 1 ) || u16( k + 3, 4 ) != 7 || u32( k + 3, 12 ) != 8 || !rec_is( k + 4, ".lf", 9, 2, 0, 101, 0 ) || !rec_is( k + 5, ".ef", in_ofs[P2] + 66, 2, 0, 101, 1 ) || u16( k + 6, 4 ) != 10 ) return 0;
        }
    }
    if ( ALIASES ) { k = sp.idx[A0]; if ( !rec_is( k, xnm[A0], 0, 0, 0, 105, 1 ) || u32( k + 1, 0 ) != ( in_subst ? sp.idx[P0] : 0 ) || u32( k + 1, 4 ) != 3 ) return 0; }
    return 1;
}
/* @proof coff_idx_lines props=C07 harness=h_syms enforce=SetSymbolIndices defs=P_SYMS,IDX,LINES=1 unwind=24 bounded=2_sections,_5_symbols solver=cadical */
/* @proof coff_idx props=C07 harness=h_syms enforce=SetSymbolIndices defs=P_SYMS,IDX,LINES=0 unwind=24 bounded=2_sections,_5_symbols solver=cadical */
/* @proof coff_syms_0 props=C07 harness=h_syms enforce=coff_write_symbols calls=CRC32Comdat:vf_crc defs=P_SYMS,FEAT=0,FILEN=1,NOAUX=0,CD=0,ALT=0,LINES=0,PRIV=0,ALIASES=0 unwind=24 bounded=2_sections,_5_symbols solver=cadical */
/* @proof coff_syms_1 props=C07 harness=h_syms enforce=coff_write_symbols calls=CRC32Comdat:vf_crc defs=P_SYMS,FEAT=1,FILEN=2,NOAUX=0,CD=1,ALT=1,LINES=0,PRIV=1,ALIASES=1 unwind=24 bounded=2_sections,_5_symbols solver=cadical */
/* @proof coff_syms_2 props=C07 harness=h_syms enforce=coff_write_symbols calls=CRC32Comdat:vf_crc defs=P_SYMS,FEAT=0,FILEN=0,NOAUX=1,CD=1,ALT=0,LINES=0,PRIV=1,ALIASES=0 unwind=24 bounded=2_sections,_5_symbols solver=cadical */
/* @proof coff_syms_3 props=C07 harness=h_syms enforce=coff_write_symbols calls=CRC32Comdat:vf_crc defs=P_SYMS,FEAT=1,FILEN=1,NOAUX=1,CD=0,ALT=1,LINES=1,PRIV=0,ALIASES=1 unwind=24 bounded=2_sections,_5_symbols solver=cadical */
/* @proof coff_syms_4 props=C07 harness=h_syms enforce=coff_write_symbols calls=CRC32Comdat:vf_crc defs=P_SYMS,FEAT=1,FILEN=0,NOAUX=0,CD=1,ALT=0,LINES=1,PRIV=1,ALIASES=0 unwind=24 bounded=2_sections,_5_symbols solver=cadical */
/* @proof coff_syms_5 props=C07 harness=h_syms enforce=coff_write_symbols calls=CRC32Comdat:vf_crc defs=P_SYMS,FEAT=0,FILEN=2,NOAUX=1,CD=0,ALT=1,LINES=0,PRIV=0,ALIASES=1 unwind=24 bounded=2_sections,_5_symbols solver=cadical */
void h_syms( void )
{
    static const char *const nm[6] = { "e0", "e1", "pub1", "longpublic", "privproc", "alias" };
    uint_32 r;
    int i;
    VF_IN_ARR( in_max, sizeof in_max ); VF_IN_ARR( in_ofs, sizeof in_ofs ); VF_IN_ARR( in_rel, sizeof in_rel ); VF_IN_ARR( in_lin, sizeof in_lin ); VF_IN_ARR( in_comdat, sizeof in_comdat );
    VF_IN( in_total ); VF_IN( in_n ); VF_IN( in_pos ); VF_IN( in_next ); VF_IN( in_abs ); VF_IN( in_comm ); VF_IN( in_near ); VF_IN( in_proc ); VF_IN( in_subst ); VF_IN( in_lfile ); VF_IN_ARR( in_start, sizeof in_start ); VF_IN_ARR( in_crc, sizeof in_crc );
#ifdef IDX
    VF_IN_ARR( in_f, sizeof in_f ); VF_ASSUME( FEAT <= 1 && FILEN <= 2 && NOAUX <= 1 && CD <= 1 && ALT <= 1 && PRIV <= 1 && ALIASES <= 1 && FILE2 <= 1 );
#endif
    VF_ASSUME( in_abs <= 1 && in_comm <= 1 && in_near <= 1 && in_proc <= 1 && in_subst <= 1 && in_lfile <= 3 && in_comdat[1] >= 1 && in_comdat[1] <= 6 && ( !ALT || !in_comm ) && in_max[0] < 0x8000000 && in_max[1] < 0x8000000 && in_start[1] <= in_max[1] );
#ifndef VF_CBMC
    if ( CD ) { VF_ASSUME( in_max[1] - in_start[1] <= 16 ); for ( i = 0; i < 16; i++ ) cdbuf[i] = 17 * i; in_crc[1] = spec_crc( cdbuf, in_max[1] - in_start[1] ); }
#endif
    memset( &vf, 0, sizeof vf ); memset( pool, 0, sizeof pool ); memset( &Cm, 0, sizeof Cm );
    Cm.LongNames.size = 4; Cm.dot_file_value = (char *)( FILEN == 1 ? fn_short : fn_long ); Cm.start_files = in_n;
    Fn[1].fname = Fn[2].fname = (char *)fn_long; Fn[0].fname = (char *)fn_short;
    ModuleInfo.g.num_segs = 2;
    Options.debug_symbols = 0; Options.line_numbers = LINES; Options.no_section_aux_entry = NOAUX; Options.no_file_entry = FILEN == 0; Options.safeseh = FEAT; Options.no_static_procs = 0;
    memset( SymTables, 0, sizeof SymTables );
    for ( i = 0; i < 2; i++ ) {
        S[i] = Zd; Si[i] = Zi; S[i].e.seginfo = &Si[i]; S[i].sym.segment = &S[i].sym; Si[i].seg_idx = i + 1; S[i].sym.name = i ? "longname1" : "seg1"; S[i].sym.state = SYM_SEG; S[i].sym.max_offset = in_max[i];
        Si[i].num_relocs = in_rel[i]; Si[i].num_linnums = in_lin[i];
    }
    SymTables[TAB_SEG].head = &S[0]; S[0].next = &S[1];
    if ( CD ) { Si[1].comdat_selection = in_comdat[1]; Si[1].comdat_number = 7; Si[1].CodeBuffer = cdbuf; Si[1].start_loc = in_start[1]; }
    for ( i = 0; i < 6; i++ ) { Y[i] = Zd; Y[i].sym.name = (char *)nm[i]; Y[i].sym.state = i <= E1 ? SYM_EXTERNAL : SYM_INTERNAL; if ( i >= P0 ) Y[i].sym.offset = in_ofs[i]; Y[i].sym.segment = &S[1].sym; Y[i].sym.mem_type = in_near ? MT_NEAR : MT_BYTE; }
    spec_idx();
    Y[E0].sym.weak = TRUE; Y[E0].next = &Y[E1]; Y[E1].sym.iscomm = in_comm; if ( in_comm ) Y[E1].sym.total_size = in_total; Y[E1].sym.isproc = in_proc; if ( ALT ) Y[E1].sym.altname = &Y[P0].sym;
    SymTables[TAB_EXT].head = &Y[E0];
    if ( in_abs ) Y[P0].sym.segment = NULL;
    Y[P0].sym.ispublic = in_lfile & 1; Y[P1].sym.ispublic = in_lfile >> 1; Y[P1].sym.isproc = TRUE; Y[P2].sym.isproc = TRUE;
    Y[P1].sym.total_size = in_total;
    Dbg = Zb; Dbg.file = 1; Dbg.next_file = 55; Dbg.start_line = 11; Dbg.line_numbers = 22; Dbg.end_line = 33; Dbg.ln_fileofs = in_pos; Dbg.next_proc = in_next; Y[P1].sym.altname = (struct asym *)&Dbg;        /* debuginfo; same union */
    Dbg2 = Zb; Dbg2.file = FILE2 ? 0 : 1; Dbg2.next_file = 77; Dbg2.start_line = 7; Dbg2.line_numbers = 9; Dbg2.end_line = 10; Dbg2.ln_fileofs = 5; Dbg2.next_proc = 6; Y[P2].sym.altname = (struct asym *)&Dbg2; Y[P2].sym.total_size = 66;
    Q[0].sym = &Y[P0].sym; Q[0].next = &Q[1]; Q[1].sym = &Y[P1].sym; Q[1].next = NULL;
    ModuleInfo.g.PubQueue.head = &Q[0];
    if ( PRIV ) SymTables[TAB_PROC].head = &Y[P2];
    if ( ALIASES ) SymTables[TAB_ALIAS].head = &Y[A0];
    Y[A0].sym.substitute = in_subst ? &Y[P0].sym : NULL;
#ifdef IDX
    r = SetSymbolIndices( &ModuleInfo, &Cm );
    VF_POST( post_idx( r ), "symbol indices" );
#else
    if ( PRIV ) { Q[1].next = &Q[2]; Q[2].sym = &Y[P2].sym; Q[2].next = NULL; }
    for ( i = E1; i <= P2; i++ ) if ( sp.idx[i] >= 0 ) Y[i].sym.ext_idx = sp.idx[i];
    r = coff_write_symbols( &ModuleInfo, &Cm );
    VF_POST( post_syms( r ), "symbol table records" );
#endif
    VF_REACH( "end" );
}
#endif
