/* Contracts for the ELF writer (elf.c). M64: ELF64. */
#include <string.h>
#include <stdio.h>
#include "globals.h"
#include "memalloc.h"
#include "parser.h"
#include "mangle.h"
#include "fixup.h"
#include "segment.h"
#include "extern.h"
#include "elf.h"
#include "elfspec.h"
#include "omfspec.h"
#include "vf.h"

#define NREL 2
#define BUFSZ 400
uint_8   in_type[3], in_add[3], in_sel[3], in_nf0, in_nf1, in_nseg, in_lseg[2], in_pseg, in_weak, in_comm, in_alt, in_pubs, in_code[2], in_bss[2], in_info[2], in_ro[2], in_align[2], in_const[2];
uint_32  in_ofs[4], in_loc[3], in_sym[6], in_max[2], in_total;
struct module_info ModuleInfo;
struct global_options Options;
struct symbol_queue SymTables[TAB_LAST];
static struct format_options Fmt;
#if M64
typedef Elf64_Rela REL; typedef Elf64_Sym SYM; typedef Elf64_Shdr SHDR; typedef Elf64_Ehdr EHDR;
#else
typedef Elf32_Rel REL; typedef Elf32_Sym SYM; typedef Elf32_Shdr SHDR; typedef Elf32_Ehdr EHDR;
#endif
static struct fixup F[3]; static struct dsym S[2], Y[6]; static struct seg_info Si[2]; static struct qnode Q[2];
static const struct dsym Zd; static const struct seg_info Zi; static const struct fixup Zf;
enum { L0, L1, P0, P1, E0, V0 };                /* two local labels, two publics, an external, an assembly-time variable */

/* --- file model --- */
#define NLOG 24
struct {
    unsigned err, warn, werr, n, nrel, nsh, pos, hdr, nln, nbig, bad;
    struct { uint_32 pos, size; const void *p; } log[NLOG];
    REL rel[4]; SHDR sh[10]; EHDR eh;
} vf;
#define EmitErr( ... ) ( vf.err++, ERROR )
#define EmitWarn( ... ) ( vf.warn++ )
void WriteError( void ) { vf.werr++; }
unsigned GetSegIdx( const struct asym *sym ) { return sym ? ((struct dsym *)sym)->e.seginfo->seg_idx : 0; }     /* @stub GetSegIdx: as in segment.c */
static size_t vf_fwrite( const void *p, size_t sz, size_t n, FILE *f );         /* @stub fwrite, fseek: all bytes are written at the current position, which fseek sets */
static int vf_fseek( FILE *f, long pos, int how );
static void *vf_memset( void *p, int c, size_t n );
#define fwrite vf_fwrite
#define fseek vf_fseek

/* --- relocation types: System V ABI, i386 and x86-64 supplements; -1: none --- */
static int spec_type( int t )
{
    switch ( t ) {
#if M64
    case FIX_OFF64: return 1; case FIX_RELOFF32: return 2; case FIX_OFF32: return 10; case FIX_OFF32_IMGREL: return 8;
    case FIX_OFF16: return 12; case FIX_RELOFF16: return 13; case FIX_OFF8: return 14; case FIX_RELOFF8: return 15;
    case FIX_GOT64: return 6; case FIX_PLT64: return 7; case FIX_GOTPCREL64: return 9;
#else
    case FIX_OFF32: return 1; case FIX_RELOFF32: return 2; case FIX_OFF32_IMGREL: return 8;
    case FIX_OFF16: return 20; case FIX_RELOFF16: return 21; case FIX_OFF8: return 22; case FIX_RELOFF8: return 23;
#endif
    }
    return -1;
}
/* distance from the field to the address the CPU adds the displacement to */
static int spec_dist( int i ) { return in_type[i] == FIX_RELOFF32 ? in_add[i] : in_type[i] == FIX_RELOFF16 ? 2 : in_type[i] == FIX_RELOFF8 ? 1 : 0; }
static struct { REL rel[NREL]; unsigned err, n; int ext; } sp;
static void spec_relocs( void )
{
    int i, t;
    sp.n = in_nf0; sp.err = 0; sp.ext = 0;
    for ( i = 0; i < NREL; i++ ) {
        if ( i >= in_nf0 ) continue;
        t = spec_type( in_type[i] );
        if ( t < 0 ) { sp.err++; t = 0; }
        sp.rel[i].r_offset = in_loc[i];
#if M64
        sp.rel[i].r_info = (uint_64)in_sym[i] << 32 | t;
        sp.rel[i].r_addend = -(int_64)spec_dist( i );           /* the constant is left in the section, see known findings */
#else
        sp.rel[i].r_info = in_sym[i] << 8 | t;
        if ( t >= 20 ) sp.ext = 1;
#endif
    }
}
static int post_relocs( void )
{
    int i;
    if ( vf.err != sp.err || vf.werr || vf.nrel != sp.n || vf.n != sp.n ) return 0;
    for ( i = 0; i < NREL; i++ )
        if ( i < sp.n && ( vf.rel[i].r_offset != sp.rel[i].r_offset || vf.rel[i].r_info != sp.rel[i].r_info
#if M64
            || vf.rel[i].r_addend != sp.rel[i].r_addend && vf.rel[i].r_addend != sp.rel[i].r_addend + (int_32)in_ofs[i]
#endif
            ) ) return 0;
    return 1;
}

/* --- symbol table --- */
static SYM symbuf[12];
static char strbuf[48];
struct ln { void *next; struct asym *sym; };
static struct ln lnbuf[3];
static char shstr[200], symdata[400], strdata[100];
static uint_8 cbuf[2][4];
void *LclAlloc( size_t n )                      /* @stub LclAlloc: memory of the size asked for */
{
    if ( n == sizeof( struct ln ) ) return vf.nln < 3 ? &lnbuf[vf.nln++] : NULL;
    vf.nbig++;
#ifdef P_SYMTAB
    if ( vf.nbig == 1 ) { if ( n > sizeof symbuf ) vf.bad = 1; return symbuf; }
    if ( n > sizeof strbuf ) vf.bad = 1;
    return strbuf;
#else
    if ( vf.nbig == 1 ) { if ( n > sizeof shstr ) vf.bad = 1; return shstr; }
    return vf.nbig == 2 ? symdata : strdata;    /* replay only */
#endif
}
/* @stub Mangle: any decoration; here an underscore in front of the name */
int Mangle( struct asym *sym, char *buf ) { buf[0] = '_'; buf[1] = sym->name[0]; buf[2] = sym->name[1]; buf[3] = 0; return 3; }
static int name_is( uint_32 ofs, const struct asym *s ) { return ofs > 0 && ofs + 3 < sizeof strbuf && strbuf[ofs-1] == 0 && strbuf[ofs] == '_' && strbuf[ofs+1] == s->name[0] && strbuf[ofs+2] == s->name[1] && strbuf[ofs+3] == 0; }
static int post_symtab( uint_32 nsym, uint_32 glob, uint_32 symsize, uint_32 strsize, const void *sd, const void *td );

#ifdef VF_CBMC
struct elfmod;
# ifdef P_RELOCS
#  if M64
static void write_relocs64( struct dsym *curr )
REQUIRES( curr == &S[0] )
#  else
static void write_relocs32( struct elfmod *em, struct dsym *curr )
REQUIRES( curr == &S[0] )
#  endif
#  if M64
ASSIGNS( OBJ( &vf ) )
#  else
ASSIGNS( OBJ( &vf ), OBJ( em ) )
#  endif
ENSURES( post_relocs() )
;
# endif
# ifdef P_SYMTAB
static int post_symtab_em( const struct elfmod *em );
static void set_symtab_values( struct elfmod *em )
REQUIRES( em != NULL )
ASSIGNS( OBJ( &vf ), OBJ( em ), OBJ( symbuf ), OBJ( strbuf ), OBJ( lnbuf ), OBJ( S ), OBJ( Y ), OBJ( F ) )
ENSURES( post_symtab_em( em ) )
;
# endif
# ifdef P_TABLE
static int post_table( void );
static ret_code elf_write_module( struct module_info *modinfo )
REQUIRES( modinfo == &ModuleInfo )
ASSIGNS( OBJ( &vf ), OBJ( shstr ), OBJ( Si ), OBJ( S ) )
ENSURES( post_table() )
;
# endif
#endif
#ifdef P_SYMTAB
# define memset vf_memset
#endif
#include "/repo/elf.c"
#undef memset
#undef fwrite
#undef fseek

static void *vf_memset( void *p, int c, size_t n )      /* the buffers are zero already */
{
    if ( p != symbuf && p != strbuf || c ) vf.bad = 1;
    return p;
}
static size_t vf_fwrite( const void *p, size_t sz, size_t n, FILE *f )
{
    if ( vf.n < NLOG ) { vf.log[vf.n].pos = vf.pos; vf.log[vf.n].size = n; vf.log[vf.n].p = p; }
    vf.n++;
    if ( sz != 1 ) vf.bad = 1;
#ifdef P_RELOCS
    if ( n == sizeof( REL ) && vf.nrel < 4 ) vf.rel[vf.nrel++] = *(const REL *)p;
#endif
#ifdef P_TABLE
    if ( vf.hdr < 2 ) {                         /* header and section table come first, then the parts fseek chooses */
        if ( vf.pos == 0 && n == sizeof( EHDR ) ) vf.eh = *(const EHDR *)p;
        else if ( n == sizeof( SHDR ) && vf.nsh < 10 ) vf.sh[vf.nsh++] = *(const SHDR *)p;
        else vf.bad = 1;
        vf.n--;
    } else if ( n == sizeof( REL ) && p != cbuf[0] && p != cbuf[1] && p != shstr && p != symdata && p != strdata && vf.nrel < 4 ) vf.rel[vf.nrel++] = *(const REL *)p;
#endif
    vf.pos += n;
    return n;
}
static int vf_fseek( FILE *f, long pos, int how ) { vf.pos = pos; vf.hdr++; if ( how != SEEK_SET ) vf.bad = 1; return 0; }
static struct elfmod Em;

#ifdef P_RELOCS
/* @proof elf_relocs32 props=C08 harness=h_relocs enforce=write_relocs32 defs=P_RELOCS,M64=0 unwind=24 bounded=lists_of_up_to_2_relocations solver=cadical */
/* @proof elf_relocs64 props=C08 harness=h_relocs enforce=write_relocs64 defs=P_RELOCS,M64=1 unwind=24 bounded=lists_of_up_to_2_relocations solver=cadical */
static void setup_relocs( void )
{
    int i;
    VF_IN_ARR( in_type, sizeof in_type ); VF_IN_ARR( in_add, sizeof in_add ); VF_IN_ARR( in_loc, sizeof in_loc ); VF_IN_ARR( in_ofs, sizeof in_ofs ); VF_IN_ARR( in_sym, sizeof in_sym ); VF_IN( in_nf0 );
    VF_ASSUME( in_nf0 <= NREL );
    memset( &vf, 0, sizeof vf ); ModuleInfo.fmtopt = &Fmt;
    S[0] = Zd; Si[0] = Zi; S[0].e.seginfo = &Si[0]; S[0].sym.name = "s";
    for ( i = 0; i < NREL; i++ ) {
        VF_ASSUME( in_type[i] != FIX_VOID && in_type[i] < FIX_LAST + 2 && ( in_type[i] == FIX_RELOFF32 || in_add[i] == 0 ) && in_sym[i] <= 0xffffff );
        F[i] = Zf; Y[i] = Zd; Y[i].sym.ext_idx = in_sym[i]; Y[i].sym.name = "x";
        F[i].type = in_type[i]; F[i].addbytes = in_add[i]; F[i].locofs = in_loc[i]; F[i].offset = in_ofs[i]; F[i].sym = &Y[i].sym;
        if ( i < in_nf0 ) { if ( i == 0 ) Si[0].FixupList.head = &F[0]; else F[i-1].nextrlc = &F[i]; }
    }
    memset( &Em, 0, sizeof Em );
}
void h_relocs( void )
{
    setup_relocs();
    spec_relocs();
#if M64
    write_relocs64( &S[0] );
#else
    write_relocs32( &Em, &S[0] );
    VF_CHECK( Em.extused == sp.ext, "GNU extension flag" );
#endif
    VF_POST( post_relocs(), "relocation entries" );
    VF_REACH( "end" );
}
# if M64
/* @proof elf_addend64 props=C08 known=yes harness=h_addend defs=P_RELOCS,M64=1 unwind=24 solver=cadical nodfcc */
void h_addend( void )
{
    setup_relocs();
    VF_ASSUME( in_nf0 == 1 && in_type[0] == FIX_RELOFF32 );
    write_relocs64( &S[0] );
    VF_CHECK( vf.rel[0].r_addend == (int_64)(int_32)in_ofs[0] - in_add[0], "the RELA addend holds the constant of the reference" );
    VF_REACH( "end" );
}
# endif
#endif

#ifdef P_SYMTAB
/* symbols: 0 null, 1 file, sections, local labels that are relocation targets, then externals and publics */
static struct { int nseg, nloc, idx[6], order[3]; struct asym *var; } st;
static int used( int i ) { return i < 2 ? i < in_nf0 : in_nseg == 2 && in_nf1; }
static void spec_symtab( void )
{
    int i, k, n;
    st.nseg = in_nseg; n = 2 + in_nseg; st.nloc = 0;
    for ( i = 0; i < 6; i++ ) st.idx[i] = -1;
    for ( i = 0; i < 3; i++ )
        if ( used( i ) && ( in_sel[i] == L0 || in_sel[i] == L1 ) && st.idx[in_sel[i]] < 0 ) { st.idx[in_sel[i]] = n++; st.nloc++; }
    if ( in_comm || !in_weak ) st.idx[E0] = n++;
    for ( i = 0; i < 2; i++ ) if ( i < in_pubs ) st.idx[P0+i] = n++;
    st.order[0] = n;
}
static int is_code( const struct asym *s ) { return s == NULL || ((struct dsym *)s)->e.seginfo->segtype == SEGTYPE_CODE; }
static int post_symtab_em( const struct elfmod *em )
{
    int i, n = st.order[0], glob = 2 + st.nseg + st.nloc;
    uint_32 v, shndx, info;
    if ( vf.bad || em->internal_segs[SYMTAB_IDX].size != n * sizeof( SYM ) || em->internal_segs[SYMTAB_IDX].data != symbuf || em->internal_segs[STRTAB_IDX].data != strbuf || em->start_globals != glob || em->symindex != n ) return 0;
    if ( symbuf[1].st_info != STT_FILE || symbuf[1].st_shndx != SHN_ABS || symbuf[1].st_name != 1 || strbuf[0] || strbuf[1] != 'a' || strbuf[2] ) return 0;
    for ( i = 0; i < 2; i++ )
        if ( i < st.nseg && ( S[i].sym.ext_idx != 2 + i || symbuf[2+i].st_info != STT_SECTION || symbuf[2+i].st_shndx != i + 1 || symbuf[2+i].st_value ) ) return 0;
    for ( i = 0; i < 5; i++ ) {
        int x = st.idx[i];
        const SYM *e;
        if ( x < 0 ) continue;
        if ( Y[i].sym.ext_idx != x ) return 0;
        e = &symbuf[x];
        if ( !name_is( e->st_name, &Y[i].sym ) || e->st_name + 4 > em->internal_segs[STRTAB_IDX].size ) return 0;
        if ( i == E0 ) {
            info = ( !in_comm && in_alt ? STB_WEAK : STB_GLOBAL ) << 4 | ( in_comm ? STT_COMMON : STT_NOTYPE );
            v = in_comm ? in_total : 0; shndx = in_comm ? SHN_COMMON : SHN_UNDEF;
        } else {
            info = ( x < glob ? STB_LOCAL : STB_GLOBAL ) << 4 | ( is_code( Y[i].sym.segment ) ? STT_FUNC : STT_OBJECT );
            v = in_ofs[i]; shndx = Y[i].sym.segment ? ((struct dsym *)Y[i].sym.segment)->e.seginfo->seg_idx : SHN_ABS;
        }
        if ( e->st_info != info || e->st_value != v || e->st_shndx != shndx || e->st_other || e->st_size ) return 0;
    }
    for ( i = 0; i < 3; i++ )           /* every relocation refers to an entry */
        if ( used( i ) && F[i].sym != ( in_sel[i] == V0 ? &S[1].sym : &Y[in_sel[i]].sym ) ) return 0;
    return 1;
}
/* @proof elf_symtab32_0 props=C08 harness=h_symtab enforce=set_symtab_values defs=P_SYMTAB,M64=0,SEL0=L0,SEL1=L1,SEL2=L0,WEAK=0,NSEG=2,NPUB=2 unwind=24 bounded=2_sections,_3_relocations,_5_symbols solver=cadical */
/* @proof elf_symtab32_1 props=C08 harness=h_symtab enforce=set_symtab_values defs=P_SYMTAB,M64=0,SEL0=V0,SEL1=E0,SEL2=P1,WEAK=0,NSEG=2,NPUB=2 unwind=24 bounded=2_sections,_3_relocations,_5_symbols solver=cadical */
/* @proof elf_symtab32_2 props=C08 harness=h_symtab enforce=set_symtab_values defs=P_SYMTAB,M64=0,SEL0=L1,SEL1=L1,SEL2=P0,WEAK=1,NSEG=2,NPUB=1 unwind=24 bounded=2_sections,_3_relocations,_5_symbols solver=cadical */
/* @proof elf_symtab32_3 props=C08 harness=h_symtab enforce=set_symtab_values defs=P_SYMTAB,M64=0,SEL0=L0,SEL1=L0,SEL2=L0,WEAK=1,NSEG=1,NPUB=0 unwind=24 bounded=2_sections,_3_relocations,_5_symbols solver=cadical */
/* @proof elf_symtab64_0 props=C08 harness=h_symtab enforce=set_symtab_values defs=P_SYMTAB,M64=1,SEL0=L0,SEL1=L1,SEL2=L0,WEAK=0,NSEG=2,NPUB=2 unwind=24 bounded=2_sections,_3_relocations,_5_symbols solver=cadical */
/* @proof elf_symtab64_1 props=C08 harness=h_symtab enforce=set_symtab_values defs=P_SYMTAB,M64=1,SEL0=V0,SEL1=E0,SEL2=P1,WEAK=0,NSEG=2,NPUB=2 unwind=24 bounded=2_sections,_3_relocations,_5_symbols solver=cadical */
/* @proof elf_symtab64_2 props=C08 harness=h_symtab enforce=set_symtab_values defs=P_SYMTAB,M64=1,SEL0=L1,SEL1=L1,SEL2=P0,WEAK=1,NSEG=2,NPUB=1 unwind=24 bounded=2_sections,_3_relocations,_5_symbols solver=cadical */
/* @proof elf_symtab64_3 props=C08 harness=h_symtab enforce=set_symtab_values defs=P_SYMTAB,M64=1,SEL0=L0,SEL1=L0,SEL2=L0,WEAK=1,NSEG=1,NPUB=0 unwind=24 bounded=2_sections,_3_relocations,_5_symbols solver=cadical */
void h_symtab( void )
{
    static const char *const nm[6] = { "a1", "b2", "c3", "d4", "e5", "f6" };
    int i;
    VF_IN_ARR( in_sel, sizeof in_sel ); VF_IN_ARR( in_ofs, sizeof in_ofs ); VF_IN_ARR( in_lseg, sizeof in_lseg ); VF_IN( in_pseg ); VF_IN( in_nf0 ); VF_IN( in_nf1 ); VF_IN( in_nseg ); VF_IN( in_weak ); VF_IN( in_comm ); VF_IN( in_alt ); VF_IN( in_pubs );
    VF_IN_ARR( in_code, sizeof in_code ); VF_IN( in_total );
    in_sel[0] = SEL0; in_sel[1] = SEL1; in_sel[2] = SEL2; in_nf0 = 2; in_nf1 = NSEG - 1; in_nseg = NSEG; in_pubs = NPUB; in_weak = WEAK; if ( WEAK ) in_comm = 0;     /* shape */
    VF_ASSUME( in_nf0 <= 2 && in_nf1 <= 1 && in_nseg >= 1 && in_nseg <= 2 && in_weak <= 1 && in_comm <= 1 && in_alt <= 1 && in_pubs <= 2 && in_pseg <= 2 && in_lseg[0] <= 2 && in_lseg[1] <= 2 );
    memset( &vf, 0, sizeof vf ); memset( &Em, 0, sizeof Em ); memset( symbuf, 0, sizeof symbuf ); memset( strbuf, 0, sizeof strbuf ); memset( lnbuf, 0, sizeof lnbuf );
    ModuleInfo.fmtopt = &Fmt; ModuleInfo.defOfssize = M64 ? USE64 : USE32;
    memset( SymTables, 0, sizeof SymTables );
    for ( i = 0; i < 2; i++ ) {
        S[i] = Zd; Si[i] = Zi; S[i].e.seginfo = &Si[i]; S[i].sym.segment = &S[i].sym; Si[i].seg_idx = i + 1; S[i].sym.name = "s"; S[i].sym.state = SYM_SEG;
        Si[i].segtype = in_code[i] ? SEGTYPE_CODE : SEGTYPE_DATA;
    }
    SymTables[TAB_SEG].head = &S[0]; if ( in_nseg == 2 ) S[0].next = &S[1];
    for ( i = 0; i < 6; i++ ) { Y[i] = Zd; Y[i].sym.name = (char *)nm[i]; Y[i].sym.state = i == E0 ? SYM_EXTERNAL : SYM_INTERNAL; if ( i < 4 ) Y[i].sym.offset = in_ofs[i]; }
    for ( i = 0; i < 2; i++ ) {
        VF_ASSUME( in_nseg == 2 || in_lseg[i] != 1 );
        Y[L0+i].sym.segment = in_lseg[i] == 2 ? NULL : &S[in_lseg[i]].sym;
        Y[P0+i].sym.segment = in_pseg == 2 ? NULL : &S[0].sym;
        Y[P0+i].sym.ispublic = TRUE;
    }
    Y[V0].sym.variable = TRUE; Y[V0].sym.segment = &S[0].sym;
    Y[E0].sym.weak = in_weak; Y[E0].sym.iscomm = in_comm; Y[E0].sym.total_size = in_total; if ( in_alt ) Y[E0].sym.altname = &Y[L0].sym;
    SymTables[TAB_EXT].head = &Y[E0];
    Q[0].sym = &Y[P0].sym; Q[0].next = in_pubs == 2 ? &Q[1] : NULL; Q[1].sym = &Y[P1].sym; Q[1].next = NULL;
    ModuleInfo.g.PubQueue.head = in_pubs ? &Q[0] : NULL;
    for ( i = 0; i < 3; i++ ) {
        F[i] = Zf;
        VF_ASSUME( in_sel[i] <= V0 );
        F[i].sym = &Y[in_sel[i]].sym;
        if ( used( i ) ) VF_ASSUME( ( in_sel[i] != P0 || in_pubs > 0 ) && ( in_sel[i] != P1 || in_pubs > 1 ) && ( in_sel[i] != E0 || in_comm || !in_weak ) && ( in_sel[i] != V0 || in_nseg == 2 ) );
        if ( in_sel[i] == V0 ) F[i].segment_var = &S[1].sym;
    }
    if ( in_nf0 ) { Si[0].FixupList.head = &F[0]; if ( in_nf0 == 2 ) F[0].nextrlc = &F[1]; }
    if ( in_nf1 ) Si[1].FixupList.head = &F[2];
    Si[0].num_relocs = in_nf0; Si[1].num_relocs = in_nf1;
    for ( i = 0; i < 4; i++ ) VF_ASSUME( in_ofs[i] < 0x80000000 );
    Em.srcname = "a";
    spec_symtab();
    set_symtab_values( &Em );
    VF_POST( post_symtab_em( &Em ), "symbol and string table" );
    VF_REACH( "end" );
}
#endif

#ifdef P_TABLE
#define SH0 "_TEXT"
#define SHN0 ".text"
#if SHAPE == 0
# define SH1 "CONST$b"
# define SHN1 ".rodata$b"
# define AL1 NULL
# define NF0 1
# define NF1 1
#elif SHAPE == 1
# define SH1 "_DATA"
# define SHN1 ".data"
# define AL1 NULL
# define NF0 0
# define NF1 2
#else
# define SH1 "foo"
# define SHN1 ".my"
# define AL1 ".my"
# define NF0 2
# define NF1 0
#endif
#if M64
# define REL_NAME ".rela"
#else
# define REL_NAME ".rel"
#endif
uint_32 in_start[2], in_syms, in_strs, in_glob;
/* @stub set_symtab_values (in the section table proofs): sets size and data of the two sections and the number of local symbols; under contract in elf_symtab* */
void vf_symtab( struct elfmod *em )
{
    em->internal_segs[SYMTAB_IDX].size = in_syms; em->internal_segs[SYMTAB_IDX].data = symdata;
    em->internal_segs[STRTAB_IDX].size = in_strs; em->internal_segs[STRTAB_IDX].data = strdata;
    em->start_globals = in_glob;
}
static int nm_is( const SHDR *h, const char *n )
{
    int i;
    if ( h->sh_name >= 150 ) return 0;
    for ( i = 0; i < 16; i++ ) { if ( shstr[h->sh_name+i] != n[i] ) return 0; if ( n[i] == 0 ) return 1; }
    return 0;
}
static int wrote( uint_32 pos, uint_32 size, const void *p )
{
    int i, k = 0;
    for ( i = 0; i < 9; i++ ) if ( i < vf.n && vf.log[i].pos == pos && vf.log[i].size == size && ( p == NULL || vf.log[i].p == p ) ) k++;
    return k == 1;
}
static int is_const;
static int post_table( void )
{
    const SHDR *h = vf.sh;
    int i, j, k = 6, n = 6 + ( NF0 > 0 ) + ( NF1 > 0 ), writes = 3 + NF0 + NF1, r = 0;
    uint_32 fl;
    if ( vf.bad || vf.werr || vf.err || vf.nsh != n ) return 0;
    /* file header */
    if ( vf.eh.e_ident[0] != 0x7f || vf.eh.e_ident[1] != 'E' || vf.eh.e_ident[2] != 'L' || vf.eh.e_ident[3] != 'F' || vf.eh.e_ident[4] != ( M64 ? 2 : 1 ) || vf.eh.e_ident[5] != 1 || vf.eh.e_ident[6] != 1 || vf.eh.e_ident[7] != in_alt
        || vf.eh.e_type != 1 || vf.eh.e_machine != ( M64 ? 62 : 3 ) || vf.eh.e_version != 1 || vf.eh.e_entry || vf.eh.e_phoff || vf.eh.e_phnum || vf.eh.e_shoff != sizeof( EHDR ) || vf.eh.e_ehsize != sizeof( EHDR ) || vf.eh.e_shentsize != sizeof( SHDR )
        || vf.eh.e_shnum != n || vf.eh.e_shstrndx != 3 ) return 0;
    /* null, program sections, names, symbols, strings */
    if ( h[0].sh_name || h[0].sh_type || h[0].sh_flags || h[0].sh_offset || h[0].sh_size || h[0].sh_link || h[0].sh_info ) return 0;
    for ( i = 0; i < 2; i++ ) {
        fl = in_info[i] ? 0 : in_code[i] ? 6 : in_ro[i] || in_const[i] ? 2 : 3;
        if ( !nm_is( &h[1+i], i ? SHN1 : SHN0 ) || h[1+i].sh_type != ( in_info[i] ? 7 : in_bss[i] ? 8 : 1 ) || h[1+i].sh_flags != fl || h[1+i].sh_addr || h[1+i].sh_size != in_max[i] || h[1+i].sh_link || h[1+i].sh_info || h[1+i].sh_entsize ) return 0;
        if ( h[1+i].sh_addralign != ( in_align[i] == MAX_SEGALIGNMENT ? 0 : 1 << in_align[i] ) ) return 0;
        if ( !in_bss[i] && in_max[i] > in_start[i] ) { writes++; if ( !wrote( h[1+i].sh_offset + in_start[i], in_max[i] - in_start[i], cbuf[i] ) ) return 0; }
    }
    if ( !nm_is( &h[3], ".shstrtab" ) || h[3].sh_type != 3 || h[3].sh_flags || !nm_is( &h[4], ".symtab" ) || h[4].sh_type != 2 || h[4].sh_flags || !nm_is( &h[5], ".strtab" ) || h[5].sh_type != 3 || h[5].sh_flags ) return 0;
    if ( h[4].sh_link != 5 || h[4].sh_entsize != sizeof( SYM ) || h[3].sh_size > sizeof shstr ) return 0;
    if ( !wrote( h[3].sh_offset, h[3].sh_size, shstr ) || !wrote( h[4].sh_offset, h[4].sh_size, symdata ) || !wrote( h[5].sh_offset, h[5].sh_size, strdata ) ) return 0;
#ifdef VF_CBMC
    if ( h[4].sh_info != in_glob || h[4].sh_size != in_syms || h[5].sh_size != in_strs ) return 0;      /* as the stub set them */
#endif
    /* relocation sections */
    for ( i = 0; i < 2; i++ ) {
        int nf = i ? NF1 : NF0;
        if ( nf == 0 ) continue;
        if ( !nm_is( &h[k], i ? REL_NAME SHN1 : REL_NAME SHN0 ) || h[k].sh_type != ( M64 ? 4 : 9 ) || h[k].sh_size != nf * sizeof( REL ) || h[k].sh_link != 4 || h[k].sh_info != 1 + i || h[k].sh_entsize != sizeof( REL ) ) return 0;
        for ( j = 0; j < nf; j++, r++ )
            if ( !wrote( h[k].sh_offset + j * sizeof( REL ), sizeof( REL ), NULL ) || vf.rel[r].r_offset != in_loc[r] ) return 0;
        if ( h[k].sh_name + 6 >= h[3].sh_size ) return 0;
        k++;
    }
    if ( vf.n != writes ) return 0;
    /* nothing overlaps */
    for ( i = 1; i < n; i++ ) {
        if ( h[i].sh_type != 8 && h[i].sh_offset < sizeof( EHDR ) + n * sizeof( SHDR ) ) return 0;
        for ( j = i + 1; j < n; j++ )
            if ( h[i].sh_type != 8 && h[j].sh_type != 8 && h[i].sh_offset + h[i].sh_size > h[j].sh_offset && h[j].sh_offset + h[j].sh_size > h[i].sh_offset && h[i].sh_size && h[j].sh_size ) return 0;
    }
    return 1;
}
/* @proof elf_table32_0 props=C08 harness=h_table enforce=elf_write_module calls=set_symtab_values:vf_symtab defs=P_TABLE,M64=0,SHAPE=0 unwind=24 bounded=2_sections,_2_relocations solver=cadical */
/* @proof elf_table32_1 props=C08 harness=h_table enforce=elf_write_module calls=set_symtab_values:vf_symtab defs=P_TABLE,M64=0,SHAPE=1 unwind=24 bounded=2_sections,_2_relocations solver=cadical */
/* @proof elf_table32_2 props=C08 harness=h_table enforce=elf_write_module calls=set_symtab_values:vf_symtab defs=P_TABLE,M64=0,SHAPE=2 unwind=24 bounded=2_sections,_2_relocations solver=cadical */
/* @proof elf_table64_0 props=C08 harness=h_table enforce=elf_write_module calls=set_symtab_values:vf_symtab defs=P_TABLE,M64=1,SHAPE=0 unwind=24 bounded=2_sections,_2_relocations solver=cadical */
/* @proof elf_table64_1 props=C08 harness=h_table enforce=elf_write_module calls=set_symtab_values:vf_symtab defs=P_TABLE,M64=1,SHAPE=1 unwind=24 bounded=2_sections,_2_relocations solver=cadical */
/* @proof elf_table64_2 props=C08 harness=h_table enforce=elf_write_module calls=set_symtab_values:vf_symtab defs=P_TABLE,M64=1,SHAPE=2 unwind=24 bounded=2_sections,_2_relocations solver=cadical */
void h_table( void )
{
    static struct asym Cls[2];
    static char fn[6];
    int i;
    VF_IN_ARR( in_max, sizeof in_max ); VF_IN_ARR( in_start, sizeof in_start ); VF_IN_ARR( in_code, sizeof in_code ); VF_IN_ARR( in_bss, sizeof in_bss ); VF_IN_ARR( in_info, sizeof in_info ); VF_IN_ARR( in_ro, sizeof in_ro );
    VF_IN_ARR( in_align, sizeof in_align ); VF_IN_ARR( in_const, sizeof in_const ); VF_IN_ARR( in_loc, sizeof in_loc ); VF_IN( in_syms ); VF_IN( in_strs ); VF_IN( in_glob ); VF_IN( in_alt );
    VF_ASSUME( in_syms > 0 && in_syms < 0x8000000 && in_strs > 0 && in_strs < 0x8000000 );
    memset( &vf, 0, sizeof vf ); memset( shstr, 0, sizeof shstr );
    fn[0] = 'd'; fn[1] = '/'; fn[2] = 'a'; fn[3] = '.'; fn[4] = 'b'; fn[5] = 0; CurrFName[ASM] = fn;
    ModuleInfo.fmtopt = &Fmt; ModuleInfo.defOfssize = M64 ? USE64 : USE32; ModuleInfo.g.num_segs = 2; ModuleInfo.elf_osabi = in_alt;
    memset( SymTables, 0, sizeof SymTables );
    SymTables[TAB_SEG].head = &S[0];
    for ( i = 0; i < 2; i++ ) {
        VF_ASSUME( in_code[i] <= 1 && in_bss[i] <= 1 && in_info[i] <= 1 && in_ro[i] <= 1 && in_const[i] <= 1 && !( in_code[i] && in_bss[i] ) && !( in_info[i] && in_bss[i] ) && in_max[i] < 0x8000000 && in_start[i] <= in_max[i] && ( in_align[i] <= 16 || in_align[i] == MAX_SEGALIGNMENT ) );
        S[i] = Zd; Si[i] = Zi; S[i].e.seginfo = &Si[i]; S[i].sym.segment = &S[i].sym; Si[i].seg_idx = i + 1; S[i].sym.name = i ? SH1 : SH0; S[i].sym.state = SYM_SEG; S[i].sym.max_offset = in_max[i];
        Si[i].segtype = in_code[i] ? SEGTYPE_CODE : in_bss[i] ? SEGTYPE_BSS : SEGTYPE_DATA; Si[i].info = in_info[i]; Si[i].readonly = in_ro[i]; Si[i].start_loc = in_start[i]; Si[i].alignment = in_align[i]; Si[i].CodeBuffer = cbuf[i];
        Cls[i].name = in_const[i] ? "CONST" : "DATA"; Si[i].clsym = &Cls[i];
    }
    S[0].next = &S[1]; Si[1].aliasname = AL1;
    for ( i = 0; i < 2; i++ ) { F[i] = Zf; Y[i] = Zd; Y[i].sym.name = "x"; F[i].type = FIX_OFF32; F[i].sym = &Y[i].sym; F[i].locofs = in_loc[i]; }
    if ( NF0 ) Si[0].FixupList.head = &F[0];
    if ( NF1 ) Si[1].FixupList.head = &F[NF0];
    if ( NF0 == 2 || NF1 == 2 ) F[0].nextrlc = &F[1];
    elf_write_module( &ModuleInfo );
    VF_POST( post_table(), "header, section table and section contents" );
    VF_REACH( "end" );
}
#endif
