I = ['inputs']
TRUST = ('Trusted: CBMC 6.11 (goto-cc, --dfcc, cbmc), its SAT/SMT back ends, the mingw preprocessor and the long->int token '
         'rewrite for the LLP64 target; machine integers are bit-precise.')

prop('C01', 'Constant-expression operators compute exact 64-bit results',
 'Each arithmetic, shift, bitwise, comparison and byte/word/dword-extraction operator applied to integer constants in an assembly '
 'expression yields exactly the 64-bit result the manual defines (signed truncating division, unsigned MOD, shifts by 64 or more give 0, comparisons '
 'give -1 or 0), and unary minus is exact also for 128-bit constants. Division or MOD by zero and negative shift counts are diagnosed, and no '
 'operand value crashes the assembler. Adding a constant to a label, and subtracting or comparing two labels of one segment, use their exact addresses.',
 I, 'all pairs of 64-bit operands (128-bit for unary minus), all operators, all label offsets, 16/32/64-bit mode, with and without -Zm',
 'Tests evaluate a few dozen literal expressions; 2^128 operand pairs per operator exist and the defects found (INT64_MIN/-1 crash, 32-bit shift counts, label differences with negative displacement) sat exactly in the unsampled ones.',
 ['expreval.c', 'reswords.c', 'H/special.h'],
 [('calculate, plus_op, minus_op, MakeConst, MakeConst2, low_op/high_op/lowword_op/highword_op/low32_op/high32_op, positive_op, negative_op', 'expreval.c')],
 ['value of the expression in the emitted code, data or equate'],
 'Every operator case of calculate() is under an enforced contract against a bit-precise specification for all operand values; loop-free, so nothing is bounded. '
 'Evaluation order and literals are separate properties. ' + TRUST)

prop('C02', 'Operators are applied in the documented precedence order',
 'In an expression the operator with the higher documented (MASM) precedence is applied first, operators of equal precedence are applied left to right, '
 'unary operators bind as their precedence says, and parentheses override; the instruction-like operators NOT, AND, OR, XOR, SHL, SHR are recognised as operators with their documented precedence.',
 I, 'all operator tokens; all combinations of operators in an expression',
 'The suite contains a handful of mixed expressions; a wrong precedence entry shows only for particular operator pairs.',
 ['expreval.c', 'H/special.h', 'reswords.c'],
 [('get_precedence', 'expreval.c'), ('is_expr_item', 'expreval.c'), ('operator table', 'H/special.h'), ('evaluate', 'expreval.c')],
 ['value of the expression'],
 'Precedence values and operator recognition are proved for all tokens under enforced contracts; the recursive evaluation loop is checked BOUNDED (all operator '
 'combinations in expressions of the six listed shapes with up to three operands), and those obligations are reported separately as bounded. ' + TRUST)


prop('C04', 'Relative branches reach their target',
 'For every CALL, JMP, Jcc, JxCXZ and LOOPxx to a label (plus constant) of the current segment the emitted displacement, added to the address of the end of the instruction, gives '
 'exactly that address, whatever the mode (16/32/64 bit), NEAR16/NEAR32 coercion or BND/67h/66h prefix; the short form is used whenever it reaches and NEAR was not requested; a branch that cannot reach is diagnosed, or expanded '
 'to an inverted condition over a JMP before the 386. A label elsewhere gets exactly one fixup, as wide as the operand and with the constant as addend. '
 'A short forward reference that turns out not to reach forces another pass.',
 I, 'all branch mnemonics, label and location offsets below 2 GB, all modes, coercions, CPU levels, LJMP settings and symbol states',
 'Range boundaries (-128/127), coercions in the other mode, prefixes and CPU levels multiply to far more combinations than the suite samples; the Jcc NEAR32-to-external defect found here was one of them.',
 ['branch.c', 'backptch.c', 'H/instruct.h', 'reswords.c'],
 [('process_branch, jumpExtend, FarCallToNear', 'branch.c'), ('DoPatch', 'backptch.c'), ('branch rows of InstrTable', 'H/instruct.h')],
 ['bytes of the branch instruction, relocation entries, diagnostics'],
 'process_branch is loop-free and under two enforced contracts (label here / label elsewhere), with the instruction length taken from an independent spec; the opcode rows of all branch mnemonics are checked against the Intel '
 'manual. DoPatch is under an enforced contract, its label/fixup list walks BOUNDED to lists of 2 and 1 elements. Not covered here: writing the displacement bytes and the choice of the table row in codegen.c. ' + TRUST)


prop('C03', 'Integer literals denote their exact value in their radix',
 'A number token is split and valued as documented: the radix comes from the suffix (h; y/b; t/d; o/q; 0x prefix) or the current .RADIX, a trailing B or D counts as a suffix only if it is no digit of the current radix, digits outside the radix '
 'make the token an invalid number, the scanner consumes exactly the token, and the value is the sum of digit * radix^position, exact up to 128 bits; a literal above 128 bits is diagnosed.',
 I, 'all digit strings, suffixes and current radices 2..16',
 'Tests contain a few hundred literals; carries between the 16-bit limbs, suffix/radix interactions and the 128-bit limit (silently truncated before) need values nobody samples.',
 ['tokenize.c', 'expreval.c', 'ltype.c'],
 [('get_number', 'tokenize.c'), ('myatoi128', 'expreval.c'), ('_ltype', 'ltype.c')],
 ['values in data and code, diagnostics'],
 'myatoi128: enforced contract with an inductive loop invariant (value of the digit prefix) for every radix; the ghost prefix table bounds the literal length (quick: 34 hex, 22 decimal, 24 octal, 66 binary digits; thorough: every literal up to 128 bits), so it is '
 'labelled bounded. get_number: enforced contract against an independent scanner, BOUNDED to tokens of 13 characters. ' + TRUST)


prop('C05', 'ALIGN, EVEN and ORG place the location counter exactly',
 'ALIGN n (n a power of two not above the segment alignment) and EVEN move the location counter to the next multiple of the boundary and no further, writing exactly the skipped number of bytes: zero bytes in data segments, '
 'and in code segments NOP instructions from the documented fill tables of the current bitness, never beyond the boundary. A value that is no power of two, too large, negative or not constant is diagnosed and emits nothing. '
 'ORG sets the location counter to its constant, or to the offset of a label of the current segment plus constant, and diagnoses everything else; inside a STRUCT ALIGN and ORG do the same to the field offset.',
 I, 'all arguments, location counters, segment alignments, bitnesses and pad lengths',
 'Only a few ALIGN distances are in the suite; the fill for one particular residue and the crash/hang cases found here (segment without FLAT group, arguments above 2^30, 64-bit arguments, ORG without a symbol) need specific values.',
 ['posndir.c', 'types.c'],
 [('AlignDirective, AlignCurrOffset, fill_in_objfile_space, OrgDirective', 'posndir.c'), ('AlignInStruct, SetStructCurrentOffset', 'types.c')],
 ['segment contents', 'listing offsets', 'diagnostics'],
 'AlignCurrOffset, AlignDirective, OrgDirective and the fill loop are under enforced contracts; the fill loop carries an inductive loop invariant, so pad length is unbounded. If the fill loop is rewritten so that the loop contract no longer attaches, '
 'a fallback proof bounded to pads below 64 bytes takes over, and is reported as bounded. ' + TRUST)


prop('C17', 'STRUCT, UNION and RECORD layouts follow the documented rules',
 'A STRUCT field starts at the current offset rounded up to the smaller of the structure alignment and the field size (for a nested structure: its largest member), and the next one behind it; a UNION field starts at 0 and the union is as large as its largest field; '
 'at ENDS the size is rounded up to the smaller of the alignment and the largest member, a nested structure grows its parent, and the memory type follows the size. The alignment argument must be a power of two up to 32. '
 'RECORD packs fields from the most significant bit down, the last field at bit 0, in the smallest of 1, 2, 4, 8 or 16 bytes; widths that are not positive or exceed 128 bits in total are diagnosed.',
 I, 'all field sizes and offsets below 256 MB, alignments 1..32, field and nesting states; all record field widths',
 'The suite defines a few dozen structures; offsets depend on the combination of alignment, field size, largest member and nesting.',
 ['types.c'],
 [('CreateStructField, UpdateStructSize, AlignInStruct, SetStructCurrentOffset, EndstructDirective, StructDirective, CStructDirective, RAWStructDirective, COMStructDirective, RecordDirective', 'types.c')],
 ['SIZEOF/offsets of fields in data and code', 'diagnostics'],
 'Field placement, size update, ENDS, ALIGN and ORG inside structures and the four top-level STRUCT directives are proved for all values under enforced contracts; RECORD is BOUNDED to records of up to 3 fields (all widths). Not covered: opening a nested structure, structures named twice across passes. ' + TRUST)

prop('C06', 'Emitted bytes land at the location counter, without gap, overlap or overrun',
 'Each byte, byte string, wide string, DUP fill and INCBIN range that is emitted is stored at the current offset of the current segment, in order and unchanged; the location counter advances by exactly the number of bytes, the segment size and initialised-size never fall behind it, '
 'and a fixup is queued at the place of its bytes. In OMF format the 1 kB buffer is flushed before it would overflow, so no output size overruns it, and no byte is lost or duplicated at a flush. INCBIN emits exactly the requested part of the file. '
 'ORG/RESB-style skips move the location counter without writing data.',
 I, 'all lengths, buffer fill states, location counters, segment states and file sizes/offsets',
 'Overruns and lost bytes show only when an item straddles the buffer boundary (INCBIN over 1 kB and long wide strings overran it before); tests rarely emit that much.',
 ['assemble.c', 'directiv.c', 'omf.c'],
 [('OutputByte, OutputBytes, OutputBinBytes, OutputInterleavedBytes, FillDataBytes, SetCurrOffset', 'assemble.c'), ('IncBinDirective', 'directiv.c'), ('omf_write_ledata', 'omf.c')],
 ['segment contents in the object file', 'listing offsets'],
 'Enforced contracts, loops with inductive loop invariants (lengths unbounded); if a rewritten loop no longer matches its loop contract a fallback bounded to 4-5 bytes takes over and is reported as bounded. memcpy is represented by its contract. ' + TRUST)

prop('C09', 'OMF records are framed correctly',
 'Every OMF record written has the right type byte (with the 32-bit bit exactly when its offsets are 32-bit), a length word that equals the number of following bytes, and a checksum that makes the byte sum of the record 0; the fixed fields of each record type '
 '(indices in 1 or 2 bytes, offsets in 2 or 4 bytes, segment attributes, group/segment/frame of PUBDEF, LINNUM and COMDAT, LEDATA/COMDAT segment index and offset) come in the order and encoding of the OMF specification, followed by the unchanged data. '
 'Each LEDATA/COMDAT record holds exactly the bytes since the previous one at their offset, and its fixups follow in FIXUPP records that never exceed the buffer, every fixup once, 16-bit and 32-bit ones in records of their kind.',
 I, 'all record types, field values, indices up to 7FFFh, data lengths up to 1024 bytes, segment states',
 'Tests compare a few object files; indices above 127, offsets above 64 kB, exactly-64-kB segments and large records are never reached.',
 ['omfint.c', 'omf.c', 'H/omfspec.h', 'H/omfint.h'],
 [('omf_write_record, WEndRec, PutMem, PutIndex', 'omfint.c'), ('omf_write_ledata, omf_write_fixupp', 'omf.c')],
 ['object file'],
 'omf_write_record is proved per record type for all field values against an independent encoder, with WEndRec by its contract; WEndRec itself (length, checksum) is BOUNDED to 64 data bytes (thorough: 200), the FIXUPP split BOUNDED to 3 fixups. fwrite is assumed to write what it is given. ' + TRUST)

prop('C10', 'OMF fixups name the right location, frame and target',
 'Every fixup of an OMF module is encoded as TIS OMF defines: location type and self-/segment-relative mode follow from the kind of reference, the data record offset is the distance of the place from the start of its LEDATA, '
 'the target is the symbol (its segment, group or external index), the frame is the group, segment or override the reference was made with (written explicitly unless it is the frame of the target itself), and the start address in MODEND names the start label with its offset. '
 'A fixup remembers the place, type, options, frame and symbol of its reference; the constant part of the reference goes into the data (OMF, ELF32 inline addend) or into the fixup, exactly once. Kinds of reference OMF cannot express are diagnosed.',
 I, 'all fixup types, frames, symbol kinds, indices up to 7FFFh, offsets within the 1 kB record, symbol offsets and start displacements',
 'Object files are compared for a few modules; explicit frames that differ from the target, indices above 127 and places above 255 in the record are not in them.',
 ['omffixup.c', 'fixup.c'],
 [('OmfFixGenFix, omf_fill_logref, TranslateLogref, OmfFixGenFixModend', 'omffixup.c'), ('CreateFixup, SetFixupFrame, store_fixup', 'fixup.c')],
 ['FIXUPP and MODEND records of the object file'],
 'Loop-free functions under enforced contracts against an independent encoder of the TIS OMF FIXUPP format; nothing is bounded. Assumed: the group index of an external without frame index (omf_GetGrpIdx) and the segment index (GetSegIdx, one-line accessor). ' + TRUST)

prop('C07', 'COFF object files are well formed and their relocations match the references',
 'A COFF module written for any set of segments and symbols has a section header for every section whose name (also a long or decorated one), flags, alignment, size, raw data and relocation fields describe what is in the file: contents and relocations are where the header says and nowhere else, no two parts overlap, and the string table follows the symbol table. '
 'The symbol table holds the records that SetSymbolIndices counted, in that order: file name, sections with their auxiliary record, externals, publics and labels relocations refer to, each with value, section number, storage class and name of the symbol, weak externals with the index of their default; every relocation refers to the index of its symbol with '
 'the address of its field and the machine type of its kind. More than 65535 relocations use the overflow record; kinds COFF has no relocation for are diagnosed.',
 I, 'all fixup types, places, symbol values and indices, section sizes, attributes and alignments',
 'Object files are compared for a few modules; COMDAT sections, missing auxiliary records, initialised BSS or weak externals are not in them.',
 ['coff.c', 'fixup.c'],
 [('coff_write_module, coff_write_section_table, coff_write_data, coff_write_fixups, coff_write_symbols, SetSymbolIndices', 'coff.c'), ('CreateFixup, store_fixup', 'fixup.c')],
 ['object file'],
 'Enforced contracts on coff_write_module, SetSymbolIndices, coff_write_symbols and coff_write_fixups against independent descriptions of the PE/COFF records. Values are symbolic; the list lengths are BOUNDED (2 sections, 2 relocations, 5 symbols, listed shapes of options), as the lists are built from pinned nodes. '
 'fwrite is represented by a position model; the checksum of COMDAT sections (CRC32Comdat), line numbers and the contents of .drectve are not covered. ' + TRUST)
prop('C08', 'ELF object files are well formed and their relocations match the references',
 'An ELF module written for any set of segments and symbols has a valid header and section table: every program section appears with its name, type, flags, alignment and size and its bytes are written exactly where its header says, no two parts of the file overlap, '
 'string, symbol and relocation sections are linked to each other as the System V ABI demands. The symbol table holds a file symbol, the sections, the local labels relocations refer to and every external and public symbol once, locals before globals, with value, section, type and binding of the symbol, and every relocation '
 'refers to the entry of its symbol. Each fixup becomes one relocation with the place and the ABI type of its kind, and the addend that corrects for the distance between the field and the end of the instruction; kinds ELF has no relocation for are diagnosed.',
 I, 'all fixup types, places, symbol indices and values, section sizes, attributes and alignments',
 'Object files are compared for a few modules; other attribute combinations, 8/16-bit relocations and weak or common symbols are not in them.',
 ['elf.c', 'fixup.c'],
 [('elf_write_module, elf_write_section_table32/64, elf_write_data, set_shstrtab_values, set_symtab_values, set_symtab32/64, write_relocs32/64', 'elf.c'), ('CreateFixup, store_fixup', 'fixup.c')],
 ['object file'],
 'Enforced contracts on elf_write_module, set_symtab_values and write_relocs32/64 against independent descriptions of the ABI records. Values are symbolic; the list lengths are BOUNDED (2 sections, 3 relocations, 5 symbols, listed shapes of section names), as the lists are built from pinned nodes. '
 'Names are two characters with a decoration of one (Mangle assumed); fwrite and fseek are represented by a position model. The missing RELA addend of references with a constant is a known finding. ' + TRUST)

prop('C11', 'Flat binary, MZ and PE images place and patch every segment consistently',
 'In an image written directly (-bin, -mz, -pe) every segment with contents gets its own range of the file, aligned as the segment demands, and an address in the image (relative to the load address, its group or its segment) that belongs to the same place: file position and address differ by the header (PE: by the section) only. '
 'Every reference in the contents is replaced by the value its kind denotes with those addresses: offset in the frame it was made with, displacement from the end of the field (plus what follows it) for relative ones, paragraph or RVA for segment and image-relative ones, including its constant. References the format cannot express are diagnosed. '
 'The MZ relocation table names exactly the places that hold a paragraph, as a segment:offset that reaches the place; the PE base relocation blocks name exactly the 32/64-bit absolute addresses, with page, offset, type and size as the PE format defines; the image size counts every segment once.',
 I, 'all fixup types, segment positions, alignments, groups, symbol offsets, constants, places and segment types',
 'A few images are compared byte for byte; ORG in later segments, groups with foreign segments between, BSS in front, references with constants or segments that start off a page are not in them - six defects were found here.',
 ['bin.c', 'H/symbols.h'],
 [('DoFixup, CalcOffset, GetSegRelocs, GetImageSize, pe_set_base_relocs, pe_set_values, bin_write_module', 'bin.c')],
 ['image file (-bin, -mz, -pe)'],
 'Enforced contracts on DoFixup, CalcOffset, GetSegRelocs, GetImageSize and pe_set_base_relocs against independent descriptions of the image. Values are symbolic; the list lengths are BOUNDED (3 segments, up to 4 fixups), as lists are built from pinned nodes, and one location (a pinned base) per fixup. '
 'The proofs of DoFixup have fallbacks with values of few bits, used only where the full proof runs out of time after an edit. Not covered: header fields written by bin_write_module and the section table built by pe_set_values, import/export/resource data of PE, relative references across groups. Two open findings (constants in references). ' + TRUST)

prop('C13', 'Memory operands are encoded as exactly the address and segment written',
 'The bytes emitted for a memory operand (prefixes, ModRM, SIB, REX bits, displacement) denote, when decoded by the rules of the processor manuals, exactly the address the source writes: same base and index register, same scale, same displacement at full width with the right sign, same address size, '
 'and the segment the operand or the ASSUMEs demand (no prefix exactly where that segment is the default one). A label in the operand gets one fixup of the kind that fits the field (16/32-bit offset, or relative to the instruction end where RIP-relative addressing is used). '
 'Combinations the processor has no encoding for (two index registers, ESP as index, mixed sizes, 16-bit registers in 64-bit code, RIP with an index, displacements that do not fit) are diagnosed, never encoded as something else.',
 I, 'all register pairs, scales, displacements, segments, offset sizes and symbol kinds', 'Tests contain a few dozen forms; e.g. [bp] and [bx+128] with 67h, [eax*4] in 64-bit code, [r13+rax], displacement 128 or 80000000h were wrong or are not in them.',
 ['parser.c', 'codegen.c', 'codegenv2.c', 'reswords.c'],
 [('process_address, memory_operand, set_rm_sib, seg_override, comp_mem16', 'parser.c'), ('output_opc, output_data', 'codegen.c'), ('BuildMemoryEncoding, SizeFromRegister', 'codegenv2.c')],
 'segment contents', 
 'Enforced contracts on process_address (with memory_operand and set_rm_sib inlined), output_opc, output_data, BuildMemoryEncoding and SizeFromRegister: the results are decoded by an independent decoder of ModRM/SIB/displacement in the contract and compared with registers, scale, displacement and segment given. Register pairs, scale, displacement (64 bits), symbol kind, offset size, CPU and override are symbolic; nothing is bounded. '
 'Not covered: vector index registers (VSIB), the VEX/EVEX branches of output_opc for vector instructions, the string and MOV-moffs forms of the legacy generator, and the joint between the token parser and these functions. ' + TRUST)

# ---------------------------------------------------------------- not within reach of contracts on this code
def broad(id, title, statement, text, why, files, where, observe, reason):
    prop(id, title, statement, I, text, why, files, [where], observe); na(id, reason)

broad('N01', 'Every pass sequence converges to one consistent layout',
 'Assembly ends with all label offsets, instruction sizes and branch forms mutually consistent: the offsets used to encode any reference in the last pass are the offsets the labels really have in the output, for every program.',
 'all programs, all orders of forward references', 'Phase errors need particular chains of forward references and size changes.',
 ['assemble.c', 'backptch.c', 'proc.c'], ('AssembleModule, OnePass, SkipSavedState', 'assemble.c'), ['object file'],
 'A whole-program fixpoint over a heap of symbols, saved source lines and macro state; the contracts needed (a relational invariant between two passes over every directive handler) are outside what CBMC can express or discharge for this code. The local steps (short forward jump asks for another pass, DoPatch) are proved under C04.')
broad('N02', 'The output is a function of source, options and included files',
 'Assembling the same files with the same options twice gives the same object file (apart from the COFF time stamp), independent of addresses, hash table state or uninitialised memory.',
 'all programs and options', 'Two runs in one environment rarely differ.', ['main.c', 'assemble.c', 'symbols.c'], ('AssembleModule', 'assemble.c'), ['object file'],
 'A hyperproperty over the whole program; there is no per-function contract from which it would follow without covering every function.')
broad('N03', 'Every instruction is encoded as its manual entry says',
 'For each mnemonic and operand combination the assembler accepts, the emitted bytes are an encoding the Intel/AMD manual gives for exactly that instruction and operands; combinations no encoding exists for are diagnosed.',
 'all mnemonics, operand combinations, CPU settings and modes', 'About 2000 mnemonics with many operand forms each.', ['parser.c', 'codegen.c', 'codegenv2.c', 'H/instruct.h'],
 ('ParseLine, match_phase_1, codegen, output_opc', 'parser.c, codegen.c'), ['segment contents'],
 'The oracle would be an independent machine-readable instruction set reference, which is not available offline; output_opc and match_phase_1 are single functions of over 1000 lines driven by tables of several thousand rows. The parts with a closed-form specification are separate properties (branches: C04, memory operand bytes where claimed).')
broad('N04', 'Macro expansion substitutes exactly the arguments',
 'A macro, REPEAT/FOR/FORC or text-macro use expands to its body with each parameter replaced by its argument, LOCAL names unique per expansion and everything else unchanged, for every nesting.',
 'all macro definitions and uses', 'Nesting, quoting and delimiter combinations are unbounded.', ['macro.c', 'expans.c', 'loop.c'], ('RunMacro, ExpandText', 'expans.c'), ['listing, object file'],
 'Recursive string rewriting over unbounded token buffers and a dynamic queue of source lines with no stated invariants; a contract would have to restate a full macro-language semantics, and CBMC can only follow it for a handful of characters.')
broad('N05', 'No source text crashes the assembler or corrupts its memory',
 'For every input file and option set the assembler terminates with an object file or diagnostics, without reading or writing outside its buffers.',
 'all byte sequences as source', 'The input space is unbounded.', ['tokenize.c', 'input.c', 'preproc.c', 'parser.c'], ('PreprocessLine, Tokenize, ParseLine', 'preproc.c, tokenize.c'), ['exit status'],
 'Every function would have to be under contract (about 90k lines with fixed-size line buffers shared through globals). Bounds, pointer and division checks are discharged for exactly the functions under contract in the other properties.')
broad('N06', 'Procedures and INVOKE follow the calling convention',
 'PROC prologues/epilogues, USES, LOCAL, INVOKE argument placement and stack alignment follow the selected calling convention (C, STDCALL, PASCAL, Win64 FASTCALL, VECTORCALL, SysV).',
 'all prototypes, argument lists and options', 'Signatures times conventions are unbounded.', ['proc.c', 'invoke.c', 'mangle.c'], ('write_default_prologue, PushInvokeParam', 'proc.c, invoke.c'), ['segment contents'],
 'The generators emit assembly text that is assembled again, with control flow through the whole assembler; a contract on the text would restate the generator, and the functions (1000+ lines of sprintf-style code) are out of reach of the back end.')
broad('N07', 'Debug information and listing describe the emitted code',
 'CodeView line numbers, symbols and types, and every offset and byte in the listing file, agree with the code in the object file.',
 'all programs', 'Checked by no test.', ['dbgcv.c', 'listing.c', 'linnum.c'], ('cv_write_debug_tables, LstWrite', 'dbgcv.c, listing.c'), ['object file debug sections, listing'],
 'The relation is between two whole output files; dbgcv.c builds nested variable-length records over the whole symbol heap in one function.')
broad('N08', 'A program with an error never yields a usable object file',
 'Whenever an error was diagnosed the exit status is nonzero and no object file (or a deleted one) remains; without error the file is complete.',
 'all programs', 'Tests check single diagnostics.', ['assemble.c', 'errmsg.c', 'main.c'], ('AssembleModule, close_files, EmitErr', 'assemble.c, errmsg.c'), ['exit status, file system'],
 'Depends on operating-system state and setjmp-style exits (longjmp from Fatal), which goto-instrument contracts do not model.')
