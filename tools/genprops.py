#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one source of truth, so ids/titles stay in step).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

X="at-x64/src/"; M="at-mac/src/"; O="at-obj/src/"; A="at-asm/src/"

p("E01","Register and immediate instructions encode exactly the requested operation",
 "For every supported instruction without a memory operand (mov between registers and from immediates, push, pop, ret, syscall) and every operand value, the encoded bytes form exactly one valid x86-64 instruction of at most 15 bytes, and executing it has exactly the requested effect: the named operands at the named width, nothing else changed. Immediates are carried in full for the operand width, a pushed 8-, 16- or 32-bit immediate being that machine immediate.",
 ["inputs"],"every instruction form x every register of the width x every immediate of the width",
 "Unit tests pin 1-3 register pairs per form; REX/ModRM bits for the other 250 pairs per width, and immediates other than 42/420, are never looked at.",
 [X+"instruction/mov.rs",X+"instruction/push.rs",X+"instruction/pop.rs",X+"instruction/ret.rs",X+"instruction/syscall.rs",X+"encoder/mod.rs",X+"encoder/bytecode.rs",X+"reg.rs",X+"bytes.rs"],
 [("operand to REX/ModRM/opcode mapping",X+"encoder/mod.rs encode"),("byte order of an encoded instruction",X+"encoder/bytecode.rs to_bytes"),("register numbers",X+"reg.rs register_code/is_extended")],
 ["bytes returned for one instruction","CPU registers, stack and instruction pointer after executing them"])
p("E02","Memory operands address exactly base + index*scale + displacement",
 "For every address-computing or storing instruction and every memory operand - base register plus displacement, instruction-pointer-relative, or base/index/scale/displacement with or without base - the encoded instruction accesses exactly the address base + index*scale + displacement, the displacement being the two's-complement 32-bit value given and the stack pointer as index meaning no index. This holds for every displacement magnitude and every register, including those whose plain encoding is reserved for other forms.",
 ["inputs"],"every base (16 registers, none, instruction pointer) x every index x every scale x every 32-bit displacement x every data register",
 "Tests use displacements 0 and 42 and a handful of registers; the encoding switches form by displacement size and by base register, and the switch points are never tried.",
 [X+"mem.rs",X+"encoder/mod.rs",X+"encoder/bytecode.rs",X+"instruction/lea.rs",X+"instruction/mov.rs"],
 [("mode/displacement-size selection",X+"encoder/mod.rs RegMemLike for Mem64"),("SIB byte",X+"encoder/bytecode.rs Sib")],
 ["bytes returned for one instruction","effective address observed on the CPU and by an independent decoder"])
p("E03","The reported relocatable field is exactly the instruction's immediate",
 "For every load-immediate instruction that reports where its immediate lies, overwriting the bytes at the reported position with any other value of the operand's width yields the same instruction loading that other value into the same register. Bytes before that position do not depend on the immediate.",
 ["inputs"],"every 32- and 64-bit register x every original and patched immediate",
 "The test only checks that offset plus width equals the length, for two registers per width.",
 [X+"instruction/mov.rs"],[("immediate offset",X+"instruction/mov.rs offset_to_imm_bytes")],
 ["instruction bytes before and after patching","destination register after executing the patched bytes"])
p("E04","Concatenated instructions execute as the written sequence",
 "Executing the concatenated encodings of any sequence of supported instructions performs exactly those instructions, in that order: instruction boundaries fall where each encoding ends and, after every step, registers and memory equal those of a sequential machine that executes the written instructions.",
 ["histories","inputs"],"every finite sequence of supported instructions with any operands and starting state",
 "Tests look at single encodings in isolation; an encoding that swallows or leaks a byte, or clobbers state used later, only shows in sequences.",
 [X+"encoder/bytecode.rs",X+"encoder/mod.rs",X+"instruction/mod.rs",X+"bytes.rs"],
 [("length bookkeeping",X+"bytes.rs BytesAtMost"),("encoding assembly",X+"encoder/bytecode.rs to_bytes")],
 ["native execution state after each step, against a reference machine"])
p("E05","Registers keep one identity across names, widths and encodings",
 "Every register has one architectural identity: its printed name is the standard name of the register its encodings select, its widening to 32 or 64 bits is the register it is the low part of, and the assembler accepts that name (at the widths it supports) as that very register and takes no other word for a register. No two registers of a width share a name or an encoding.",
 ["inputs"],"every register of every width (64 in all), through printing, widening, encoding and parsing",
 "No test prints a register, and only a few registers are parsed or widened.",
 [X+"reg.rs",A+"parsers/reg.rs"],
 [("name tables",X+"reg.rs Display"),("widening",X+"reg.rs to_reg64/to_reg32"),("name parsing",A+"parsers/reg.rs")],
 ["printed names","machine code assembled from each name"])
p("E06","A bounded byte buffer holds exactly the bytes it was given",
 "For every capacity, a byte buffer made from an 8-, 16-, 32- or 64-bit number holds that number's bytes, lowest first; made from an array, that array; made for a length, that many zeros. More than the capacity is refused and never cut. Its length, emptiness and visible bytes always agree with its contents, writing through it changes those bytes and no copy made before, and two buffers are equal exactly when their contents are.",
 ["inputs","histories"],"every capacity x every way of making a buffer x every sequence of changes, copies and comparisons",
 "Tests never use the buffer by itself: instructions only ever store one number or opcode of a fixed length in it.",
 [X+"bytes.rs"],
 [("length and contents",X+"bytes.rs BytesAtMost"),("numbers, lowest byte first",X+"bytes.rs From")],
 ["as_ref, as_mut, len, is_empty, ==","outcome of making a buffer beyond its capacity"])
p("M01","File headers are written and read per the Mach-O layout in both byte orders",
 "Every representable file header is written as exactly 32 bytes laid out as the Mach-O format prescribes, in the byte order its magic announces, and reads back equal, consuming exactly those bytes. A header written by a machine of the opposite byte order is recognised by its magic and yields the same field values and the correct byte order for the rest of the file.",
 ["inputs","configurations"],"every cpu type, file type, flag set, count and size; both byte orders",
 "One header with no flags is written and read back by the same code; swapped field order or wrong constants on both sides cancel out, and the opposite byte order is never read.",
 [M+"header.rs",M+"io.rs"],[("header codec",M+"header.rs Header64"),("byte order selection",M+"header.rs read_from")],
 ["bytes written","values read from independently built bytes"])
p("M02","Load commands are written and read per the Mach-O layout in both byte orders",
 "Every representable load command (segment with its sections, symbol table, dynamic symbol table, build version with its tools) is written in exactly the number of bytes its size field announces, laid out as the Mach-O format prescribes, and reads back equal. Reading consumes exactly that many bytes, so any sequence of commands is read back as the same sequence, in either byte order.",
 ["inputs","histories","configurations"],"every command kind and field value, every sequence of commands, both byte orders",
 "Each structure is round-tripped once through the same codec with small values, never as a tagged command, never in sequence, never byte-swapped, never compared with the format.",
 [M+"load_command/mod.rs",M+"load_command/segment64.rs",M+"load_command/symtab.rs",M+"load_command/dysymtab.rs",M+"load_command/build_version.rs",M+"io.rs"],
 [("command dispatch",M+"load_command/mod.rs read_from_in"),("structure codecs",M+"load_command/*.rs")],
 ["bytes written","values read from independently built bytes","bytes left unread"])
p("M03","Symbol and relocation entries keep every bit field, in both byte orders",
 "Every symbol-table entry and relocation entry whose values fit the format's fields is written as 16 respectively 8 bytes with each field in the bits the Mach-O format assigns to it, and reads back equal in either byte order. No field influences another field's bits, and the names of relocation types and lengths stand for exactly the format's code numbers.",
 ["inputs","configurations"],"every combination of kind, visibility, section, description, value; every 24-bit symbol index, pc-relative, length, extern and type value; both byte orders",
 "One entry of each kind is round-tripped; a packing error symmetric in reader and writer, or in the opposite byte order, cannot show.",
 [M+"nlist.rs",M+"reloc.rs"],[("type byte packing",M+"nlist.rs NTypeField"),("bit-field packing",M+"reloc.rs RelocationInfo")],
 ["bytes written","values read from independently built bytes"])
p("M04","Readers reject truncated, inconsistent or unrecognised Mach-O data",
 "Reading a structure from input that ends early, whose size field contradicts its contents, or that carries a code the library has no name for, or a name that is not text, fails instead of returning a value. Whatever a reader does accept in canonical form, writing it back reproduces the accepted bytes.",
 ["inputs","crash_points"],"every structure x every truncation point, every byte corruption, both byte orders, checked and unchecked arithmetic builds",
 "No test feeds a reader anything but the writer's own output.",
 [M+"header.rs",M+"nlist.rs",M+"reloc.rs",M+"load_command/mod.rs",M+"load_command/segment64.rs",M+"load_command/build_version.rs",M+"load_command/symtab.rs",M+"load_command/dysymtab.rs",M+"io.rs"],
 [("code tables",M+"*.rs from_u32/from_u8"),("size assertions",M+"load_command/*.rs read_from_in"),("read errors",M+"io.rs ReadExt")],
 ["outcome of each read (value or failure)","re-encoding of accepted values"])
p("M05","String table offsets always lead back to the string that was added",
 "After any sequence of additions, each added string is found intact at the offset equal to the table size just before it was added, offset 0 is the empty string, and the table's size and bytes are exactly a NUL followed by each string and its terminating NUL in order. Walking the table yields the added strings in order, and text that the table cannot represent faithfully (non-ASCII, embedded NUL) is refused.",
 ["histories","inputs"],"every sequence of added strings, including empty, repeated and suffix-sharing ones",
 "Tests add a single string.",
 [M+"string_table.rs"],[("append and lookup",M+"string_table.rs StringTable")],
 ["offsets, bytes and lookups after each addition"])
p("M06","Output and input survive short I/O; I/O failures are never swallowed",
 "Reading from or writing to a stream that transfers arbitrarily few bytes per call or is interrupted gives the same result as a single transfer, for every structure, whole objects and assembler sources. If the stream fails at any point the operation fails too, and what was written up to then is a prefix of the correct output.",
 ["fault_sequences","crash_points","inputs"],"every byte position of a write or read failure; every chunking; interruptions anywhere",
 "Tests only use in-memory buffers that never fail or split a transfer.",
 [M+"io.rs",O+"macho.rs",A+"reader.rs",A+"assembler.rs",M+"load_command/mod.rs"],
 [("complete transfers",M+"io.rs WriteExt/ReadExt"),("object writer",O+"macho.rs write_into"),("line reader",A+"reader.rs")],
 ["bytes reaching the stream","outcome of the operation under each injected fault"])
p("M07","Values the format cannot hold are refused, never written altered",
 "Writing a Mach-O structure either fails or produces bytes that read back as the same value (flags being a set). Names longer than their 16-byte field, with a NUL or non-ASCII character, relocation symbol numbers and types beyond their bits, multi-architecture magics, and load commands whose code, size or count contradicts what they hold are refused; everything up to those limits is written exactly.",
 ["inputs"],"every value of every structure's public fields, representable or not",
 "Tests write only representable values; a value silently cut to its field reads back as another one.",
 [M+"header.rs",M+"reloc.rs",M+"io.rs",M+"load_command/mod.rs",M+"load_command/segment64.rs",M+"load_command/build_version.rs",M+"load_command/symtab.rs",M+"load_command/dysymtab.rs"],
 [("fixed-size names",M+"io.rs write_str_fixed"),("bit-field packing",M+"reloc.rs RelocationInfo"),("command consistency",M+"load_command/*.rs write_into")],
 ["outcome of each write","bytes written","values read back"])
p("M08","Files made by other tools are read as what they hold",
 "Read in order (the header, as many load commands as it announces, then the relocation, symbol and string tables at the places the commands give), a Mach-O file made by any tool from the structures this library lists yields exactly the file's contents: the header, commands, sections, relocations, symbols, names and strings that an independent reader reports, in either byte order, each read taking exactly the structure's bytes. Writing a structure read from a file in the host's byte order reproduces its bytes in that file.",
 ["inputs"],"every Mach-O file another assembler, linker or converter writes out of known load commands, section kinds, symbol kinds and relocations, in both byte orders",
 "Tests read only what the library itself has written a moment before, one structure at a time.",
 [M+"header.rs",M+"nlist.rs",M+"reloc.rs",M+"load_command/mod.rs",M+"load_command/segment64.rs",M+"load_command/build_version.rs",M+"load_command/symtab.rs",M+"load_command/dysymtab.rs",M+"string_table.rs",M+"io.rs"],
 [("dispatch over commands",M+"load_command/mod.rs LoadCommand::read_from_in"),("byte order from the magic",M+"header.rs Header64::read_from"),("names by offset",M+"string_table.rs StringTable::get")],
 ["values read from files of llvm-mc, yaml2obj, llvm-objcopy, ld64.lld and the project itself","bytes consumed","bytes written back"])
p("M09","Codes and sets of flags convert exactly, whatever their history",
 "Every code the library lists (magic numbers, processors, file types, header flags, section types and attributes, platforms, tools, symbol and relocation types and lengths) converts to the number the format assigns and back, and every other number is refused. A version number splits into its three parts and joins again. A set of header flags or section attributes, however it was made and added to (in any order, the same member repeatedly), converts to exactly the union of its members, is shown as exactly its members, and is written and read as such.",
 ["inputs","histories"],"every number x every kind of code; every sequence of additions to a set",
 "Tests convert a few codes on the way through one structure and never add to a set what it already holds.",
 [M+"header.rs",M+"load_command/segment64.rs",M+"load_command/build_version.rs",M+"nlist.rs",M+"reloc.rs"],
 [("codes",M+"header.rs Magic/CpuType/FileType/Flag, "+M+"load_command/segment64.rs SectionType/SectionAttr, "+M+"reloc.rs X86RelocType/X86_64RelocType"),("sets",M+"header.rs Flags, "+M+"load_command/segment64.rs SectionAttrs")],
 ["from_*/to_* of each code","push, from_u32, to_u32 and {:?} of sets","bytes written"])
p("M10","Reading and writing cost what the data weighs, not what it announces",
 "Whatever bytes a reader of the library is given, including ones whose counts and sizes announce far more than follows, the memory it holds stays in proportion to the bytes it has actually read, and it comes to an end, with a value or a panic, once the input ends. Writing a structure, a string table or an object takes memory and time in proportion to its contents: zero-initialised space costs nothing, however much of it the object has.",
 ["inputs"],"every sequence of bytes given to every reader; every structure, string table and object written",
 "Tests read back only small, truthful structures, and no test looks at memory or time.",
 [M+"load_command/mod.rs",M+"load_command/segment64.rs",M+"io.rs",M+"string_table.rs",O+"macho.rs"],
 [("counted entries",M+"load_command/mod.rs LoadCommand::read_from_in"),("fixed-size parts",M+"io.rs ReadExt"),("section contents",O+"macho.rs write_into")],
 ["bytes of memory held while a reader or writer runs","reads after the end of the input","bytes written","processor time"])
p("O01","Every written object is a structurally valid Mach-O file",
 "For every object (any section contents, symbols and relocations whose positions lie in their sections) the file written is a well-formed 64-bit x86-64 relocatable Mach-O file: header counts and sizes agree with the load commands, and every section, relocation table, the symbol table and the string table lies inside the file, suitably aligned and disjoint from all others. The segment covers exactly its sections, occupying no more bytes in the file than in memory, and the file ends where its last table ends. Fields the format reserves are zero, and flags and protections are ones an object file may have.",
 ["inputs"],"every object: section sizes (including 0 and every residue mod 8), symbol counts and names, relocation counts",
 "The object writer has no unit test at all; the end-to-end tests need macOS.",
 [O+"macho.rs",O+"object.rs",O+"num.rs"],
 [("offset computation",O+"macho.rs gen_section64s/gen_symtab_command/gen_segment_command64"),("alignment arithmetic",O+"num.rs")],
 ["the bytes of the written file, parsed by an independent strict parser"])
p("O02","Section contents, sizes and addresses survive into the file",
 "The text and data bytes of every object appear in the written file unchanged, each in the section of its kind, and zero-initialised space appears with its size and no file contents. Sections follow each other in memory without overlap in the order they appear, carry their standard names and kind flags, announce relocations exactly when they have some, and empty ones without symbols are simply absent.",
 ["inputs"],"every combination of empty/non-empty sections and every content and size",
 "No unit test writes an object.",
 [O+"macho.rs",O+"object.rs"],[("section layout",O+"macho.rs gen_section64s"),("data emission and padding",O+"macho.rs write_section_data_into")],
 ["section table and section bytes of the written file"])
p("O03","Every symbol appears once with its name, place, kind and visibility",
 "For every object, the symbol table written holds exactly one entry per symbol, in section order: the same name, external exactly if marked so, and for section symbols the section's address plus the symbol's offset and the number of that section; absolute symbols keep their value and belong to no section, undefined ones are external and zero. This includes symbols at a section's end and symbols of sections that hold no bytes. The object's own list of its symbols is that same list.",
 ["inputs"],"every set of symbols over every kind, section and position, with empty, repeated, prefix- and suffix-sharing names",
 "No unit test writes symbols.",
 [O+"macho.rs",O+"object.rs",M+"nlist.rs",M+"string_table.rs"],
 [("symbol entries",O+"macho.rs gen_nlist64s"),("name lookup",O+"macho.rs gen_string_table/get_strx"),("section filter",O+"object.rs Sections::iter")],
 ["symbol and string table of the written file"])
p("O04","Every relocation names its symbol and place exactly",
 "For every object, each relocation appears exactly once in the relocation table of its own section, in order, with its address, width and pc-relative flag, and its symbol index designates an entry with the name the relocation refers to. A relocation to a name that no symbol has makes writing fail.",
 ["inputs"],"every set of relocations over text and data, every symbol order, every width",
 "No unit test writes relocations.",
 [O+"macho.rs",O+"object.rs",M+"reloc.rs"],[("relocation entries",O+"macho.rs gen_relocation_infos"),("table placement",O+"macho.rs gen_section64s")],
 ["relocation tables of the written file"])
p("O05","Independent Mach-O tools accept the objects and read the same contents",
 "Every object written for a program is accepted by independent Mach-O consumers, which report the same sections, symbols and relocations that were put in. A standard linker links it into an image in which every relocated field holds the final address of the symbol it names.",
 ["inputs"],"every object with 64-bit references, as seen by an independent dumper and an independent linker",
 "The only end-to-end tests need the macOS linker, and unit tests never leave the project's own code.",
 [O+"macho.rs",M+"header.rs",M+"load_command/segment64.rs",M+"nlist.rs",M+"reloc.rs"],
 [("object writer",O+"macho.rs write_into")],
 ["reports of an independent dumper","image produced by an independent linker"])
p("O06","The same input always gives the same bytes, however the tool was built",
 "Assembling the same source or writing the same object always yields the same outcome and byte-identical output: on repetition, in another process or thread, and whether the tool was built with or without optimisation and arithmetic checks.",
 ["inputs","configurations","schedules"],"every source or object; repeated, concurrent and differently built runs",
 "Tests run one build of each function once.",
 [O+"macho.rs",A+"assembler.rs",A+"parsers/expr.rs"],[("pure output functions",O+"macho.rs"),("arithmetic in expressions",A+"parsers/expr.rs")],
 ["digest and outcome of each run across builds, processes and threads"])
p("O07","Objects the format cannot hold are refused",
 "Writing an object fails, leaving no complete file, if a symbol lies beyond its section's end, a relocation does not lie entirely in its section or has a width that does not exist, a name is not plain ASCII text, or the contents exceed the address space or what 32-bit file offsets reach. An object within those limits, up to the very edge, is written.",
 ["inputs"],"every object, with positions, widths, names and sizes on both sides of each limit",
 "The object writer has no unit test; offsets and positions that do not fit would wrap or point elsewhere without any sign.",
 [O+"macho.rs",O+"object.rs",M+"string_table.rs"],
 [("limits of an object",O+"macho.rs write_into"),("offset arithmetic",O+"macho.rs gen_section64s/gen_symtab_command")],
 ["outcome of each write","the bytes that were written"])
p("O08","An object holds exactly what was put into it, through any history of changes",
 "A new object is empty. After any sequence of changes (bytes, sizes and symbols added to its sections, removed, or changed in place through the object's list of symbols), and of writing in between, the object lists every symbol of every section exactly once under its name, its sections hold exactly what was put there, and the file it is written to is the one a freshly made object with the same contents gives.",
 ["histories"],"every sequence of changes and writes x every kind of symbol x every section",
 "Tests build one object, write it once, and never change a symbol in place.",
 ["at-obj/src/object.rs","at-obj/src/macho.rs"],
 [("the list of symbols","at-obj/src/object.rs Object::symbols/symbols_mut"),("names","at-obj/src/object.rs Symbol::name"),("empty sections","at-obj/src/object.rs *Section::new")],
 ["symbols(), symbols_mut(), sections() after each change","bytes written"])
p("A01","Each source instruction becomes exactly the machine instruction written",
 "For every supported instruction line, the code emitted at that line's place is one machine instruction with exactly the written operation, operands and width; operand order is destination first. A push of a number pushes exactly that number as a 64-bit value, and anything not encodable so is rejected.",
 ["programs","inputs"],"every supported mnemonic with every register combination and every immediate, anywhere in a program",
 "Six mov lines are compared with the encoder's own output; push, ret and syscall lines and most registers are never assembled in a test that runs.",
 [A+"parsers/instruction/mod.rs",A+"parsers/instruction/mov.rs",A+"parsers/instruction/push.rs",A+"parsers/reg.rs",A+"assembler.rs"],
 [("operand parsing",A+"parsers/instruction/mov.rs"),("immediate width choice",A+"parsers/instruction/push.rs"),("dispatch",A+"parsers/instruction/mod.rs")],
 ["machine code in the object, decoded independently"])
p("A02","Numeric literals and expressions mean their mathematical value",
 "A decimal or 0x-hexadecimal literal denotes exactly its value wherever it is accepted, and a sum or difference of two literals denotes the mathematical result modulo 2^64. A value that does not fit the operand or data unit it is written for is rejected, never truncated, and never accepted in part.",
 ["inputs"],"every literal spelling up to and beyond 64 bits, every pair of operands of + and -, every operand width and data unit",
 "Three small expressions are tested; no wrap-around, boundary, over-wide or malformed value is.",
 [A+"parsers/num.rs",A+"parsers/expr.rs",A+"parsers/data.rs",A+"parsers/instruction/mov.rs",A+"parsers/instruction/push.rs"],
 [("literal parsing",A+"parsers/num.rs"),("expression evaluation",A+"parsers/expr.rs"),("width checks",A+"parsers/expr.rs as_u32/as_u16")],
 ["immediates and data bytes in the object","outcome of the assembly"])
p("A03","Data directives emit exactly the written values, in order, padded per unit",
 "Every data line emits its items in order: a number as a little-endian unit of 1, 2, 4 or 8 bytes, a string as its exact bytes followed by zero bytes up to the next multiple of the unit. Nothing inside the quotes - separators, comment characters, non-ASCII text - is interpreted.",
 ["inputs","programs"],"every directive, every list of numbers and strings of every length and content that contains no quote or line break",
 "Seven lines are tested, none with 16-bit or 64-bit strings, punctuation in strings, or empty strings.",
 [A+"parsers/data.rs",A+"parsers/line.rs"],[("item iteration",A+"parsers/data.rs DataDefIter"),("padding",A+"parsers/data.rs write_str"),("comment removal",A+"parsers/line.rs")],
 ["data section bytes in the object"])
p("A04","Labels mark the address of what follows them, in their own section",
 "Every label, on its own line or before data, becomes one symbol whose value is the address of the next byte emitted into the section it stands in (the section's end if none follows). Switching sections back and forth continues each where it was left, so each section's contents are its lines in source order; the initial section is text.",
 ["programs","histories"],"every interleaving of sections, labels, data and instructions",
 "No unit test runs the assembler on a program.",
 [A+"assembler.rs",A+"parsers/line.rs",A+"parsers/section.rs",O+"macho.rs"],
 [("current section and offset",A+"assembler.rs read_from"),("symbol address",O+"macho.rs gen_nlist64s")],
 ["symbol table and section bytes of the object"],
 state=[("cur_sect","section that following lines go to",A+"assembler.rs")])
p("A05","Exactly the labels declared global are visible to the linker",
 "A label is external in the object if and only if the source declares that exact name global, wherever the declaration stands relative to the label and however often it is made. Declarations change nothing else.",
 ["programs"],"every set of labels (including names that contain one another) and every placement of declarations",
 "No unit test assembles a global declaration.",
 [A+"assembler.rs",A+"parsers/global_symbol.rs"],[("visibility marking",A+"assembler.rs read_from"),("symbol iteration",O+"object.rs symbols_mut")],
 ["external flag of each symbol in the object"])
p("A06","A reference to a label resolves to the label's final address",
 "Every instruction whose operand is a label gets exactly one relocation, which covers exactly that instruction's immediate field, has its width, and names that label, defined before or after the reference. Placing the sections at any addresses and applying the relocations makes every such instruction load exactly the label's address, and nothing else in the program changes.",
 ["programs"],"every program with forward, backward and cross-section references, 32- and 64-bit, under any placement of sections",
 "The relocation path is only exercised by an end-to-end test that needs macOS.",
 [A+"assembler.rs",A+"parsers/instruction/mov.rs",X+"instruction/mov.rs",O+"macho.rs"],
 [("relocation offset",A+"assembler.rs read_from"),("immediate position",X+"instruction/mov.rs offset_to_imm_bytes"),("symbol index",O+"macho.rs gen_relocation_infos")],
 ["object linked by a reference linker at random addresses, then decoded"])
p("A07","Invalid source is rejected with its line; no usable object is left",
 "A program containing a line that is not valid - unknown or malformed instruction, directive or literal, operands of mixed or wrong width, left-over text after a complete statement, data in zero-initialised space, or a reference to a label that does not exist - makes the assembler fail with a non-zero exit status, for malformed lines naming the line's number. It never leaves a complete object behind and never assembles the rest as if the text were not there.",
 ["programs","inputs"],"every kind of invalid line at every position of every otherwise valid program",
 "Two invalid section lines are tested, at parser level; no test observes a failing assembly.",
 [A+"assembler.rs",A+"parsers/line.rs",A+"parsers/instruction/mod.rs",A+"parsers/instruction/mov.rs",A+"parsers/instruction/push.rs",A+"parsers/expr.rs",A+"parsers/data.rs",A+"parsers/section.rs",A+"parsers/global_symbol.rs"],
 [("error exit with line",A+"assembler.rs read_from"),("parse errors",A+"parsers/*.rs"),("unknown symbol failure",O+"macho.rs gen_relocation_infos")],
 ["exit status and diagnostics","contents of the output file after failure"],
 state=[("cur_line","1-based number of the line being read",A+"assembler.rs")])
p("A08","Comments, blank lines and spacing never change the output",
 "Adding or removing comments and blank lines, changing the amount or kind of white space around and between the parts of a line, using CRLF or LF line ends, or omitting the final line end leaves the assembled object byte-identical.",
 ["programs"],"every valid program and every such re-spelling of it",
 "No test compares two spellings of a program.",
 [A+"parsers/line.rs",A+"reader.rs",A+"parsers/instruction/mov.rs",A+"parsers/data.rs"],
 [("comment removal",A+"parsers/line.rs"),("tokenising",A+"parsers/*.rs")],
 ["object bytes for each spelling"])
p("A09","Any input ends in a well-formed object or a clean failure",
 "For every byte sequence given as source, the assembler terminates within time and memory in proportion to the input, and either exits successfully having written a structurally valid object or fails with a non-zero exit status. It is never killed by a signal and never reports success with a malformed object.",
 ["inputs"],"every byte string as source",
 "Tests never run the assembler, let alone on hostile input.",
 [A+"assembler.rs",A+"reader.rs",A+"parsers/line.rs",A+"parsers/data.rs",O+"macho.rs",M+"string_table.rs"],
 [("error paths",A+"assembler.rs"),("name checks",M+"string_table.rs")],
 ["exit status, CPU time, memory and output object for each input"])
p("A10","An assembled, linked program behaves as its source says",
 "For every program, executing the linked result performs the source's instructions in order from its entry label: the system calls made, the bytes they output and the final exit status or return value are those of a reference interpretation of the source text, with labels standing for the addresses of the data written there.",
 ["programs"],"every straight-line program of supported instructions with data, labels and system calls",
 "The project's own end-to-end tests cover four programs and only run on macOS.",
 [A+"assembler.rs",A+"parsers/line.rs",O+"macho.rs",X+"encoder/mod.rs"],
 [("the whole pipeline",A+"main.rs")],
 ["native execution trace: system calls, output, exit status, registers"])
p("A11","The command writes exactly the chosen output and touches nothing else",
 "The assembler command writes its object to the path given with -o, before or after the source, or else to the source path with extension .o, replacing any previous contents completely, and exits 0 exactly when that file holds the complete object. The source file and every other file are left untouched, and wrong usage, unreadable sources or unwritable outputs give a non-zero exit status.",
 ["inputs","configurations","fault_sequences"],"every argument order, source and output path (nested, dotted, no extension, same file), previous output contents, and unreadable or full targets",
 "No unit test runs the command.",
 [A+"main.rs",A+"assembler.rs"],[("argument handling",A+"main.rs Config::init"),("output opening",A+"main.rs main")],
 ["files in the working directory before and after","exit status"])
p("A12","Feeding a source in pieces equals feeding it whole",
 "Giving one assembler a source in several consecutive pieces cut at line ends, with the object written out any number of times in between, produces the same final object as giving it the whole source at once. Writing the object never changes it, and each intermediate object equals that of the source read so far. An invalid line is refused in whichever piece it stands, under its number in the whole.",
 ["histories","programs"],"every valid program, every way of cutting it into pieces, every interleaving of reads and writes",
 "No test reads more than one line into an assembler.",
 [A+"assembler.rs"],[("state kept between reads",A+"assembler.rs read_from"),("side-effect free writing",A+"assembler.rs write_into")],
 ["object bytes after each operation"],
 state=[("assembler state","section, line number, object and global names so far",A+"assembler.rs")])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P),"properties")
