//! The checks: one per property.
use crate::core::Check;
use crate::{a, api, cli, cost, e, m, m8, o, run};

const X86: &str = "the harness's x86-64 decoder and sequential machine state the intended meaning; they are checked against the processor itself by single-stepping";
const SPEC: &str = "the harness's own statement of the Mach-O layout (spec.rs, macho.rs), written from the format's documentation";
const WORK: &str = "the assembler library runs in worker processes; process exit, panic, signal and hang are told apart by the supervisor";
const GEN: &str = "sources are generated as syntax trees whose meaning is known by construction; ASCII label names that are not register names or literals";

macro_rules! ck {
    ($id:literal, $lvl:literal, $run:path, $rule:literal, [$($a:expr),*], [$($m:literal),*]) => {
        Check { id: $id, level: $lvl, run: $run, rule: $rule, assumptions: &[$($a),*], must: &[$($m),*] }
    };
}

pub fn checks() -> Vec<Check> {
    vec![
        ck!("E01", "exploration", e::e01,
            "every register combination and boundary/random immediates of each instruction without memory operand; each encoding is decoded independently and executed natively on random register files; distinct = distinct instruction requests",
            [X86, "SYSCALL is decoded, not executed, in this check"],
            ["encodings decoded and compared"]),
        ck!("E02", "exploration", e::e02,
            "every addressing form, register, scale and boundary displacements (all of -300..300, powers of two +-2, random), decoded independently and executed natively with base/index chosen so that the access lands in a window; distinct = distinct instruction requests",
            [X86, "natively executed accesses are those whose effective address can be brought into a mapped window"],
            ["encodings decoded and compared"]),
        ck!("E03", "exploration", e::e03,
            "each load-immediate instruction with pairs of values: the field reported is overwritten and the result decoded; distinct = distinct (instruction, replacement) pairs",
            [X86],
            ["patched fields decoded"]),
        ck!("E04", "exploration", e::e04,
            "random sequences of supported instructions, concatenated and single-stepped natively against a sequential machine, all registers and data windows compared after every step; distinct = distinct sequences",
            [X86, "sequences whose accesses would leave the data windows are skipped and counted"],
            ["instruction boundaries checked"]),
        ck!("E05", "exploration", e::e05,
            "every register of every width in every encoding role, its printed name, its widenings, and the assembler's reading of its name; distinct = distinct (register, role) cases",
            [X86, WORK],
            ["register names checked", "register codes checked", "assembled register names decoded"]),
        ck!("E06", "exploration", api::e06,
            "histories of operations (made from numbers, arrays and lengths, copied, overwritten, changed byte by byte, rebuilt) on buffers of twelve capacities, each buffer compared with a model after every step; distinct = distinct histories",
            [],
            ["operations on buffers followed", "refused: more bytes than the buffer holds"]),
        ck!("M01", "exploration", m::m01,
            "every cpu type, file type and flag plus random combinations and counts, in both byte orders, followed by other data; distinct = distinct header byte strings",
            [SPEC],
            ["structures written, layout compared", "big-endian structures read back", "little-endian structures read back", "byte order for the rest of the file"]),
        ck!("M02", "exploration", m::m02,
            "generated load commands of every kind (field values biased to boundaries, 0..n sections/tools) alone and in sequences, in both byte orders; distinct = distinct command byte strings",
            [SPEC],
            ["structures written, layout compared", "big-endian structures read back", "little-endian structures read back", "command sequences read back"]),
        ck!("M03", "exploration", m::m03,
            "symbol and relocation entries: every kind and flag combination, boundary and random field values, one-bit neighbours, in both byte orders; distinct = distinct entries",
            [SPEC, "symbol numbers of relocations below 2^24, the format's field width"],
            ["structures written, layout compared", "big-endian structures read back", "little-endian structures read back"]),
        ck!("M04", "fault_enumeration", m::m04,
            "every truncation point of generated structures, every wrong size field of a set of contradictions, every unassigned code of every coded field, random byte damage; accepted input must be reproduced when written back; distinct = distinct damaged inputs",
            [SPEC, "\"canonical\" = the bytes the format's layout gives for the values in them; damage that leaves it is judged for clean refusal only"],
            ["damaged input refused", "damaged input accepted and written back unchanged"]),
        ck!("M05", "exploration", m::m05,
            "random sequences of additions of ASCII strings of many lengths (including empty), read back at their offsets and by walking, plus non-ASCII and embedded NUL; distinct = distinct sequences",
            [],
            ["strings added and found again", "tables walked", "refused: non-ASCII", "refused: embedded NUL"]),
        ck!("M06", "fault_enumeration", m::m06,
            "every structure, whole objects and assembler sources through streams that transfer few bytes per call, are interrupted, or fail at a chosen byte (for good, or a single time); failure points are enumerated for small outputs and sampled for large ones; distinct = distinct (value, fault) pairs",
            [SPEC, WORK],
            ["short or interrupted writes", "short or interrupted reads", "single failures survived or reported", "read failures reported", "write failures reported, prefix intact", "object write failure points", "programs through short or interrupted streams", "source read failures reported"]),
        ck!("M07", "fault_enumeration", m::m07,
            "relocation entries, sections, segments and load commands with one value at or beyond what its field can hold (number bits, name length and characters, codes, sizes and counts contradicting the contents): refused, or written exactly as the format says; distinct = distinct values",
            [SPEC],
            ["refused: multi-architecture magic", "refused: relocation numbers beyond their bits", "refused: names that do not fit", "refused: segment contradicting its contents", "refused: symbol table command contradicting its contents", "refused: dynamic symbol table command contradicting its contents", "refused: build version command contradicting its contents", "representable at the edge: written exactly"]),
        ck!("M08", "exploration", m8::m08,
            "files assembled by llvm-mc from generated sources, written by yaml2obj in both byte orders with varied values, by at-obj, at-asm, llvm-objcopy and ld64.lld; everything the library reads from them is compared with what obj2yaml reports or yaml2obj was told; distinct = distinct files",
            ["obj2yaml and yaml2obj 18 are the independent reader and writer; files with structures or codes the library does not list are judged only as far as it knows them", WORK],
            ["files read: llvm-mc"]),
        ck!("M09", "exploration", api::m09,
            "every number below 0x1200, every power of two and its neighbours and random numbers converted to each kind of code; sets of flags and attributes followed over random additions, printed, written and read; distinct = distinct numbers and histories",
            [SPEC],
            ["codes converted there and back", "refused: numbers that are no code", "versions split and joined", "sets compared with their members", "sets written and read again"]),
        ck!("M10", "exploration", cost::m10,
            "load commands announcing far more entries than follow, cut and damaged, beside commands, string tables and objects of many entries and objects with vast zero-initialised space; a counting allocator measures the memory held at once during each call, with CPU time and reads after the end of the input; distinct = distinct inputs",
            [SPEC, "in proportion: at most 64 bytes held per byte read or to be written, plus 4 MiB; half a microsecond per byte plus 3 s"],
            ["hostile commands refused at the cost of their bytes", "large commands read in proportion", "large commands written in proportion", "large string tables in proportion", "objects with vast zero-initialised space written", "objects with many entries written in proportion"]),
        ck!("O01", "exploration", o::o01,
            "objects generated through the public interface and by assembling generated programs; the file is judged by an independent strict parser (counts, sizes, alignment, disjointness, segment extent, file end); distinct = distinct objects",
            [SPEC, WORK],
            ["objects written and judged", "sections, tables and regions checked", "objects of programs judged"]),
        ck!("O02", "exploration", o::o02,
            "generated objects; contents, order, names, flags, addresses and sizes of sections in the file compared with the object; distinct = distinct objects",
            [SPEC], ["objects written and judged", "sections compared"]),
        ck!("O03", "exploration", o::o03,
            "generated objects; the symbol table in the file compared entry by entry with the object's symbols; distinct = distinct objects",
            [SPEC, "symbol values do not overflow 64 bits"], ["objects written and judged", "symbols compared"]),
        ck!("O04", "exploration", o::o04,
            "generated objects; the relocation tables in the file compared entry by entry with the object's relocations, and objects with references to missing names; distinct = distinct objects",
            [SPEC], ["objects written and judged", "relocations compared", "references to missing names refused"]),
        ck!("O05", "exploration", o::o05,
            "generated objects and programs given to llvm-readobj and ld64.lld; what they report and the linked image are compared with what was put in; distinct = distinct objects",
            ["llvm-readobj and ld64.lld 18 are the independent consumers", WORK],
            []),
        ck!("O06", "exploration", o::o06,
            "objects and programs (valid, hostile, edge expressions) written again, rebuilt, in other threads, processes, environments and by the unoptimised and optimised builds; distinct = distinct objects and sources",
            [WORK, "two builds: checked arithmetic (dev) and unchecked (release)"],
            ["objects written again, rebuilt, and in other threads: identical", "accepted programs compared across builds, processes, threads", "rejected programs compared across builds and processes"]),
        ck!("O07", "fault_enumeration", o::o07,
            "objects with one symbol, relocation, size or name at or beyond a limit of the format: refused without leaving a complete object, or written as a valid file; contents of 4 GiB are never-touched pages; distinct = distinct objects",
            [SPEC],
            ["refused: symbol outside its section", "refused: relocation outside its section", "refused: relocation width that does not exist", "refused: sections beyond the address space", "refused: contents beyond the file offsets", "refused: name that is not ASCII text", "objects at the edge written"]),
        ck!("O08", "exploration", api::o08,
            "histories of changes to an object (bytes and symbols added, removed, changed in place, written in between), compared with a model after every step and with a freshly made object's file at the end; distinct = distinct histories",
            [],
            ["steps after which the object held exactly its contents", "symbols changed in place", "files of edited objects equal to those of fresh ones"]),
        ck!("A01", "exploration", a::a01,
            "generated programs of instruction lines; the emitted code is decoded and compared line by line; push of boundary values; distinct = distinct source texts",
            [X86, GEN, WORK], ["push number lines decoded", "mov immediate lines decoded", "mov label lines decoded"]),
        ck!("A02", "exploration", a::a02,
            "literals and two-literal expressions in every position (instruction operands, data items of every unit), boundary values, and texts that are no literal or do not fit; distinct = distinct source texts",
            [GEN, WORK, "a leading '+' sign is not tested"],
            ["instruction literals compared", "data literals compared", "literals that do not fit or are none rejected"]),
        ck!("A03", "exploration", a::a03,
            "data lines mixing numbers and strings of every unit, strings of every length 0..n and with separators, comment characters and non-ASCII text; distinct = distinct source texts",
            [GEN, WORK], ["data items compared", "string length and unit combinations"]),
        ck!("A04", "exploration", a::a04,
            "generated programs switching sections back and forth with labels on own lines and before data; section bytes and symbol addresses compared with the source; distinct = distinct source texts",
            [GEN, WORK, "each line's own bytes are taken from assembling it alone"], ["section bytes compared"]),
        ck!("A05", "exploration", a::a05,
            "programs with global declarations before, after, repeated, in other sections; the external bit of every symbol and the rest of the object compared with and without declarations; distinct = distinct source texts",
            [GEN, WORK], ["objects with and without declarations compared"]),
        ck!("A06", "exploration", a::a06,
            "programs with label operands before and after definition; relocations matched to instructions, sections placed at random addresses, relocated code decoded; distinct = distinct source texts",
            [X86, GEN, WORK], ["relocations matched to label operands"]),
        ck!("A07", "fault_enumeration", cli::a07,
            "a valid program with one invalid line of a catalogue of kinds inserted at sampled and boundary positions, given to the real command; exit status, message, and absence of a usable object judged; the program without the line is assembled as control; distinct = distinct source texts",
            [GEN, WORK, "an operand that is neither register nor literal is a label reference: for it, no line number is required"],
            ["invalid programs rejected, nothing usable left", "of them with the line's number", "the same programs without the line assemble"]),
        ck!("A08", "exploration", a::a08,
            "generated programs rendered plainly and with free spacing, comments, blank lines, CRLF and without final line end; objects compared byte by byte; distinct = distinct source texts",
            [GEN, WORK, "white space = space and tab, at the places where the plain form has a space, a line's ends, and around separators"],
            ["spacing variants identical", "comment variants identical", "CRLF variants identical", "free variants identical", "missing final line end identical"]),
        ck!("A09", "exploration", a::a09,
            "hostile byte strings (token soup, damaged programs, random bytes, long lines, many lines, many labels) up to some MiB given to the assembler under CPU-time and memory limits; distinct = distinct inputs",
            [WORK, "inputs up to 3 MiB, with many labels up to 1.2 MiB; 'in proportion' is judged as a generous absolute limit for that size"],
            ["accepted, object well-formed", "failed cleanly"]),
        ck!("A10", "exploration", run::a10,
            "generated whole programs (control flow by push/ret, system calls, data) assembled, linked (own linker or ld64.lld) at random addresses and single-stepped natively with emulated system calls against a source-level interpreter; distinct = distinct source texts",
            [X86, GEN, WORK, "system calls are emulated by the monitor (write, exit); the Mach-O image is placed by the harness"],
            ["programs executed to their end", "source lines executed", "system calls, exits and returns compared"]),
        ck!("A11", "fault_enumeration", cli::a11,
            "the real command in scratch directories with every order of arguments, existing outputs, size limits at chosen bytes, full device, unusable paths, outputs naming the source; the whole directory tree (contents, and identity, owner, permissions and times of everything but the output) is compared before and after, a third of the successful runs are judged by a trace of their system calls, and single reads and writes are made to fail or be interrupted; distinct = distinct (source, situation) pairs",
            [GEN, WORK, "runs as root in a scratch directory the check creates and removes"],
            ["objects written to the path given", "objects written to the default path", "output size limits", "wrong usage and unusable paths rejected", "sources that are not text rejected", "output naming the source refused, source intact"]),
        ck!("A12", "exploration", a::a12,
            "generated programs cut at line ends into pieces with writes in between; every written object compared with that of the text read so far; distinct = distinct (source, cuts, writes)",
            [GEN, WORK], ["final objects equal", "intermediate objects equal", "invalid lines refused under their number in the whole"]),
    ]
}
