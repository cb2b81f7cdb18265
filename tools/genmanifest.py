#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "E01": ("reference-model monitor: independent decoder + native single-stepping", "Every register combination and boundary immediates; decoder cross-checked by the CPU itself."),
 "E02": ("reference-model monitor: independent decoder + native single-stepping", "Every form, register, scale; all displacements in -300..300, powers of two +-2 and random ones."),
 "E03": ("metamorphic monitor: patch the reported field, decode", "Boundary and random immediates of every load-immediate instruction."),
 "E04": ("lockstep trace monitor: ptrace single-step against a sequential machine", "Random instruction sequences; all registers and data windows compared after each step."),
 "E05": ("identity monitor over all registers and encoding roles", "The finite space of registers, widths and roles is enumerated."),
 "E06": ("model-based history monitor", "Random histories over twelve capacities, a model compared after every step."),
 "M01": ("round-trip and layout monitor against an independent serialiser", "All codes and flags, random counts, both byte orders."),
 "M02": ("round-trip and layout monitor against an independent serialiser", "Generated commands alone and in sequences, both byte orders; bounded by generator sizes."),
 "M03": ("round-trip and layout monitor against an independent serialiser", "All kinds and flags, boundary values, one-bit neighbours, both byte orders."),
 "M04": ("fault injection: truncation, contradiction, unknown codes, byte damage", "Every truncation point of generated structures; damage is sampled."),
 "M05": ("history monitor over sequences of additions", "Random sequences with offsets recorded online and read back."),
 "M06": ("fault injection on streams: short, interrupted, failing at each byte", "Failure points enumerated for small outputs, sampled for large ones."),
 "M07": ("boundary-value fault injection: write, then read back", "One value at a time at or beyond its limit."),
 "M08": ("differential monitor: other tools' files read by the library and by an independent reader", "Trusts llvm 18's obj2yaml and yaml2obj; generated files in both byte orders."),
 "M09": ("exhaustive conversion of small numbers; history monitor over sets", "Numbers below 0x1200, powers of two, neighbours and random ones; random additions to sets."),
 "M10": ("resource monitor: counting allocator, processor time, reads after the end of input", "Announced numbers sampled; generous constants (4 MiB + 64 times the bytes read)."),
 "O01": ("structural monitor: independent strict Mach-O parser", "Generated objects and objects of generated programs."),
 "O02": ("structural monitor: independent parser against the object", "Generated objects."),
 "O03": ("structural monitor: independent parser against the object", "Generated objects, including symbols of byte-less sections and at section ends."),
 "O04": ("structural monitor: independent parser against the object", "Generated objects, including references to missing names."),
 "O05": ("differential monitor: llvm-readobj and ld64.lld as consumers", "Trusts llvm 18 tools; generated objects and programs."),
 "O06": ("differential monitor across builds, processes, threads, environments", "Checked and unchecked build of the same sources."),
 "O07": ("boundary-value fault injection on whole objects", "One limit at a time, both sides; 4 GiB objects are refused before any byte is touched."),
 "O08": ("model-based history monitor; files of edited and fresh objects compared", "Random histories of changes, a model compared after every step."),
 "A01": ("reference-model monitor: decode the code of generated programs", "Generated lines with known meaning."),
 "A02": ("reference-model monitor: literal values", "Boundary and random literals in all positions; invalid ones must be rejected."),
 "A03": ("reference-model monitor: data bytes", "Generated data lines, all units, string lengths enumerated."),
 "A04": ("reference-model monitor: section contents and label addresses", "Generated programs; a line's own bytes are taken from assembling it alone."),
 "A05": ("metamorphic monitor: with and without declarations", "Generated programs."),
 "A06": ("reference-model monitor: relocate and decode", "Generated programs, random section placement."),
 "A07": ("fault injection: one invalid line in a valid program, real command", "A catalogue of kinds of invalid lines; control run without the line."),
 "A08": ("metamorphic monitor: renderings of one program", "Spacing, comments, blank lines, CRLF, final newline."),
 "A09": ("fuzzing under resource limits with a structural oracle", "Inputs up to a few MiB, made of labels up to 1.2 MiB."),
 "A10": ("lockstep trace monitor: run the linked program against a source interpreter", "System calls emulated by the monitor; native single-stepping."),
 "A11": ("fault injection around and below the real command (failing system calls), directory snapshots, system-call traces", "Argument orders, size limits at chosen bytes, failing and interrupted reads and writes, full device, unusable paths, links, outputs naming the source."),
 "A12": ("history monitor: pieces and writes against the whole", "Generated programs, cuts and write points."),
}
FE = {"M04", "M06", "M07", "O07", "A07", "A11"}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
assert set(ids) == set(T), set(ids) ^ set(T)
m = {"version": 1, "setup_cmd": "bash build.sh",
     "checks": [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                 "technique": "runtime monitoring: " + T[i][0],
                 "level": "fault_enumeration" if i in FE else "exploration", "level_note": T[i][1] + " Holds on what was executed; not a proof."} for i in ids],
     "not_applicable": [],
     "notes": "No hooks in /repo: every monitor works through public interfaces, the command itself, and its outputs."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
