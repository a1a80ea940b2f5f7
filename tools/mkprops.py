#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechs, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechs]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("R01", "Loading a ROM is all-or-nothing and byte-faithful under I/O faults",
 "Loading a ROM file either fails with an error or yields a ROM whose reads return, for every 24-bit address and every length, exactly the bytes the file holds at the image offsets that the LoROM/HiROM/ExHiROM map assigns to the successive bank-wrapped addresses (after skipping a 512-byte copier header when the file size has one), or an error as soon as one of those addresses is unmapped or past the end of the image. No sequence of open, seek, size or read failures, short reads or concurrent truncation may produce a crash or a ROM holding a byte the file did not hold; when no call fails (short reads included) a well-formed image must load. Files whose size is not a whole number of 4 KiB pages (plus optional 512-byte header), whose image is under 64 KiB, or for which not exactly one of the LoROM and HiROM header checksum pairs is complementary are refused; HiROM images over 4 MiB are mapped as ExHiROM (address bit 23, inverted, selects the upper half).",
 ["fault_sequences", "inputs"],
 "every ROM image, every sequence of results of open/seek/tell/read calls during the load, every later read address and length",
 "No stable test opens a file at all; rom.cc has no test. A test could only sample one healthy disk, never a short read, a failed seek or a file that shrinks mid-load.",
 ["nsasm/rom.cc", "nsasm/rom.h", "nsasm/memory.cc"],
 [("load, size check, header skip, mapping detection", "nsasm/rom.cc LoadRomFile"), ("address map", "nsasm/rom.cc SnesToROMAddress"), ("wrapped reads", "nsasm/rom.cc Rom::Read; nsasm/memory.cc ReadByte/ReadWord/ReadLong")],
 [{"name": "ROM image", "where": "nsasm/rom.h Rom::data_, header_, mapping_mode_"}] and None, None)

prop("R02", "Writing a ROM reports success only when the file is complete on disk",
 "When writing out a patched ROM reports success, the file at the given path holds exactly the source file's copier header (if it had one) followed by the complete patched image and nothing else, whatever short or interrupted writes happened on the way. Every failure to open, write, flush or close the file (other than an interrupted call that is retried successfully) is reported as an error and never as success, and no file other than the given path is changed. When no call fails (short writes included) the write-out succeeds.",
 ["fault_sequences"],
 "every sequence of results of open/write/flush/close calls (full disk, I/O error, short and interrupted writes, error only at close) during write-out, every header/no-header source",
 "No test writes a ROM. A full disk or a deferred error at close cannot be produced by the unit tests.",
 ["nsasm/rom.cc"],
 [("write-out", "nsasm/rom.cc RomOverwriter::CreateFile")])

prop("R03", "A patched ROM equals its source plus exactly the accepted writes, in order",
 "After any sequence of writes to a ROM overwriter, each byte of the image that it writes out equals the last value stored at that image offset by an accepted write, or the source ROM's byte if there was none. A write whose bank-wrapped address range is wholly inside the mapped image is accepted and stores every byte at its own address; a write touching an unmapped or past-the-end address is refused with an error, never crashes or grows the image, and may have stored at most the bytes that precede the first bad address. Loading the written file back yields the same image, so applying patches in several sessions with process kills and reloads in between equals applying the acknowledged ones in order.",
 ["histories", "fault_sequences", "crash_points"],
 "every history of accepted and refused writes at any 24-bit address and length, interleaved with write-outs, I/O failures, process kills and reloads",
 "The overwriter is not covered by any test; bounds and wrap behaviour depend on the whole history of writes and on the ROM mapping, not on one example.",
 ["nsasm/rom.cc", "nsasm/rom.h"],
 [("patching", "nsasm/rom.cc RomOverwriter::Write"), ("construction from the source ROM", "nsasm/rom.h RomOverwriter ctor"), ("write-out", "nsasm/rom.cc RomOverwriter::CreateFile")])

prop("R04", "Every file that is opened is closed again on every path",
 "After loading a ROM, writing out a ROM, or reading a source file returns -- with success or with any error -- no file it opened is still open. This holds whichever of the open, seek, read, write and close calls failed, so any number of failed attempts leaves the process able to open files.",
 ["fault_sequences"],
 "every sequence of I/O call results in LoadRomFile, RomOverwriter::CreateFile and OpenFile",
 "Leaks happen only on error returns that no test can reach; nothing observes the descriptor table.",
 ["nsasm/rom.cc", "nsasm/file.cc"],
 [("manual fclose on each return", "nsasm/rom.cc LoadRomFile, RomOverwriter::CreateFile"), ("ifstream lifetime", "nsasm/file.cc OpenFile")])

prop("R05", "Input files are never modified and a failed or killed run can be repeated",
 "Patching a ROM (load the source ROM, assemble or write patches over it, write out to another path) never modifies, truncates, creates or removes any file other than the output path, at any point, under any I/O failure or process kill. Until the write-out step starts the output path is untouched as well, so a run that fails to load or assemble leaves a previous output intact. Running the same job again without faults after any number of failed or killed attempts produces the complete, correct output.",
 ["crash_points", "fault_sequences"],
 "every I/O failure and every kill point (between any two I/O effects, partial writes included) in a patch job, followed by any number of further faulted attempts and one clean one",
 "Tests never kill a run and never look at the file system.",
 ["nsasm/rom.cc", "nsasm/file.cc", "util/quick_assemble.cc"],
 [("read-only open of inputs", "nsasm/rom.cc LoadRomFile; nsasm/file.cc OpenFile"), ("single output file", "nsasm/rom.cc RomOverwriter::CreateFile")])

prop("R06", "The ROM identity check accepts exactly the writes that match the ROM",
 "A write to a ROM identity sink succeeds if and only if every byte equals the byte that the loaded ROM holds at the corresponding bank-wrapped address; a mismatch at any position, or any unmapped or past-the-end address, is an error and never a crash, and the error for a mismatch gives the first address that differs. The verdict of one write does not depend on the writes before it, and the ROM is not changed by any of them.",
 ["histories", "inputs"],
 "every ROM, every history of writes (any address, length, single flipped byte position, bank wrap) to one sink",
 "No test uses the identity sink; the verdict must hold for every position and history, not for a sampled one.",
 ["nsasm/rom.cc"],
 [("byte comparison", "nsasm/rom.cc RomIdentityTest::Write"), ("wrapped reads", "nsasm/rom.cc Rom::Read")])

prop("R07", "Memory claims are exclusive and lookups agree with the claims accepted",
 "For every sequence of byte-range claims on a data range, each claim reports success exactly when none of its (bank-wrapped) bytes had been claimed before, and afterwards the range contains exactly the union of all bytes claimed so far. A range map accepts an insertion exactly when it overlaps no accepted insertion; a refused insertion changes nothing; lookup and containment answer, for every address, with the value of the one accepted insertion covering it, or nothing. The chunks a data range lists are in ascending order, non-empty, and cover exactly its bytes.",
 ["histories", "schedules"],
 "every history of claims and insertions by any number of claimants in any order, any 24-bit location and any length from 0 up to a whole bank",
 "The stable tests pin a handful of hand-written merges; the merge logic depends on the entire earlier history of chunks.",
 ["nsasm/ranges.cc", "nsasm/ranges.h"],
 [("claim and merge", "nsasm/ranges.cc DataRange::ClaimBytes"), ("membership", "nsasm/ranges.cc DataRange::Contains"), ("exclusive map", "nsasm/ranges.h RangeMap::Insert, Lookup")])

prop("R08", "Independent jobs in one process do not affect each other",
 "Jobs that share no objects -- each assembling its own files into its own sink, disassembling its own ROM, loading its own ROM file, or using its own claim maps -- produce, under every interleaving of their execution, exactly the results each produces when run alone, including generated label names and errors. In particular one job's failure, or its being stalled or abandoned at any point outside one-time initialisation, changes nothing for the others.",
 ["schedules", "fault_sequences"],
 "every interleaving (preemption at any basic block and any I/O call) of 2-4 independent jobs, with failing sinks, sources and disks in some of them",
 "All tests are single-threaded and run one job at a time.",
 ["nsasm/parse.cc", "nsasm/token.cc", "nsasm/mnemonic.cc", "nsasm/opcode_map.cc", "nsasm/directive.cc", "nsasm/disassemble.h", "nsasm/assembler.h", "nsasm/rom.cc"],
 [("function-local static tables", "nsasm/mnemonic.cc, nsasm/opcode_map.cc, nsasm/directive.cc, nsasm/token.cc"), ("per-object symbol counter", "nsasm/disassemble.h Disassembler::current_sym_")])

prop("R09", "quick_dump prints exactly the requested ROM contents or fails",
 "For a ROM path, a 24-bit hex address, and a positive count (with optional stride 1-3 and entries per line), quick_dump exits 0 only after printing an .org line for the address followed by exactly the requested number of little-endian entries of the ROM, in address order with bank wrap. Any I/O failure while loading, an address that is not a hex number of at most 24 bits, a count, stride or line length that is not a number, or any entry touching an unmapped or past-the-end address, makes it print a diagnostic and exit nonzero without printing any dump lines; it never crashes. If its output cannot be written completely (a full disk), it exits nonzero.",
 ["fault_sequences", "inputs"],
 "every fault sequence during the load, every address/count/stride/per-line combination",
 "The tool has no test; its error paths need failing I/O or unmapped addresses.",
 ["util/quick_dump.cc", "nsasm/memory.cc", "nsasm/rom.cc"],
 [("dump loop", "util/quick_dump.cc main"), ("little-endian reads", "nsasm/memory.cc InputSource::ReadByte/ReadWord/ReadLong")])

prop("A01", "A failed output write fails the assembly, and nothing is written after it",
 "If any write to the output sink returns an error, assembling returns that error (with its message intact) and makes no further write to the sink. When assembling returns success every write it made was accepted. The writes made before the failure are exactly the first ones of the fault-free run.",
 ["fault_sequences", "programs"],
 "every program, every position of the first failing sink write (including several failing writes)",
 "Tests use a sink that never fails except on duplicates; failing at the k-th write for every k is a fault dimension.",
 ["nsasm/assembler.cc", "nsasm/module.cc", "nsasm/statement.cc", "nsasm/instruction.cc", "nsasm/directive.cc"],
 [("error propagation", "nsasm/module.cc Module::Assemble; nsasm/instruction.cc Instruction::Assemble; nsasm/directive.cc Directive::Assemble; nsasm/error.h NSASM_RETURN_IF_ERROR")])

prop("A02", "The assembled result does not depend on file order, hash order or reruns",
 "Assembling the same set of source files gives the same outcome -- success or failure, and on success the same bytes at the same addresses, the same jump targets with the same states, and the same value for every exported name -- whatever order the files are given in, whatever the process's hash-table iteration order and memory layout, and however often it is repeated, including after failed attempts. For a fixed file order, also the exact sequence of sink writes and the error text are the same in every run.",
 ["schedules", "programs", "configurations"],
 "every multi-file program with cross-file names and .equ dependencies, every permutation of its files, every hash seed and allocation pattern, any number of earlier attempts",
 "A test sees one order and one process hash seed; hash-order dependence shows only across seeds.",
 ["nsasm/assembler.cc", "nsasm/module.cc", "nsasm/identifiers.h"],
 [("dependency ordering", "nsasm/assembler.cc Assembler::FindAssemblyOrder"), ("hash maps of names", "nsasm/assembler.h name_to_module_map_; nsasm/module.h global_to_line_, scoped_locals, address_to_global_")])

prop("A03", "Assembled code executes on the 65816 exactly as the source lines say",
 "For every program the assembler accepts, executing the emitted bytes on a 65816 from any of its .entry points, with any initial flags that match the .entry declaration and any outcome of each conditional branch, decodes at every step exactly the instruction of the corresponding source line: same operation, operand width, operand value and branch target. Flag state declared by the source (.entry, .mode, yields) is taken as true, calls that declare nothing are taken to preserve the flags; programs that manipulate the stack other than by push, pull, call and interrupt-free return instructions are outside this claim.",
 ["schedules", "programs"],
 "every accepted program, every schedule of branch outcomes and every initial flag state allowed by the entry point, i.e. every path through the program",
 "Unit tests assemble fixed snippets and compare bytes; whether operand widths are right depends on all paths that reach a line and on the flags along them.",
 ["nsasm/module.cc", "nsasm/instruction.cc", "nsasm/execution_state.h", "nsasm/directive.cc", "nsasm/opcode_map.cc", "nsasm/addressing_mode.cc"],
 [("static flag analysis", "nsasm/module.cc Module::RunFirstPass; nsasm/instruction.cc Instruction::Execute"), ("abstract state and stack", "nsasm/execution_state.h"), ("encoding", "nsasm/instruction.cc Instruction::Assemble; nsasm/opcode_map.cc EncodeOpcode")])

prop("A04", "Assembling and disassembling always terminate, with a result or an error",
 "For every source text and for every ROM content, assembling and disassembling finish within a number of steps bounded by a low polynomial of the input size and return either a result or an error: they never loop forever, crash, or trip an internal assertion. This includes ill-formed and truncated sources, numbers outside the 24-bit range, code that pulls more than it pushes, and loops whose processor state keeps changing from pass to pass.",
 ["programs", "inputs", "fault_sequences"],
 "every source file (including truncated or corrupted ones as left by a torn write or flipped stored bytes) and every ROM image and entry state",
 "Non-termination and assertion failures need unusual loops, stack shapes or values; the tests contain only well-formed snippets.",
 ["nsasm/module.cc", "nsasm/disassemble.cc", "nsasm/execution_state.h", "nsasm/address.h", "nsasm/parse.cc", "nsasm/token.cc"],
 [("work-list iteration with state merging", "nsasm/module.cc Module::RunFirstPass; nsasm/disassemble.cc Disassembler::Disassemble"), ("merge lattice", "nsasm/execution_state.h operator|")])

prop("A05", "Nothing is written twice and the assembler's answers match what was written",
 "When assembling succeeds, the sink received every byte of every statement exactly once, at the address that .org and statement sizes (with bank wrap) assign to it, and no other byte; two statements or files claiming the same byte make assembling fail. Afterwards the assembler reports an address as assembled if and only if a byte was written there, names an address only with a label exported at that address, and lists exactly the program's numeric jump and call targets and its .remote targets outside assembled memory, each with a flag state covering every use; it lists a way to return (yields, noreturn) for exactly the .entry and .remote addresses declared with one, and as declared there. In a named module every address with an exported label has a name.",
 ["programs", "histories"],
 "every multi-file program: any placement, overlap, bank wrap and order of statements",
 "Tests compare a few fixed byte listings and never query the result; overlap and coverage depend on the whole program layout.",
 ["nsasm/assembler.cc", "nsasm/module.cc", "nsasm/ranges.cc"],
 [("layout", "nsasm/module.cc Module::RunFirstPass"), ("claims", "nsasm/module.cc owned_bytes_; nsasm/assembler.cc memory_module_map_"), ("queries", "nsasm/assembler.h Contains; nsasm/assembler.cc NameForAddress, JumpTargets")])

prop("A06", "Correct programs assemble, and an error names the file and line that is wrong",
 "A program that obeys the rules of the language is accepted, whatever the order of its files and however their lines are spelled, terminated and delivered by the disk. A program with one mistake -- a malformed statement, operand or directive anywhere; a name defined twice in a scope or in two files of a module, or not defined; a branch to a value, into another scope or out of reach; an address outside 24 bits or missing; code that nothing leads to, that runs into data, .org or the end of the file, or whose operand width is unknown or contradicts its suffix; overlapping statements of a file; a division by zero; values that need each other; unbalanced scopes; a second .module -- is refused, and the error starts with the path and the line of the faulty statement (of either definition, for a name defined in two files).",
 ["programs", "inputs", "schedules"],
 "every correct multi-file program and every way of putting one of these mistakes at any place in it, every order of files, every pattern of short reads",
 "Tests check that a few bad statements fail to parse; that no correct program is refused and that every later pass still points at the right line is over all programs.",
 ["nsasm/parse.cc", "nsasm/token.cc", "nsasm/module.cc", "nsasm/assembler.cc", "nsasm/error.h", "nsasm/location.h", "nsasm/file.cc"],
 [("locations of statements", "nsasm/module.cc LoadAsmFile; nsasm/parse.cc Parse"), ("checks of the first pass", "nsasm/module.cc Module::RunFirstPass"), ("errors of later passes", "nsasm/module.cc RunSecondPass, Assemble; nsasm/assembler.cc FindAssemblyOrder")])

prop("D01", "A failed disassembly step changes nothing; a retry behaves as if it never ran",
 "If disassembling from an entry point fails -- because the source could not be read at any point, or because the code is not decodable in that state -- the disassembler's result is exactly what it was before the call, and the failing read's error is what is reported. Continuing afterwards, including retrying the same entry point once the source is readable again, gives exactly the result (instructions, states, labels, entry marks and jump targets) of a history in which the failed call never happened.",
 ["fault_sequences", "histories"],
 "every sequence of disassembly requests with a read failure at any read of any of them, followed by any continuation and final clean-up",
 "Nothing tests the disassembler; failing the k-th read for every k is a fault dimension and equality of continuations is over histories.",
 ["nsasm/disassemble.cc", "nsasm/disassemble.h"],
 [("staged result map", "nsasm/disassemble.cc new_disassembly"), ("persistent state", "nsasm/disassemble.h disassembly_, entry_points_, current_sym_")])

prop("D02", "Disassembly covers every instruction the CPU can execute, with its true width",
 "Follow all reported far jump targets with their reported states until none are new: then, for any execution of the ROM on a 65816 from the requested entry points with flags matching the requested states, any outcome of each conditional branch, and calls that preserve the m and x flags or follow the declared return convention, every instruction reached is present in the disassembly with the operation, length and operand the CPU sees there. At each of them the reported flags before and after it and the suffix it is shown with are consistent with the actual ones. (Its own bytes are enough to decode it, and fewer are refused.) Code that manipulates the stack other than by push, pull, call and return instructions, self-modifying code and indirect jump targets are outside this claim.",
 ["schedules", "inputs"],
 "every ROM whose disassembly succeeds, every schedule of branch outcomes and every matching initial flag state",
 "Soundness is over all execution paths; no test disassembles anything.",
 ["nsasm/disassemble.cc", "nsasm/instruction.cc", "nsasm/execution_state.h", "nsasm/decode.cc", "nsasm/opcode_map.cc"],
 [("work list and merging", "nsasm/disassemble.cc Disassembler::Disassemble"), ("abstract execution", "nsasm/instruction.cc Instruction::Execute"), ("decode", "nsasm/decode.cc Decode")])

prop("D03", "Disassemble, print and reassemble reproduces the ROM bytes or reports an error",
 "When a disassembly (after clean-up, pseudo-instruction folding and label naming) is printed as source text and that text is assembled at the same addresses, the result is byte-identical to the ROM or assembling reports an error; it never silently produces different bytes. A listing without PER, overlapping instructions or code that wraps around a bank, whose entry states can all be named, does assemble. Clean-up only names labels, shows jumps and calls to entries of the listing by name, and folds CLC/ADC and SEC/SBC where they follow each other and nothing jumps between them. This holds for disassemblies built in any order and number of steps, including steps that failed because of read faults and were retried, and when the text is stored in a file and read back by a restarted process.",
 ["histories", "fault_sequences", "crash_points"],
 "every ROM, every history of disassembly steps with read faults, every crash and restart between disassembling and reassembling",
 "The round trip through text needs disassembler, printer, parser and assembler together on arbitrary code; no test does that.",
 ["nsasm/disassemble.cc", "nsasm/instruction.cc", "nsasm/expression.cc", "nsasm/parse.cc", "nsasm/module.cc", "nsasm/rom.cc"],
 [("labels, suffixes, folding", "nsasm/disassemble.cc Disassemble, Cleanup"), ("printing", "nsasm/instruction.cc Instruction::ToString"), ("identity check", "nsasm/rom.cc RomIdentityTest::Write")])

prop("S01", "Reading a source file is all-or-nothing: every line, or an error",
 "Reading a source file either reports an error or returns exactly the lines of the file, in order and unaltered (a final line without newline included). An open failure or a read error at any point, also after many successful reads, makes it an error -- never a silently shortened file; short reads do not change the result. Assembling a program therefore never uses a truncated source because of an I/O error.",
 ["fault_sequences"],
 "every source file (any length, any line lengths, with and without final newline), every sequence of open/read results",
 "No test opens a source file; a mid-file read error cannot be produced by them.",
 ["nsasm/file.cc"],
 [("stream reading and error check", "nsasm/file.cc OpenFile")])

prop("T01", "quick_assemble exits 0 only if the patched ROM was completely written",
 "quick_assemble with an input ROM, source files and an output path exits 0 only if every source was completely read and assembled and the output file (which may be the input ROM itself) holds exactly the input ROM with the assembled bytes in place. With - as output path it changes no file and exits 0 only if the ROM holds every assembled byte already, listing each jump target of the program once with its state; a path ending in .asm is refused as output path. Every failure -- reading the ROM or any source, assembling, or opening, writing or closing the output -- gives a nonzero exit with a diagnostic and never a crash, and a failure before the output is opened leaves a previous output file untouched. If what it prints cannot be written completely (standard output on a full disk), it exits nonzero.",
 ["fault_sequences", "programs"],
 "every fault sequence over the run of the tool's own main(), every set of sources",
 "The tool has no test; exit status under failing I/O is over fault sequences.",
 ["util/quick_assemble.cc", "nsasm/rom.cc", "nsasm/file.cc", "nsasm/assembler.cc"],
 [("tool main", "util/quick_assemble.cc main"), ("write-out", "nsasm/rom.cc RomOverwriter::CreateFile")])

prop("D04", "What a disassembly finds does not depend on the order of the requests",
 "Requesting the same entry points in any order, following the reported jump targets in any order until none are new, with any failed attempts in between and any hash-table order, gives the same result wherever all of it succeeds: the same instructions at the same addresses with the same labels, the same entry marks and the same set of jump targets. States reported for the same place never contradict each other (which of them are known may depend on the order).",
 ["histories", "fault_sequences", "schedules"],
 "every ROM whose closure disassembles, every order of entry points and jump targets, every failed attempt in between, every hash seed",
 "Order independence quantifies over permutations of a history; nothing tests the disassembler at all.",
 ["nsasm/disassemble.cc", "nsasm/disassemble.h"],
 [("revisiting with merged states", "nsasm/disassemble.cc Disassembler::Disassemble"), ("naming in address order", "nsasm/disassemble.cc Disassembler::Cleanup")])

prop("T02", "quick_disassemble and disassemble_more print a faithful listing or fail",
 "quick_disassemble (ROM, entry addresses with modes, @ for an address stored in the ROM) and disassemble_more (ROM and sources that must match it) exit 0 only if the ROM and every source were completely read, and what they print is then the same as without any fault; assembling the printed listing reproduces the ROM's bytes or is refused. quick_disassemble lists what is reached from exactly the requested addresses in the requested modes (an address given twice is entered in both) and from the jump targets found on the way; disassemble_more accepts its sources exactly when they assemble to what the ROM holds, and lists what is reached from their jump targets outside them. Listings without PER, overlapping instructions or code that wraps around a bank do assemble. Every failed open or read, a malformed ROM, a malformed address or one without a mode, an unmapped @ address, an unknown mode or a mismatching source gives a nonzero exit with a diagnostic and no listing; they never crash and never change a file. If the listing cannot be written completely (standard output on a full disk), they exit nonzero.",
 ["fault_sequences", "inputs"],
 "every fault sequence over the run of each tool's own main(), every ROM, every list of addresses and modes, every set of sources",
 "The tools have no test; their error paths need failing I/O.",
 ["util/quick_disassemble.cc", "util/disassemble_more.cc", "nsasm/disassemble.cc", "nsasm/rom.cc"],
 [("tool mains", "util/quick_disassemble.cc main; util/disassemble_more.cc main"), ("merging of targets", "util/quick_disassemble.cc CombineStates"), ("identity check of sources", "nsasm/rom.cc RomIdentityTest")])

prop("T03", "dumb_disassemble prints the ROM's instructions in order with states that hold, and always ends",
 "For a ROM, a 24-bit hex address and a mode, dumb_disassemble prints the instruction the ROM holds at that address in that mode and then, without gaps, each following one (wrapping within the bank), until an exit instruction (jmp, bra, brl, rts, rtl, rti, stp) that no branch printed so far leads past, or until the whole bank has been shown. The mode printed with an instruction is one every execution that runs the printed instructions one after the other has afterwards; behind an exit instruction that is the state of the latest printed branch to there, as it is when that branch is taken (after bcc with the carry clear, after bcs with it set). What is known about the mode is not forgotten except by plp, xce and rep/sep. Relative branches are shown with the address they lead to and whether it was seen before. (The stack is not followed across txs and tcs; calls are taken to preserve the mode.) It exits 0 only after such a complete listing; when the four bytes from an instruction on are not all mapped, or its size depends on an unknown flag, it says so and exits nonzero. A malformed ROM, address or mode or any failed open or read gives a nonzero exit with a diagnostic; it always ends, never crashes and changes no file. If the listing cannot be written completely (standard output on a full disk), it exits nonzero.",
 ["fault_sequences", "inputs"],
 "every fault sequence over the run of the tool's own main(), every ROM, address and mode",
 "The tool has no test; loops, modes and error paths depend on arbitrary ROM contents and failing I/O.",
 ["util/dumb_disassemble.cc", "nsasm/decode.cc", "nsasm/instruction.cc", "nsasm/execution_state.h", "nsasm/rom.cc"],
 [("tool main", "util/dumb_disassemble.cc main"), ("decoding", "nsasm/decode.cc Decode"), ("states", "nsasm/instruction.cc Instruction::Execute, ExecuteBranch")])

prop("T04", "interactive_parse answers every line by itself, in order, and ends with the input",
 "However the typed lines arrive and wherever the input ends or fails, interactive_parse answers each line, in order and before it waits for the next, exactly as in a session of its own: no line changes the answer to another, none is lost or answered twice, a last line without line end is answered too, and the program ends with exit code 0 once the input has ended; it never crashes or hangs. A well-formed line is answered with each of its labels and statements in order, a statement with its mnemonic, suffix, operand form, numbers in the size they were written, names, mode and return convention as they were given; entering that answer gives the same answer again (unless it contains operators). A line with an error anywhere in it is answered with one diagnostic and nothing else; an empty line or a comment with nothing.",
 ["histories", "fault_sequences", "inputs"],
 "every history of lines, every division of the input into pieces, every point at which it ends or fails",
 "The tool has no test; independence between lines is a statement about histories, and tests of the parser look at single results of fixed lines.",
 ["util/interactive_parse.cc", "nsasm/parse.cc", "nsasm/token.cc", "nsasm/statement.cc", "nsasm/instruction.cc", "nsasm/directive.cc", "nsasm/expression.cc"],
 [("tool main", "util/interactive_parse.cc main"), ("parsing", "nsasm/parse.cc Parse"), ("printing", "nsasm/instruction.cc Instruction::ToString, nsasm/directive.cc Directive::ToString")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
