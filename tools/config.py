"""Per property: build profile, budgets, and what its evidence says about itself."""

STUB_IO = ["simulated disk behind fopen/open/read/write/lseek/stat/close/rename/unlink/mmap",
           "clock, pid and random bytes (functions of the step count)",
           "C++ heap (deterministic addresses, canaries)"]
SCHED = ["fiber scheduler switching at instrumented basic blocks and I/O calls"]
ROM_REAL = ["nsasm/rom.cc", "nsasm/rom.h", "nsasm/memory.cc", "nsasm/error.cc", "nsasm/address.h",
            "system Abseil and libstdc++, glibc stdio buffering"]
ASSUME = ["compiled with g++ -O1 and basic-block instrumentation instead of -O0",
          "the simulated disk fails calls as Linux may: errno results, short transfers, data lost at a "
          "failing close, kill at any call; it does not reorder or lose acknowledged writes"]

ASM_REAL = ["all of nsasm/*.cc and *.h", "patched Abseil headers with the system's libabsl, libstdc++"]
STUB_ASM = ["output sink (records, refuses chosen writes)", "hash seed of Abseil tables",
            "C++ heap (deterministic addresses, canaries)"]
STUB_DIS = ["input source (holds the generated image, fails chosen reads)", "processor (opcode table and flag behaviour written from its documentation)"] + STUB_ASM[1:]
ASSUME_ASM = ASSUME[:1] + ["Abseil configured for std::string_view, std::optional and std::variant, as the project's "
                           "own build is; a few library functions are replaced by equivalents"]

CONFIG = {
    "R01": dict(
        profiles=["stock"], quick_runs=[18000],
        rule="ROM file (LoROM/HiROM/ExHiROM, with and without header, well-formed or damaged) and an I/O fault "
             "plan are generated; load; compare all 512 half-banks and random reads with a reference map.",
        real=ROM_REAL, stub=STUB_IO, assumptions=ASSUME,
        probes=["read:EIO", "read:EINTR", "open-read:ENOENT", "seek:EIO", "read:short",
                "read:concurrent-resize", "load refused", "torn-file", "stored-bit-flip"]),
    "R02": dict(
        profiles=["stock"], quick_runs=[36000],
        rule="Load, patch, then write out one to three times under write faults; success is compared with the bytes on the simulated disk.",
        real=ROM_REAL, stub=STUB_IO, assumptions=ASSUME,
        probes=["write:ENOSPC", "write:EIO", "write:short", "close:ENOSPC", "open-write:EACCES", "write-out ok",
                "write-out refused"]),
    "R03": dict(
        profiles=["stock"], quick_runs=[15000],
        rule="Several sessions of writes, write-outs, kills and reloads against a byte-array model.",
        real=ROM_REAL, stub=STUB_IO, assumptions=ASSUME,
        probes=["write:kill", "close:kill", "refused write", "accepted write wraps a bank",
                "killed during write-out"]),
    "R06": dict(
        profiles=["stock"], quick_runs=[36000],
        rule="Sequences of matching, bit-flipped and out-of-range writes to an identity sink over a loaded ROM.",
        real=ROM_REAL, stub=STUB_IO, assumptions=ASSUME, probes=["flipped-byte-in-write"]),
    "R07": dict(
        profiles=["stock"], quick_runs=[180000],
        rule="Seeded schedules of claims by several claimants on shared ranges and maps against an interval-set model.",
        real=["nsasm/ranges.cc", "nsasm/ranges.h", "nsasm/address.h", "system Abseil btree and libstdc++"],
        stub=["C++ heap (deterministic addresses, canaries)"],
        assumptions=ASSUME[:1],
        probes=["claim wraps a bank", "claim conflicts", "insertion refused"]),
    "R09": dict(
        profiles=["stock"], quick_runs=[30000],
        rule="quick_dump's main is run on a generated ROM file under read faults; its output is parsed and compared.",
        real=ROM_REAL + ["util/quick_dump.cc"], stub=STUB_IO, assumptions=ASSUME,
        probes=["stdout:no-space", "dump printed", "dump refused", "read:EIO", "read:short"]),
    "R04": dict(
        profiles=["stock", "std"], quick_runs=[45000, 15000],
        rule="Sequences of loads and write-outs under I/O faults at any call; open files are counted after each.",
        real=ROM_REAL, stub=STUB_IO, assumptions=ASSUME,
        probes=["load refused", "write-out refused", "load ok", "write-out ok", "read:EIO", "seek:EIO", "write:ENOSPC"]),
    "R05": dict(
        profiles=["stock", "std"], quick_runs=[36000, 9000],
        rule="The patching job is attempted under faults and kills, then run cleanly; the whole disk is compared.",
        real=ROM_REAL, stub=STUB_IO, assumptions=ASSUME,
        probes=["failed before write-out", "killed during write-out", "write:kill", "close:kill"]),
    "R08": dict(
        profiles=["stock", "std"], quick_runs=[30000, 9000],
        rule="Two to four jobs are run alone and interleaved at basic-block granularity; what each observed is compared.",
        real=ROM_REAL, stub=STUB_IO + SCHED, assumptions=ASSUME,
        probes=["job stalled for ever", "context switches", "read:planned"]),
    "A01": dict(
        profiles=["std"], quick_runs=[60000],
        rule="Generated programs are assembled into a sink whose k-th write is refused.",
        real=ASM_REAL, stub=STUB_ASM, assumptions=ASSUME_ASM, probes=["output sink write refused"]),
    "A02": dict(
        profiles=["std"], quick_runs=[40000],
        rule="Generated programs are assembled again in other file orders, hash orders, heap layouts and after failed attempts.",
        real=ASM_REAL, stub=STUB_ASM, assumptions=ASSUME_ASM,
        probes=["source files permuted", "program accepted", "program refused"]),
    "A03": dict(
        profiles=["std"], quick_runs=[100000],
        rule="Generated programs are assembled; a simulated 65816 executes the bytes in lockstep with the source lines, "
             "with seeded flags, memory contents and branch outcomes.",
        real=ASM_REAL, stub=STUB_ASM, assumptions=ASSUME_ASM,
        probes=["program accepted", "instructions executed in lockstep"]),
    "A04": dict(
        profiles=["std"], quick_runs=[120000],
        rule="Hostile and mutated sources are assembled and arbitrary ROMs disassembled under a step budget.",
        real=ASM_REAL, stub=STUB_ASM, assumptions=ASSUME_ASM,
        probes=["hostile source accepted", "hostile source refused"]),
    "A05": dict(
        profiles=["std"], quick_runs=[80000],
        rule="Bytes written, Contains, NameForAddress and JumpTargets of generated programs against a model of the language.",
        real=ASM_REAL, stub=STUB_ASM, assumptions=ASSUME_ASM,
        probes=["program accepted", "jump target listed"]),
    "A06": dict(
        profiles=["std"], quick_runs=[120000],
        rule="Rule-abiding generated programs are assembled as they are and with one mistake put in; acceptance and the place named by the error are checked.",
        real=ASM_REAL + ["nsasm/file.cc"], stub=STUB_IO + STUB_ASM[:2], assumptions=ASSUME_ASM,
        probes=["correct program accepted", "mistake located", "sources read from disk", "read:short"]),
    "S01": dict(
        profiles=["std"], quick_runs=[80000],
        rule="Source files of many shapes are read through OpenFile under open and read faults, alone and as the input of an assembly.",
        real=ASM_REAL + ["nsasm/file.cc", "libstdc++ file streams"], stub=STUB_IO, assumptions=ASSUME,
        probes=["source refused", "source read", "read:EIO", "read:short", "open-read:EMFILE"]),
    "T01": dict(
        profiles=["std"], quick_runs=[48000],
        rule="quick_assemble's main is run on the simulated disk under faults, then cleanly.",
        real=ASM_REAL + ["nsasm/file.cc", "nsasm/rom.cc", "util/quick_assemble.cc"], stub=STUB_IO, assumptions=ASSUME,
        probes=["stdout:no-space", "exit 0", "exit nonzero", "write:ENOSPC", "close:ENOSPC", "read:EIO", "open-write:EACCES"]),
    "D01": dict(
        profiles=["std"], quick_runs=[100000],
        rule="Histories of disassembly calls, some with failing reads, are compared with the same history without the failed calls.",
        real=ASM_REAL, stub=STUB_DIS, assumptions=ASSUME_ASM,
        probes=["source read failed", "source temporarily unreadable", "call failed", "call succeeded"]),
    "D02": dict(
        profiles=["std"], quick_runs=[120000],
        rule="Generated ROM contents are disassembled to closure, then executed on a simulated 65816 in lockstep with the listing.",
        real=ASM_REAL, stub=STUB_DIS, assumptions=ASSUME_ASM,
        probes=["instructions executed in lockstep", "followed a far target", "source read failed"]),
    "D03": dict(
        profiles=["std"], quick_runs=[100000],
        rule="Generated ROM contents are disassembled under read faults, printed, and assembled again.",
        real=ASM_REAL, stub=STUB_DIS, assumptions=ASSUME_ASM,
        probes=["listing assembled", "listing refused", "source read failed"]),
    "D04": dict(
        profiles=["std"], quick_runs=[100000],
        rule="Generated ROM contents are disassembled to closure in several orders, with failing reads in between.",
        real=ASM_REAL, stub=STUB_DIS, assumptions=ASSUME_ASM,
        probes=["source read failed", "orders compared"]),
    "T02": dict(
        profiles=["std"], quick_runs=[80000],
        rule="quick_disassemble's and disassemble_more's main are run on the simulated disk without and with faults; "
             "the printed listing is assembled and compared with the ROM.",
        real=ASM_REAL + ["nsasm/file.cc", "nsasm/rom.cc", "util/quick_disassemble.cc", "util/disassemble_more.cc"],
        stub=STUB_IO, assumptions=ASSUME,
        probes=["stdout:no-space", "exit 0", "exit nonzero", "listing assembled", "read:EIO", "sources agree with the ROM"]),
    "T03": dict(
        profiles=["std"], quick_runs=[60000],
        rule="dumb_disassemble's main is run on the simulated disk without and with faults; each printed line is compared with "
             "the ROM, each printed state with executions of a simulated processor along the listing.",
        real=ASM_REAL + ["nsasm/rom.cc", "util/dumb_disassemble.cc"],
        stub=STUB_IO + ["processor (opcode table and flag behaviour written from its documentation)"], assumptions=ASSUME,
        probes=["stdout:no-space", "listing ended", "goes on after an exit instruction", "gap reported", "a whole bank", "stopped at an unknown width",
                "stopped at something unmapped", "malformed request", "exit 0", "exit nonzero", "read:EIO"]),
    "T04": dict(
        profiles=["std"], quick_runs=[48000],
        rule="interactive_parse's main talks to a simulated terminal: typed lines arrive in pieces and end or fail anywhere; the "
             "session is compared with sessions of one line each, and each answer with the line as generated.",
        real=ASM_REAL + ["util/interactive_parse.cc", "std::istream and std::ostream"],
        stub=["terminal (stream buffers behind std::cin and std::cout)"] + STUB_ASM[1:], assumptions=ASSUME_ASM,
        probes=["well-formed line", "line with operators", "malformed line", "arbitrary line", "input ended by a read error",
                "terminal:partial-line", "terminal:input-ends-within-line"]),
}
NOT_APPLICABLE = {}
