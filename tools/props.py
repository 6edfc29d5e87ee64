#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run to rewrite both."""
import json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = ("The existing tests run a fixed set of guest binaries on the stand-alone reference executor only; the out-of-order pipeline, "
         "its caches and its bus never execute in them. ")


def m(name, where):
    return {"name": name, "where": where}


P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, level, technique, note, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=TESTS + why,
                  anchors={"files": files, "mechanism": mech, "observe_at": observe, "hook_needed": hook, **({"state": state} if state else {})},
                  _level=level, _technique=technique, _note=note))


RET = "retired-state record published per instruction (diff/include/diff.h)"
BUS = "interconnect port interface (axi-interconnect-kit)"
SIMNOTE = ("Seeded search, not exhaustive: every run is one guest program under one seeded bus timing or fault list, checked at every retired "
           "instruction against an independent architectural model. Trusts that model, the bus stand-in and the C++ toolchain. ")

prop("C01", "Retired execution equals sequential execution of the program",
     "Whatever the pipeline speculates, reorders or stalls, the sequence of retired instructions and the register, CSR and control-flow effects of "
     "each are exactly those of executing the program one instruction at a time under the RISC-V rules. Mispredicted or flushed work leaves no "
     "architectural trace.",
     ["programs", "schedules", "fault_sequences"],
     "every RV32IMA program, every branch-prediction outcome and every memory and bus timing, including arbitrary stalls and delays",
     "Squash, rename recovery, wakeup and bypass errors need particular instruction mixes meeting particular latencies.",
     ["back-end/Ren.cpp", "back-end/Rob.cpp", "back-end/Dispatch.cpp", "back-end/Isu.cpp", "back-end/Idu.cpp", "back-end/Prf.cpp",
      "back-end/Exu/Exu.cpp", "back-end/Exu/include/AbstractFU.h", "back-end/Exu/include/Fu.h", "front-end/front_top.cpp", "rv_simu_mmu_v2.cpp"],
     [m("in-order retirement", "back-end/Rob.cpp"), m("rename checkpoints and recovery", "back-end/Ren.cpp"),
      m("branch masks and squash", "back-end/Idu.cpp, back-end/Isu.cpp"), m("predecode check and refetch", "front-end/predecode_checker.cpp")],
     [RET], "exploration", "seeded whole-system simulation against an architectural model",
     SIMNOTE + "Misaligned accesses and privilege-violating CSR numbers are not generated.")
prop("C02", "A load returns the newest older store; caches lose and invent nothing",
     "Every load returns, byte for byte, the value of the program-order latest store to that location (or the initial image), and every line "
     "written back to memory holds values that retired stores produced, never going back to an older one. This holds through store forwarding, "
     "miss merging, refills, evictions and replays, whatever the memory latency, reordering of responses or back-pressure.",
     ["programs", "schedules", "fault_sequences"],
     "every sequence of loads and stores of every size and every order and delay of the memory system's responses",
     "A lost merge or a stale forward needs a store, an outstanding miss and a response arriving in one particular cycle.",
     ["back-end/Lsu/RealLsu.cpp", "MemSubSystem/RealDcache.cpp", "MemSubSystem/MSHR.cpp", "MemSubSystem/WriteBuffer.cpp",
      "MemSubSystem/MemSubsystem.cpp", "MemSubSystem/MemRouteBlock.cpp", "MemSubSystem/DcacheConfig.cpp"],
     [m("store-to-load forwarding", "back-end/Lsu/RealLsu.cpp"), m("miss merging and fill", "MemSubSystem/MSHR.cpp, MemSubSystem/RealDcache.cpp"),
      m("eviction buffer lookup", "MemSubSystem/WriteBuffer.cpp")],
     [RET, BUS], "exploration", "seeded memory-timing search; load values and write-back history checked against the committed store order",
     SIMNOTE + "Write-backs are checked byte by byte against the list of committed values. One hart; the DMA engine is covered by C15.")
prop("C03", "Traps are precise and enter and leave the right privilege level",
     "A synchronous exception appears to happen exactly between two instructions: everything older has taken effect, nothing younger has, and the "
     "cause, faulting address, return address, interrupt-enable stack, privilege and handler address are those the privileged architecture "
     "prescribes, including delegation. Trap returns restore exactly what was saved.",
     ["programs", "schedules", "histories"],
     "every program, every mix of exception causes, delegation settings, nesting and privilege, at every pipeline timing",
     "Which instruction is flushed and what the trap registers hold depends on what else is in flight.",
     ["back-end/Exu/Csr.cpp", "back-end/Rob.cpp", "back-end/BackTop.cpp", "back-end/Idu.cpp"],
     [m("exception at the oldest instruction", "back-end/Rob.cpp"), m("trap entry and return", "back-end/Exu/Csr.cpp")],
     [RET], "exploration", "seeded whole-system simulation against an architectural model", SIMNOTE)
prop("C04", "Interrupts are taken exactly when enabled, at a clean boundary, and never lost",
     "An interrupt is entered only while it is pending, enabled and not masked by privilege or delegation, and of several the architecturally "
     "first one is entered; it is taken between two instructions with the state the architecture prescribes, and the interrupted instruction runs "
     "exactly once afterwards. A request that stays pending and enabled is taken within a bounded number of instructions.",
     ["schedules", "histories", "programs"],
     "every arrival cycle of timer, device and software interrupts relative to the running program, with every masking and delegation setting",
     "Interrupt arrival is never simulated by the tests; each arrival cycle is a different schedule.",
     ["back-end/Exu/Csr.cpp", "back-end/Rob.cpp", "MemSubSystem/include/PeripheralModel.h", "rv_simu_mmu_v2.cpp"],
     [m("pending-and-enabled decision", "back-end/Exu/Csr.cpp"), m("interrupt at the oldest instruction", "back-end/Rob.cpp")],
     [RET], "exploration", "seeded interrupt schedules; legality, state and bounded-delay oracles",
     SIMNOTE + "Bound: taken within 200 retired instructions. The order of several interrupts is judged among those pending for 64 cycles.")
prop("C05", "Address translation follows the page tables and fences in force",
     "With paging on, every fetch, load, store and page-table walk uses a translation that the page tables allow for the current privilege, "
     "permission bits and mode bits; accesses the tables forbid raise the right page fault with the right address and have no other effect. After "
     "an address-translation fence, no later instruction uses a translation older than the fence.",
     ["programs", "schedules", "histories"],
     "every page-table content, privilege, permission and mode setting, every sequence of table edits, fences and address-space switches, every walk timing",
     "Stale or mixed-up translations need a walk, a fence and a speculative access to overlap.",
     ["back-end/Lsu/TlbMmu.cpp", "back-end/Lsu/include/TlbMmuKernel.h", "MemSubSystem/PtwWalker.cpp", "MemSubSystem/include/PtwCompactCoreKernel.h",
      "MemSubSystem/include/MemPtwBlock.h", "front-end/icache/icache_top.cpp", "back-end/Lsu/RealLsu.cpp"],
     [m("translation buffers and permission check", "back-end/Lsu/TlbMmu.cpp"), m("page-table walker", "MemSubSystem/PtwWalker.cpp"),
      m("fence flush", "back-end/Rob.cpp, MemSubSystem/MemSubsystem.cpp")],
     [RET], "exploration", "seeded page-table programs under seeded walk timing against an architectural model",
     SIMNOTE + "Address-space switches without a fence are generated only between distinct address-space ids.")
prop("C06", "Atomic operations are indivisible and reservations are honoured",
     "An atomic read-modify-write returns the old value and installs the combined value in one step, and takes effect once. A store-conditional "
     "succeeds only if a reservation for that address is held, writes memory exactly when it reports success, and succeeds when nothing at all "
     "intervened since its load-reserved.",
     ["programs", "schedules"],
     "every placement of atomics, reservations, ordinary accesses and traps in a program and every memory timing",
     "Atomics interact with the store queue, replays and flushes only in the pipeline.",
     ["back-end/Lsu/RealLsu.cpp", "back-end/Dispatch.cpp", "back-end/Idu.cpp", "back-end/Rob.cpp"],
     [m("split of atomics into load and store halves", "back-end/Idu.cpp, back-end/Dispatch.cpp"), m("reservation", "back-end/Lsu/RealLsu.cpp")],
     [RET, BUS], "exploration", "seeded whole-system simulation against an architectural model tolerant of legal store-conditional failures",
     SIMNOTE + "A failing store-conditional is accepted wherever the architecture allows it.")
prop("C07", "Device accesses happen exactly once, in program order, never on speculation",
     "Every device load or store that retires reaches its device exactly once, with its own address, size and data and in program order; one that "
     "does not retire (wrong path, trapped, interrupted) never reaches the device at all. A device load returns what the device answered to that access.",
     ["schedules", "programs", "fault_sequences"],
     "every program touching devices, every branch outcome, trap and interrupt around the access, every bus delay and stall",
     "A duplicated or speculative access needs a slow bus response meeting a flush or an interrupt.",
     ["MemSubSystem/PeripheralAxi.cpp", "MemSubSystem/include/PeripheralModel.h", "back-end/Lsu/RealLsu.cpp", "back-end/Rob.cpp", "rv_simu_mmu_v2.cpp"],
     [m("device access only when oldest", "back-end/Rob.cpp, back-end/Lsu/RealLsu.cpp"), m("peripheral bus bridge", "MemSubSystem/PeripheralAxi.cpp")],
     [BUS, RET], "exploration", "seeded device traffic; exactly-once and order checked on the recorded bus history",
     SIMNOTE + "The peripheral ports of the stand-in accept at most one request per two processor cycles.")
prop("C08", "After an instruction fence, fetch sees every earlier store",
     "Once an instruction fence retires, every later fetched instruction is the one that memory holds after all older stores, even when the line "
     "was cached, being fetched, dirty in the data cache, being evicted or merged into an outstanding miss.",
     ["programs", "schedules", "fault_sequences"],
     "every program that writes code, every state of both caches and every memory timing",
     "Needs the store's line to be in a particular transient state when the fence retires.",
     ["front-end/icache/icache_top.cpp", "MemSubSystem/RealDcache.cpp", "MemSubSystem/MemSubsystem.cpp", "back-end/Rob.cpp"],
     [m("fence waits for stores and invalidates", "back-end/Rob.cpp, rv_simu_mmu_v2.cpp"), m("refill probe of the data cache", "MemSubSystem/MemSubsystem.cpp")],
     [RET], "exploration", "seeded self-modifying programs under seeded timing against an architectural model", SIMNOTE)
prop("C09", "Every program makes progress: no deadlock, livelock or lost wake-up",
     "As long as the memory system eventually answers, the oldest instruction retires within a bounded number of cycles and a terminating program "
     "terminates; the simulator never stops by itself, crashes or loops. This holds after any finite sequence of stalls, delays and reorderings once they cease.",
     ["schedules", "fault_sequences", "programs"],
     "every finite sequence of bus stalls, delays and reorderings at any point of any program",
     "Deadlocks come from full queues and lost wake-ups under rare back-pressure; the tests have no bus at all.",
     ["back-end/Isu.cpp", "back-end/Dispatch.cpp", "back-end/Lsu/RealLsu.cpp", "MemSubSystem/MemSubsystem.cpp", "MemSubSystem/MSHR.cpp", "back-end/Rob.cpp",
      "back-end/DeadlockDebug.cpp"],
     [m("wake-up and replay", "back-end/Isu.cpp, back-end/Lsu/RealLsu.cpp"), m("stall detector", "back-end/Rob.cpp")],
     [RET, "process exit"], "exploration", "bounded liveness under injected finite fault sequences",
     SIMNOTE + "Bound: 40,000 cycles without retirement, 400,000 cycles per program; injected stalls are shorter than 2,500 cycles each.")
prop("C10", "A run is a function of its inputs",
     "Two runs with the same program, options and memory behaviour retire the same instructions in the same cycles, issue the same bus traffic and "
     "print the same output and statistics. Nothing depends on host memory contents, addresses, environment or earlier runs.",
     ["inputs", "schedules", "configurations"],
     "every program, timing and option; every host memory layout and content",
     "One run of one binary cannot show that another would agree; uninitialised state usually reads as zero.",
     ["rv_simu_mmu_v2.cpp", "back-end/BackTop.cpp", "front-end/front_top.cpp", "MemSubSystem/MemSubsystem.cpp", "main.cpp"],
     [m("reset and initialisation", "rv_simu_mmu_v2.cpp")],
     ["cycle-stamped retirement history", BUS, "simulator output"], "exploration",
     "same-seed twin runs under different heap contents, stack position and address layout; full histories compared",
     "Seeded search. Each plan runs in two fresh processes with different heap fill, environment size and address layout; cycle-stamped histories, bus "
     "histories and output must match exactly.")
prop("C11", "Floating-point instructions give correctly rounded results",
     "Every single-precision instruction the machine implements (arithmetic, square root, comparison, minimum and maximum, sign injection, "
     "classification, conversion) returns the correctly rounded IEEE 754 result in the rounding direction the instruction names, with the "
     "RISC-V rules for NaNs, signed zeros and out-of-range conversions. Encodings that are not implemented raise an illegal-instruction exception.",
     ["inputs", "programs", "schedules"],
     "every operand pair, rounding mode and operation, at every pipeline timing",
     "Rounding, subnormal and NaN corner cases need particular operand bits; results also have to survive the shared issue port and flushes.",
     ["back-end/Exu/include/FPU.h", "back-end/Exu/Exu.cpp", "back-end/Idu.cpp", "back-end/Isu.cpp"],
     [m("floating-point unit", "back-end/Exu/include/FPU.h"), m("delayed wake-up of multi-cycle units", "back-end/Isu.cpp")],
     [RET], "exploration", "seeded operand and program search against an exact-integer arithmetic model",
     SIMNOTE + "The arithmetic model works on exact integers; it was compared offline with a second implementation on 33 million operand sets. "
     "There is no accumulated exception-flag register to judge, and a dynamic rounding mode means round to nearest.")
prop("C12", "The built-in checker reports every divergence at the instruction it occurs",
     "When the reference and the simulated machine disagree on any general register, control register, program counter, instruction word, store or "
     "page fault, the simulator stops and reports it at that instruction with a failing exit status. It never runs on past a divergence and never "
     "reports one that did not happen.",
     ["fault_sequences", "histories", "programs"],
     "every kind of divergence injected at every retired instruction of any program",
     "Tests never produce a divergence, so a checker that compares too little passes them all.",
     ["diff/diff.cpp", "diff/include/diff.h", "rv_simu_mmu_v2.cpp"],
     [m("per-instruction comparison", "diff/diff.cpp")],
     ["process exit status", RET], "fault_enumeration", "seeded divergence injection into the reference side at random instructions",
     "Each run flips one bit of one compared item on the reference side at a random retired instruction and requires a report at that very "
     "instruction with a failing exit status; runs without an effective injection must not be reported, and no instruction that touches neither a "
     "device nor an interrupt line may be taken over from the machine without being compared.")
prop("C15", "Built-in devices behave as their register maps say",
     "The timer, interrupt controller, serial port and copy engine answer reads and act on writes as their register map defines, in the order the "
     "program issues them: the timer counts cycles and raises its line at the compare value, the copy engine moves exactly the requested bytes or "
     "reports an error, and an interrupt request stays up until it is served.",
     ["histories", "programs", "schedules"],
     "every sequence of device register accesses and every cycle at which they fall",
     "Tests touch no device but the serial output, on the reference executor.",
     ["MemSubSystem/include/PeripheralModel.h", "MemSubSystem/PeripheralAxi.cpp", "rv_simu_mmu_v2.cpp"],
     [m("register decode and effects", "MemSubSystem/include/PeripheralModel.h")],
     [RET, BUS, "console output"], "exploration", "seeded device programs against an independent device model",
     SIMNOTE + "The copy engine writes memory without telling the caches, so its results are compared in memory, not through loads.")

prop("C13", "Switching from fast-forward to the detailed machine loses nothing",
     "When a run fast-forwards on the sequential executor and then switches to the detailed machine, the machine continues from exactly the "
     "architectural state reached there: registers, control registers, privilege, translation, every byte of memory, an outstanding reservation and "
     "the console. The program as a whole behaves as if there had been no switch, wherever the switch falls, also when it ends before it.",
     ["programs", "inputs", "schedules"],
     "every program and every number of fast-forwarded instructions, with every bus timing after the switch",
     "No test uses this mode.",
     ["main.cpp", "back-end/BackTop.cpp", "diff/diff.cpp", "rv_simu_mmu_v2.cpp", "front-end/front_top.cpp"],
     [m("state hand-over", "back-end/BackTop.cpp, diff/diff.cpp"), m("front-end restart", "rv_simu_mmu_v2.cpp")],
     [RET, "memory image", "exit status", "console output"], "exploration", "seeded switch points, memory compared at the switch, lockstep after it",
     SIMNOTE + "The sequential executor is the stand-in, so only the hand-over is judged. Timer and copy-engine registers are not part of the state handed over "
     "and programs leave them alone before the switch.")
prop("C14", "A checkpoint resumes exactly the state it holds, or is refused",
     "Resuming from a checkpoint file starts execution from exactly the recorded registers, control registers, privilege, reservation, memory and "
     "device words, fast-forwards to the start of the requested warm-up, runs it and then the requested number of measured instructions, and stops there. A checkpoint that is missing, "
     "truncated or inconsistent with the machine, or a plan that does not fit it, is refused with a failing status before anything executes.",
     ["inputs", "programs", "fault_sequences", "crash_points"],
     "every program state a checkpoint can hold, every warm-up and limit setting, compressed or not, and every listed way of damaging the file",
     "No test reads a checkpoint.",
     ["back-end/BackTop.cpp", "main.cpp", "diff/diff.cpp", "back-end/Ren.cpp"],
     [m("file parsing and validation", "back-end/BackTop.cpp"), m("warm-up and limit", "main.cpp, back-end/Ren.cpp")],
     [RET, "restored memory and device words", "exit status"], "fault_enumeration",
     "seeded snapshots written by the harness, restored state compared with the file, damaged files injected",
     SIMNOTE + "Damage kinds: missing, empty, cut in header, state, memory or device part, wrong magic, version, memory size, range count, device base, device "
     "size, warm-up longer than the interval, no limit for an interval of zero. Bit errors inside compressed data are not injected.")
prop("C16", "Runs start, stop and report their outcome as asked",
     "A run ends with the program's own exit code when the program ends, stops in the very cycle the requested instruction count is reached, and stops "
     "at once with status 130 when the operator interrupts it. Unusable options or images are refused with a failing status and execute nothing, and "
     "switching the simulator's own checking off changes neither the timing nor the outcome nor the output of a run.",
     ["inputs", "programs", "configurations", "schedules"],
     "every program, instruction limit, cycle of interruption, option set and image, with and without checking",
     "The tests never start the simulator's main program.",
     ["main.cpp", "rv_simu_mmu_v2.cpp", "back-end/BackTop.cpp", "back-end/Rob.cpp", "diff/diff.cpp"],
     [m("option parsing and run loop", "main.cpp"), m("end of program", "back-end/Rob.cpp"), m("image loading", "back-end/BackTop.cpp")],
     ["exit status", "console output", RET, BUS], "exploration", "seeded limits, interruptions, bad inputs and checked/unchecked pairs",
     SIMNOTE + "When the program's end and the limit fall in one cycle either status is accepted. The exit status of purely sequential runs is not tied to the program's.")
prop("C17", "The performance report counts what really happened",
     "The report printed at the end of a run states exactly the number of simulated cycles and of retired instructions, loads, stores, conditional "
     "branches, indirect jumps and returns; its device stores are those that retired, and its data cache misses and write-backs those the bus saw, apart from the few still under way. "
     "The prediction and cache rates, the misprediction breakdown and the shares of issue slots it prints follow from its counts and add up. After a warm-up it covers the measured part only.",
     ["programs", "schedules", "inputs"],
     "every program and bus timing, and every end of a run: program end, limit, interruption, measured part after a warm-up",
     "The tests never produce a report.",
     ["back-end/include/PerfCount.h", "back-end/Ren.cpp", "rv_simu_mmu_v2.cpp", "main.cpp", "MemSubSystem/MSHR.cpp", "back-end/Lsu/RealLsuPerf.cpp"],
     [m("counters", "back-end/include/PerfCount.h"), m("cache and device counters", "MemSubSystem/MSHR.cpp, back-end/Lsu/RealLsuPerf.cpp"), m("counting at retirement", "back-end/Ren.cpp, rv_simu_mmu_v2.cpp")],
     ["printed report", RET], "exploration", "printed totals compared with the monitor's own tally of retired instructions and the bus stand-in's of lines",
     SIMNOTE + "Retirements that stand for an interrupt entry or a fetch fault count as instructions; by kind they may or may not be counted. Stall "
     "statistics, occupancies, latencies and the number of mispredictions are not judged, misses are compared from above only once translation was on, and after a warm-up branch totals are judged to within the branches of one cycle.")

prop("C19", "Requests on the memory and device ports are well formed and ordered",
     "On the memory ports the processor transfers whole aligned lines only, never writes outside memory, keeps a waiting write-back offered for the same line and a "
     "waiting data read port occupied until a request is accepted, never has two outstanding requests for one line or two outstanding reads under one id, and never reads a line whose write-back is still "
     "outstanding. On the device port it performs one naturally aligned access of at most a word at a time and never touches ordinary memory. Every write enables exactly the bytes of its transfer.",
     ["schedules", "programs", "fault_sequences"],
     "every program, and every order and delay of accepts and responses on the ports",
     "The tests never run the pipeline, caches or device bridge.",
     ["MemSubSystem/MSHR.cpp", "MemSubSystem/WriteBuffer.cpp", "MemSubSystem/RealDcache.cpp", "MemSubSystem/PeripheralAxi.cpp", "rv_simu_mmu_v2.cpp"],
     [m("miss requests", "MemSubSystem/MSHR.cpp"), m("write-backs", "MemSubSystem/WriteBuffer.cpp"), m("device bridge", "MemSubSystem/PeripheralAxi.cpp")],
     [BUS], "exploration", "rules judged by the bus stand-in at every offered and accepted request",
     SIMNOTE + "Instruction-side requests are only judged for size and alignment; page-table walks through a bad root may read outside memory.")
prop("C20", "Every shipped machine configuration runs programs correctly",
     "The architectural results of a program do not depend on the machine configuration: each configuration profile in the repository, including the "
     "ideal front end, executes every program to the same correct results. A build with the simulator's internal checks enabled completes the same "
     "programs without any of them failing.",
     ["configurations", "programs", "schedules"],
     "each profile (widths, queue and table sizes, predictor on or off) and the checking build, over programs and bus timings",
     "The tests build one profile and never run the pipeline.",
     ["include/config.h.default", "include/config.h.medium", "include/config.h.large", "front-end/config/frontend_feature_config.h.default",
      "back-end/Rob.cpp", "back-end/Dispatch.cpp", "back-end/Isu.cpp", "front-end/front_top.cpp"],
     [m("width and size parameters", "include/config.h.*"), m("ideal front end", "front-end")],
     [RET, "exit status", "internal assertions"], "exploration", "the same seeded programs and oracles on each build",
     SIMNOTE + "The profiles are those in the repository; other parameter combinations are not built.")

prop("C21", "Branch prediction learns regular control flow",
     "In a program made of four or more loops of a few hundred passes, however slowly memory answers, at most one in ten of the branches that always go "
     "the same way, of the returns from a recursion up to six deep and of the indirect jumps with one target is mispredicted, and at most one in four of "
     "the branches that repeat a pattern of up to eight outcomes or close an inner loop of fixed length up to six. Of the returns from functions called "
     "directly from several places at most half are mispredicted, and of the tests of one random condition made four times in a row at most a third.",
     ["programs", "schedules"],
     "loops of each regular kind at varying addresses and alignments with varying code between the branches, under every bus timing",
     "Results do not depend on predictions, so no functional test could see it either.",
     ["front-end/BPU/BPU.h", "front-end/BPU/dir_predictor/TAGE_top.h", "front-end/BPU/target_predictor/BTB_top.h",
      "front-end/BPU/type_predictor/TypePredictor.h", "front-end/front_top.cpp", "rv_simu_mmu_v2.cpp"],
     [m("direction prediction", "front-end/BPU/dir_predictor"), m("target prediction and return stack", "front-end/BPU/BPU.h, front-end/BPU/target_predictor"),
      m("training at retirement", "rv_simu_mmu_v2.cpp, front-end/BPU/BPU.h")],
     ["printed report"], "exploration", "mispredictions in the printed report against the stated bound, per kind of regular loop",
     SIMNOTE + "The bound is per program of four loops of one kind on the committed configuration; it is loose because unlucky addresses may share a predictor entry.")
prop("C22", "The caches keep the lines that fit",
     "As long as a program has used no more than four lines of a 64-byte, 256-set data cache set, none of them is read from memory a second time. As long "
     "as it has used no more than eight lines of a 64-set instruction cache set, a line from which an instruction has retired is read from memory at most twice more, unless an instruction fence intervenes.",
     ["programs", "schedules", "histories"],
     "every program and every order and delay of memory responses, for each line and each set, from reset",
     "Results do not depend on hits, so no functional test could see it either.",
     ["MemSubSystem/RealDcache.cpp", "MemSubSystem/MSHR.cpp", "MemSubSystem/WriteBuffer.cpp", "front-end/icache", "front-end/front_top.cpp"],
     [m("replacement and refill", "MemSubSystem/RealDcache.cpp"), m("instruction cache refill", "front-end/icache")],
     [BUS], "exploration", "reads accepted by the bus stand-in counted per line and per set",
     SIMNOTE + "Geometry of the committed configuration. Once a set has been used by more lines than it has ways its lines are no longer judged.")
prop("C23", "Independent work overlaps and dependent work waits only as long as needed",
     "A warm loop on the committed two-wide machine never beats two instructions a cycle or one dependent operation a cycle, and takes at most a fifth "
     "and a few cycles more than its dependences require: independent simple arithmetic, hitting loads and hitting stores two a cycle, independent "
     "multiplications one, dependent simple operations one cycle each, multiplications two, hitting loads four, divisions twenty. A division does not hold up independent "
     "instructions after it, and reads of different missing lines overlap, taking less than a third of the time of dependent ones.",
     ["programs", "schedules"],
     "loops of each kind with varying length, operation mix and alignment, under every bus timing",
     "Results do not depend on timing, so no functional test could see it either.",
     ["back-end/Isu.cpp", "back-end/Dispatch.cpp", "back-end/Rob.cpp", "back-end/Exu/Exu.cpp", "back-end/Exu/include/Fu.h", "back-end/Lsu/RealLsu.cpp",
      "MemSubSystem/RealDcache.cpp", "MemSubSystem/MSHR.cpp", "front-end/front_top.cpp"],
     [m("wakeup and select", "back-end/Isu.cpp"), m("bypass and functional units", "back-end/Exu"), m("load and store pipelines", "back-end/Lsu"),
      m("outstanding misses", "MemSubSystem/MSHR.cpp")],
     ["cycle of each retirement"], "exploration", "cycles per pass of seeded loops, measured at retirement, against the bound for their kind",
     SIMNOTE + "Only the committed configuration is timed; stalls of the front end other than fetch width are only seen through their effect on these loops.")

CHECKCMD = "python3 tools/check.py %s"
prop("C18", "The sequential reference executor follows the architecture",
     "The stand-alone executor that the repository uses as its own yardstick executes every program exactly as the RISC-V rules and the "
     "machine's device map prescribe: registers, CSRs, memory, privilege, traps, delegation, interrupts, page tables, atomics, floating point and "
     "console output.",
     ["programs", "inputs", "schedules"],
     "every program, page-table content, privilege, delegation and interrupt setting, and every advance of the clock between two instructions",
     "Those guests are few and fixed and set almost no delegation, paging, permission or interrupt combination.",
     ["diff/ref.cpp", "diff/include/ref.h"],
     [m("sequential execution", "diff/ref.cpp"), m("trap entry and delegation", "diff/ref.cpp"), m("page-table walk", "diff/ref.cpp")],
     ["executor state after each instruction"], "exploration", "seeded programs and clock jumps in lockstep with an independent architectural model",
     "Seeded search, not exhaustive. The clock jumps by seeded amounts so that timer interrupts arrive between any two instructions. "
     "Misaligned accesses and CSR privilege violations are not generated.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import specs
    checks, na = [], []
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        if p["_level"] == "not_applicable":
            na.append({"property": p["id"], "reason": p["_note"]})
            continue
        assert p["id"] in specs.SPECS, p["id"]
        assert specs.SPECS[p["id"]].get("level", "exploration") == p["_level"], p["id"]
        checks.append({"property": p["id"], "quick_cmd": CHECKCMD % p["id"], "thorough_cmd": "VERIF_TIER=thorough " + CHECKCMD % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_technique"], "level": p["_level"], "level_note": p["_note"]})
    doc = {"version": 1, "setup_cmd": "python3 tools/vbuild.py vsim vref vassert vmedium vlarge vdefault",
           "hooks": {"guard": "none", "enable": "No hooks were needed: the machinery links /repo's sources unchanged against stand-ins for the two "
                     "components the repository does not contain (interconnect kit, reference library).", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Replays: python3 tools/replay.py <file>. Known findings and repaired defects: known_findings.jsonl. See DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    unused = set(specs.SPECS) - {p["id"] for p in P}
    if unused:
        print("specs without a property:", sorted(unused))


if __name__ == "__main__":
    main()
