import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state,observe,hook):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=x,meaning='architectural state the property speaks about') for x in state],observe_at=observe,hook_needed=('cfg(verif) accessors for pc, privilege level and CSRs' if hook else None))))
p("P01","Integer computation matches the RISC-V ISA on RV32 and RV64",
 "For every I- and M-extension computational instruction (register, immediate, upper-immediate and word forms) and every compressed counterpart, executing it stores exactly the value the RISC-V specification defines for its operands into the destination register, including shift-amount masking, division by zero and signed overflow. Nothing else changes except that the pc advances by the instruction length: x0 always reads zero, RV32 results are 32 bits wide, and rd may alias rs1 or rs2.",
 ["inputs"],"every computational opcode x every pair of operand values from an exhaustive boundary alphabet x every register-aliasing pattern x both ISAs",
 "Correctness is a claim about every operand pair of every instruction; the shipped tests execute a single instruction (c.li) with one value, and the failures hide at corner operands.",
 ["src/cpu/execution/inst_32/base_i.rs","src/cpu/execution/inst_32/m_extension.rs","src/cpu/execution/inst_16/c_extension.rs","src/cpu/reg.rs"],
 [("base integer execution","src/cpu/execution/inst_32/base_i.rs:exec"),("multiply/divide execution","src/cpu/execution/inst_32/m_extension.rs:exec"),("compressed execution","src/cpu/execution/inst_16/c_extension.rs:exec"),("register file width and x0","src/cpu/reg.rs:read/write")],
 ["general registers","pc"],["Cpu::regs after Cpu::exec_one_cycle","Cpu::pc"],True)
p("P02","Every instruction word decodes to its ISA operation or an illegal trap",
 "Every 16-bit and 32-bit instruction word either behaves as the one instruction the RV32IMAC/RV64IMAC (with Zicsr and machine/supervisor privileged instructions) specification assigns to it, with the operand fields the encoding defines, or raises an illegal-instruction exception whose trap value is the instruction word. Reserved encodings and RV64-only encodings on RV32 are never executed as another instruction, and no word makes the emulator itself abort.",
 ["programs"],"all 2^16 halfwords and every opcode/funct/register/immediate pattern of 32-bit words, on both ISAs",
 "The claim ranges over 2^32 encodings; the decoder tests check fifteen of them.",
 ["src/cpu/decode.rs","src/cpu/decode/inst_16.rs","src/cpu/decode/inst_16/c_extension.rs","src/cpu/decode/inst_32.rs","src/cpu/decode/inst_32/base_i.rs","src/cpu/decode/inst_32/a_extension.rs","src/cpu/decode/inst_32/m_extension.rs","src/cpu/decode/inst_32/priv_extension.rs","src/cpu/decode/inst_32/zicsr_extension.rs"],
 [("32-bit decode","src/cpu/decode/inst_32.rs:Decode for u32"),("16-bit decode","src/cpu/decode/inst_16.rs:Decode for u16"),("immediate extraction","src/cpu/decode/inst_16/c_extension.rs:parse_imm")],
 ["none (pure)"],["architectural state after Cpu::exec_one_cycle/Cpu::trap"],True)
p("P03","Jumps and branches reach exactly the ISA-defined next pc",
 "Every jump and conditional branch (including compressed forms) continues at exactly the address the specification defines - target with bit 0 cleared for indirect jumps, fall-through by the instruction's own length when not taken - for every offset, including offset zero and targets equal to the instruction itself. The link register receives the address of the following instruction even when it is also the base register.",
 ["inputs","programs"],"every branch/jump opcode x all offsets x operand-ordering alphabet x pc alignment x both ISAs",
 "Offsets span the full immediate range and the outcome depends on the relation between target and current pc; no existing test executes a branch.",
 ["src/cpu/execution/inst_32.rs","src/cpu/execution/inst_16.rs","src/cpu/execution/inst_32/base_i.rs","src/cpu/execution/inst_16/c_extension.rs"],
 [("pc advance","src/cpu/execution/inst_32.rs:exe_inst, src/cpu/execution/inst_16.rs:exe_cinst"),("branch execution","src/cpu/execution/inst_32/base_i.rs:exec")],
 ["pc","link register"],["Cpu::pc after Cpu::exec_one_cycle"],True)
p("P04","Loads and stores see memory as one little-endian byte array",
 "Over any sequence of loads and stores of all widths (full and compressed forms), guest RAM behaves as a single little-endian byte array: a load returns the latest bytes written, sign- or zero-extended as its opcode demands, and a store changes exactly its own bytes. An access that is not naturally aligned raises the matching address-misaligned exception with the faulting address and changes neither registers nor memory.",
 ["histories","inputs"],"all store/load sequences up to a bounded depth over overlapping addresses, and all opcode x offset x alignment x data-pattern combinations, on both ISAs",
 "Unit tests store once and load once at an aligned address; overlap, extension and misalignment interact over sequences.",
 ["src/bus/dram.rs","src/bus.rs","src/cpu.rs","src/cpu/execution/inst_32/base_i.rs","src/cpu/execution/inst_16/c_extension.rs"],
 [("RAM access","src/bus/dram.rs:Device for Dram"),("alignment check","src/cpu.rs:trans_addr"),("load/store execution","src/cpu/execution/inst_32/base_i.rs:exec")],
 ["RAM bytes"],["Cpu::regs, Bus loads after Cpu::exec_one_cycle"],True)
p("P05","LR/SC and AMO instructions follow the RISC-V atomics protocol",
 "An SC succeeds (rd = 0, memory written) only if a reservation made by the latest LR on that address is still held, otherwise it returns non-zero and leaves memory unchanged; every SC, successful or not, ends the reservation. Each AMO returns the sign-extended old memory value in rd and stores the specified combination, as one indivisible step; a misaligned or faulting atomic raises the store/AMO exception (LR the load exception) and changes nothing.",
 ["histories"],"all sequences of LR/SC/AMO/store/trap operations up to a bounded depth over two addresses and both widths, all AMO ops x operand alphabet x register aliasing, on both ISAs",
 "Reservation correctness is a property of operation histories; no existing test executes an atomic.",
 ["src/cpu/execution/inst_32/a_extension.rs","src/lib.rs"],
 [("atomics execution","src/cpu/execution/inst_32/a_extension.rs:exec"),("reservation set","src/cpu.rs:Cpu.reservation_set")],
 ["reservation","RAM bytes"],["Cpu::regs and RAM after Cpu::exec_one_cycle"],True)
p("P06","Traps are precise and enter the right mode, vector and CSR state",
 "When an instruction raises an exception or an interrupt is taken, the hart records the pc of the interrupted instruction, the specification's cause code (with the interrupt bit for interrupts) and trap value, saves and clears the interrupt enable and previous privilege of the target mode, and continues at that mode's trap vector (base, plus 4*cause only for interrupts in vectored mode). The trap goes to supervisor mode exactly when it is delegated and came from a less-than-machine mode, and the faulting instruction leaves no register or memory side effect.",
 ["histories","configurations"],"every trap cause x originating privilege x delegation bit x vector mode x status-bit combination x both ISAs, and all short trap/return histories",
 "The outcome depends on the product of privilege, delegation, vectoring and status bits; there is no trap test at all.",
 ["src/cpu/trap.rs","src/cpu/csr.rs","src/lib.rs"],
 [("trap entry","src/cpu/trap.rs:Cpu::trap"),("delegation","src/cpu/trap.rs:get_deleg"),("status fields","src/cpu/csr.rs:write_xstatus")],
 ["mstatus/mepc/mcause/mtval","sstatus/sepc/scause/stval","privilege","pc"],["CSRs, privilege, pc after Cpu::trap"],True)
p("P07","Trap returns restore state and privileged instructions are gated",
 "MRET and SRET resume at the saved pc with the saved privilege, restore the interrupt enable from its saved copy, set the saved copy to one and the saved privilege to user, exactly as the privileged specification defines. MRET outside machine mode, SRET in user mode (or in supervisor mode when trapping of SRET is enabled), and the translation fence in user mode (or in supervisor mode when virtual-memory trapping is enabled) raise an illegal-instruction exception and change nothing else.",
 ["configurations","histories"],"every return/fence/wait/environment-call instruction x privilege x saved privilege x every status-bit combination x both ISAs",
 "Privilege gating is a property of every mode/status combination; no test runs a privileged instruction.",
 ["src/cpu/execution/inst_32/priv_extension.rs","src/cpu/csr.rs"],
 [("privileged execution","src/cpu/execution/inst_32/priv_extension.rs:exec")],
 ["privilege","mstatus","pc"],["CSRs, privilege, pc after Cpu::exec_one_cycle"],True)
p("P08","Interrupts are taken exactly when pending, enabled and unmasked",
 "Before each instruction the hart takes an interrupt if and only if some interrupt is pending, individually enabled, and globally enabled for the mode it targets (machine unless delegated; a higher-privileged target is always enabled, a lower one never), and it takes the highest-priority one in the specification's order. Machine-level interrupts are considered before supervisor-level ones, and when none qualifies the instruction executes normally.",
 ["configurations","histories"],"every combination of pending, enable, delegation, global-enable bits and privilege on both ISAs, with the timer and external lines driven through the devices",
 "There are 2^18 x modes of relevant configurations; the suite takes no interrupt.",
 ["src/cpu/trap.rs","src/bus/clint.rs","src/bus/plic.rs"],
 [("interrupt selection","src/cpu/trap.rs:check_interrupt")],
 ["mip","mie","mideleg","mstatus","privilege"],["trap taken by Cpu::exec_one_cycle"],True)
p("P09","CSR accesses respect privilege and read-only rules",
 "For every CSR address, access from a privilege lower than the one encoded in the address raises an illegal-instruction exception and changes nothing, as does writing a read-only CSR, accessing a counter disabled for the mode, or accessing the address-translation CSR from supervisor mode when virtual-memory trapping is enabled. Accesses by a sufficiently privileged mode to implemented CSRs never trap and no CSR access aborts the emulator.",
 ["programs","configurations"],"all 4096 CSR addresses x all six CSR instructions x zero/non-zero source x three privileges x gating bits x both ISAs",
 "The access matrix has over a hundred thousand cells; none is tested.",
 ["src/cpu/execution/inst_32/zicsr_extension.rs","src/cpu/csr.rs"],
 [("access check","src/cpu/execution/inst_32/zicsr_extension.rs:check_accessible")],
 ["CSR file"],["trap or completion of Cpu::exec_one_cycle"],True)
p("P10","CSR read-modify-write is exact and status/interrupt views stay coherent",
 "Each CSR instruction returns the old value in rd and then writes, sets or clears exactly the requested bits, with set/clear of x0 or zero leaving the CSR unchanged, and a later read sees the result, over any sequence of CSR instructions. The supervisor status, interrupt-enable and interrupt-pending registers are restricted views of the machine ones: writing a view changes exactly the fields visible in it and reading it shows exactly those fields, never machine-only state.",
 ["histories","inputs"],"all CSR instruction sequences up to a bounded depth over the status, interrupt, trap and scratch registers and a value alphabet covering every bit, on both ISAs",
 "Aliasing between views shows up only over write/read sequences through different names; nothing tests them.",
 ["src/cpu/csr.rs","src/cpu/execution/inst_32/zicsr_extension.rs"],
 [("CSR storage and views","src/cpu/csr.rs:read/write/bitset/bitclr"),("CSR instructions","src/cpu/execution/inst_32/zicsr_extension.rs:exec")],
 ["CSR file"],["rd values of CSR reads"],True)
p("P11","Virtual memory translation obeys Sv32/Sv39 mappings and permissions",
 "In supervisor and user mode with paging enabled (or machine mode loads/stores using the previous privilege), each fetch, load and store accesses exactly the physical address the Sv32/Sv39 page tables give, for every page size, and raises the matching page fault with the virtual address as trap value when any entry on the path is invalid, misaligned, non-canonical, lacks the needed permission for that mode (user pages, execute, read, write, executable-readable, supervisor access to user memory) or has clear accessed/dirty bits. With paging off, addresses pass through unchanged, and no page-table content aborts the emulator.",
 ["inputs","configurations"],"every page-table-entry flag combination at every level x access kind x privilege x status bits x both schemes, plus table pointers to absent memory and non-canonical addresses",
 "The permission matrix multiplies flags, levels, modes and access kinds; no test enables paging.",
 ["src/cpu/mmu.rs","src/cpu.rs","src/cpu/fetch.rs"],
 [("page walk","src/cpu/mmu.rs:trans_addr"),("leaf permission check","src/cpu/mmu.rs:check_leaf_pte"),("effective privilege","src/cpu.rs:trans_addr")],
 ["page tables in RAM","satp","mstatus","privilege"],["data accessed or trap raised by Cpu::exec_one_cycle"],True)
p("P12","Physical memory protection grants exactly the configured accesses",
 "For every access the lowest-numbered protection entry that matches the physical address (off, top-of-range, four-byte and power-of-two modes, in the register layout of the running ISA) decides it: supervisor and user accesses need the entry's read, write or execute permission, machine accesses are checked only by locked entries. If no entry matches, machine accesses succeed and others fail whenever any entry is active (with no active entry everything is permitted). A denied access raises the access fault for its kind, and a locked entry's registers ignore writes.",
 ["configurations","inputs"],"all pairs of entry configurations over adjacent slots and positions x address boundary alphabet x access kind x privilege x both ISAs",
 "Entry priority, layout and boundary behaviour multiply; no test programs an entry.",
 ["src/cpu/mmu/pmp.rs","src/cpu/mmu.rs"],
 [("entry matching","src/cpu/mmu/pmp.rs:pmp"),("permission check","src/cpu/mmu/pmp.rs:check_pmp")],
 ["pmpcfg/pmpaddr CSRs"],["access or fault by Cpu::exec_one_cycle"],True)
p("P13","Address breakpoints fire exactly on matching accesses in enabled modes",
 "Each configured address-match trigger raises a breakpoint exception, with the matched address as trap value and before the access takes effect, exactly when a fetch, load or store of an enabled kind hits its address in an enabled privilege mode. Every one of the triggers works independently of which one is currently selected, the select/data registers read back what was written (settings this implementation does not support read back as zero), and no trigger configuration aborts the emulator.",
 ["configurations","histories"],"all trigger configurations (kind, mode, address) on one or two of the eight trigger slots x selected slot x access kind x privilege x both ISAs",
 "Trigger interaction and selection order are histories of register writes; nothing tests triggers.",
 ["src/cpu/csr/breakpoint.rs","src/cpu/csr.rs"],
 [("trigger match","src/cpu/csr/breakpoint.rs:check_breakpoint"),("trigger registers","src/cpu/csr/breakpoint.rs:update_triggers")],
 ["trigger registers"],["breakpoint trap by Cpu::exec_one_cycle"],True)
p("P14","The interrupt controller claims, masks and prioritises like a PLIC",
 "Over any sequence of source level changes and register accesses, a claim returns the pending, enabled source of highest priority for that context (lowest id on ties, zero if none), a claimed source is not offered again to either context until a context in which it is enabled completes it, and completion makes a still-asserted source claimable again; pending follows the source level and priority zero is never offered. The external-interrupt line of each context is raised exactly while a claimable source has a priority above that context's threshold, and enable, priority and threshold registers read back what was written for implemented sources.",
 ["histories"],"all sequences of raise/lower/enable/priority/threshold/claim/complete operations up to a bounded depth over three sources and both contexts",
 "Interrupt-controller correctness is a property of event orderings; the suite has no test of it.",
 ["src/bus/plic.rs"],
 [("claim/complete","src/bus/plic.rs:context_claim/context_write"),("gateway","src/bus/plic.rs:set_interrupt_level"),("line update","src/bus/plic.rs:context_update")],
 ["pending/enable/claimed/priority per context"],["Bus::load32/store32 on the controller, interrupt taken by the hart"],True)
p("P15","The serial port neither loses, reorders nor duplicates bytes",
 "Every byte the guest writes to the transmit register appears exactly once and in order on standard output, and every byte of standard input is delivered exactly once and in order through the receive register, with the data-ready flag set exactly while a byte is waiting. Divisor, scratch and control registers read back as written, loopback returns transmitted bytes without printing them, and the interrupt line and identification register reflect exactly the enabled conditions that hold.",
 ["histories"],"all sequences of register reads/writes, input arrivals and ticks up to a bounded depth, and all byte values",
 "Byte-stream integrity depends on the interleaving of guest accesses, polling and input; no test touches the device.",
 ["src/bus/uart.rs","src/bus/uart/io.rs"],
 [("register access","src/bus/uart.rs:load8_with_plic/store8_with_plic"),("input polling","src/bus/uart.rs:tick"),("interrupt update","src/bus/uart/io.rs:update_interrupt")],
 ["rx queue","line status","interrupt enable"],["Bus::load8/store8, standard output, interrupt controller"],True)
p("P16","The timer interrupt is pending exactly while time has reached the compare value",
 "At every instruction boundary the timer-interrupt-pending state equals whether the current time is at or past the compare register, for all values (as unsigned 64-bit numbers) and all partial 32-bit writes; writing a later compare value removes it. Time advances monotonically by the same amount in the memory-mapped timer and the time CSR, and both registers read back through 32- and 64-bit accesses.",
 ["histories","inputs"],"all sequences of full/half register writes, ticks and instruction steps up to a bounded depth over a boundary-value alphabet, on both ISAs",
 "Comparison and half-write behaviour at 2^32/2^63/2^64 boundaries over sequences is never sampled by tests.",
 ["src/bus/clint.rs","src/cpu/trap.rs","src/cpu.rs"],
 [("timer compare","src/cpu/trap.rs:check_interrupt"),("time increment","src/cpu.rs:timer_increment"),("timer registers","src/bus/clint.rs")],
 ["mtime","mtimecmp","mip timer bits"],["pending CSR and interrupts taken by Cpu::exec_one_cycle"],True)
p("P17","Every guest physical access completes or faults; none aborts the emulator",
 "For every physical address, access width and kind (fetch, load, store), the access either reaches exactly the one device or RAM byte range that owns the address or raises an access-fault exception whose trap value is the faulting address, without side effects. In particular accesses at or across the ends of any region, to unmapped space, of unsupported width, or to read-only memory never abort the emulator or touch another region, and boot ROM contents never change.",
 ["inputs"],"all addresses in windows around every region boundary and alignment class plus address-space extremes x all widths x all kinds x both ISAs",
 "The failing addresses are the handful at region ends, which tests that use ordinary addresses never hit.",
 ["src/bus.rs","src/bus/dram.rs","src/bus/mrom.rs","src/bus/clint.rs","src/bus/plic.rs","src/bus/uart.rs"],
 [("address routing","src/bus.rs:Bus load/store"),("range checks","src/bus/*.rs:in_range")],
 ["device registers","RAM"],["Bus load/store results, traps"],True)
p("P18","Proxied system calls behave as a faithful file-descriptor layer",
 "Over any sequence of open, close, read, write, positional read/write, seek and stat requests the guest makes through the host interface, each returns what the host call returns (or the negated error number), transfers exactly the bytes the host call transfers between guest memory and the file (a buffer outside guest memory gives EFAULT), and descriptors are allocated lowest-free-first, stay bound to their file until closed, and are rejected afterwards. A failing request leaves guest memory and the descriptor table unchanged, every request is acknowledged exactly once, and a program's arguments are delivered unmodified.",
 ["histories","fault_sequences"],"all sequences of system-call requests up to a bounded depth over two files, invalid descriptors and failing paths, compared with a reference descriptor table",
 "Descriptor reuse and error paths only appear over call histories; the suite has no system-call test.",
 ["src/fesvr.rs","src/fesvr/syscall.rs"],
 [("descriptor table","src/fesvr.rs:FrontendServer"),("request handling","src/fesvr.rs:handle_syscall"),("system calls","src/fesvr/syscall.rs")],
 ["descriptor table","guest memory","tohost/fromhost"],["results written to guest memory, files on disk"],False)
p("P19","ELF images are loaded byte-for-byte at their physical addresses",
 "For every well-formed RV32 or RV64 executable, after construction RAM holds exactly each loadable segment's file bytes at that segment's physical address and zeros elsewhere, the ISA follows the file's class, and the host-interface symbols are found at their symbol-table addresses whatever the order of segments, sections and symbols. Kernel and initial-ramdisk images are placed unmodified at their documented positions.",
 ["inputs"],"all layouts of up to three segments (type, order, gaps, sizes including empty and zero-fill), section/symbol orders, both classes, with and without kernel/initrd",
 "Layout combinations multiply and the single bundled ELF exercises one of them.",
 ["src/elfload.rs","src/elfload/elf_32/program_header.rs","src/elfload/elf_64/program_header.rs","src/elfload/elf_32/section_header.rs","src/elfload/elf_64/section_header.rs","src/bus/dram.rs"],
 [("segment copy","src/bus/dram.rs:Dram::new"),("header parsing","src/elfload/elf_*/program_header.rs"),("symbol lookup","src/elfload.rs:get_host_addr")],
 ["RAM bytes"],["Bus loads after Cpu::new, Emulator host-interface behaviour"],False)
p("P20","Boot ROM starts the image with a valid device tree",
 "From reset on either ISA the hart executes the boot ROM and reaches the loaded image's first address with the hart id in a0 and the device tree's address in a1, for every load address and option combination (unless --pc names another first address). The device tree blob there is structurally valid and describes exactly the memory, CPU ISA, devices, interrupt wiring and ramdisk range that the emulator implements.",
 ["configurations"],"both ISAs x load addresses x with/without ramdisk, every token of the blob parsed and compared with the implemented machine",
 "A malformed token or offset depends on the configuration that generates it; no test reads the blob.",
 ["src/bus/mrom.rs","src/bus/device_tree.rs","src/bus/device_tree/dts.rs","src/bus/device_tree/dtb/parser.rs","src/bus/device_tree/dtb/generate.rs"],
 [("reset vector","src/bus/mrom.rs:Mrom::new"),("tree compilation","src/bus/device_tree/dtb")],
 ["boot ROM bytes"],["Bus loads at the boot ROM, registers on reaching the image"],True)
p("P21","The emulation loop preserves guest-visible progress and exit status",
 "Running a program through the emulator executes its instructions one at a time in program order with traps delivered between them, advances time by 50 units after every 5000 instructions (a trap counts as one), polls the console and host interface regularly, and never loses or repeats an instruction. A guest that reports completion through the host interface ends the emulator with the low eight bits of the odd value it stored in tohost, or of the exit request's argument, as status, after all its earlier output has appeared.",
 ["programs"],"all crafted guest programs of a bounded family (trap placements, loop lengths around the batch size, exit codes, console and system-call output) on both ISAs, run end to end",
 "Batch-boundary effects occur only at particular instruction counts; nothing runs the loop in the suite.",
 ["src/lib.rs","src/fesvr.rs","src/main.rs"],
 [("main loop","src/lib.rs:Emulator::emulation"),("exit handling","src/fesvr.rs:handle_syscall")],
 ["whole machine"],["process exit status, standard output, guest-computed checksums"],False)
p("P22","Less-privileged code can never gain privilege or disturb machine state",
 "From any state in user or supervisor mode, no sequence of instructions raises the privilege level except by a trap that enters the configured trap vector, and no such sequence changes machine-level CSRs, memory the mode may not write, or another mode's status fields other than through that trap. User mode likewise cannot change supervisor state.",
 ["programs","histories"],"all instruction sequences up to a bounded depth over an alphabet covering every instruction class and privileged operation, from user and supervisor mode, on both ISAs",
 "It is a safety claim over all programs; a test can only run some.",
 ["src/cpu/execution/inst_32/priv_extension.rs","src/cpu/execution/inst_32/zicsr_extension.rs","src/cpu/csr.rs","src/cpu/trap.rs"],
 [("privilege transitions","src/cpu/trap.rs:trap, src/cpu/execution/inst_32/priv_extension.rs:exec"),("CSR gating","src/cpu/execution/inst_32/zicsr_extension.rs:check_accessible")],
 ["privilege","machine CSRs","RAM"],["state after each Cpu::exec_one_cycle"],True)
p("P23","Inspecting an image describes it faithfully and runs nothing",
 "For every well-formed RV32 or RV64 executable, each inspection option ends normally with status 0, executes nothing of the image, and prints what the file holds: every header field with its value (a type by its ABI name or as unknown), every word of each segment's file contents, and for each executable section, in order, one line per instruction with its encoding, the mnemonic of the instruction this machine would execute and its operand fields. Bytes that are no instruction are shown as such and do not end the listing. A file that is not an ELF image is refused with a non-zero status.",
 ["inputs","configurations"],"every 16-bit encoding and every opcode/function/register/immediate class of 32-bit encodings, instruction streams with undefined units and cut-off ends up to a bounded length, all layouts of up to three sections and two segments, boundary values of every header field, every option, both classes",
 "The listing's correctness ranges over all encodings and layouts; the suite never runs an inspection option.",
 ["src/elfload.rs","src/elfload/elf_32/section_header.rs","src/elfload/elf_64/section_header.rs","src/elfload/elf_32/program_header.rs","src/elfload/elf_64/program_header.rs","src/cpu/instruction.rs","src/main.rs"],
 [("section listing","src/elfload/elf_*/section_header.rs:dump"),("segment dump","src/elfload/elf_*/program_header.rs:dump"),("instruction text","src/cpu/instruction.rs:print_myself"),("option dispatch","src/main.rs:main")],
 ["none"],["standard output and exit status of the command line program"],False)
p("P24","Nothing stale or hidden carries over between instructions",
 "The effect of each instruction is a function of the architectural state alone. After any sequence of memory accesses, reservations, page-table, satp, PMP, trigger, delegation, status and trap-vector changes, interrupt-line changes, traps and returns, every later instruction behaves as the values now in the registers, CSRs and memory demand: no replaced translation or permission (once fenced), used-up or lost reservation, withdrawn interrupt, former privilege, trap vector or program-counter offset is still in effect, and none that was set is forgotten.",
 ["histories","programs"],"all sequences up to a bounded depth over an alphabet of about seventy operations that change or observe translation, protection, reservation, interrupt and privilege state, from user, supervisor and machine mode with and without translation and delegation, on both ISAs, every instruction compared with the reference hart",
 "Stale state only shows in the step after the change that should have replaced it; a test that builds its state afresh never has any.",
 ["src/cpu.rs","src/cpu/mmu.rs","src/cpu/mmu/pmp.rs","src/cpu/csr.rs","src/cpu/csr/breakpoint.rs","src/cpu/trap.rs","src/cpu/execution/inst_32/a_extension.rs","src/cpu/execution/inst_32/priv_extension.rs","src/cpu/execution/inst_32/zicsr_extension.rs"],
 [("instruction step","src/cpu.rs:exec_one_cycle"),("translation","src/cpu.rs:trans_addr, src/cpu/mmu.rs:trans_addr"),("interrupt selection","src/cpu/trap.rs:check_interrupt"),("reservation","src/cpu/execution/inst_32/a_extension.rs:exec")],
 ["whole hart"],["registers, CSRs, privilege and memory after each Cpu::exec_one_cycle"],True)
p("P25","The execution log records what the machine did",
 "At each log level the emulator's log on standard output is an exact account of the run, in order, with nothing missing, repeated or invented. Level diff lists, from the step after the 350,000,000th on, the pc before and all registers after every step (an instruction, fault or interrupt) under their ABI names; level info lists the pc of every fetched instruction, the cause of every fault or interrupt and the address every trap continues at; level debug adds all registers after every step; nolog, or no level, prints nothing. Choosing a level changes nothing of what the program does.",
 ["programs","configurations"],"all sequences of up to two (thorough: three) of 36 blocks of instructions covering every exception, interrupts, delegation, privilege changes, jumps, memory accesses and compressed code, on both ISAs, at every log level, with the beginning of the diff log before, within and after the program",
 "A log is compared with other machines' logs line by line, so one wrong or missing line anywhere spoils it; the suite never produces one.",
 ["src/log.rs","src/lib.rs","src/cpu/reg.rs","src/cpu/fetch.rs","src/cpu/trap.rs"],
 [("step records","src/lib.rs:Emulator::emulation"),("register tables","src/cpu/reg.rs:show/dump"),("level gates","src/log.rs"),("handler addresses","src/cpu/trap.rs:jump_by_cause")],
 ["step counter","log level"],["standard output of the command line program"],False)
p("P26","The command line selects exactly what it names",
 "Options may stand anywhere before `--`, as --option=value or --option value, in any order and combination, and each takes exactly its own effect: --pk names the image to run (the file operand otherwise), --kernel and --initrd the files placed in memory, --pc the hexadecimal address of the first instruction, and an inspection option shows the image that would be run instead of running it. The guest receives as its arguments the proxy kernel (if any), the file operand and all further operands, unmodified and in order. Contradictory, unknown or incomplete options, a --pc that is no hexadecimal address, and files that cannot be opened are refused with a non-zero status before anything is run.",
 ["configurations","inputs"],"all combinations, forms, places and orders of the five value options; all lists of up to three operands over an alphabet of sixteen; spellings of addresses; file names; pairs of inspection options; missing, unreadable and malformed values, on both ISAs",
 "Options interact by position and combination, tens of thousands of ways; the suite never parses a command line.",
 ["src/cmdline.rs","src/main.rs","src/cpu.rs","src/bus/dram.rs","src/bus/mrom.rs"],
 [("option parsing","src/cmdline.rs:Arguments::new"),("choice of image and action","src/main.rs:main"),("initial pc","src/bus/mrom.rs:Mrom::new")],
 ["command line"],["exit status and standard output of the command line program, what a guest finds in memory and receives as arguments"],False)
p("P27","A damaged image is refused before any of it runs",
 "Whatever part of an image file is missing at its end, and whatever offset, size or count in its headers points out of the file, the emulator either runs the whole program exactly as the undamaged image would, or ends with a non-zero status before the first instruction of the image. It never runs a program whose loadable contents are incomplete, never loses the host interface of one it runs, never hangs and never dies by a signal.",
 ["inputs"],"every prefix of images of 144 layouts, and every offset, size and count field of every header set to values in nine classes (thorough: every pair of fields), both classes of ELF",
 "A wrong result needs one particular byte count or field value; the suite loads one intact image.",
 ["src/elfload.rs","src/elfload/elf_32/elf_header.rs","src/elfload/elf_64/elf_header.rs","src/elfload/elf_32/program_header.rs","src/elfload/elf_64/program_header.rs","src/elfload/elf_32/section_header.rs","src/elfload/elf_64/section_header.rs","src/bus/dram.rs"],
 [("header tables","src/elfload.rs:ElfLoader::try_new"),("segment contents","src/bus/dram.rs:Dram::new"),("symbol table","src/elfload.rs:get_host_addr")],
 ["image file"],["exit status and standard output of the command line program"],False)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
