import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
S="src/sentinel/"
BUS=["Wishbone bus, irq and rst pins of sentinel.top.Top"]
prop("C01","Programs follow RV32I_Zicsr semantics under every bus timing",
 "For every instruction stream and every assignment of wait states to the bus transactions (ACK at least one cycle after the request, as documented), the sequence of instruction fetches, loads and stores (addresses, byte selects and stored data) that the CPU issues is exactly the one the RISC-V RV32I_Zicsr machine-mode specification prescribes, in program order. How many cycles a slave takes to acknowledge never changes a result.",
 ["programs","inputs","schedules","histories"],"all instruction words, register values and instruction sequences, times all per-transaction acknowledge delays (1 cycle up to tens of thousands)",
 "The reliably-running tests only check the microcode field layout; the simulation tests of the repository run a handful of fixed programs with one fixed wait state, and the upstream ISA binaries sample a few operand values per instruction.",
 [S+"top.py",S+"microcode.asm",S+"alu.py",S+"decode.py",S+"control.py",S+"datapath.py",S+"align.py",S+"insn.py"],
 [("microprogram per instruction class",S+"microcode.asm"),("opcode to microaddress mapping",S+"control.py:MappingROM"),("ALU and operand muxes",S+"alu.py"),("wait loops on acknowledge",S+"microcode.asm:wait_for_ack,lb_wait,sw_wait")],
 [("GP registers / PC","architectural state",S+"datapath.py")],BUS)
prop("C02","Wishbone classic master protocol is never violated",
 "CYC and STB are always asserted together; once asserted they and ADR, WE, SEL (and the selected DAT_W bytes of a write) hold unchanged until the slave acknowledges, however long that takes; in the cycle after an acknowledge the request is deasserted for at least one cycle. Only legal byte selects are used (whole word for fetches, naturally aligned lane groups for data) and reads never assert WE.",
 ["programs","schedules","fault_sequences"],"all programs and interrupt/reset histories, all acknowledge delays including very long stalls, arbitrary values on the data and acknowledge lines while no request is outstanding",
 "Existing bus tests use a slave that always acknowledges after exactly one cycle and never inspect intermediate cycles of a stalled transfer.",
 [S+"top.py",S+"align.py",S+"microcode.asm",S+"control.py"],
 [("mem_req/mem_valid microcode handshake",S+"microcode.asm"),("address/select alignment",S+"align.py:AddressAlign"),("reset guard on CYC/STB",S+"top.py:Top.elaborate")],
 [("latched data address / write data","request payload during waits",S+"top.py")],BUS)
prop("C03","The CPU reacts to DAT_R and ACK only when they are valid",
 "Values on DAT_R while no read is being acknowledged, values on byte lanes whose SEL is low, and ACK pulses while no request is outstanding have no influence on anything the CPU does: two executions that differ only in those don't-care values are identical on every later bus cycle.",
 ["inputs","schedules","fault_sequences"],"all programs, wait-state schedules, interrupt and reset histories, and all pairs of don't-care input patterns",
 "A non-interference (two-execution) property; tests use one memory model that holds DAT_R stable and never drives ACK spuriously.",
 [S+"top.py",S+"decode.py",S+"control.py",S+"align.py",S+"alu.py"],
 [("decode strobe qualified by ack",S+"top.py:Top.elaborate"),("eager rs1 read from unregistered instruction bits",S+"top.py"),("read data alignment",S+"align.py:ReadDataAlign")],
 [],BUS)
prop("C04","Interrupts are taken exactly when pending and enabled, and precisely",
 "An external interrupt is taken if and only if the IRQ line is high, mstatus.MIE and mie.MEIE are set at the documented sampling point following an instruction fetch; it is never lost while the line stays high and never taken spuriously. It is taken on an instruction boundary: the interrupted instruction has had no effect, mepc names it, no instruction is skipped or executed twice, and handler execution starts at mtvec within a bounded number of cycles.",
 ["schedules","histories","programs"],"all programs, all IRQ waveforms (single-cycle glitches, storms, long levels) at all alignments to the instruction stream, all wait-state schedules",
 "Tests assert the IRQ at a couple of fixed points; the property quantifies over every alignment of the IRQ edge with every instruction and bus phase.",
 [S+"exception.py",S+"csr.py",S+"datapath.py",S+"control.py",S+"microcode.asm",S+"top.py"],
 [("exception router priority",S+"exception.py:ExceptionRouter"),("interrupt check uop",S+"microcode.asm:check_int"),("trap entry microcode",S+"microcode.asm:save_pc")],
 [("mstatus.mie, mie.meie","enable bits",S+"datapath.py:CSRFile")],BUS)
prop("C05","Trap CSRs stay correct over any history of traps and returns",
 "Every trap entry saves the address of the trapping or interrupted instruction in mepc, the cause of this trap (not of an earlier one) in mcause, moves MIE to MPIE and clears MIE, and continues at mtvec; MRET continues at mepc, moves MPIE to MIE and sets MPIE. This holds for every interleaving of interrupts, synchronous exceptions, nested traps, returns and software writes to these CSRs.",
 ["histories","schedules","programs"],"all sequences of interrupts, exceptions of every kind, mret and CSR writes, nested to any depth",
 "Tests enter a trap or two from a fresh state; stale state carried from one trap to the next only shows over longer mixed histories.",
 [S+"exception.py",S+"datapath.py",S+"csr.py",S+"microcode.asm",S+"top.py"],
 [("mcause latch",S+"exception.py:ExceptionRouter"),("mstatus stack",S+"datapath.py:CSRFile"),("save_pc and mret microcode",S+"microcode.asm")],
 [("mcause latch","cause of the last detected exception",S+"exception.py")],["CSR reads stored to the bus by test programs"])
prop("C06","Synchronous exceptions are precise and free of side effects",
 "An instruction that raises a synchronous exception (illegal instruction or CSR access, ecall, ebreak, misaligned jump target, misaligned load or store) performs no load or store on the bus and changes no general register and no CSR other than the trap CSRs; the exception code is the one the privileged specification assigns, and mepc names exactly that instruction.",
 ["programs","inputs","histories","schedules"],"all trapping instruction encodings, operand values and addresses, in any program context and bus timing",
 "Tests try a few trapping instructions with one operand each and do not check that all remaining state is untouched.",
 [S+"decode.py",S+"exception.py",S+"microcode.asm",S+"control.py"],
 [("decode exceptions",S+"decode.py:ExceptionControl"),("address exceptions before the request starts",S+"microcode.asm:lh,lw,sh,sw"),("jump target check before link write",S+"microcode.asm:jal,jalr")],
 [],BUS)
prop("C07","Reset at any cycle gives a clean restart",
 "Whenever reset is asserted, for any number of cycles and in the middle of any activity, the CPU abandons the current bus request, issues no request until reset is released, and then starts by fetching address 0 with x0 reading zero, interrupts disabled and mcause zero. No effect of pre-reset activity (a pending write, a half-executed instruction, a pending trap) appears on the bus or in the executed program afterwards.",
 ["crash_points","histories","schedules"],"all reset instants and durations (including during waits, trap entry, interrupt acceptance, clock-enable stalls and the reset sequence itself) over all programs",
 "The microcode read port shows a stale microinstruction for one cycle after reset; the author's own documentation asks for a characterisation of all possible reset behaviour. Tests reset at two hand-picked cycles.",
 [S+"control.py",S+"microcode.asm",S+"top.py",S+"datapath.py"],
 [("reset microprogram",S+"microcode.asm:reset"),("sequencer reset guard",S+"control.py:Sequencer"),("CYC/STB reset guard",S+"top.py:Top.elaborate")],
 [("stale microinstruction","read port of microcode ROM after reset",S+"control.py")],BUS)
prop("C08","Clock-enable stalls are invisible",
 "When the CPU is run with a clock enable, inserting stalled cycles anywhere changes nothing but time: outputs are frozen during a stall, and the sequence of enabled cycles is identical to the execution without stalls.",
 ["schedules","programs","histories"],"all stall patterns (single cycles, bursts, periodic dividers) against all programs, wait states, interrupts and resets",
 "A two-execution property over all stall schedules; the only existing test toggles the enable once around a reset.",
 [S+"top.py",S+"datapath.py",S+"control.py",S+"ucoderom.py"],
 [("all state in the sync domain; memories with enable-controlled ports",S+"datapath.py:RegFile")],
 [],BUS)
prop("C09","CSR accesses obey the documented register map and WARL rules",
 "Every CSR instruction on every one of the 4096 addresses either performs the documented access or raises an illegal-instruction exception: implemented registers read back what was last written within their documented writable fields, read-only-zero registers read zero and ignore or trap on writes as documented, all others trap. Set/clear forms with a zero source do not write, the old value is what reaches rd, and mip.MEIP always reads the live IRQ line.",
 ["inputs","histories","programs","schedules"],"all CSR addresses, all six CSR instructions, all register and immediate operands, all access histories and interrupt activity in between",
 "4096 addresses x 6 instructions x register choices x histories; the tests exercise a few of each.",
 [S+"decode.py",S+"csr.py",S+"datapath.py",S+"control.py",S+"microcode.asm"],
 [("CSR attribute ROM",S+"decode.py:CSRAttributes"),("CSR file",S+"datapath.py:CSRFile"),("CSR microcode",S+"microcode.asm:csr*")],
 [("mstatus,mie,mtvec,mscratch,mepc,mcause","CSRs",S+"datapath.py:CSRFile")],["CSR reads stored to the bus by test programs"])
prop("C10","The CPU never locks up: every fetch leads to further progress",
 "For every 32-bit instruction word, in every history of traps, interrupts and resets, the CPU issues its next bus request within a fixed bound (100 enabled cycles) after the acknowledge of the previous one. No instruction word, however malformed, stops or wedges the machine.",
 ["inputs","programs","histories","schedules"],"all 2^32 instruction words in any context, with any wait-state and interrupt schedule; liveness stated as bounded progress once a slave has answered",
 "Liveness over all inputs and histories; tests only run to completion of a few programs under a timeout.",
 [S+"control.py",S+"microcode.asm",S+"decode.py"],
 [("illegal opcodes trapped before dispatch",S+"decode.py:ExceptionControl"),("mapping to microaddress",S+"control.py:MappingROM"),("halt/panic microaddresses unreachable",S+"microcode.asm")],
 [],BUS)
prop("C11","Registers change only when an instruction names them; x0 stays zero",
 "After any history, every general register holds the value given to it by the last completed instruction that named it as destination, and x0 reads zero; executing other instructions, taking traps or interrupts, accessing CSRs (which share storage with the registers), stalling or aborting instructions never disturbs it.",
 ["histories","programs","schedules"],"all sequences of instructions, traps and interrupts between a register write and a later read, over all 32 registers",
 "Frame property over arbitrary histories; tests compare a few registers after short fixed programs.",
 [S+"datapath.py",S+"top.py",S+"microcode.asm"],
 [("register file write enable and x0 guard",S+"datapath.py:RegFile"),("GP/CSR sharing one block RAM",S+"datapath.py:RegFile"),("write-back in the fetch epilog",S+"microcode.asm:fast_epilog")],
 [("register file RAM","GP registers and BRAM CSRs",S+"datapath.py:RegFile")],["register dumps stored to the bus by test programs"])
prop("C12","Sub-word loads and stores use the right lanes and extension",
 "A byte or halfword store asserts exactly the select lines of the addressed bytes and drives the register's low bits on those lanes; a byte or halfword load takes only the addressed lanes and sign- or zero-extends them. This holds for every address offset and value, whatever the slave drives on the other lanes and however long it takes.",
 ["inputs","schedules","fault_sequences"],"all addresses, data values, garbage on unselected lanes and wait states",
 "Tests use a memory that drives clean, stable words; lane errors masked by matching bytes are not seen.",
 [S+"align.py",S+"alu.py",S+"top.py",S+"microcode.asm"],
 [("AddressAlign, ReadDataAlign, WriteDataAlign",S+"align.py")],[],BUS)
prop("C13","Each load or store makes exactly one bus access, in program order",
 "Every executed load or store makes exactly one data transaction, after the fetch of that instruction and before the fetch of the next one, and no other data transaction ever appears: none is repeated, dropped, merged, made speculatively, or made by an interrupted or trapping instruction. Device registers with read or write side effects therefore see exactly the accesses the program makes.",
 ["schedules","histories","programs","fault_sequences"],"all programs with I/O accesses, all acknowledge delays, interrupts arriving during accesses, clock-enable stalls",
 "Existing slaves are idempotent RAM, on which a repeated or dropped access is invisible, and no test lets an interrupt race an access.",
 [S+"microcode.asm",S+"control.py",S+"top.py",S+"exception.py"],
 [("one wait loop per access",S+"microcode.asm:lb_wait,sb_wait"),("interrupt check only at instruction start",S+"microcode.asm:check_int")],[],BUS)
prop("C14","Instructions retire within their documented cycle counts",
 "With slaves that acknowledge one cycle after the request, each instruction (and trap entry and mret) takes no more cycles from its fetch acknowledge to the next one than the documentation states; every additional wait state adds exactly its own length and nothing else. The documented pipelining (4 cycles per simple ALU instruction) is achieved in every context.",
 ["programs","schedules","histories"],"all instruction sequences, operands, wait-state schedules and trap histories",
 "The documentation itself lists a cycle-count test as missing; timing in one context does not settle it in all.",
 [S+"microcode.asm","doc/development/internals.md","README.md"],
 [("overlapped fetch in microcode epilogs",S+"microcode.asm:fast_epilog")],[],BUS)
prop("C15","The RVFI trace reports exactly what the CPU did",
 "With the formal interface enabled, one record per fetched instruction is emitted, consecutively numbered and in program order, whose instruction word, PC and next PC, source and destination register values, memory access, trap/interrupt flags and CSR values match the architectural execution observed on the bus.",
 ["programs","histories","schedules"],"all instruction streams, interrupts, exceptions, wait states",
 "The formal harness is itself only exercised by an external bounded model checker that is not part of the tests; nothing checks that the trace is faithful over long histories.",
 [S+"formal.py",S+"top.py",S+"decode.py"],
 [("retirement detection",S+"formal.py:FormalTop.elaborate")],[],["rvfi signature of sentinel.formal.FormalTop"])
prop("C16","Generated Verilog and the RVFI build behave like the Amaranth core",
 "The Verilog written by the generator (with and without RVFI connections) and the core built with the formal option show, cycle for cycle, the same bus behaviour as the plain core for every stimulus; observation options never change what the core does.",
 ["configurations","programs","schedules","crash_points"],"all stimuli (programs, wait states, interrupts, resets) across the shipped build configurations",
 "No test ever runs the generated Verilog or compares configurations.",
 [S+"gen.py",S+"formal.py",S+"top.py",S+"decode.py",S+"datapath.py"],
 [("verilog.convert of Top/FormalTop",S+"gen.py:generate"),("formal option",S+"top.py:Top")],[],BUS)
prop("C17","AttoSoC peripherals lose and duplicate no event or character",
 "Under any timing of CPU accesses and serial-line activity, every timer tick and every received or completed character is reported exactly once through the peripheral's interrupt flags, reading a flag register returns and clears exactly the reported flags, each written character is sent once with correct framing, LED/GPIO registers hold the last value written, and RAM returns the bytes last written.",
 ["schedules","histories","fault_sequences"],"all interleavings of bus accesses with timer expiry and serial start/stop bits, on both peripheral interconnects",
 "Races between a flag being set and being read occur at single-cycle alignments that fixed tests do not hit.",
 ["examples/attosoc.py"],
 [("read-clear flags with set priority","examples/attosoc.py:WBTimer,WBSerial"),("UART shift registers","examples/attosoc.py:UART")],[],["peripheral bus ports, irq, tx/rx pins"])
prop("C18","Artefact generation under I/O failure is all-or-error",
 "Generating Verilog to a file or to standard output, and assembling microcode with its optional listing outputs, either produces the complete artefact and reports success, or reports the I/O error to the caller; files it opened are closed and standard output is left open in every case.",
 ["fault_sequences","configurations","inputs"],"all points at which open, read, write, flush or close can fail (missing permission, full disk, short reads, interrupted write), for every output option",
 "Tests never inject an I/O failure into generation.",
 [S+"gen.py",S+"ucoderom.py"],
 [("_file_or_stdout context manager",S+"gen.py"),("UCodeROM.assemble",S+"ucoderom.py")],[],["sentinel.gen entry point, UCodeROM constructor"])
prop("C19","Microcode that does not match the hardware is rejected",
 "Microcode source whose fields, enumerations or widths do not match the hardware's field definitions, or that uses several address spaces, is rejected with an error; accepted source is translated to a ROM whose every field decodes to the source's value.",
 ["inputs"],"all microcode source texts and field maps",
 "A universally quantified input-validation property; the tests have a few bad files.",
 [S+"ucoderom.py",S+"ucodefields.py"],
 [("enum and width checks",S+"ucoderom.py:UCodeROM")],[],["UCodeROM constructor"])
prop("C20","Generated artefacts depend only on the request, not on the environment",
 "The Verilog, the microcode ROM and the listing files produced for given options and sources are the same, byte for byte, whatever the interpreter's hash seed, the wall clock (also standing still or jumping back), entropy, process environment, working directory and heap layout are, whatever the same process generated before, and whatever earlier runs left behind in the home, temporary and output directories, including runs that were killed at any point; an edited source is always seen.",
 ["configurations","histories","crash_points","inputs"],"all sequences of generator and assembler runs in one or several processes, all environments, all points at which an earlier run can be killed, all time-stamp histories of the sources",
 "Tests generate once, in one environment, in a fresh process; leftovers, hash-order dependence and stale caches only show across several runs.",
 [S+"gen.py",S+"ucoderom.py",S+"formal.py",S+"top.py"],
 [("design construction and verilog.convert",S+"gen.py:generate"),("UCodeROM.assemble",S+"ucoderom.py"),("field_map",S+"ucoderom.py:UCodeROM")],[],["sentinel.gen entry points, UCodeROM constructor, the files they write"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
