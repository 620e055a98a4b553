"""Elaborate the example SoC (examples/attosoc.py) into CXXRTL C++.

Usage: soc_elab.py wb|csr bare|cpu OUT.cc  (PYTHONPATH=<repo>:<repo>/src:/verif/stubs)

  bare  the SoC with its CPU replaced by a port, so that the simulator is the bus master;
        the UART is built with a small divisor
  cpu   the whole SoC as shipped, running the firmware below, its CPU bus observed
"""
import sys

# The interrupt handler follows sentinel-rt/examples/attosoc.rs; the simulator steers the
# main loop's timing and accesses through the GPIO inputs.
FIRMWARE = """
    j       start
    nop
    nop
    nop
isr:
    sw      t0,0x700(zero)
    sw      t1,0x704(zero)
    lbu     t0,0(s2)
    add     s4,s4,t0
    sw      s4,0x710(zero)
    lbu     t0,4(s3)
    andi    t1,t0,1
    beqz    t1,no_rx
    lbu     s5,0(s3)
    sb      s5,0x715(zero)
    li      s6,1
no_rx:
    andi    t1,t0,2
    beqz    t1,no_txe
    li      s7,0
no_txe:
    beqz    s6,isr_out
    bnez    s7,isr_out
    addi    t0,s5,1
    sb      t0,0(s3)
    li      s6,0
    li      s7,1
isr_out:
    lw      t1,0x704(zero)
    lw      t0,0x700(zero)
    dw 0x30200073
start:
    lui     s1,0x2000
    lui     s2,0x2800
    lui     s3,0x3000
    li      s4,0
    li      s6,0
    li      s7,0
    csrrs   t0,zero,0x344
    beqz    t0,is_csr
    lui     s2,0x40000
    lui     s3,0x80000
    li      s7,1
is_csr:
    li      t0,16
    csrrw   zero,t0,0x305
    li      t0,0x800
    csrrw   zero,t0,0x304
    csrrsi  zero,8,0x300
main:
    lbu     a0,4(s1)
    sb      a0,8(s1)
    add     a1,a0,s4
    sb      a1,0(s1)
    sw      a1,4(s1)
    andi    a1,a0,31
spin:
    addi    a1,a1,-1
    bgez    a1,spin
    andi    a1,a0,0x20
    beqz    a1,no_b5
    slli    a2,a1,3
    csrrs   a3,zero,0x342
no_b5:
    andi    a1,a0,0x40
    beqz    a1,no_b6
    csrrci  zero,8,0x300
    lw      a2,0(s2)
    andi    a2,a2,1
    add     s4,s4,a2
    csrrsi  zero,8,0x300
no_b6:
    andi    a1,a0,0x80
    beqz    a1,main
    lbu     a2,1(s2)
    sb      a0,0x720(a1)
    lhu     a2,0x722(a1)
    j       main
"""


def convert(bus, kind, out):
    from amaranth.hdl import Elaboratable, Module
    from amaranth.lib.wiring import Component, In, Out
    from amaranth.back import cxxrtl
    from amaranth_soc import wishbone
    from examples.attosoc import AttoSoC, BusType
    from sentinel.top import Top

    members = dict(mon_cyc=1, mon_stb=1, mon_we=1, mon_adr=30, mon_sel=4, mon_dat_w=32)

    class Master(Component):
        """Stands where the CPU is: a port (bare), or the CPU itself with its bus made visible."""

        def __init__(self):
            self.flow = In if kind == "bare" else Out
            super().__init__({
                "bus": Out(wishbone.Signature(addr_width=30, data_width=32, granularity=8)), "irq": In(1),
                **{k: self.flow(w) for k, w in members.items()}})

        def elaborate(self, platform):
            m = Module()
            b = self.bus
            if kind == "cpu":
                m.submodules.cpu = cpu = Top()
                m.d.comb += [cpu.irq.eq(self.irq), cpu.bus.ack.eq(b.ack), cpu.bus.dat_r.eq(b.dat_r)]
            for k in members:
                mine, theirs = getattr(self, k), getattr(b, k[4:])
                if kind == "cpu":
                    m.d.comb += [theirs.eq(getattr(cpu.bus, k[4:])), mine.eq(theirs)]
                else:
                    m.d.comb += theirs.eq(mine)
            return m

    soc = AttoSoC(num_bytes=0x1000, bus_type={"wb": BusType.WB, "csr": BusType.CSR}[bus])
    soc.cpu = master = Master()
    if kind == "cpu":
        soc.rom = FIRMWARE
    else:
        soc.rom = [0]
        soc.serial.serial.divisor = 40

    class Dut(Component):
        def __init__(self):
            super().__init__({
                "rx": In(1, init=1), "gpio_i": In(8), "tx": Out(1), "leds": Out(8), "gpio_o": Out(8), "gpio_oe": Out(8),
                "irq": Out(1), "ack": Out(1), "dat_r": Out(32), **{k: master.flow(w) for k, w in members.items()}})

        def elaborate(self, platform):
            m = Module()
            m.submodules.soc = soc
            m.d.comb += [soc.serial.rx.eq(self.rx), self.tx.eq(soc.serial.tx), self.leds.eq(soc.leds.leds),
                         self.irq.eq(soc.cpu.irq), self.ack.eq(soc.cpu.bus.ack), self.dat_r.eq(soc.cpu.bus.dat_r)]
            for i in range(8):
                m.d.comb += [soc.leds.gpio[i].i.eq(self.gpio_i[i]), self.gpio_o[i].eq(soc.leds.gpio[i].o),
                             self.gpio_oe[i].eq(soc.leds.gpio[i].oe)]
            for k in members:
                if kind == "cpu":
                    m.d.comb += getattr(self, k).eq(getattr(master, k))
                else:
                    m.d.comb += getattr(master, k).eq(getattr(self, k))
            return m

    with open(out, "w") as f:
        f.write(cxxrtl.convert(Dut(), name="dut", emit_src=False))


if __name__ == "__main__":
    convert(*sys.argv[1:])
