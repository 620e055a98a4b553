// Compiled once per DUT variant with -DDUT_SRC, -DDUT_CLS, -DDUT_FACTORY.
#include DUT_SRC
#include "idut.hpp"
namespace {
struct D final : IDut {
  using M = cxxrtl_design::DUT_CLS;
  M *dp = new M; M &d_() { return *dp; }
#define d (*dp)
  // A new object: nothing of an earlier execution (memory contents in particular) may survive.
  void power_on() override { delete dp; dp = new M;
#ifdef DUT_EN
    d.p_en.set<bool>(true);
#endif
  }
  void drive(bool ack, u32 dat_r, bool irq, bool rst, bool en) override {
    d.p_bus____ack.set<bool>(ack); d.p_bus____dat__r.set<u32>(dat_r);
    d.p_irq.set<bool>(irq); d.p_rst.set<bool>(rst);
#ifdef DUT_EN
    d.p_en.set<bool>(en);
#else
    (void)en;
#endif
    d.p_clk.set<bool>(false); d.step();
  }
  void sample(Out &o) override {
    o.cyc = d.p_bus____cyc.get<bool>(); o.stb = d.p_bus____stb.get<bool>();
    o.we = d.p_bus____we.get<bool>(); o.adr = d.p_bus____adr.get<u32>();
    o.sel = d.p_bus____sel.get<u32>(); o.dat_w = d.p_bus____dat__w.get<u32>();
  }
  void edge() override { d.p_clk.set<bool>(true); d.step(); }
#ifdef DUT_EN
  bool has_en() override { return true; }
#else
  bool has_en() override { return false; }
#endif
#ifdef DUT_RVFI
#define G(f) d.p_rvfi____##f.get<u32>()
#define G64(f) d.p_rvfi____##f.get<u64>()
#define GC(c) {G(csr____##c##____rmask), G(csr____##c##____wmask), G(csr____##c##____rdata), G(csr____##c##____wdata)}
  bool rvfi(Rvfi &r) override {
    r.valid = d.p_rvfi____valid.get<bool>(); r.trap = d.p_rvfi____trap.get<bool>();
    if (!r.valid) return true;
    r.intr = d.p_rvfi____intr.get<bool>(); r.halt = d.p_rvfi____halt.get<bool>();
    r.mode = G(mode); r.ixl = G(ixl);
    r.order = d.p_rvfi____order.get<u64>(); r.insn = G(insn);
    r.rs1a = G(rs1__addr); r.rs2a = G(rs2__addr); r.rs1d = G(rs1__rdata); r.rs2d = G(rs2__rdata);
    r.rda = G(rd__addr); r.rdd = G(rd__wdata); r.pc_r = G(pc__rdata); r.pc_w = G(pc__wdata);
    r.maddr = G(mem__addr); r.mr = G(mem__rmask); r.mw = G(mem__wmask); r.mrd = G(mem__rdata); r.mwd = G(mem__wdata);
    r.mscratch = GC(mscratch); r.mcause = GC(mcause); r.mtvec = GC(mtvec); r.mepc = GC(mepc);
    r.mstatus = GC(mstatus); r.mie = GC(mie); r.mip = GC(mip);
    int i = 0;
#define R(c) r.ro[i++] = {G(csr____##c##____rmask), G(csr____##c##____wmask), G(csr____##c##____rdata), G(csr____##c##____wdata)};
#define H(c) r.ro[i++] = {G64(csr____##c##____rmask), G64(csr____##c##____wmask), G64(csr____##c##____rdata), G64(csr____##c##____wdata)};
    R(mvendorid) R(marchid) R(mimpid) R(mhartid) R(mconfigptr) R(misa) R(mstatush) R(mtval) R(mcountinhibit) R(mhpmevent3) H(mcycle) H(minstret) H(mhpmcounter3)
    return true;
  }
#endif
};
}
extern "C" IDut *make_dut() { return new D; }
