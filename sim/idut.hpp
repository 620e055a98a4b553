// Interface between the simulator and a compiled-from-/repo device under test.
#pragma once
#include <cstdint>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t s32;

struct Out { bool cyc, stb, we; u32 adr, sel, dat_w; };

// CSRs that read as zero and have an RVFI port: name, address, address of the upper half (0: 32 bits).
struct RoCsr { const char *name; u32 lo, hi; };
static const RoCsr RVFI_RO[13] = {{"mvendorid", 0xF11, 0}, {"marchid", 0xF12, 0}, {"mimpid", 0xF13, 0}, {"mhartid", 0xF14, 0}, {"mconfigptr", 0xF15, 0},
  {"misa", 0x301, 0}, {"mstatush", 0x310, 0}, {"mtval", 0x343, 0}, {"mcountinhibit", 0x320, 0}, {"mhpmevent3", 0x323, 0},
  {"mcycle", 0xB00, 0xB80}, {"minstret", 0xB02, 0xB82}, {"mhpmcounter3", 0xB03, 0xB83}};

struct Rvfi {
  bool valid, trap, intr, halt; u32 mode, ixl; u64 order; u32 insn;
  u32 rs1a, rs2a, rs1d, rs2d, rda, rdd, pc_r, pc_w, maddr, mr, mw, mrd, mwd;
  struct C { u32 rm, wm, rd, wd; } mscratch, mcause, mtvec, mepc, mstatus, mie, mip;
  struct C64 { u64 rm, wm, rd, wd; } ro[13];      // read-only-zero CSRs, in the order of RVFI_RO
};

struct IDut {
  virtual ~IDut() {}
  virtual void power_on() = 0;
  // Drive all inputs with the clock low and let combinational logic settle.
  virtual void drive(bool ack, u32 dat_r, bool irq, bool rst, bool en) = 0;
  virtual void sample(Out &o) = 0;
  virtual void edge() = 0;              // rising clock edge
  virtual bool rvfi(Rvfi &) { return false; }
  virtual bool has_en() { return true; }
};
