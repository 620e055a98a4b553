// Executable reference model of the architecture Sentinel documents:
// RV32I_Zicsr, machine mode only, with the CSR map of doc/development/internals.md.
// Values carry a known-bit mask: what the documentation leaves unspecified
// (e.g. general registers after reset) is unknown and never compared.
#pragma once
#include "idut.hpp"
#include <cstring>
#include <string>

struct Val { u32 v = 0, k = 0; bool full() const { return k == 0xffffffffu; } };
static inline Val K(u32 v) { return Val{v, 0xffffffffu}; }

// Why a register holds what it holds (used to attribute a mismatch).
enum Kind : u8 { P_NONE, P_X0, P_ALU, P_LINK, P_LOADW, P_LOADSUB, P_CSRTRAP, P_CSR, P_CSRRESET };
enum : u8 { F_VERIF = 1, F_SYNC = 2, F_IRQ = 4, F_TS = 8 };   // F_TS: read of a trap CSR written by a synchronous trap

// Instruction classes, for coverage and cycle accounting.
enum Cls : u8 { C_LUI, C_AUIPC, C_JAL, C_JALR, C_BR, C_BRNT, C_LB, C_LH, C_LW, C_LBU, C_LHU, C_SB, C_SH, C_SW,
  C_ALUI, C_SHI0, C_SHI, C_ALU, C_SHR0, C_SHR, C_FENCE, C_CSRRO0, C_CSRR, C_CSRW, C_CSRS, C_CSRC,
  C_MRET, C_WFI, C_TRAP_ILL, C_TRAP_ECALL, C_TRAP_EBRK, C_TRAP_JMP, C_TRAP_LD, C_TRAP_ST, C_TRAP_CSR, C_IRQ, C_NCLS };
static const char *const cls_name[] = {"lui","auipc","jal","jalr","branch_taken","branch_not_taken","lb","lh","lw","lbu","lhu",
  "sb","sh","sw","alu_imm","shift_imm_0","shift_imm_n","alu_reg","shift_reg_0","shift_reg_n","fence","csr_ro0","csr_read","csr_write",
  "csr_set","csr_clear","mret","wfi","trap_illegal","trap_ecall","trap_ebreak","trap_jump_misaligned","trap_load_misaligned",
  "trap_store_misaligned","trap_csr_illegal","interrupt"};

struct State {
  Val x[32], was[32];                                    // was: value before the last write
  u8 kind[32] = {0}, flg[32] = {0};
  u32 pc = 0;
  bool mie = false, mpie = false, mpie_k = false, meie = false, meie_k = false;
  Val mtvec, mscratch, mepc, mcause;
  bool p_ms = false, p_mepc = false, p_mcause = false;  // last updated by trap/mret
  bool c_reset = true, m_reset = true;                   // mcause, mstatus untouched since reset
  bool last_sync = false;                                // most recent trap was synchronous
  void reset() { *this = State(); x[0] = K(0); kind[0] = P_X0; mcause = K(0); }
  bool same(const State &o) const {
    for (int i = 0; i < 32; i++) if (x[i].v != o.x[i].v || x[i].k != o.x[i].k) return false;
    return pc == o.pc && mie == o.mie && mpie == o.mpie && mpie_k == o.mpie_k && meie == o.meie && meie_k == o.meie_k &&
      mtvec.v == o.mtvec.v && mtvec.k == o.mtvec.k && mscratch.v == o.mscratch.v && mscratch.k == o.mscratch.k &&
      mepc.v == o.mepc.v && mepc.k == o.mepc.k && mcause.v == o.mcause.v && mcause.k == o.mcause.k;
  }
};

struct Retire {                       // what the RVFI record of this instruction must say
  u32 insn = 0, pc = 0; bool trap = false, is_irq = false, intr = false;
  int rs1 = -1, rs2 = -1; Val rs1v, rs2v;
  bool rdw = false; int rd = 0; Val rdv;
  bool mem = false, we = false; u32 madr = 0, sel = 0, mdata = 0, mk = 0;
  int csr = -1; bool csr_w = false; Val csr_old, csr_new; u32 csr_mask = 0;
  int cop = 0; bool cwr = false; Val carg;                 // CSR instruction: operation, whether it writes, source
  u32 cause = 0; bool mret = false; Val p_mscratch, p_mcause, p_mtvec, p_mepc, p_mie, p_mstatus;   // CSRs before the instruction
  int shamt = 0;
};

struct Outcome {
  State st; bool invalid = false;
  bool trap = false, irq = false; int cause = -1;
  Cls cls = C_TRAP_ILL;
  bool data = false, we = false; u32 adr = 0, sel = 0, dat = 0, dk = 0;   // expected data transaction
  Retire r;
};

static inline u32 bits(u32 w, int hi, int lo) { return (w >> lo) & ((hi - lo == 31) ? 0xffffffffu : ((1u << (hi - lo + 1)) - 1)); }
static inline s32 sx(u32 v, int b) { return (s32)(v << (32 - b)) >> (32 - b); }
static inline u32 lanes(u32 sel) { u32 m = 0; for (int i = 0; i < 4; i++) if (sel >> i & 1) m |= 0xffu << (8 * i); return m; }

static inline bool is_csr_insn(u32 w) { return (w & 0x7f) == 0x73 && (bits(w, 14, 12) & 3) != 0; }

enum CsrKind { CSR_ILL, CSR_RO0, CSR_RO0T, CSR_IMPL };
static inline CsrKind csr_kind(u32 a) {
  switch (a) {
    case 0x300: case 0x304: case 0x305: case 0x340: case 0x341: case 0x342: case 0x344: return CSR_IMPL;
    case 0xF11: case 0xF12: case 0xF13: case 0xF14: case 0xF15: return CSR_RO0T;
    case 0x301: case 0x310: case 0x320: case 0x343: case 0xB00: case 0xB02: case 0xB80: case 0xB82: return CSR_RO0;
  }
  if (a >= 0x323 && a <= 0x33F) return CSR_RO0;
  if (a >= 0xB03 && a <= 0xB1F) return CSR_RO0;
  if (a >= 0xB83 && a <= 0xB9F) return CSR_RO0;
  return CSR_ILL;
}

static inline void m_trap(Outcome &o, u32 cause, bool irq) {
  State &s = o.st;
  if (!s.mtvec.full()) { o.invalid = true; return; }
  o.trap = true; o.irq = irq; o.cause = (int)(cause & 0x7fffffff);
  s.mepc = K(s.pc); s.mcause = K(cause); s.p_mepc = s.p_mcause = s.p_ms = true; s.c_reset = s.m_reset = false; s.last_sync = !irq;
  s.mpie = s.mie; s.mpie_k = true; s.mie = false;
  s.pc = s.mtvec.v;
  for (int i = 1; i < 32; i++) s.flg[i] |= irq ? F_IRQ : F_SYNC;
  s.flg[0] |= irq ? F_IRQ : F_SYNC;
  o.r.cause = cause; o.r.trap = true; o.r.is_irq = irq; o.r.rdw = false; o.r.mem = false; o.data = false; o.r.csr = -1;
}

static inline void m_pre(const State &s, Retire &r) {
  r.p_mscratch = s.mscratch; r.p_mcause = s.mcause; r.p_mtvec = s.mtvec; r.p_mepc = s.mepc;
  r.p_mie = Val{(u32)(s.meie && s.meie_k) << 11, s.meie_k ? 0xffffffffu : ~0x800u};
  r.p_mstatus = Val{0x1800u | (u32)s.mie << 3 | (u32)(s.mpie && s.mpie_k) << 7, s.mpie_k ? 0xffffffffu : ~0x80u};
}

static inline void m_irq(const State &pre, u32 insn, Outcome &o) {
  o = Outcome(); o.st = pre; o.cls = C_IRQ; o.r.insn = insn; o.r.pc = pre.pc; m_pre(pre, o.r);
  m_trap(o, 0x8000000bu, true);
}

static inline void wr(State &s, int rd, Val v, u8 kind) { if (rd) { s.was[rd] = s.x[rd]; s.x[rd] = v; s.kind[rd] = kind; s.flg[rd] = 0; } }

// Execute one instruction. irqread: what a read of mip.MEIP sees. ldata: word a load is served.
static inline void m_exec(const State &pre, u32 w, bool irqread, u32 ldata, Outcome &o) {
  o = Outcome(); o.st = pre; State &s = o.st; Retire &r = o.r;
  r.insn = w; r.pc = pre.pc; m_pre(pre, r);
  u32 op = w & 0x7f, f3 = bits(w, 14, 12), f7 = w >> 25; int rd = bits(w, 11, 7), rs1 = bits(w, 19, 15), rs2 = bits(w, 24, 20);
  Val a = pre.x[rs1], b = pre.x[rs2];
  s32 immI = (s32)w >> 20;
  u32 npc = pre.pc + 4;
  auto use = [&](bool u1, bool u2) { if (u1) { r.rs1 = rs1; r.rs1v = a; } if (u2) { r.rs2 = rs2; r.rs2v = b; } };
  auto put = [&](Val v, u8 kind) { r.rdw = true; r.rd = rd; r.rdv = rd ? v : K(0); wr(s, rd, v, kind); };
  auto ill = [&](Cls c = C_TRAP_ILL) { o.cls = c; m_trap(o, 2, false); };
  auto un = [&](u32 v, bool k) { return k ? K(v) : Val(); };
  switch (op) {
  case 0x37: o.cls = C_LUI; put(K(w & 0xfffff000u), P_ALU); break;
  case 0x17: o.cls = C_AUIPC; put(K(pre.pc + (w & 0xfffff000u)), P_ALU); break;
  case 0x6f: {
    u32 imm = (bits(w, 31, 31) << 20) | (bits(w, 19, 12) << 12) | (bits(w, 20, 20) << 11) | (bits(w, 30, 21) << 1);
    u32 t = pre.pc + sx(imm, 21); o.cls = C_JAL;
    if (t & 2) { o.cls = C_TRAP_JMP; m_trap(o, 0, false); return; }
    put(K(pre.pc + 4), P_LINK); npc = t; break; }
  case 0x67: {
    if (f3) return ill();
    use(true, false); o.cls = C_JALR;
    if (!a.full()) { o.invalid = true; return; }
    u32 t = (a.v + immI) & ~1u;
    if (t & 2) { o.cls = C_TRAP_JMP; m_trap(o, 0, false); return; }
    put(K(pre.pc + 4), P_LINK); npc = t; break; }
  case 0x63: {
    if (f3 == 2 || f3 == 3) return ill();
    use(true, true);
    if (!a.full() || !b.full()) { o.invalid = true; return; }
    bool t = false;
    switch (f3) { case 0: t = a.v == b.v; break; case 1: t = a.v != b.v; break; case 4: t = (s32)a.v < (s32)b.v; break;
      case 5: t = (s32)a.v >= (s32)b.v; break; case 6: t = a.v < b.v; break; case 7: t = a.v >= b.v; break; }
    u32 imm = (bits(w, 31, 31) << 12) | (bits(w, 7, 7) << 11) | (bits(w, 30, 25) << 5) | (bits(w, 11, 8) << 1);
    o.cls = t ? C_BR : C_BRNT;
    if (t) { u32 tg = pre.pc + sx(imm, 13); if (tg & 2) { o.cls = C_TRAP_JMP; m_trap(o, 0, false); return; } npc = tg; }
    break; }
  case 0x03: {
    if (f3 == 3 || f3 > 5) return ill();
    use(true, false);
    if (!a.full()) { o.invalid = true; return; }
    u32 ea = a.v + immI; int sz = f3 & 3; o.cls = (Cls)(f3 < 3 ? C_LB + f3 : C_LBU + (f3 - 4));
    if (ea & ((1u << sz) - 1)) { o.cls = C_TRAP_LD; m_trap(o, 4, false); return; }
    o.data = true; o.we = false; o.adr = ea >> 2; o.sel = (sz == 0 ? 1u : sz == 1 ? 3u : 15u) << (ea & 3);
    u32 v = ldata >> (8 * (ea & 3));
    if (sz == 0) v = (f3 & 4) ? (v & 0xff) : (u32)sx(v & 0xff, 8);
    else if (sz == 1) v = (f3 & 4) ? (v & 0xffff) : (u32)sx(v & 0xffff, 16);
    r.mem = true; r.we = false; r.madr = ea & ~3u; r.sel = o.sel; r.mdata = ldata; r.mk = 0xffffffffu;
    put(K(v), sz == 2 ? P_LOADW : P_LOADSUB); break; }
  case 0x23: {
    if (f3 >= 3) return ill();
    use(true, true);
    if (!a.full()) { o.invalid = true; return; }
    u32 imm = (bits(w, 31, 25) << 5) | bits(w, 11, 7); u32 ea = a.v + sx(imm, 12); int sz = f3; o.cls = (Cls)(C_SB + f3);
    if (ea & ((1u << sz) - 1)) { o.cls = C_TRAP_ST; m_trap(o, 6, false); return; }
    o.data = true; o.we = true; o.adr = ea >> 2; o.sel = (sz == 0 ? 1u : sz == 1 ? 3u : 15u) << (ea & 3);
    o.dat = b.v << (8 * (ea & 3)); o.dk = b.k << (8 * (ea & 3));
    r.mem = true; r.we = true; r.madr = ea & ~3u; r.sel = o.sel; r.mdata = o.dat; r.mk = o.dk;
    break; }
  case 0x13: {
    if (f3 == 1 && f7) return ill();
    if (f3 == 5 && f7 && f7 != 0x20) return ill();
    use(true, false); o.cls = C_ALUI; u32 i = (u32)immI, sh = i & 31; Val v;
    switch (f3) {
      case 0: v = i == 0 ? a : un(a.v + i, a.full()); break;
      case 2: v = un((s32)a.v < immI, a.full()); break;
      case 3: v = un(a.v < i, a.full()); break;
      case 4: v = Val{a.v ^ i, a.k}; break;
      case 6: v = Val{a.v | i, a.k | i}; break;
      case 7: v = Val{a.v & i, a.k | ~i}; break;
      case 1: o.cls = sh ? C_SHI : C_SHI0; v = Val{a.v << sh, (a.k << sh) | ((1u << sh) - 1)}; break;
      case 5: o.cls = sh ? C_SHI : C_SHI0;
        if (f7) v = un((u32)((s32)a.v >> sh), a.full()); else v = Val{a.v >> sh, (a.k >> sh) | (sh ? ~(0xffffffffu >> sh) : 0)}; break;
    }
    r.shamt = (f3 == 1 || f3 == 5) ? sh : 0;
    v.v &= v.k; put(v, P_ALU); break; }
  case 0x33: {
    if (f3 == 0 || f3 == 5) { if (f7 && f7 != 0x20) return ill(); } else if (f7) return ill();
    use(true, true); o.cls = C_ALU; bool k = a.full() && b.full(); u32 v = 0, sh = b.v & 31;
    switch (f3) {
      case 0: v = f7 ? a.v - b.v : a.v + b.v; break;
      case 1: v = a.v << sh; break;
      case 2: v = (s32)a.v < (s32)b.v; break;
      case 3: v = a.v < b.v; break;
      case 4: v = a.v ^ b.v; break;
      case 5: v = f7 ? (u32)((s32)a.v >> sh) : a.v >> sh; break;
      case 6: v = a.v | b.v; break;
      case 7: v = a.v & b.v; break;
    }
    if (f3 == 1 || f3 == 5) { o.cls = sh ? C_SHR : C_SHR0; r.shamt = sh; if (!b.full()) { o.invalid = true; return; } }
    put(un(v, k), P_ALU); break; }
  case 0x0f: if (f3) return ill(); o.cls = C_FENCE; break;
  case 0x73: {
    if (f3 == 0) {
      if (w == 0x00000073u) { o.cls = C_TRAP_ECALL; m_trap(o, 11, false); return; }
      if (w == 0x00100073u) { o.cls = C_TRAP_EBRK; m_trap(o, 3, false); return; }
      if (w == 0x10500073u) { o.cls = C_WFI; break; }
      if (w == 0x30200073u) {
        o.cls = C_MRET;
        if (!s.mepc.full() || !s.mpie_k || (s.mpie && (!s.meie_k || !s.mtvec.full()))) { o.invalid = true; return; }
        r.mret = true; npc = s.mepc.v; s.mie = s.mpie; s.mpie = true; s.p_ms = true; s.m_reset = false; break;
      }
      return ill();
    }
    if (f3 == 4) return ill();
    u32 ca = w >> 20; bool imm = f3 & 4; int cop = f3 & 3; bool writes = cop == 1 || rs1 != 0;
    CsrKind ck = csr_kind(ca);
    if (ck == CSR_ILL || (ck == CSR_RO0T && writes)) return ill(C_TRAP_CSR);
    if (!imm) use(true, false);
    Val src = imm ? K(rs1) : a, old = K(0), nw; u8 kind = P_CSR; u32 cmask = 0xffffffffu;
    r.cop = cop; r.cwr = writes; r.carg = src; r.csr = ca; r.csr_w = writes && ck == CSR_IMPL;
    if (ck == CSR_IMPL) switch (ca) {
      case 0x300: old.v = 0x1800u | (u32)s.mie << 3 | (u32)(s.mpie && s.mpie_k) << 7; if (!s.mpie_k) old.k &= ~0x80u; kind = s.p_ms ? P_CSRTRAP : s.m_reset ? P_CSRRESET : P_CSR; cmask = 0x88; break;
      case 0x304: old.v = (u32)(s.meie && s.meie_k) << 11; if (!s.meie_k) old.k &= ~0x800u; cmask = 0x800; break;
      case 0x305: old = s.mtvec; cmask = ~3u; break;
      case 0x340: old = s.mscratch; break;
      case 0x341: old = s.mepc; kind = s.p_mepc ? P_CSRTRAP : P_CSR; cmask = ~3u; break;
      case 0x342: old = s.mcause; kind = s.p_mcause ? P_CSRTRAP : s.c_reset ? P_CSRRESET : P_CSR; break;
      case 0x344: old.v = (u32)irqread << 11; cmask = 0; break;
    }
    o.cls = ck != CSR_IMPL ? C_CSRRO0 : !writes ? C_CSRR : cop == 1 ? C_CSRW : cop == 2 ? C_CSRS : C_CSRC;
    if (writes && ck == CSR_IMPL) {
      if (cop == 1) nw = src;
      else if (cop == 2) nw = Val{old.v | src.v, (old.k & src.k) | (old.k & old.v) | (src.k & src.v)};
      else nw = Val{old.v & ~src.v, (old.k & src.k) | (old.k & ~old.v) | (src.k & src.v)};
      nw.v &= nw.k;
      switch (ca) {
        case 0x300: {
          if (!(nw.k & 8)) { o.invalid = true; return; }
          s.mie = nw.v >> 3 & 1; s.mpie = nw.v >> 7 & 1; s.mpie_k = nw.k >> 7 & 1; s.p_ms = s.m_reset = false;
          if (s.mie && (!s.meie_k || !s.mtvec.full())) { o.invalid = true; return; }
          break; }
        case 0x304: s.meie = nw.v >> 11 & 1; s.meie_k = nw.k >> 11 & 1; if (s.mie && !s.meie_k) { o.invalid = true; return; } break;
        case 0x305: s.mtvec = Val{nw.v & ~3u, nw.k | 3u}; if (s.mie && !s.mtvec.full()) { o.invalid = true; return; } break;
        case 0x340: s.mscratch = nw; break;
        case 0x341: s.mepc = Val{nw.v & ~3u, nw.k | 3u}; s.p_mepc = false; break;
        case 0x342: s.mcause = nw; s.p_mcause = false; s.c_reset = false; break;
      }
    }
    r.csr_old = old; r.csr_new = nw; r.csr_mask = cmask;
    old.v &= old.k;
    put(old, kind);
    if (rd && kind == P_CSRTRAP && ca != 0x300 && s.last_sync) s.flg[rd] |= F_TS;
    break; }
  default: return ill();
  }
  s.pc = npc;
}
