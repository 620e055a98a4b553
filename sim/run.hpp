// One deterministic simulated execution of a DUT against the reference model.
#pragma once
#include "scen.hpp"
#include <algorithm>
#include <cstdarg>

enum { NPROP = 20 };
#define T(n) (1u << (n))

struct Viol {
  bool hit = false; const char *cls = ""; u32 tags = 0; std::string detail; size_t step = 0; u64 cycle = 0;
  bool fresh = false, boot = false;            // the wrong value is one that only reset has set; no first fetch yet
};

struct Stats {
  u64 runs = 0, cycles = 0, gated = 0, insns = 0, txs = 0, datas = 0, traps_sync = 0, traps_irq = 0, resets = 0, invalid = 0, ambiguous = 0;
  u64 irq_edges = 0, irq_glitch = 0, waits = 0, long_waits = 0, spur = 0, garb_lanes = 0, garb_idle = 0, gate_bursts = 0, mid_resets = 0, irq_gated = 0;
  u64 reset_in_wait = 0, reset_in_exec = 0, reset_in_reset = 0, x0_writes = 0, irq_missed_window = 0, rvfi = 0, mrets = 0, csr_acc = 0, nested_traps = 0, deferred_irq = 0;
  u64 clsn[C_NCLS] = {0}; u32 bmin[C_NCLS], bmax[C_NCLS];
  Stats() { for (int i = 0; i < C_NCLS; i++) { bmin[i] = ~0u; bmax[i] = 0; } }
};

enum { COV_STATE = 36 * 36 * 4 * 4 * 8, COV_RST = 36 * 64, COV_GATE = 36 * 64, COV_CSR = 4096 * 6 * 2 };
enum { COV_BITS = COV_STATE + COV_RST + COV_GATE + COV_CSR };
struct Cov { std::vector<u8> b; Cov() : b((COV_BITS + 7) / 8, 0) {} void set(u32 i) { b[i >> 3] |= 1 << (i & 7); } };

struct TraceRow { u32 a, adr, d; };            // cyc,stb,we,sel packed; adr; masked dat_w
struct Opts {
  bool strip_gate = false, late_rst = false, alt_garbage = false, no_irq = false, no_wait = false;
  bool keep_trace = false, check_rvfi = false, check_cycles = false, verbose = false;
  u64 max_cycles = 4000000;
};
struct Result { bool invalid = false, capped = false; Viol v; u64 hash = 0; u64 cycles = 0; int last_reset_step = -1; std::vector<TraceRow> trace; std::vector<u32> busy; };

struct Cand { Outcome o; bool data = false; };

struct Gen;                                    // online scenario generator (gen.hpp)
void gen_next(Gen *g, Scen &sc, const std::vector<Cand> &c, bool after_reset);
bool gen_done(Gen *g, const Scen &sc);

static inline std::string fmt(const char *f, ...) { char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

struct Runner {
  IDut &d; Scen &sc; Opts op; Stats &st; Cov *cov; Gen *gen;
  Result res;
  std::vector<Cand> cands, tmp;
  enum Ph { BOOT, FETCH, EXEC, DATA, POST } ph = BOOT;   // BOOT: waiting for first fetch; EXEC: fetch acked; POST: data acked
  size_t cur = 0;                              // index of the step being served (0: power-on phase)
  size_t evi = 0; u32 off = 0;
  bool irq = false, rst = false, irqprev = false; u32 rst_left = 0; bool rst_seen = false; u32 irq_hold = 0;
  u64 k = 0;                                   // enabled cycles
  u64 ack_at = 0; u32 lat = 1; u64 tack = 0, dstart = 0, dack = 0, fstart = 0; u32 since = 0; bool after_ack = false;
  Out tx{}; bool tx_fetch = true;
  bool irq1 = false, irq2 = false, s0 = false, s1 = false;
  u8 prevcls = C_FENCE; u32 last_lf = 1;
  // RVFI expectations
  Retire ret_prev; bool have_ret = false, ret_sure = false, was_amb = false; bool prev_trap = false, prev_trap_sure = true; u64 order = 0; bool order_known = true; bool rv_first = true;
  Outcome done;                                // outcome being retired (for RVFI and coverage)

  Runner(IDut &d, Scen &sc, Opts op, Stats &st, Cov *cov, Gen *gen) : d(d), sc(sc), op(op), st(st), cov(cov), gen(gen) {}

  u64 gseed() const { return op.alt_garbage ? sc.gseed2 : sc.gseed; }
  u32 gmode() const { return op.alt_garbage ? sc.gmode2 : sc.gmode; }
  u32 spurp() const { return op.alt_garbage ? sc.spur2 : sc.spur; }
  u64 h(u32 salt) const { return Rng::mix(gseed() ^ ((u64)sc.steps[cur].uid << 32 | off) ^ ((u64)salt << 20)); }
  u32 sticky = 0;
  u32 garbage(u32 salt) {
    switch (gmode()) {
      case 0: return 0;
      case 1: return 0xffffffffu;
      case 2: return sticky;                   // bus keeper: the previous word stays on the lines
      case 3: return (u32)h(salt);
      case 4: { static const u32 pl[] = {0x00000073, 0x30200073, 0x00000013, 0x0000006f, 0xfff0006f, 0x30529073, 0x00002003, 0x00a02023, 0x00100073, 0xffffffff, 0, 0x34202373, 0x10500073, 0x0000100f, 0x80000000, 0x7fffffff};
        u64 x = h(salt); return pl[x & 15] ^ ((x >> 8 & 7) == 0 ? (u32)(x >> 32) & 0x01ff8f80u : 0); }
      default: return ~sticky;
    }
  }

  void viol(const char *cls, u32 tags, const std::string &det) {
    if (res.v.hit) return;
    res.v.hit = true; res.v.cls = cls; res.v.tags = tags; res.v.detail = det; res.v.step = cur; res.v.cycle = k; res.v.boot = ph == BOOT;
  }

  static u32 prov(const State &s, int r) {
    u32 t = 0; u8 kd = s.kind[r], f = s.flg[r];
    if (kd == P_LOADSUB) t |= T(12);
    if (kd == P_CSRTRAP) t |= T(5) | ((f & F_TS) ? T(6) : T(4));
    if (kd == P_CSR) t |= T(9);
    if (kd == P_CSRRESET) t |= T(7) | T(9);
    if (kd == P_X0) { t |= T(11); if (!(f & F_VERIF)) t |= T(7); }
    if (f & F_VERIF) { t |= T(11); if (f & F_SYNC) t |= T(6); if (f & F_IRQ) t |= T(4); }
    return t;
  }

  // The observed request matches none of the allowed ones: say which guarantee that breaks.
  void mismatch(const std::vector<Cand> &post, const State *pre, u32 insn, const Out &q) {
    const Cand &c = post[0];
    std::string obs = fmt("observed %s adr=%08x sel=%x dat_w=%08x", q.we ? "write" : "read", q.adr << 2, q.sel, q.dat_w);
    bool like_fetch = !q.we && q.sel == 15;
    std::string exp = c.data ? fmt("%s adr=%08x sel=%x dat=%08x/%08x", c.o.we ? "write" : "read", c.o.adr << 2, c.o.sel, c.o.dat, c.o.dk) : fmt("fetch adr=%08x", c.o.st.pc);
    std::string where = fmt("step %zu insn %08x (%s) at pc %08x: expected %s, ", cur, insn, cls_name[c.o.cls], pre ? pre->pc : 0, exp.c_str()) + obs;
    u32 F = T(1);
    if (!pre) { viol("BOOT_FETCH", F | T(7), where); return; }
    bool csr = is_csr_insn(insn);
    u32 vec = pre->mtvec.full() ? pre->mtvec.v >> 2 : 0xffffffffu;
    if (!c.data && q.adr == c.o.st.pc >> 2 && (q.we || q.sel != 15)) { viol("FETCH_FORM", F | T(2) | (ph == POST ? T(13) : 0), where); return; }
    bool at_vec = like_fetch && q.adr == vec, at_next = like_fetch && q.adr == (pre->pc + 4) >> 2;
    u32 pr = 0;
    if (ph == POST) {
      F |= T(4);
      if (q.adr == tx.adr && q.we == tx.we && q.sel == tx.sel) viol("DATA_REPEATED", F | T(13), where);
      else if (!like_fetch) viol("DATA_UNEXPECTED", F | T(13), where);
      else if (at_vec) viol("TRAP_AFTER_DATA", F | T(13), where);
      else viol("FETCH_ADDR", F, where);
      return;
    }
    if (c.o.irq) {
      Outcome x; m_exec(*pre, insn, irq1, sc.steps[cur].ldata, x);
      bool asx = !x.invalid && (x.data ? (q.adr == x.adr && q.we == x.we) : (like_fetch && q.adr == x.st.pc >> 2));
      if (asx && x.data) viol("IRQ_MISSED", F | T(4) | T(13) | (pre->p_ms ? T(5) : 0), where);
      else if (asx) viol("IRQ_MISSED", F | T(4) | (pre->p_ms ? T(5) : 0), where);
      else if (!like_fetch) viol("DATA_UNEXPECTED", F | T(4) | T(13), where);
      else viol("IRQ_VECTOR", F | T(4) | T(5), where);
      return;
    }
    F |= T(4);
    if (c.o.r.rs1 >= 0) pr |= prov(*pre, c.o.r.rs1);
    if (c.o.trap) {
      u32 t = F | T(6) | (csr ? T(9) : 0) | pr;
      if (!like_fetch) viol("TRAP_WITH_ACCESS", t | T(13), where);
      else if (at_next || (insn & 0x7f) == 0x6f || (insn & 0x7f) == 0x67 || (insn & 0x7f) == 0x63) viol("TRAP_MISSED", t, where);
      else viol("TRAP_VECTOR", t | T(5), where);
      return;
    }
    if (c.data) {
      bool sub = c.o.sel != 15; u32 t = F | (sub ? T(12) : 0);
      if (at_next && !(c.o.adr == q.adr)) { viol("DATA_MISSING", t | T(13), where); return; }
      if (at_vec && !(c.o.adr == q.adr)) { res.v.fresh = irq1 && pre->m_reset; viol("TRAP_UNEXPECTED", t | T(13) | T(6) | (res.v.fresh ? T(7) : 0), where); return; }
      if (c.o.adr != q.adr) { viol("DATA_ADDR", t | pr, where); return; }
      if (c.o.we != q.we) { viol("DATA_DIR", t | T(13) | T(2), where); return; }
      if (c.o.sel != q.sel) { viol("DATA_SEL", t | pr | T(12), where); return; }
      // the register still holds what it held before the last instruction that named it
      const Val &was = pre->was[c.o.r.rs2];
      if (!sub && was.full() && pre->x[c.o.r.rs2].full() && q.dat_w == was.v) t |= T(11);
      res.v.fresh = (c.o.r.rs2 == 0 && !x0_named) || pre->kind[c.o.r.rs2] == P_CSRRESET;
      viol("STORE_DATA", t | prov(*pre, c.o.r.rs2), where + fmt(" (rs2=x%d)", c.o.r.rs2)); return;
    }
    u32 t = F | (csr ? T(9) : 0);
    if (!like_fetch) { viol("DATA_UNEXPECTED", t | T(13), where); return; }
    if (c.o.r.rs2 >= 0) pr |= prov(*pre, c.o.r.rs2);
    if (at_vec) { res.v.fresh = irq1 && pre->m_reset; viol("TRAP_UNEXPECTED", t | T(6) | (pre->p_ms ? T(5) : 0) | (res.v.fresh ? T(7) : 0), where); return; }
    if (c.o.cls == C_MRET) t |= T(5);
    viol("FETCH_ADDR", t | pr, where);
  }

  u32 mem_tags() const { return ph == DATA ? T(13) | (tx.sel != 15 ? T(12) : 0) : 0; }
  u32 hang_tags() const {                      // what the instruction that never completes should have done
    if (ph == BOOT) return T(7);
    if (ph == POST) return T(13) | (tx.sel != 15 ? T(12) : 0);
    if (ph != EXEC || cands.empty()) return 0;
    Outcome x; m_exec(cands[0].o.st, sc.steps[cur].insn, false, 0, x);
    if (x.invalid) return 0;
    return (x.data ? T(13) | (x.sel != 15 ? T(12) : 0) : 0) | (x.trap ? T(5) | T(6) : 0) | (x.cls == C_MRET ? T(5) : 0) | (is_csr_insn(sc.steps[cur].insn) ? T(9) : 0) |
      (irq1 && cands[0].o.st.mie && cands[0].o.st.meie ? T(5) : 0);
  }

  bool tx_ok(const Cand &c, const Out &q) const {
    if (c.data) {
      if (q.adr != c.o.adr || q.we != c.o.we || q.sel != c.o.sel) return false;
      return !q.we || ((q.dat_w ^ c.o.dat) & c.o.dk & lanes(q.sel)) == 0;
    }
    return q.adr == c.o.st.pc >> 2 && !q.we && q.sel == 15;
  }

  void expand() {                              // all architecturally allowed outcomes of the fetched instruction
    u32 insn = sc.steps[cur].insn, ld = sc.steps[cur].ldata;
    tmp.clear();
    bool csr = is_csr_insn(insn), mip = csr && (insn >> 20) == 0x344;
    for (auto &c : cands) {
      const State &s = c.o.st;
      bool en = s.mie && s.meie && s.meie_k;
      if (s.mie && !s.meie_k && (irq1 || irq2)) { res.invalid = true; return; }
      if (en && (irq1 || (csr && irq2))) { tmp.emplace_back(); m_irq(s, insn, tmp.back().o); }
      if (!(en && irq1)) {
        for (int v = 0; v < 2; v++) {
          if (v == 0 && mip && !s0) continue;
          if (v == 1 && !(mip && s1)) continue;
          tmp.emplace_back(); m_exec(s, insn, v, ld, tmp.back().o);
        }
      }
      if (s.mie == false && irq1) st.deferred_irq++;
    }
    for (auto &t : tmp) if (t.o.invalid) { res.invalid = true; return; }
    // Exec outcome first: it is the primary one for reporting unless an interrupt is mandatory.
    std::stable_sort(tmp.begin(), tmp.end(), [](const Cand &a, const Cand &b) { return a.o.irq < b.o.irq; });
    for (auto &t : tmp) t.data = t.o.data;
  }

  void retire(u64 s) {                         // the outcome of step `cur` is settled
    const Outcome &o = cands[0].o; done = o;
    st.insns++; st.clsn[o.cls]++;
    if (o.trap) { if (o.irq) st.traps_irq++; else st.traps_sync++; }
    if (o.cls == C_MRET) st.mrets++;
    if (o.r.rdw && o.r.rd == 0) st.x0_writes++;
    if (o.trap || (o.r.rdw && o.r.rd == 0)) x0_named = true;
    u32 insn = sc.steps[cur].insn;
    if (is_csr_insn(insn)) { st.csr_acc++;
      if (cov) { u32 f3 = bits(insn, 14, 12), ix = (f3 & 3) - 1 + ((f3 & 4) ? 3 : 0);
        cov->set(COV_STATE + COV_RST + COV_GATE + ((insn >> 20) * 6 + ix) * 2 + (bits(insn, 19, 15) != 0)); } }
    if (cov) {
      auto lb = [](u32 l) { return l == 1 ? 0u : l < 4 ? 1u : l < 32 ? 2u : 3u; };
      u32 iph = (irq1 ? 1 : 0) | (irq2 ? 2 : 0) | (done.st.mie ? 4 : 0);
      cov->set((((prevcls * 36u + o.cls) * 4 + lb(sc.steps[cur].lf)) * 4 + (o.data ? lb(sc.steps[cur].ld) : 0)) * 8 + iph);
    }
    prevcls = o.cls;
    u32 busy = (u32)(s - tack) - (o.data ? (u32)(dack - dstart) : 0);
    u32 norm = busy;
    if (o.cls == C_SHI || o.cls == C_SHR) norm = busy - 2 * o.r.shamt;
    
    if (op.check_cycles) res.busy.push_back(busy);
    if (norm < st.bmin[o.cls]) st.bmin[o.cls] = norm;
    if (norm > st.bmax[o.cls]) st.bmax[o.cls] = norm;
    bool sure = cands.size() == 1 && !was_amb;   // equal successor states may hide different histories
    if (op.check_cycles && sure) {
      u32 lim = limit(o);
      if (busy > lim) viol("CYCLES", T(14), fmt("step %zu insn %08x (%s): %u cycles from fetch acknowledge to the next fetch request (wait states excluded), documented maximum %u",
        cur, insn, cls_name[o.cls], busy, lim));
    }
    have_ret = true; ret_prev = o.r; ret_sure = sure;
  }

  // Documented throughput (doc/development/internals.md), from fetch ack to next fetch request,
  // data wait states excluded: throughput - 1 (fetch latency) [- 1 (data latency)].
  u32 limit(const Outcome &o) {
    switch (o.cls) {
      case C_LUI: case C_ALUI: case C_ALU: return 3;                   // 4 CPI
      case C_SHI0: return 8;                                           // 9 CPI
      case C_SHR0: return 9;                                           // 10 CPI
      case C_SHI: case C_SHR: return 6 + 2 * o.r.shamt;                // 7+2n CPI
      case C_BRNT: return 6; case C_BR: return 7;                      // 7 / 8 CPI
      case C_JAL: case C_JALR: return 6;                               // 7 CPI
      case C_SB: case C_SH: case C_SW: return 8;                       // 10 CPI
      case C_LB: case C_LH: case C_LW: case C_LBU: case C_LHU: return 7; // 9 CPI
      case C_CSRRO0: return 5;                                         // 6 CPI
      case C_CSRR: case C_CSRW: case C_CSRS: case C_CSRC: return 9;    // 10 CPI at most
      case C_MRET: return 7;                                           // 8 CPI
      // "Entering an exception handler requires 5 clocks from the cycle at which the condition is detected":
      case C_TRAP_ILL: case C_TRAP_ECALL: case C_TRAP_EBRK: return 6;  // detected the cycle after decode
      case C_TRAP_CSR: return 7;                                       // second decode cycle
      case C_IRQ: return is_csr_insn(o.r.insn) ? 7 : 6;                // at the end of decode
      case C_TRAP_LD: case C_TRAP_ST: return 9;                        // when the address is known
      case C_TRAP_JMP: return (o.r.insn & 0x7f) == 0x63 ? 10 : 9;      // when the target is known
      default: return 9;                                               // none documented above 10 CPI
    }
  }

  void start_tx(const Out &q) {
    u64 s = k;
    if (ph == BOOT) {
      if (!tx_ok(cands[0], q)) { mismatch(cands, nullptr, 0, q); return; }
      begin_fetch(q, true); return;
    }
    if (ph == EXEC) {
      State pre = cands[0].o.st; was_amb = cands.size() > 1;
      expand();
      if (res.invalid) return;
      size_t n = 0;
      for (auto &t : tmp) if (tx_ok(t, q)) { bool dup = false; for (size_t j = 0; j < n; j++) if (tmp[j].data == t.data && tmp[j].o.irq == t.o.irq && tmp[j].o.st.same(t.o.st)) dup = true; if (!dup) { if (&tmp[n] != &t) tmp[n] = t; n++; } }
      if (!n) { mismatch(tmp, &pre, sc.steps[cur].insn, q); return; }
      tmp.resize(n);
      if (n > 1) { st.ambiguous++; if (n > 64) { res.invalid = true; return; } }
      cands.swap(tmp);
      if (cands[0].data) {
        const Outcome &o = cands[0].o;
        if (o.we && op.verbose) printf("    store %08x <- %08x sel %x\n", q.adr << 2, q.dat_w, q.sel);
        ph = DATA; tx = q; dstart = k; lat = op.no_wait ? 1 : sc.steps[cur].ld; ack_at = k + lat; st.txs++; st.datas++; note_lat();
        if (o.we && q.sel == 15 && (o.dk == 0xffffffffu)) for (auto &c : cands) { int r = c.o.r.rs2; c.o.st.flg[r] = F_VERIF; }
        for (auto &c : cands) c.data = false;
        if (op.verbose) printf("    data %s adr=%08x sel=%x\n", q.we ? "write" : "read", q.adr << 2, q.sel);
        return;
      }
    } else {                                   // POST
      size_t n = 0;
      for (size_t i = 0; i < cands.size(); i++) if (tx_ok(cands[i], q)) { if (n != i) cands[n] = cands[i]; n++; }
      if (!n) { State pre = cands[0].o.st; pre.pc = cands[0].o.r.pc; mismatch(cands, &pre, sc.steps[cur].insn, q); return; }
      cands.resize(n);
    }
    retire(s);
    if (res.v.hit) return;
    begin_fetch(q, false);
  }

  bool finished = false, x0_named = false;     // x0_named: x0 was a destination, or a trap was entered, since reset
  void begin_fetch(const Out &q, bool boot) {
    if (op.verbose) printf("  [%llu] fetch #%zu adr=%08x\n", (unsigned long long)k, cur + 1, q.adr << 2);
    size_t nx = cur + 1;
    if (gen) {
      if (gen_done(gen, sc)) { finished = true; return; }
      gen_next(gen, sc, cands, boot);
    }
    if (nx >= sc.steps.size()) { finished = true; return; }
    cur = nx; evi = 0; off = 0;
    ph = FETCH; tx = q; lat = op.no_wait ? 1 : sc.steps[cur].lf; ack_at = k + lat; fstart = k; st.txs++; note_lat();
  }
  void note_lat() { if (lat > 1) { st.waits += lat - 1; if (lat > 256) st.long_waits++; } }

  void do_reset() {
    if (ph == FETCH || ph == DATA) st.reset_in_wait++; else if (ph == BOOT) st.reset_in_reset++; else st.reset_in_exec++;
    if (cov && ph != BOOT) cov->set(COV_STATE + prevcls_now() * 64 + (u32)std::min<u64>(63, k - (ph == EXEC ? tack : ph == POST ? dack : ph == DATA ? dstart : fstart)));
    Cand c; c.o = Outcome(); c.o.st.reset(); cands.assign(1, c);
    ph = BOOT; x0_named = false; since = 0; after_ack = false; have_ret = false; prev_trap = false; prev_trap_sure = true; order = 0; rv_first = true;
    res.last_reset_step = (int)cur;
  }
  u32 prevcls_now() { return (ph == EXEC || ph == DATA || ph == POST) && cands.size() ? (u32)cands[0].o.cls : prevcls; }

  static u64 mixh(u64 a, u64 b) { return Rng::mix(a ^ (b * 0x9e3779b97f4a7c15ull)); }

  void check_rvfi_now(bool fetch_ack) {
    Rvfi r{}; if (!d.rvfi(r)) return;
    if (!r.valid) { if (fetch_ack && !rv_first) viol("RVFI_MISSING", T(15), fmt("step %zu fetched but the previous instruction %08x was not reported", cur, ret_prev.insn)); if (fetch_ack) { rv_first = false; } return; }
    if (!fetch_ack) { viol("RVFI_SPURIOUS", T(15), fmt("RVFI record outside a fetch acknowledge, order=%llu", (unsigned long long)r.order)); return; }
    if (rv_first) { viol("RVFI_SPURIOUS", T(15), "RVFI record before any instruction completed"); return; }
    st.rvfi++;
    const Retire &e = ret_prev;
    auto bad = [&](const char *w, u64 got, u64 exp) { viol("RVFI_FIELD", T(15), fmt("record %llu for insn %08x at pc %08x: %s is %llx, expected %llx", (unsigned long long)r.order, e.insn, e.pc, w, (unsigned long long)got, (unsigned long long)exp)); };
    if (r.order != order) bad("order", r.order, order);
    order++;
    if (r.halt) bad("halt", 1, 0);
    if (r.mode != 3) bad("mode", r.mode, 3);
    if (r.ixl != 1) bad("ixl", r.ixl, 1);
    if (r.insn != e.insn) bad("insn", r.insn, e.insn);
    if (r.pc_r != e.pc) bad("pc_rdata", r.pc_r, e.pc);
    if (r.pc_w != (tx.adr << 2)) bad("pc_wdata", r.pc_w, tx.adr << 2);
    if (prev_trap_sure && r.intr != prev_trap) bad("intr", r.intr, prev_trap);
    prev_trap = e.trap; prev_trap_sure = ret_sure;
    if (!ret_sure) return;
    if (r.trap != e.trap) bad("trap", r.trap, e.trap);
    auto was = [&](const char *nm, const Rvfi::C &c, const Val &v) { if ((c.rd ^ v.v) & v.k & c.rm) bad(fmt("csr %s rdata", nm).c_str(), c.rd, v.v); };
    was("mscratch", r.mscratch, e.p_mscratch); was("mtvec", r.mtvec, e.p_mtvec); was("mie", r.mie, e.p_mie);
    was("mepc", r.mepc, e.p_mepc); was("mcause", r.mcause, e.p_mcause);
    if (!e.trap && !e.mret) was("mstatus", r.mstatus, e.p_mstatus);   // these two update mstatus on the way
    if (r.mip.rd & r.mip.rm & ~0x800u) bad("csr mip rdata", r.mip.rd, r.mip.rd & 0x800u);
    if (irq_hold > k - tack + 4 && ((r.mip.rd >> 11 & 1) != irq) && (r.mip.rm >> 11 & 1)) bad("csr mip rdata (interrupt line stable since before the instruction)", r.mip.rd, (u32)irq << 11);
    for (int i = 0; i < 13; i++) if (r.ro[i].rd) bad(fmt("csr %s rdata", RVFI_RO[i].name).c_str(), r.ro[i].rd, 0);
    if (e.trap) {
      if (r.mcause.wd != e.cause) bad("csr mcause wdata of a trap", r.mcause.wd, e.cause);
      if (r.mepc.wd != e.pc) bad("csr mepc wdata of a trap", r.mepc.wd, e.pc);
    }
    if (e.rs1 >= 0) { if ((int)r.rs1a != e.rs1) bad("rs1_addr", r.rs1a, e.rs1); if ((r.rs1d ^ e.rs1v.v) & e.rs1v.k) bad("rs1_rdata", r.rs1d, e.rs1v.v); }
    if (e.rs2 >= 0) { if ((int)r.rs2a != e.rs2) bad("rs2_addr", r.rs2a, e.rs2); if ((r.rs2d ^ e.rs2v.v) & e.rs2v.k) bad("rs2_rdata", r.rs2d, e.rs2v.v); }
    if (e.trap) {
      if (r.mr | r.mw) bad("mem mask of a trapping instruction", r.mr | r.mw, 0);
      if ((e.insn & 0x7f) == 0x73 && (e.insn >> 12 & 3) && e.cause == 2) {   // RVFI's CSR write check: an illegal access names no destination
        if (r.rda) bad("rd_addr of an illegal CSR access", r.rda, 0);
        if (r.rdd) bad("rd_wdata of an illegal CSR access", r.rdd, 0);
      }
      return;
    }
    if (e.rdw) { if ((int)r.rda != e.rd) bad("rd_addr", r.rda, e.rd); if ((r.rdd ^ e.rdv.v) & e.rdv.k) bad("rd_wdata", r.rdd, e.rdv.v); }
    else if (r.rda) bad("rd_addr of an instruction without rd", r.rda, 0);
    u32 em = e.mem ? e.sel : 0;
    if (r.mr != ((e.mem && !e.we) ? em : 0)) bad("mem_rmask", r.mr, em);
    if (r.mw != ((e.mem && e.we) ? em : 0)) bad("mem_wmask", r.mw, em);
    if (e.mem) {
      if (r.maddr != e.madr) bad("mem_addr", r.maddr, e.madr);
      u32 got = e.we ? r.mwd : r.mrd;
      if ((got ^ e.mdata) & e.mk & lanes(e.sel)) bad(e.we ? "mem_wdata" : "mem_rdata", got, e.mdata);
    }
    if (e.csr >= 0 && e.cwr) for (int i = 0; i < 13; i++) if ((int)RVFI_RO[i].lo == e.csr || (RVFI_RO[i].hi && (int)RVFI_RO[i].hi == e.csr)) {
      // a write to a register that reads as zero: the record names the value the instruction wrote (RVFI's CSR write check)
      const auto &c = r.ro[i]; int sh = (int)RVFI_RO[i].hi == e.csr ? 32 : 0; u32 wm = (u32)(c.wm >> sh), wd = (u32)(c.wd >> sh), other = (u32)(c.wm >> (32 - sh));
      u32 set = e.cop == 3 ? 0 : e.carg.v, clr = e.cop == 1 ? ~e.carg.v : e.cop == 3 ? e.carg.v : 0;
      if (wm != 0xffffffffu || (RVFI_RO[i].hi && other)) bad(fmt("csr %s wmask", RVFI_RO[i].name).c_str(), c.wm, 0xffffffffull << sh);
      if ((set & e.carg.k & ~wd) || (clr & e.carg.k & wd)) bad(fmt("csr %s wdata", RVFI_RO[i].name).c_str(), wd, e.carg.v);
    }
    if (e.csr == 0x344) {   // the pending bit follows the line whatever is written; the record names the access
      if (r.mip.rm != 0xffffffffu) bad("csr mip rmask", r.mip.rm, 0xffffffffu);
      if (e.cwr) {
        u32 set = e.cop == 3 ? 0 : e.carg.v, clr = e.cop == 1 ? ~e.carg.v : e.cop == 3 ? e.carg.v : 0;
        if (r.mip.wm != 0xffffffffu) bad("csr mip wmask", r.mip.wm, 0xffffffffu);
        if ((set & e.carg.k & ~r.mip.wd) || (clr & e.carg.k & r.mip.wd)) bad("csr mip wdata", r.mip.wd, e.carg.v);
      }
    }
    if (e.csr >= 0) {
      const Rvfi::C *c = nullptr; const char *nm = "";
      switch (e.csr) { case 0x300: c = &r.mstatus; nm = "mstatus"; break; case 0x304: c = &r.mie; nm = "mie"; break; case 0x305: c = &r.mtvec; nm = "mtvec"; break;
        case 0x340: c = &r.mscratch; nm = "mscratch"; break; case 0x341: c = &r.mepc; nm = "mepc"; break; case 0x342: c = &r.mcause; nm = "mcause"; break; }
      if (c) {
        if ((c->rd ^ e.csr_old.v) & e.csr_old.k & c->rm) bad(fmt("csr %s rdata", nm).c_str(), c->rd, e.csr_old.v);
        if (c->rm != 0xffffffffu) bad(fmt("csr %s rmask", nm).c_str(), c->rm, 0xffffffffu);
        if (e.csr_w) {
          if ((c->wm & e.csr_mask) != e.csr_mask) bad(fmt("csr %s wmask", nm).c_str(), c->wm, e.csr_mask);
          if ((c->wd ^ e.csr_new.v) & e.csr_new.k & e.csr_mask) bad(fmt("csr %s wdata", nm).c_str(), c->wd, e.csr_new.v);
        }
      }
    }
  }

  void row(const Out &o) {
    u32 a = 0, dd = 0, ad = 0;
    if (o.cyc || o.stb) {
      u32 m = o.we && !rst ? lanes(o.sel) : 0;   // an access cut short by reset carries no data
      if (ph == DATA && cands[0].o.we) m &= cands[0].o.dk;
      a = 1 | o.cyc << 1 | o.stb << 2 | o.we << 3 | o.sel << 4; ad = o.adr; dd = o.dat_w & m;
    }
    res.trace.push_back({a, ad, dd});
  }

  void run() { run_(); res.cycles = k; }
  void run_() {
    d.power_on();
    Cand c; c.o.st.reset(); cands.assign(1, c);
    bool has_en = d.has_en();
    st.runs++;
    for (;;) {
      // events of this enabled cycle
      const Step &sp = sc.steps[cur]; u32 gate = 0;
      while (evi < sp.ev.size() && sp.ev[evi].off <= off) {
        const Ev &e = sp.ev[evi++];
        if (e.kind == 'i') { if (!op.no_irq) { bool n = e.arg & 1; if (n != irq) { st.irq_edges++; if (!n && irq_hold == 1) st.irq_glitch++; irq = n; irq_hold = 0; } } }
        else if (e.kind == 'r') { if (e.arg > rst_left) rst_left = e.arg; }
        else if (e.kind == 'g') gate += e.arg;
      }
      irq_hold++;
      rst = rst_left > 0; if (rst) { rst_left--; }
      bool busy = ph == FETCH || ph == DATA;
      bool ack = busy && k >= ack_at;
      u32 dat;
      const Step &ss = sc.steps[cur];
      if (ack && !(ph == DATA && tx.we)) {
        u32 w = ph == FETCH ? ss.insn : ss.ldata, m = lanes(tx.sel), g = garbage(1);
        dat = (w & m) | (g & ~m); if (m != 0xffffffffu) st.garb_lanes++;
        sticky = dat;
      } else { dat = garbage(2); st.garb_idle++; }
      Out o{};
      bool reset_done = false;
      if (gate && has_en && !op.strip_gate) {
        st.gate_bursts++;
        if (cov && ph != BOOT) cov->set(COV_STATE + COV_RST + prevcls_now() * 64 + (u32)std::min<u64>(63, off));
        Out g0{};
        bool grst = rst && (rst_seen || !op.late_rst);   // late: reset is asserted by an enabled clock edge's domain
        for (u32 j = 0; j < gate; j++) {
          bool gi = irq; u64 hh = h(100 + j); if ((hh & 7) == 0 && !op.no_irq) { gi = hh >> 3 & 1; if (gi != irq) st.irq_gated++; }
          d.drive(ack, ack ? dat : garbage(200 + j), gi, grst, false);
          Out g{}; d.sample(g); st.gated++;
          if (grst) {
            if (reset_done && (g.cyc || g.stb)) { viol("RESET_REQUEST", T(7), "bus request while reset is asserted (clock enable low)"); return; }
            if (!reset_done) { if (!rst_seen) { st.resets++; } do_reset(); reset_done = true; rst_seen = true; ack = false; }
          } else {
            if (j && !same(g0, g)) { viol("FROZEN", T(8), fmt("outputs changed during a clock-enable stall (stalled cycle %u of step %zu)", j, cur)); return; }
            g0 = g;
          }
          d.edge();
        }
        d.drive(ack, dat, irq, rst, true); d.sample(o);
        if (!rst && !same(g0, o)) { viol("FROZEN", T(8), fmt("outputs changed at the end of a clock-enable stall in step %zu", cur)); return; }
      } else {
        d.drive(ack, dat, irq, rst, true); d.sample(o);
      }
      if (!ack && !o.cyc && !o.stb && spurp() && (h(3) & 255) < spurp()) {
        st.spur++; d.drive(true, dat, irq, rst, true); d.sample(o);
      }
      bool starts = ph == EXEC && !rst && o.cyc;
      if (op.keep_trace && !starts) row(o);
      if (op.verbose) printf("      %llu: %s%s%s adr=%08x sel=%x dat_w=%08x | ack=%d dat_r=%08x irq=%d rst=%d\n", (unsigned long long)k, o.cyc ? "C" : "-", o.stb ? "S" : "-", o.we ? "W" : "-", o.adr << 2, o.sel, o.dat_w, ack, dat, irq, rst);
      st.cycles++;
      if (rst) {
        if (rst_seen && (o.cyc || o.stb)) { viol("RESET_REQUEST", T(7), fmt("bus request while reset is asserted, step %zu", cur)); return; }
        if (!rst_seen) { st.resets++; }
        if (!rst_seen || ph != BOOT) do_reset();
        since = 0; rst_seen = true;
      } else {
        if (rst_seen) rst_seen = false;
        if (o.cyc != o.stb) { viol("PROTO_CYC_STB", T(2), fmt("CYC=%d STB=%d, step %zu", o.cyc, o.stb, cur)); return; }
        if (busy && ph != BOOT) {
          if (!o.cyc) { viol("PROTO_DROPPED", T(1) | T(2) | mem_tags(), fmt("request dropped before acknowledge, step %zu, adr=%08x", cur, tx.adr << 2)); return; }
          if (o.adr != tx.adr || o.we != tx.we || o.sel != tx.sel || (o.we && ((o.dat_w ^ tx.dat_w) & lanes(tx.sel)))) {
            viol("PROTO_CHANGED", T(1) | T(2) | mem_tags(), fmt("request changed before acknowledge, step %zu: adr %08x->%08x we %d->%d sel %x->%x dat_w %08x->%08x", cur, tx.adr << 2, o.adr << 2, tx.we, o.we, tx.sel, o.sel, tx.dat_w, o.dat_w)); return; }
          bool fa = ack && ph == FETCH;
          if (op.check_rvfi) { check_rvfi_now(fa); if (res.v.hit) return; if (fa) rv_first = false; }
          if (ack) {
            res.hash = mixh(res.hash, ((u64)tx.adr << 5 | tx.sel << 1 | tx.we) ^ (u64)dat << 32 ^ k * 0x100000001b3ull);
            if (ph == FETCH) { ph = EXEC; tack = k; irq1 = irq2 = s0 = s1 = false; }
            else { ph = POST; dack = k; }
            since = 0; after_ack = true;
          }
        } else {
          if (op.check_rvfi) { check_rvfi_now(false); if (res.v.hit) return; }
          if (o.cyc) {
            if (after_ack) { if (op.keep_trace && starts) row(o); viol("PROTO_NO_GAP", T(1) | T(2) | (ph == POST ? T(13) : 0), fmt("request still asserted in the cycle after acknowledge, step %zu", cur)); return; }
            if (!o.sel || (o.sel != 15 && o.sel != 3 && o.sel != 12 && (o.sel & (o.sel - 1)))) { if (op.keep_trace && starts) row(o); viol("PROTO_SEL", T(1) | T(2) | T(12), fmt("illegal byte select %x, step %zu", o.sel, cur)); return; }
            start_tx(o);
            if (op.keep_trace && starts) row(o);
            if (op.verbose && res.v.hit) printf("  VIOLATION %s %s\n", res.v.cls, res.v.detail.c_str());
            if (res.v.hit || res.invalid || finished) { res.cycles = k; return; }
          } else {
            if (++since > 100) { viol("HANG", T(1) | T(4) | T(10) | T(14) | hang_tags(), fmt("no bus request for 100 cycles, step %zu insn %08x", cur, sc.steps[cur].insn)); return; }
          }
          after_ack = false;
        }
        if (ph == EXEC && k > tack) { if (k == tack + 1) irq1 = irq; else if (k == tack + 2) irq2 = irq; (irq ? s1 : s0) = true; }
      }
      d.edge();
      k++; off++;
      if (k > op.max_cycles) { res.capped = true; res.cycles = k; return; }
    }
  }
  static bool same(const Out &a, const Out &b) {
    if (a.cyc != b.cyc || a.stb != b.stb) return false;
    if (!a.cyc && !a.stb) return true;
    return a.we == b.we && a.adr == b.adr && a.sel == b.sel && (!a.we || ((a.dat_w ^ b.dat_w) & lanes(a.sel)) == 0);
  }
};
