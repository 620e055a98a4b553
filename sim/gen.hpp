// Seeded online generator: program, data, wait states, interrupts, resets, stalls, garbage.
// Every choice comes from one PRNG; the concrete choices are recorded in the Scen.
#pragma once
#include "run.hpp"
#include <deque>

struct Profile {
  const char *name; int prop;
  double irq, reset, gate, spur;               // probability that a seed uses this fault kind at all
  double mem, sub, csr, csrwild, trap, ill, jump, alu, shift, verify, dump;
  bool bigpool; double xlat;
};
//            name    prop irq  rst  gate spur  mem  sub  csr  wild trap ill  jump alu  sh   ver  dump  big   xlat
static const Profile profiles[] = {
  {"C01", 1,    .2,   .08, .08,   .3,   1,   1,   .7,  .2,  .4,  .3,  1,   2,   .7,  .30, .3,  false, .04},
  {"C02", 2,    .5,  .4,  .3,  .5,   3,   1.5, .3,  .1,  .5,  .3,  1,   1,   .3,  .10, .1,  false, .08},
  {"C03", 3,    .3,  .15, 0,   .8,   2,   1.5, .5,  .2,  .4,  .3,  1,   1,   .5,  .20, .2,  false, .02},
  {"C04", 4,    1,    .08, .1,   .2,   1,   .7,  .8,  .1,  .3,  .2,  1,   1,   .4,  .25, .4,  false, .02},
  {"C05", 5,    .8,   .08, .08,   .2,   .3,  .3,  1.5, .1,  1.2, .4,  .5,  .5,  .1,  .30, .8,  false, .02},
  {"C06", 6,    .3,   .08, .08,   .2,   .5,  .5,  .5,  .4,  2,   2,   1.5, 1,   .1,  .50, .6,  false, .02},
  {"C07", 7,    .3,  1,   .25, .3,   1,   .7,  .6,  .1,  .6,  .3,  .7,  1,   .4,  .30, .2,  false, .02},
  {"C08", 8,    .4,  .3,  1,   .2,   1,   .7,  .6,  .1,  .5,  .3,  .7,  1,   .4,  .20, .2,  false, .02},
  {"C09", 9,    .4,   .08, .08,   .2,   .2,  .2,  3,   3,   .2,  .1,  .2,  .5,  .1,  .60, .4,  false, .02},
  {"C10", 10,   .4,  .2,  .1,  .3,   .6,  .5,  .5,  .8,  .6,  4,   .5,  .6,  .3,  .05, .05, false, .02},
  {"C11", 11,   .5,   .08, .1,    .2,   .7,  .5,  1,   .3,  .6,  .4,  .7,  1.5, .6,  .40, .5,  true,  .02},
  {"C12", 12,   .2,   .08, .1,    .3,   1,   4,   .2,  .1,  .2,  .1,  .3,  .7,  .2,  .80, .1,  false, .03},
  {"C13", 13,   .7,   .08, .3,   .4,   4,   2,   .3,  .1,  .5,  .3,  .4,  .5,  .2,  .20, .1,  false, .06},
  {"C14", 14,   .3,   .06, .08,   .2,   1,   1,   1,   .2,  .4,  .2,  1,   2,   1.5, .10, .1,  false, .05},
  {"C15", 15,   .4,  .3,  0,   .2,   1.2, 1,   1,   .4,  .5,  .4,  1,   1.5, .5,  .05, .2,  false, .02},
  {"C16", 16,   .5,  .4,  0,   .4,   1,   1,   .8,  .2,  .5,  .5,  1,   1,   .5,  .20, .2,  false, .02},
};

// Constants of the design under test (written next to its build): values, addresses and delays worth trying.
static std::vector<u32> dict32, dict12;
static void load_dict(const char *path) {
  FILE *f = fopen(path, "r"); if (!f) return;
  unsigned w; unsigned long long v;
  while (fscanf(f, "%u %llx", &w, &v) == 2) { if (w > 12) { dict32.push_back((u32)v); if (v < (1u << 30)) dict32.push_back((u32)v << 2); } else if (w > 4) dict12.push_back((u32)v); }
  fclose(f);
}

struct Gen {
  Rng r; const Profile &P;
  std::vector<int> pool; size_t nsteps;
  double wc[16]; int latf, latd, irqm, gatem; double p_irq, p_rst, p_gate, p_ver, p_dump, p_mret, p_xlat, p_unk; bool use_irq, use_rst, use_gate, ultra = false; double p_st = -1;
  u32 uid = 0; bool want_low = false; int period = 0; double alias;
  struct It { int k; u32 a; };                 // queued intents: 0 raw insn, 1 store reg, 2 csr read + store
  std::deque<It> q;
  bool in_handler = false; int since_en = 0;
  u64 aborted = 0;
  u32 rec[16] = {0}, rpc[16] = {0}, radr[8] = {0}; u32 nrec = 0, npc = 0, nadr = 0, last_w = 0x13; double p_rec, p_loop, p_rep, p_dict;
  void note(u32 v) { rec[nrec++ & 15] = v; }

  Gen(u64 seed, const Profile &P, Scen &sc) : r(seed), P(P) {
    sc = Scen(); sc.seed = seed;
    sc.gmode = r.below(6); sc.gseed = r.next(); sc.gmode2 = r.below(6); sc.gseed2 = r.next();
    if (sc.gmode2 == sc.gmode && sc.gmode < 3) sc.gmode2 = 3;
    static const u32 sp[] = {8, 40, 128, 255};
    if (r.p(P.spur)) sc.spur = sp[r.below(4)];
    if (r.p(P.spur)) sc.spur2 = sp[r.below(4)];
    double z = r.f();
    nsteps = z < .5 ? r.range(12, 70) : z < .92 ? r.range(80, 400) : z < .997 ? r.range(500, 3000) : z < .9992 ? r.range(4000, 20000) : r.range(70000, 160000);
    int np = P.bigpool && r.p(.6) ? r.range(16, 31) : r.p(.2) ? r.range(9, 31) : r.range(2, 8);
    std::vector<int> all; for (int i = 1; i < 32; i++) all.push_back(i);
    for (int i = 0; i < np; i++) { int j = r.range(i, 30); std::swap(all[i], all[j]); pool.push_back(all[i]); }
    double base[16] = {P.alu, P.alu * .8, P.shift, P.alu * .3, P.mem, P.sub, P.jump, P.jump * .7, .15, P.csr, P.csrwild, P.trap * .5, P.trap * .5, P.ill, .4, .25};
    for (int i = 0; i < 16; i++) wc[i] = base[i] * (r.p(.15) ? 0 : .3 + 1.4 * r.f());
    latf = r.below(5); latd = r.below(5);
    use_irq = r.p(P.irq); use_rst = r.p(P.reset); use_gate = r.p(P.gate);
    irqm = r.below(6); gatem = r.below(4); period = r.range(1, 9);
    static const double ps[] = {.01, .05, .2, .6};
    p_irq = ps[r.below(4)]; p_rst = r.p(.5) ? .02 : r.p(.5) ? .1 : .004; p_gate = ps[r.below(4)];
    p_ver = P.verify * (.4 + 1.2 * r.f()); p_dump = P.dump * (.4 + 1.2 * r.f()); p_mret = r.f();
    p_xlat = r.p(P.xlat) ? 1. / 60 : 0; ultra = p_xlat > 0 && r.p(1. / 200); p_unk = r.p(.3) ? .2 : 0;
    p_rec = r.p(.5) ? .08 : .3; p_loop = r.p(.5) ? .1 : r.p(.5) ? .5 : 0; p_rep = r.p(.7) ? 0 : r.p(.8) ? .1 : .7; p_dict = dict32.empty() ? 0 : r.p(.5) ? .01 : .05;
    if (nsteps > 3000 && r.p(.7)) p_rst = 2. / nsteps;
    if (nsteps > 60000 && r.p(.7)) {             // a marathon of one class of instructions, or of interrupts
      u32 k = r.below(20); p_ver *= .05; p_dump *= .05; p_dict *= .1; p_rep = 0; p_rst = .5 / nsteps;
      if (k < 16) { wc[k] += 150; if (k > 9 && k < 14) p_mret *= .1; }
      else if (k < 18) { use_irq = true; irqm = k == 16 ? 2 : 5; p_irq = k == 16 ? .8 : 0; p_mret = 1.6; wc[14] += 40; nsteps += nsteps / 2; }
      else { wc[4] += 150; p_st = k == 18 ? .97 : .03; }
    }
    alias = r.p(.5) ? .15 : r.p(.5) ? .5 : .03;
    Step b; b.uid = uid++;
    if (use_rst && r.p(.6)) { b.ev.push_back({'r', r.below(7), r.range(1, 4)}); if (r.p(.3)) b.ev.push_back({'r', b.ev[0].off + r.range(2, 9), r.range(1, 3)}); }
    if (use_gate && r.p(.5)) b.ev.push_back({'g', r.below(6), r.range(1, 9)});
    if (use_irq && (irqm == 5 || r.p(.2))) b.ev.push_back({'i', 0, 1});
    sorted(b);
    sc.steps.push_back(b);
    boot_prologue();
  }
  static void sorted(Step &s) { std::stable_sort(s.ev.begin(), s.ev.end(), [](const Ev &a, const Ev &b) { return a.off < b.off; }); }

  // ---- encoders
  static u32 I(u32 op, u32 f3, u32 rd, u32 rs1, s32 imm) { return ((u32)imm << 20) | rs1 << 15 | f3 << 12 | rd << 7 | op; }
  static u32 R(u32 f7, u32 f3, u32 rd, u32 rs1, u32 rs2) { return f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | 0x33; }
  static u32 Sx(u32 f3, u32 rs1, u32 rs2, s32 imm) { u32 i = (u32)imm; return (i >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (i & 31) << 7 | 0x23; }
  static u32 B(u32 f3, u32 rs1, u32 rs2, s32 imm) { u32 i = (u32)imm; return (i >> 12 & 1) << 31 | (i >> 5 & 0x3f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (i >> 1 & 15) << 8 | (i >> 11 & 1) << 7 | 0x63; }
  static u32 J(u32 rd, s32 imm) { u32 i = (u32)imm; return (i >> 20 & 1) << 31 | (i >> 1 & 0x3ff) << 21 | (i >> 11 & 1) << 20 | (i >> 12 & 0xff) << 12 | rd << 7 | 0x6f; }
  static u32 U(u32 op, u32 rd, u32 imm) { return (imm & 0xfffff000u) | rd << 7 | op; }
  static u32 CSR(u32 f3, u32 rd, u32 rs1, u32 csr) { return csr << 20 | rs1 << 15 | f3 << 12 | rd << 7 | 0x73; }

  u32 value() {
    static const u32 c[] = {0, 1, 2, 3, 4, 31, 32, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0xaaaaaaaa, 0x55555555, 0x80808080, 0x7f7f7f7f, 0x00ff00ff, 0xff00ff00, 0x88, 0x888};
    if (r.p(p_rec)) { u32 v = rec[r.below(16)]; return r.p(.7) ? v : v + 4 * r.below(3) - 4; }
    if (r.p(p_dict)) return dict32[r.below(dict32.size())] + (r.p(.8) ? 0 : r.below(3) - 1);
    double z = r.f();
    if (z < .35) return c[r.below(sizeof c / 4)];
    if (z < .5) return 1u << r.below(32);
    if (z < .6) return r.u() >> r.below(32);
    return r.u();
  }
  u32 value_dict() { u32 v = dict32[r.below(dict32.size())]; return r.p(.8) ? v : v + r.below(3) - 1; }
  int dst() { double z = r.f(); if (z < .05) return 0; if (z < .08) return r.below(32); return pool[r.below(pool.size())]; }
  int src(const State &s) {
    double z = r.f(); if (z < .06) return 0;
    if (z < .09) { int i = r.below(32); if (s.x[i].full() || r.p(p_unk)) return i; }
    for (int t = 0; t < 5; t++) { int i = pool[r.below(pool.size())]; if (s.x[i].full() || r.p(p_unk)) return i; }
    for (int i : pool) if (s.x[i].full()) return i;
    return 0;
  }
  s32 imm12() { double z = r.f(); static const s32 c[] = {0, 1, -1, 2047, -2048, 4, 8, 31, -2, 1024}; if (z < .35) return c[r.below(10)]; if (z < .37 && !dict12.empty()) return (s32)(dict12[r.below(dict12.size())] << 20) >> 20; return (s32)r.below(4096) - 2048; }
  // immediate making (base+imm) have the wanted low bits
  s32 imm_low(u32 base, u32 mask, u32 want) { s32 i = imm12(); u32 d = (want - (base + (u32)i)) & mask; s32 n = i + (s32)d; if (n > 2047) n -= (s32)mask + 1; return n; }

  void li(u32 rd, u32 v) { q.push_back({0, U(0x37, rd, v + 0x800)}); q.push_back({0, I(0x13, 0, rd, rd, (s32)(v << 20) >> 20)}); }
  void boot_prologue() {
    // some of: check x0/mcause/mstatus right after reset, install a vector, load registers, enable interrupts
    if (r.p(.5)) { q.push_back({1, 0}); if (r.p(.7)) q.push_back({2, 0x342}); if (r.p(.6)) q.push_back({2, 0x300}); }
    int t = pool[r.below(pool.size())];
    if (r.p(.9)) { if (r.p(.3)) q.push_back({0, CSR(5, 0, r.below(32), 0x305)}); else { li(t, value()); q.push_back({0, CSR(1, r.p(.5) ? 0 : pool[0], t, 0x305)}); } }
    u32 n = r.below((u32)pool.size() + 1);
    for (u32 i = 0; i < n; i++) li(pool[i], value());
    if (use_irq && r.p(.85)) enable_irq();
    if (use_irq && r.p(.3)) q.push_back({0, CSR(1, 0, 0, 0x341)});
  }
  void enable_irq() {
    int t = pool[r.below(pool.size())];
    if (r.p(.5)) { q.push_back({0, U(0x37, t, 0x1000)}); q.push_back({0, I(0x13, 0, t, t, -2048)}); }
    else q.push_back({0, I(0x13, 0, t, 0, -1)});
    q.push_back({0, CSR(r.p(.5) ? 1 : 2, 0, t, 0x304)});
    if (r.p(.6)) q.push_back({0, CSR(6, 0, 8, 0x300)}); else q.push_back({0, CSR(5, r.p(.5) ? 0 : t, 8 | (r.u() & 0x17), 0x300)});
  }
  u32 pick_csr() {
    static const u32 im[] = {0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344}, ro[] = {0x301, 0x310, 0x320, 0x343, 0xB00, 0xB02, 0xB80, 0xB82, 0x323, 0x33F, 0xB03, 0xB1F, 0xB83, 0xB9F}, rt[] = {0xF11, 0xF12, 0xF13, 0xF14, 0xF15};
    double z = r.f();
    if (!dict12.empty() && r.p(.03)) return dict12[r.below(dict12.size())] & 0xfff;
    if (z < .25) return im[r.below(7)];
    if (z < .35) return ro[r.below(14)];
    if (z < .45) return rt[r.below(5)];
    if (z < .6) return im[r.below(7)] ^ (1u << r.below(12));
    if (z < .7) return ro[r.below(14)] ^ (1u << r.below(12));
    if (z < .75) return 0xF00 | r.below(256);
    if (z < .85) return (r.p(.5) ? 0x300 : 0xB00) | r.below(256);
    return r.below(4096);
  }
  u32 legalish(const State &s, int cl) {
    int rd = dst(), a = src(s), b = r.p(.15) ? a : src(s);
    if (r.p(alias)) rd = r.p(.6) ? a : b;
    switch (cl) {
      case 0: { static const u32 f[] = {0, 2, 3, 4, 6, 7}; return I(0x13, f[r.below(6)], rd, a, imm12()); }
      case 1: { u32 f = r.below(8); if (f == 1 || f == 5) f = 0; return R(f == 0 && r.p(.5) ? 0x20 : 0, f, rd, a, b); }
      case 2: { bool im = r.p(.5); u32 f = r.p(.33) ? 1 : 5, f7 = f == 5 && r.p(.5) ? 0x20 : 0; u32 sh = r.p(.15) ? 0 : r.p(.2) ? 31 : r.p(.5) ? r.below(5) : r.below(32);
        return im ? (f7 << 25 | I(0x13, f, rd, a, sh)) : R(f7, f, rd, a, b); }
      case 3: return U(r.p(.5) ? 0x37 : 0x17, rd, value());
      case 4: case 5: {
        bool st = r.p(p_st >= 0 ? p_st : cl == 4 ? .5 : .4); u32 f = cl == 4 && r.p(.6) ? 2 : st ? r.below(2) : (r.p(.5) ? r.below(2) : 4 + r.below(2));
        u32 sz = f & 3, want = r.below(4) & ~((1u << sz) - 1); s32 im = imm_low(s.x[a].v, 3, want);
        if (r.p(p_loop)) { s32 d = (s32)((radr[r.below(8)] | want) - s.x[a].v); if (d >= -2048 && d < 2048) im = d; }
        return st ? Sx(f, a, b, im) : I(0x03, f, rd, a, im); }
      case 6: { u32 f = r.below(6); if (f > 1) f += 2; if (r.p(.25)) b = a; s32 o = ((s32)r.below(8192) - 4096) & ~3; if (r.p(.1)) o |= 2; else if (r.p(p_loop)) { s32 d = (s32)(rpc[r.below(16)] - s.pc); if (d >= -4096 && d < 4096) o = d & ~3; } else if (r.p(.06)) o = 4 * (s32)r.below(5) - 8; return B(f, a, b, o); }
      case 7: if (r.p(.5)) { s32 o = ((s32)r.below(1u << 21) - (1 << 20)) & ~3; if (r.p(.08)) o |= 2; else if (r.p(p_loop)) { s32 d = (s32)(rpc[r.below(16)] - s.pc); if (d >= -(1 << 20) && d < 1 << 20) o = d & ~3; } else if (r.p(.06)) o = 4 * (s32)r.below(5) - 8; return J(rd, o); }
        else { if (r.p(.04)) return I(0x67, 0, rd, 0, -4 * (s32)r.range(1, 4)); s32 im = imm_low(s.x[a].v, 3, r.p(.08) ? 2 + r.below(2) : r.below(2)); return I(0x67, 0, rd, a, im); }
      case 8: return r.p(.5) ? (0x0f | (r.u() & ~0x7fu & ~0x7000u)) : 0x0ff0000f;
      case 9: { static const u32 c[] = {0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344, 0x340, 0x341, 0x305}; u32 f = 1 + r.below(6); if (f > 3) f++; return CSR(f, rd, (f & 4) ? (r.p(.3) ? 0 : r.below(32)) : (r.p(.25) ? 0 : a), c[r.below(10)]); }
      case 10: { u32 f = 1 + r.below(6); if (f > 3) f++; return CSR(f, rd, (f & 4) ? (r.p(.4) ? 0 : r.below(32)) : (r.p(.4) ? 0 : a), pick_csr()); }
      case 11: { static const u32 t[] = {0x00000073, 0x00100073}; return t[r.below(2)]; }
      case 12: {                               // misaligned access or jump
        if (r.p(.6)) { bool st = r.p(.5); u32 f = st ? 1 + r.below(2) : (r.p(.6) ? 1 + r.below(2) : 5); u32 bad = (f & 3) == 1 ? 1 + 2 * r.below(2) : 1 + r.below(3); s32 im = imm_low(s.x[a].v, 3, bad); return st ? Sx(f, a, b, im) : I(0x03, f, rd, a, im); }
        if (r.p(.33)) return J(rd, (((s32)r.below(1u << 21) - (1 << 20)) & ~3) | 2);
        if (r.p(.5)) return I(0x67, 0, rd, a, imm_low(s.x[a].v, 3, 2 + r.below(2)));
        static const u32 f[] = {0, 5, 7}; return B(f[r.below(3)], a, a, (((s32)r.below(8192) - 4096) & ~3) | 2); }
      case 14: return 0x30200073;
      default: return 0x10500073;
    }
  }
  u32 illegalish(const State &s) {
    static const u32 sp[] = {0x10200073, 0x00200073, 0x7b200073, 0x12000073, 0x0000100f, 0x00000001, 0x00000000, 0xffffffff, 0x22000073, 0x62000073, 0x10500073, 0x10500173, 0x02000033, 0x00003003, 0x00006003, 0x00003023, 0x0000001b, 0x0000003b, 0x00000073 ^ 1, 0x00000073 ^ 2, 0x00000073 ^ 3,
      0x00100072, 0x30200072, 0x00000173, 0x00008073, 0x00004073, 0x30044073, 0x0000000b, 0x0000002b, 0x0000005b, 0x0000007b, 0x0000002f, 0x00000007, 0x00000027, 0x00000043, 0x00000053, 0x0000006b, 0x00000077, 0x00000057, 0x00000010, 0x00000030, 0x0000006e, 0x00000062, 0x00000036};
    double z = r.f();
    if (z < .45) { u32 w = legalish(s, r.below(16)); for (u32 n = r.range(1, 3); n; n--) w ^= 1u << r.below(32); return w; }
    if (z < .6) return r.u();
    if (z < .75) { static const u32 op[] = {0x37, 0x17, 0x6f, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33, 0x0f, 0x73}; return (r.u() & ~0x7fu) | op[r.below(11)]; }
    if (z < .8) return (r.u() & ~3u) | r.below(3);
    if (z < .88) return 0x73 | (r.u() & (r.p(.5) ? 0xfff00000u : 0xfff00f80u));
    if (z < .92) return (r.p(.5) ? 0x73u : 0x30200073u) ^ (1u << r.below(32));
    return sp[r.below(sizeof sp / 4)];
  }
  u32 lat(int m) {
    if (ultra && r.p(.05)) { ultra = false; return (u32)exp2d(17 + 3.7 * r.f()); }   // once, up to 1.6 million cycles
    if (p_xlat > 0 && !dict32.empty() && r.p(p_xlat * .3)) { u32 v = dict32[r.below(dict32.size())]; if (v > 40 && v < 200000) return v + r.below(5) - 2; }
    if (p_xlat > 0 && r.p(p_xlat)) { double e = 4 + 12.3 * r.f(); return 1 + (u32)exp2d(e); }
    switch (m) { case 0: case 1: return 1; case 2: return r.range(1, 3); case 3: { u32 n = 1; while (n < 40 && r.p(.5)) n++; return n; } default: return r.p(.1) ? r.range(1, 40) : r.range(1, 2); }
  }
  u32 long_len() {                             // of a reset or a stall: powers of two and the design's own constants count
    if (!dict12.empty() && r.p(.2)) { u32 v = dict12[r.below(dict12.size())]; if (v > 12 && v < 600) return v + r.below(3) - 1; }
    if (r.p(.4)) return (16u << r.below(5)) + r.below(3) - 1;
    return r.range(13, 300);
  }
  static double exp2d(double e) { double v = 1; int n = (int)e; for (int i = 0; i < n; i++) v *= 2; return v * (1 + (e - n)); }

  void next(Scen &sc, const std::vector<Cand> &c, bool after_reset) {
    const Outcome &o = c[0].o; const State &s = o.st;
    if (after_reset && sc.steps.size() > 1) { q.clear(); boot_prologue(); in_handler = false; }
    bool left = sc.steps.size() + 2 < nsteps;
    if (!after_reset) {
      if (o.trap) {
        in_handler = true;
        if (o.irq) want_low = true;
        if (r.p(p_dump)) {
          std::deque<It> n; static const u32 cs[] = {0x342, 0x341, 0x300, 0x340, 0x305, 0x304, 0x344};
          for (int i = 0; i < 7; i++) if (r.p(i < 3 ? .7 : .15)) n.push_back({2, cs[i]});
          if (r.p(.3)) for (u32 i = 0, m = r.range(1, 4); i < m; i++) n.push_back({1, (u32)pool[r.below(pool.size())]});
          if (r.p(.15)) n.push_back({1, 0});
          if (o.cls == C_TRAP_LD && r.p(.5)) n.push_back({1, bits(sc.steps.back().insn, 11, 7)});
          if (r.p(p_mret)) { if (r.p(.5)) n.push_back({2, 0x300}); n.push_back({0, 0x30200073}); if (r.p(.4)) n.push_back({2, 0x300}); }
          else if (r.p(.3)) n.push_back({0, CSR(6, 0, 8, 0x300)});
          if (q.size() < 40) q.insert(q.begin(), n.begin(), n.end());
        } else if (r.p(p_mret * .6)) q.push_front({0, 0x30200073});
      } else if (o.r.rdw && o.r.rd && r.p(p_ver) && left && q.size() < 40) q.push_front({1, (u32)o.r.rd});
      else if (o.r.csr >= 0 && o.r.csr_w && r.p(p_ver * .7) && left && q.size() < 40) q.push_front({2, (u32)o.r.csr});
      else if (use_irq && r.p(.03) && left && !s.mie) enable_irq();
      else if (r.p(.01 * p_dump) && left) { for (int x : pool) q.push_back({1, (u32)x}); q.push_back({1, 0}); }
    }
    if (!after_reset) {
      rpc[npc++ & 15] = s.pc; if (r.p(.2)) note(s.pc);
      if (o.data) { radr[nadr++ & 7] = o.adr & ~3u; note(r.p(.5) ? o.adr : o.dat); }
      if (o.r.rdw && o.r.rdv.full() && r.p(.3)) note(o.r.rdv.v);
      if (o.trap) note(s.mepc.v);
    }
    if (left && q.empty() && r.p(p_dict)) {      // a value the design itself knows, where it can matter
      int t = pool[r.below(pool.size())], u = pool[r.below(pool.size())]; li(t, value_dict());
      switch (r.below(7)) {
        case 0: q.push_back({0, I(0x67, 0, dst(), t, 0)}); break;
        case 1: q.push_back({0, I(0x03, 2, dst(), t, 0)}); break;
        case 2: q.push_back({0, Sx(2, t, u, 0)}); break;
        case 3: q.push_back({1, (u32)t}); break;
        case 4: { static const u32 cs[] = {0x305, 0x340, 0x341, 0x342}; q.push_back({0, CSR(1 + r.below(3), dst(), t, cs[r.below(4)])}); break; }
        case 5: { static const u32 f[] = {0, 1, 4, 5, 6, 7}; q.push_back({0, B(f[r.below(6)], t, u, 16)}); break; }
        default: q.push_back({0, R(0, r.below(8), dst(), t, u)}); break;
      }
    }
    if (q.size() > 60) q.clear();
    if (sc.steps.size() + pool.size() + 3 == nsteps && r.p(.5)) { q.clear(); for (int x : pool) q.push_back({1, (u32)x}); q.push_back({1, 0}); }
    Step st; st.uid = uid++;
    st.lf = lat(latf); st.ld = lat(latd); st.ldata = value();
    bool okk = false;
    for (int t = 0; t < 24 && !okk; t++) {
      u32 w;
      if (!q.empty()) {
        It it = q.front(); q.pop_front();
        if (it.k == 0) w = it.a;
        else if (it.k == 1) { if (!s.x[it.a].k) continue; int a = r.p(.6) ? 0 : src(s); if (!s.x[a].full()) a = 0; w = Sx(2, a, it.a, imm_low(s.x[a].v, 3, 0)); }
        else { int rd = pool[r.below(pool.size())]; w = CSR(2, rd, 0, it.a); q.push_front({1, (u32)rd}); }
      } else {
        double tot = 0; for (double x : wc) tot += x;
        double z = r.f() * tot; int cl = 0; while (cl < 15 && z >= wc[cl]) z -= wc[cl++];
        w = p_rep > 0 && r.p(p_rep) ? last_w : cl == 13 ? illegalish(s) : legalish(s, cl);
      }
      okk = !(c.size() > 4 && is_csr_insn(w) && (w >> 20) == 0x344); bool anyval = false;   // bound the number of candidate states
      for (auto &cc : c) {
        Outcome x; m_exec(cc.o.st, w, true, st.ldata, x); if (x.invalid) okk = false;
        if (x.st.mie && (!x.st.meie_k || !x.st.mtvec.full())) okk = false;
        (void)anyval;
      }
      if (okk) st.insn = w;
    }
    if (!okk) st.insn = I(0x13, 0, dst(), 0, imm12());
    last_w = st.insn;
    // ---- interrupts
    if (use_irq) {
      auto off = [&]() { if (st.ld > 8 && r.p(.2)) return r.range(st.lf + 4, st.lf + st.ld + 12); return r.p(.75) ? st.lf + 1 + r.below(7) - 2 : r.range(1, st.lf + 14); };
      switch (irqm) {
        case 0: case 1: if (r.p(p_irq)) { u32 o1 = off(), l = irqm == 0 ? 1 : r.range(1, 6); st.ev.push_back({'i', o1, 1}); st.ev.push_back({'i', o1 + l, 0}); } break;
        case 2: case 3: if (r.p(p_irq)) st.ev.push_back({'i', off(), 1}); if (want_low) { st.ev.push_back({'i', r.range(1, irqm == 2 ? 6 : 30), 0}); want_low = r.p(.2); } break;
        case 4: if (r.p(p_irq)) { u32 n = r.range(1, 6); bool lv = r.p(.5); for (u32 i = 0; i < n; i++) { st.ev.push_back({'i', i == 0 ? r.range(1, 3) : st.ev.back().off + r.range(1, 4), (u32)lv}); lv = !lv; } } break;
        case 5: if (r.p(p_irq * .2)) st.ev.push_back({'i', off(), r.below(2)}); break;
      }
    }
    if (use_rst && r.p(p_rst)) {
      u32 o1 = r.p(.85) ? r.range(1, st.lf + std::min(st.ld, 20u) + 12) : r.range(1, st.lf + st.ld + 80), l = r.p(.6) ? 1 : r.p(.5) ? r.range(2, 3) : r.range(1, 12);
      if (o1 > 200) o1 = r.range(1, 200);
      if (st.lf > 40 && r.p(.2)) o1 = r.range(1, st.lf);           // deep inside a long wait
      if (r.p(.04)) l = long_len();
      st.ev.push_back({'r', o1, l});
      if (r.p(.25)) st.ev.push_back({'r', o1 + l + r.below(8), r.range(1, 3)});
    }
    if (use_gate) {
      u32 span = st.lf + std::min(st.ld, 30u) + 10; if (span > 80) span = 80;
      switch (gatem) {
        case 0: if (r.p(p_gate)) st.ev.push_back({'g', r.range(1, span), r.p(.01) ? long_len() : r.range(1, 20)}); break;
        case 1: for (u32 i = 1; i <= span; i++) if (r.p(p_gate)) st.ev.push_back({'g', i, r.range(1, 3)}); break;
        case 2: for (u32 i = 1; i <= span; i++) st.ev.push_back({'g', i, (u32)period}); break;
        case 3: if (r.p(p_gate)) for (u32 i = 1; i <= span; i++) st.ev.push_back({'g', i, r.p(.5) ? 1u : 2u}); break;
      }
    }
    if (st.ev.size() > 1) sorted(st);
    sc.steps.push_back(st);
  }
};

void gen_next(Gen *g, Scen &sc, const std::vector<Cand> &c, bool after_reset) { g->next(sc, c, after_reset); }
bool gen_done(Gen *g, const Scen &sc) { return sc.steps.size() > g->nsteps; }
