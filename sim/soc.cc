// Simulator for the example SoC: bus master (or real CPU), serial line, GPIO pins and reset
// under one seed; event-conservation oracle over the recorded bus and pin history.
// Compiled once per variant with -DDUT_SRC, -DCPU=0/1, -DWB=0/1, -DDIV=n.
#include DUT_SRC
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t s64;
using std::string; using std::vector;

struct Rng { u64 s; explicit Rng(u64 x) : s(x) { for (int i = 0; i < 4; i++) next(); }
  u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return next() % n; }
  s64 range(s64 a, s64 b) { return a + (s64)below(b - a + 1); }
  bool chance(int pct) { return below(100) < (u64)pct; } };

// ---------------------------------------------------------------- memory map
static bool KNOWN = false;               // tolerate the recorded finding: a tick in the acknowledge cycle of a WBTimer read is lost
static const s64 TICK = 0;               // cycle, modulo PERIOD, in which WBTimer's flag rises
static const u32 GPIO = 0x02000000, TIMER = WB ? 0x40000000u : 0x02800000u, SERIAL = WB ? 0x80000000u : 0x03000000u;
static const s64 PERIOD = 16384, FRAME = 10 * (s64)DIV;

// ---------------------------------------------------------------- scenario
enum Anchor { A_NOW, A_TICK, A_RX, A_TX, A_IRQ, A_N };
enum Op { O_RT, O_RS, O_RX, O_TX, O_LED, O_OUT, O_OE, O_IN, O_MW, O_MR, O_JUNK, O_WAIT, O_N };
static const char *AN[] = {"now", "tick", "rxdone", "txdone", "irq"};
static const char *ON[] = {"timer", "flags", "rx", "tx", "led", "out", "oe", "in", "store", "load", "junk", "wait"};
struct Act { int op, anchor; s64 off; u32 a, d; int sel; };
struct Fr { s64 gap; int data; int ppm; };          // line frame: gap after the CPU took the previous character
struct Pin { s64 delta; int val; };
struct Rst { s64 at; int len; };
struct Scen { s64 end = 0; int rxlat = 2; vector<Act> acts; vector<Fr> frames; vector<Pin> pins; vector<Rst> rsts; };

static string dump(const Scen &s) {
  std::ostringstream o;
  o << "E " << s.end << "\nL " << s.rxlat << "\n";
  for (auto &a : s.acts) o << "A " << ON[a.op] << " " << AN[a.anchor] << " " << a.off << " " << a.a << " " << a.d << " " << a.sel << "\n";
  for (auto &f : s.frames) o << "F " << f.gap << " " << f.data << " " << f.ppm << "\n";
  for (auto &p : s.pins) o << "P " << p.delta << " " << p.val << "\n";
  for (auto &r : s.rsts) o << "R " << r.at << " " << r.len << "\n";
  return o.str();
}
static Scen load(const string &path) {
  Scen s; std::ifstream f(path); string l;
  while (std::getline(f, l)) {
    std::istringstream i(l); string k, x, y; i >> k;
    if (k == "E") i >> s.end; else if (k == "L") i >> s.rxlat;
    else if (k == "A") { Act a{}; i >> x >> y >> a.off >> a.a >> a.d >> a.sel;
      for (int j = 0; j < O_N; j++) if (x == ON[j]) a.op = j;
      for (int j = 0; j < A_N; j++) if (y == AN[j]) a.anchor = j;
      s.acts.push_back(a); }
    else if (k == "F") { Fr r{}; i >> r.gap >> r.data >> r.ppm; s.frames.push_back(r); }
    else if (k == "P") { Pin p{}; i >> p.delta >> p.val; s.pins.push_back(p); }
    else if (k == "R") { Rst r{}; i >> r.at >> r.len; s.rsts.push_back(r); }
  }
  return s;
}

static Scen gen(u64 seed, u64 idx) {
  Rng r(seed * 0x1000193ull + idx * 0x9E3779B97F4A7C15ull + 77);
  Scen s;
  int theme = r.below(4);                       // 0 mixed, 1 timer, 2 serial, 3 bus/memory/gpio
  s.end = CPU ? r.range(4, 12) * 12500 : theme == 1 ? r.range(2, 5) * PERIOD : theme == 3 ? r.range(300, 2500) : r.range(2000, 24000);
  s.rxlat = r.chance(50) ? r.range(1, 6) : r.range(1, DIV / 3);
  int wide = r.chance(30) ? 12 : 4;
  auto off = [&]() -> s64 { return r.chance(85) ? r.range(-wide - 6, wide) : r.range(-40, 40); };
  if (!CPU) {
    int n = theme == 1 ? r.range(4, 14) : r.range(10, 90);
    int junk = r.chance(40) ? 10 : 0;
    for (int i = 0; i < n; i++) {
      Act a{}; a.sel = 1; a.anchor = A_NOW; a.off = r.chance(60) ? r.range(1, 4) : r.chance(70) ? r.range(1, 60) : r.range(1, 600);
      int k = r.below(100);
      if (theme == 1) {
        a.op = k < 60 ? O_RT : k < 75 ? O_RS : k < 90 ? O_TX : k < 95 ? O_WAIT : O_JUNK;
        if (r.chance(70)) { a.anchor = A_TICK; a.off = off(); }
      } else if (theme == 2 || theme == 0) {
        a.op = k < 30 ? O_RS : k < 50 ? O_TX : k < 58 ? O_RX : k < 68 ? O_RT : k < 74 ? O_WAIT : k < 79 ? O_LED : k < 84 ? O_OUT : k < 87 ? O_OE : k < 92 ? O_IN : k < 96 ? O_MW : O_MR;
        int c = r.below(10);
        if (c < 3) { a.anchor = A_RX; a.off = off(); }
        else if (c < 6) { a.anchor = A_TX; a.off = off(); }
        else if (c < 8) { a.anchor = A_IRQ; a.off = r.range(0, 8); }
        if (theme == 0 && r.chance(8)) { a.op = r.chance(50) ? O_RT : O_RS; a.anchor = A_TICK; a.off = off(); }
      } else a.op = k < 35 ? O_MW : k < 70 ? O_MR : k < 76 ? O_LED : k < 82 ? O_OUT : k < 88 ? O_OE : k < 94 ? O_IN : k < 96 ? O_RT : k < 98 ? O_RS : O_TX;
      if (r.chance(junk)) a.op = O_JUNK;
      if (a.op == O_RT || a.op == O_RS || a.op == O_RX || a.op == O_IN) a.sel = r.chance(70) ? 1 : r.chance(50) ? 3 : 15;
      a.d = r.chance(20) ? (r.chance(50) ? 0 : 0xffffffff) : (u32)r.next();
      if (a.op == O_MW || a.op == O_MR) {
        static const int sels[] = {1, 2, 4, 8, 3, 12, 15, 15};
        a.a = r.chance(60) ? r.below(8) * 4 : r.chance(50) ? 0xfe0 + r.below(8) * 4 : r.below(1024) * 4;
        a.sel = sels[r.below(8)];
      }
      if (a.op == O_JUNK) a.a = r.below(8);
      s.acts.push_back(a);
    }
  }
  int nf = theme == 3 ? 0 : theme == 1 ? r.below(3) : r.range(0, 14);
  if (CPU) nf = r.range(0, 10);
  for (int i = 0; i < nf; i++) {
    Fr f; f.gap = r.chance(45) ? r.below(4) : r.chance(60) ? r.below(60) : r.below(4 * FRAME);
    f.data = r.chance(20) ? (r.chance(50) ? 0 : 255) : r.below(256);
    f.ppm = r.chance(50) ? 0 : r.range(-25000, 25000);
    s.frames.push_back(f);
  }
  int np = r.range(0, CPU ? 60 : 24);
  for (int i = 0; i < np; i++) s.pins.push_back({r.chance(50) ? r.range(1, 30) : r.range(1, CPU ? 4000 : 400), (int)r.below(256)});
  if (r.chance(25)) {
    int k = r.range(1, 2);
    for (int i = 0; i < k; i++) s.rsts.push_back({r.range(1, s.end), (int)(r.chance(60) ? 1 : r.range(2, 6))});
    std::sort(s.rsts.begin(), s.rsts.end(), [](const Rst &a, const Rst &b) { return a.at < b.at; });
  }
  return s;
}

// ---------------------------------------------------------------- statistics
struct Stats {
  u64 cycles = 0, txs = 0, ticks = 0, rxchars = 0, txchars = 0, flagreads = 0, timerreads = 0, mem = 0, gpio = 0, resets = 0, reset_in_tx = 0,
      reset_in_rx = 0, reset_in_txc = 0, skewed = 0, junk = 0, pins = 0, irqs = 0, near_tick = 0, near_rx = 0, near_tx = 0, early_start = 0, invalid = 0, known_losses = 0;
  u8 al_tick[64] = {}, al_rx[64] = {}, al_tx[64] = {};
};
static const char *SN[] = {"cycles", "txs", "ticks", "rxchars", "txchars", "flagreads", "timerreads", "mem", "gpio", "resets", "reset_in_tx",
  "reset_in_rx", "reset_in_txc", "skewed", "junk", "pins", "irqs", "near_tick", "near_rx", "near_tx", "early_start", "invalid", "known_losses"};

// ---------------------------------------------------------------- oracle: a sticky read-to-clear flag
// Events happen at an instant within [lo,hi]; a read takes effect at an instant within [a,b].
struct Flag {
  struct Ev { s64 lo, hi; };
  struct St { size_t k; bool f; bool lost; bool operator<(const St &o) const { return k != o.k ? k < o.k : f != o.f ? f < o.f : lost < o.lost; } };
  std::deque<Ev> evs; size_t base = 0;     // evs[i] is event base+i
  std::set<St> st{{0, false, false}};
  void event(s64 lo, s64 hi) { evs.push_back({lo, hi}); }
  std::set<St> at(s64 a, s64 b) const {    // states possible at an instant within [a,b]
    std::set<St> r;
    for (auto x : st) {
      size_t k = x.k; bool f = x.f;
      while (k - base < evs.size() && evs[k - base].hi < a) { k++; f = true; }
      r.insert({k, f, x.lost});
      while (k - base < evs.size() && evs[k - base].lo <= b) { k++; f = true; r.insert({k, f, x.lost}); }
    }
    return r;
  }
  bool lost() {                            // certainly an event was lost in the tolerated way (see KNOWN)
    for (auto x : st) if (!x.lost) return false;
    std::set<St> r; for (auto x : st) r.insert({x.k, x.f, false});
    st = r; return true;
  }
  bool read(s64 a, s64 b, bool v, bool may_lose = false) {
    std::set<St> r;
    for (auto x : at(a, b)) {
      if (x.f == v) r.insert({x.k, false, x.lost});
      else if (x.f && may_lose) r.insert({x.k, false, true});
    }
    st = r;
    trim();
    return !st.empty();
  }
  void trim() { if (st.empty()) return; size_t m = st.begin()->k; while (base < m && !evs.empty()) { evs.pop_front(); base++; } }
  int known(s64 a, s64 b) const {          // 0 / 1 / -1 unknown
    auto r = at(a, b); bool t = false, f = false;
    for (auto x : r) (x.f ? t : f) = true;
    return t && f ? -1 : t;
  }
};

// ---------------------------------------------------------------- one run
struct Run {
  typedef cxxrtl_design::p_dut M;
  M *dp; M &d; const Scen &s; Stats &st;
  string err; s64 t = -1, g = 0; int verbose; u64 hash = 1469598103934665603ull;
  explicit Run(const Scen &s, Stats &st, int v) : dp(new M), d(*dp), s(s), st(st), verbose(v) {}
  ~Run() { delete dp; }
  void bad(const string &m) { if (err.empty()) err = "cycle " + std::to_string(t) + " after reset (" + std::to_string(g) + " from power-on): " + m; }
  void mix(u64 x) { hash = (hash ^ x) * 1099511628211ull; }

  // everything below is reset together with the SoC
  struct Tx { bool on = false; s64 a; bool we; u32 adr, sel, dw; } cur;
  Flag ftick, frx, ftx;
  s64 nexttick;
  struct Win { s64 from, to; int oldv, newv; };
  int led, out, oe; s64 ledq, outq, oeq; int led2, out2, oe2;   // expected values; until *q the new one may be pending
  // transmitter
  struct Send { int c; s64 a, b; }; std::deque<Send> sends; bool tx_idle; s64 txs; int txbit; bool tx_on; Send cursend; s64 tx_end; bool tx_busy_unknown;
  // serial line
  bool line_on; s64 line_s; Fr line_f; size_t nextf; s64 line_ready; bool char_waiting; s64 char_hi; int char_val; bool char_known; s64 rxdone_exp;
  // bus master
  std::deque<Act> forced; size_t nexta; s64 due; bool armed; Act act; bool drain; int drained; s64 irqwait;
  // pins
  int pins; vector<int> pinhist; size_t nextp = 0; s64 pint = 0;
  std::unordered_map<u32, u32> memv; std::unordered_map<u32, u8> memk; // survives reset
  s64 tickseen; s64 quiet; int fetched;

  void reset_state() {
    cur = {}; ftick = {}; frx = {}; ftx = {}; nexttick = 1; led = out = oe = led2 = out2 = oe2 = 0; ledq = outq = oeq = -1;
    if (WB) ftx.event(0, 4);
    sends.clear(); tx_idle = true; tx_on = false; tx_end = -1000000; line_on = false; line_ready = DIV; char_waiting = false; char_known = false; rxdone_exp = -1;
    forced.clear(); armed = false; tickseen = 0; irqwait = -1; t = 0;
  }

  s64 anchor_time(int a) {
    if (a == A_TICK) return (t / PERIOD + 1) * PERIOD;
    if (a == A_RX) return line_on ? (s64)(line_s + DIV / 2 + 9 * (s64)DIV + 1) : -1;
    if (a == A_TX) return tx_on ? txs + FRAME : -1;
    return -1;
  }

  bool step_master(bool rst) {     // returns true while the request is driven this cycle
    if (cur.on) return true;
    if (!armed) {
      if (!forced.empty()) { act = forced.front(); forced.pop_front(); due = t + std::max<s64>(1, act.off); }
      else if (t - tickseen > 12000 && t % PERIOD > 8 && t / PERIOD > 0) { act = {O_RT, A_NOW, 1, 0, 0, 1}; due = t + 1; tickseen = t; }
      else if (nexta < s.acts.size()) {
        act = s.acts[nexta];
        s64 w = anchor_time(act.anchor);
        if (act.anchor == A_IRQ) { if (irqwait < 0) irqwait = t; if (!irq_prev && t - irqwait < 600) return false; irqwait = -1; due = t + act.off; }
        else if (w >= 0) { due = w + act.off; if (due < t) due = t; }
        else due = t + std::max<s64>(1, act.anchor == A_NOW ? act.off : 1);
        nexta++;
      } else return false;
      armed = true;
    }
    if (armed && act.anchor == A_TICK && forced.empty() && t - tickseen > 12000 && t % PERIOD > 8 && t % PERIOD < 16000 && t / PERIOD > 0 && t < due) {
      forced.push_back(act); forced.back().anchor = A_TICK; armed = false; // the timer register is due: look after it first
      Act x{O_RT, A_NOW, 1, 0, 0, 1}; s64 keep = due; tickseen = t; act = x; due = t + 1; armed = true;
      forced.back().off = keep - t; return false;
    }
    if (t < due || rst) return false;
    armed = false;
    u32 adr = 0, sel = act.sel, dw = act.d; bool we = false;
    switch (act.op) {
      case O_RT: adr = TIMER; break;
      case O_RS: adr = SERIAL + 4; break;
      case O_RX: adr = SERIAL; break;
      case O_TX: if (!tx_idle) return false; adr = SERIAL; we = true; break;
      case O_LED: adr = GPIO; we = true; break;
      case O_OUT: adr = GPIO + 4; we = true; break;
      case O_OE: adr = GPIO + 8; we = true; break;
      case O_IN: adr = GPIO + 4; break;
      case O_MW: adr = act.a; we = true; break;
      case O_MR: adr = act.a; break;
      case O_JUNK: {
        static const struct { u32 adr; bool we; u32 sel; } J[8] = {{TIMER, 0, 2}, {SERIAL + 4, 0, 4}, {SERIAL, 0, 8}, {TIMER, 1, 1}, {SERIAL + 4, 1, 1}, {GPIO, 1, 2}, {GPIO + 4, 1, 12}, {SERIAL, 1, 2}};
        adr = J[act.a & 7].adr; we = J[act.a & 7].we; sel = J[act.a & 7].sel; st.junk++; break; }
      default: return false;
    }
    req = {true, t, we, adr, sel, dw};
    return true;
  }
  Tx req; bool irq_prev = false;

  void finish(s64 b, u32 rd) {        // a bus transaction [cur.a, b] completed
    Tx c = cur; cur.on = false; s64 a = c.a;
    st.txs++; mix(b * 1315423911ull + c.adr + c.we); mix(c.we ? c.dw : (rd & 0xff));
    u32 base = c.adr & ~3u; bool lane0 = c.sel & 1;
    if (verbose) fprintf(stderr, "%lld..%lld %s %08x sel %x data %08x\n", (long long)a, (long long)b, c.we ? "write" : "read ", c.adr, c.sel, c.we ? c.dw : rd);
    if (base < 0x1000) {
      st.mem++;
      for (int l = 0; l < 4; l++) if (c.sel >> l & 1) {
        u32 &w = memv[base]; u8 &k = memk[base]; u32 m = 0xffu << (8 * l);
        if (c.we) { w = (w & ~m) | (c.dw & m); k |= 1 << l; }
        else if (!(k >> l & 1)) { w = (w & ~m) | (rd & m); k |= 1 << l; }
        else if ((w ^ rd) & m) { char x[120]; snprintf(x, sizeof x, "memory byte %08x reads %02x, last written %02x", base + l, rd >> (8 * l) & 255, w >> (8 * l) & 255); return bad(x); }
      }
      return;
    }
    if (base == TIMER && !c.we && lane0) {
      st.timerreads++; tickseen = b;
      s64 ph = (a + 8) % PERIOD; if (ph < 16) { st.near_tick++; st.al_tick[ph * 2 + 0] = 1; }
      if (rd & 0xfe & (c.sel & 1 ? 0xff : 0)) return bad("the timer register returned bits other than bit 0");
      bool ack_tick = WB && KNOWN && b == a + 1 && !(rd & 1) && (b + PERIOD - TICK) % PERIOD == 0;
      if (ack_tick) tickseen = b + 2;
      if (!ftick.read(a - 2, b, rd & 1, ack_tick)) {
        if (rd & 1) return bad("the timer register reported a tick that did not happen or was already reported");
        return bad("a timer tick was lost: the register read 0 after an unreported tick");
      }
      return;
    }
    if (base == SERIAL + 4 && !c.we && lane0) {
      st.flagreads++;
      if (rxdone_exp >= 0 && std::abs(a + 4 - rxdone_exp) < 12) { st.near_rx++; st.al_rx[a + 4 - rxdone_exp + 12] = 1; }
      if (tx_end >= 0 && std::abs(a + 4 - tx_end) < 12) { st.near_tx++; st.al_tx[a + 4 - tx_end + 12] = 1; }
      if (rd & 0xfc) return bad("the serial flag register returned bits other than bits 0 and 1");
      if (!frx.read(a - 2, b, rd & 1))
        return bad(rd & 1 ? "received-character flag reported without an unreported character" : "a received character was not reported: the flag read 0");
      if (!ftx.read(a - 2, b, rd >> 1 & 1))
        return bad(rd & 2 ? "transmitter-empty flag reported without an unreported completion" : "a completed transmission was not reported: the flag read 0");
      if (rd & 2 && sends.empty() && !tx_on) tx_idle = true;
      if (rd & 1 && char_waiting && frx.st.begin()->k == frx.base + frx.evs.size()) char_known = true;
      if (rd & 1 && !CPU && char_waiting) forced.push_back({O_RX, A_NOW, s.rxlat, 0, 0, 1});
      return;
    }
    if (base == SERIAL && !c.we && lane0) {
      if (char_waiting && (char_known || char_hi < a)) {
        if ((int)(rd & 0xff) != char_val) { char x[100]; snprintf(x, sizeof x, "character received as %02x, sent as %02x", rd & 0xff, char_val); return bad(x); }
        char_waiting = char_known = false; line_ready = b;
      }
      return;
    }
    if (base == SERIAL && c.we && lane0) {
      if (!tx_idle) { st.invalid++; return; }
      tx_idle = false; sends.push_back({(int)(c.dw & 0xff), a, b}); return;
    }
    if (base == GPIO && c.we && lane0) { led = led2; led2 = c.dw & 0xff; ledq = b + 3; st.gpio++; return; }
    if (base == GPIO + 4 && c.we && lane0) { out = out2; out2 = c.dw & 0xff; outq = b + 3; st.gpio++; return; }
    if (base == GPIO + 8 && c.we && lane0) { oe = oe2; oe2 = c.dw & 0xff; oeq = b + 3; st.gpio++; return; }
    if (base == GPIO + 4 && !c.we && lane0) {
      st.gpio++;
      int can1 = 0, can0 = 0;
      for (s64 i = std::max<s64>(0, a - 2); i <= b; i++) { int v = pinhist[i & 63]; can1 |= v; can0 |= ~v; }
      if ((rd & 0xff & ~can1) || (~rd & 0xff & ~can0)) { char x[100]; snprintf(x, sizeof x, "GPIO inputs read as %02x, pins were at %02x", rd & 0xff, pinhist[b & 63]); return bad(x); }
      return;
    }
  }

  void outpin(const char *n, int v, int &old, int &nw, s64 q, bool writing, int wv) {
    if (v == nw) { if (t > q) old = nw; return; }
    if (t <= q && v == old) return;
    if (writing && v == wv) return;
    char x[120]; snprintf(x, sizeof x, "%s pins at %02x, last written %02x", n, v, nw); bad(x);
  }

  bool go() {
    pins = 0; pinhist.assign(64, 0); nextp = 0; pint = s.pins.empty() ? -1 : s.pins[0].delta; nextf = 0; nexta = 0; size_t nextr = 0; int rleft = 0;
    reset_state(); drain = false; drained = 0; fetched = 0;
    s64 limit = s.end + (CPU ? 120000 : 12 * FRAME + 4 * PERIOD + 4000), sub = 0; quiet = -1; s64 fin = -1;
    for (g = 0; g < limit && err.empty(); g++, t++) {
      st.cycles++;
      bool rst = rleft > 0;
      if (!rst && nextr < s.rsts.size() && g >= s.rsts[nextr].at) { rleft = s.rsts[nextr++].len; rst = true; st.resets++; if (cur.on) st.reset_in_tx++; if (line_on) st.reset_in_rx++; if (tx_on) st.reset_in_txc++; }
      // pins
      while (pint >= 0 && g >= pint) { pins = s.pins[nextp++].val; pint = nextp < s.pins.size() ? g + s.pins[nextp].delta : -1; st.pins++; }
      // serial line
      bool rx = true;
      if (!rst) {
        if (!line_on && nextf < s.frames.size() && !char_waiting && t >= line_ready + s.frames[nextf].gap) {
          line_on = true; line_f = s.frames[nextf++]; line_s = t; if (line_f.ppm) st.skewed++;
          if (t <= line_ready + 1) st.early_start++;
          double f = 1 + line_f.ppm * 1e-6; (void)f;
          rxdone_exp = t + DIV / 2 + 9 * (s64)DIV + 1;
          frx.event(t + 9 * (s64)DIV, t + FRAME + 4); char_waiting = true; char_hi = t + FRAME + 4; char_val = line_f.data; st.rxchars++;
        }
        if (line_on) {
          int bit = (int)((t - line_s) / (DIV * (1 + line_f.ppm * 1e-6)));
          if (bit >= 10) { line_on = false; line_ready = t; } else rx = bit == 0 ? false : bit == 9 ? true : line_f.data >> (bit - 1) & 1;
        }
      }
      // timer
      if (!rst && nexttick * PERIOD - t < 100) { ftick.event(nexttick * PERIOD - 1, nexttick * PERIOD + 1); nexttick++; st.ticks++; }
      // bus
      bool driving = false;
      if (!CPU && !rst) { driving = step_master(rst); if (driving && !cur.on) cur = req; }
      d.p_rst.set<bool>(rst); d.p_rx.set<bool>(rx); d.p_gpio__i.set<u8>(pins);
#if !CPU
      Tx z{}; const Tx &q = cur.on ? cur : z;
      d.p_mon__cyc.set<bool>(cur.on); d.p_mon__stb.set<bool>(cur.on); d.p_mon__we.set<bool>(q.we); d.p_mon__adr.set<u32>(q.adr >> 2);
      d.p_mon__sel.set<u32>(q.sel); d.p_mon__dat__w.set<u32>(q.dw);
#endif
      d.p_clk.set<bool>(false); d.step();
      if (!rst) {
        pinhist[t & 63] = pins;
        bool ack = d.p_ack.get<bool>(); bool irq = d.p_irq.get<bool>(); bool txp = d.p_tx.get<bool>();
#if CPU
        bool on = d.p_mon__cyc.get<bool>() && d.p_mon__stb.get<bool>();
        if (on && !cur.on) cur = {true, t, d.p_mon__we.get<bool>(), d.p_mon__adr.get<u32>() << 2, d.p_mon__sel.get<u32>(), d.p_mon__dat__w.get<u32>()};
        else if (!on && cur.on) bad("request withdrawn before the acknowledgement");
#endif
        if (cur.on && !ack && t - cur.a > 24) bad("no acknowledgement within 24 cycles");
        if (cur.on && ack) finish(t, d.p_dat__r.get<u32>());
        // transmitter
        if (!tx_on) {
          if (!txp) {
            if (sends.empty() && !(cur.on && cur.we && cur.adr == SERIAL)) bad("start bit without a written character");
            else {
              if (sends.empty()) cursend = {(int)(cur.dw & 0xff), cur.a, t}; else cursend = sends.front();
              tx_on = true; txs = t; tx_pending_pop = true;
            }
          } else if (!sends.empty() && t > sends.front().b + 8) bad("a written character was not sent");
        }
        if (tx_on) {
          s64 k = t - txs; int bit = k / DIV; 
          if (tx_pending_pop && !sends.empty()) { sends.pop_front(); tx_pending_pop = false; }
          if (bit >= 10) {
            tx_on = false; tx_end = t; st.txchars++;
          } else {
            bool w = bit == 0 ? false : bit == 9 ? true : cursend.c >> (bit - 1) & 1;
            s64 ph = k % DIV;
            if (w != txp && ph > 0 && ph < DIV - 1) bad("bit " + std::to_string(bit) + " of character " + std::to_string(cursend.c) + " was sent as " + std::to_string(txp));
            if (k == 1) ftx.event(txs + FRAME - 2, txs + FRAME + 4);
          }
        }
        // output registers
        bool w = cur.on && cur.we && (cur.sel & 1);
        outpin("LED", d.p_leds.get<u8>(), led, led2, ledq, w && cur.adr == GPIO, cur.dw & 255);
        outpin("GPIO output", d.p_gpio__o.get<u8>(), out, out2, outq, w && cur.adr == GPIO + 4, cur.dw & 255);
        outpin("GPIO output-enable", d.p_gpio__oe.get<u8>(), oe, oe2, oeq, w && cur.adr == GPIO + 8, cur.dw & 255);
        if (KNOWN && ftick.lost()) st.known_losses++;
        // interrupt line
        bool settled = !cur.on && t > lastb + 4;
        if (!cur.on && ack) lastb = t;
        if (cur.on) lastb = t;
        if (settled && t > 6) {
          int a = ftick.known(t - 4, t + 1), b = frx.known(t - 4, t + 1), c = ftx.known(t - 4, t + 1);
          if ((a == 1 || b == 1 || c == 1) && !irq) bad(string("interrupt line low with an unreported ") + (a == 1 ? "timer tick" : b == 1 ? "received character" : "transmission completion"));
          if (!a && !b && !c && irq) bad("interrupt line high with nothing to report");
        }
        if (irq && !irq_prev) st.irqs++;
        irq_prev = irq;
        // ticks must be collected before the next one (the driver below guarantees it in `bare`)
        if (CPU && t > PERIOD && t % PERIOD > 6000 && tickseen < t - t % PERIOD) bad("6000 cycles after a tick the firmware has not been interrupted to read the timer");
      }
      d.p_clk.set<bool>(true); d.step();
      if (rst) {
        bool wmem = cur.on && cur.we && cur.adr < 0x1000;
        if (wmem) for (int l = 0; l < 4; l++) if (cur.sel >> l & 1) memk[cur.adr & ~3u] &= ~(1 << l);
        if (nextf && (line_on)) {}
        reset_state(); lastb = 0; irq_prev = false; rleft--; t = -1; pinhist.assign(64, pins); continue;
      }
      if (!CPU) {                                  // end: collect everything, then nothing may be left
        if (!drain && g >= s.end && nextr >= s.rsts.size() && !line_on && !tx_on && sends.empty() && !cur.on && forced.empty() && !armed) {
          drain = true; nexta = s.acts.size(); quiet = t; drained = 0; nextf = s.frames.size();
        }
        if (drain && !cur.on && forced.empty() && !armed && t > quiet + FRAME + 8) {
          if (drained == 2) break;
          if (t % PERIOD > 16 && t % PERIOD < PERIOD - 200) {
            drained++;
            forced.push_back({O_RT, A_NOW, 2, 0, 0, 1}); forced.push_back({O_RS, A_NOW, 2, 0, 0, 1});
          }
        } else if (!drain && g > s.end && nexta < s.acts.size() && !armed) nexta = s.acts.size();
      } else if (g >= s.end && nextr >= s.rsts.size() && !line_on && !tx_on && !cur.on) {
        if (fin < 0) { fin = t; nextf = s.frames.size(); }
        if (t > fin + 4000) { if (char_waiting && char_hi + 3000 < t) bad("the firmware never saw a received character"); break; }
      }
    }
    if (CPU && err.empty() && st.txs == 0) bad("no bus activity");
    return err.empty();
  }
  s64 lastb = 0; bool tx_pending_pop = false;
};

// Violation text without cycle numbers: what must stay the same while minimising.
static string cls(const string &e) { size_t p = e.find("): "); string x = p == string::npos ? e : e.substr(p + 3); size_t c = x.find_first_of("0123456789"); return x.substr(0, std::min(c, (size_t)40)); }

static string once(const Scen &s, Stats &st, u64 *h = nullptr, int v = 0) { Run r(s, st, v); r.go(); if (h) *h = r.hash; return r.err; }

static Scen shrink(Scen s, const string &want, double secs) {
  auto t0 = std::chrono::steady_clock::now();
  auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; };
  auto fails = [&](const Scen &x) { Stats st; return cls(once(x, st)) == want; };
  auto cut = [&](auto get) {
    for (size_t n = std::max<size_t>(1, get(s).size() / 2);; n /= 2) {
      for (size_t i = 0; i < get(s).size() && left();) {
        Scen x = s; auto &v = get(x); v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + n));
        if (fails(x)) s = x; else i += n;
      }
      if (n <= 1) break;
    }
  };
  for (int pass = 0; pass < 2; pass++) {
    cut([](Scen &x) -> vector<Rst> & { return x.rsts; }); cut([](Scen &x) -> vector<Act> & { return x.acts; });
    cut([](Scen &x) -> vector<Pin> & { return x.pins; }); cut([](Scen &x) -> vector<Fr> & { return x.frames; });
  }
  for (auto &f : s.frames) { Scen x = s; if (f.ppm && left()) { size_t i = &f - &s.frames[0]; x.frames[i].ppm = 0; if (fails(x)) f.ppm = 0; } }
  for (s64 e = s.end / 2; e > 16 && left(); e /= 2) { Scen x = s; x.end = s.end - e; if (fails(x)) { s = x; } }
  return s;
}

int main(int argc, char **argv) {
  std::map<string, string> o; string mode = argv[1];
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  KNOWN = o["--known"] == "1";
  if (mode == "batch") {
    u64 seed = strtoull(o["--seed"].c_str(), 0, 10), lo = strtoull(o["--lo"].c_str(), 0, 10), n = strtoull(o["--n"].c_str(), 0, 10);
    u64 w = strtoull(o["--worker"].c_str(), 0, 10), W = strtoull(o["--workers"].c_str(), 0, 10); double secs = atof(o["--time"].c_str());
    auto t0 = std::chrono::steady_clock::now(); Stats st; u64 done = 0; vector<u64> hs; s64 vi = -1; string ve;
    for (u64 i = lo + (w + W - lo % W) % W; i < n; i += W) {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
      Scen s = gen(seed, i); u64 h; u64 tb = st.txs; string e = once(s, st, &h); done++;
      if (st.txs - tb >= 8) hs.push_back(h);
      if (!e.empty()) { vi = i; ve = e; std::ofstream f(o["--out"]); f << dump(s); break; }
    }
    int at = 0, ar = 0, ax = 0; for (int i = 0; i < 64; i++) at += st.al_tick[i], ar += st.al_rx[i], ax += st.al_tx[i];
    std::ofstream hf(o["--out"] + ".h", std::ios::binary); hf.write((char *)hs.data(), hs.size() * 8);
    printf("{\"done\": %llu, \"vidx\": %lld, \"detail\": \"%s\", \"align_tick\": %d, \"align_rx\": %d, \"align_tx\": %d", (unsigned long long)done, (long long)vi, ve.c_str(), at, ar, ax);
    for (size_t i = 0; i < sizeof SN / sizeof *SN; i++) printf(", \"%s\": %llu", SN[i], (unsigned long long)((u64 *)&st)[i]);
    printf("}\n");
    return 0;
  }
  Scen s = load(o["--in"]); Stats st;
  if (mode == "replay") { string e = once(s, st, nullptr, atoi(o["-v"].c_str())); printf("%s\n", e.c_str()); return e.empty() ? 0 : 1; }
  if (mode == "shrink") {
    string e = once(s, st); if (e.empty()) { printf("NONE\n"); return 0; }
    Scen x = shrink(s, cls(e), atof(o["--time"].c_str())); std::ofstream f(o["--out"]); f << dump(x); Stats s2; printf("%s\n", once(x, s2).c_str()); return 0;
  }
  return 2;
}
