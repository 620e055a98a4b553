// Driver: batch exploration, minimisation, replay.
#include "gen.hpp"
#include <dlfcn.h>
#include <chrono>
#include <map>

static IDut *load(const char *path) {
  void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "harness error: %s\n", dlerror()); exit(3); }
  auto f = (IDut * (*)()) dlsym(h, "make_dut");
  if (!f) { fprintf(stderr, "harness error: no make_dut in %s\n", path); exit(3); }
  return f();
}

static std::vector<IDut *> duts; static std::vector<std::string> dut_names;
static int prop; static const Profile *prof;

static Result exec(IDut *d, Scen &sc, Opts op, Stats &st, Cov *cov, Gen *g) { Runner r(*d, sc, op, st, cov, g); r.run(); return std::move(r.res); }

// Property 15 alternates between the RVFI configurations; all others use the first one as the primary.
static IDut *main_dut(const Scen &sc) { return prop == 15 ? duts[sc.seed % duts.size()] : duts[0]; }
static bool two_run(int p) { return p == 3 || p == 8 || p == 16; }

static Opts base_opts() { Opts o; o.check_rvfi = prop == 15; o.check_cycles = prop == 14; o.keep_trace = two_run(prop); o.late_rst = prop == 8; return o; }

static Viol diff(const Result &a, const Result &b, const std::string &what) {
  Viol v; size_t n = std::min(a.trace.size(), b.trace.size());
  for (size_t i = 0; i < n; i++) if (memcmp(&a.trace[i], &b.trace[i], sizeof(TraceRow))) {
    v.hit = true; v.cls = "TRACE_DIFF"; v.tags = T(prop); v.cycle = i;
    auto s = [](const TraceRow &r) { return fmt("cyc=%u stb=%u we=%u sel=%x adr=%08x dat_w=%08x", r.a >> 1 & 1, r.a >> 2 & 1, r.a >> 3 & 1, r.a >> 4, r.adr << 2, r.d); };
    v.detail = fmt("%s: bus outputs differ at enabled cycle %zu: ", what.c_str(), i) + s(a.trace[i]) + " versus " + s(b.trace[i]);
    return v;
  }
  return v;
}

// Does this execution break property `prop`?  `a` is the primary run of `sc`.
static Viol judge(Scen &sc, const Result &a, Stats &st) {
  Viol none;
  if (prop == 3) { Opts o = base_opts(); o.alt_garbage = true; Result b = exec(duts[0], sc, o, st, nullptr, nullptr); return diff(a, b, "same stimulus, different values on don't-care inputs"); }
  if (prop == 8) {
    if (a.v.hit && (a.v.tags & T(8))) return a.v;
    Opts o = base_opts(); o.strip_gate = true; Result b = exec(duts[0], sc, o, st, nullptr, nullptr); return diff(a, b, "with and without clock-enable stalls");
  }
  if (prop == 16) {
    for (size_t i = 1; i < duts.size(); i++) { Opts o = base_opts(); Result b = exec(duts[i], sc, o, st, nullptr, nullptr); Viol v = diff(a, b, "core versus " + dut_names[i]); if (v.hit) return v; }
    return none;
  }
  if (!a.v.hit && prop == 14) {                // wait states cost their own length and nothing else
    for (auto &s : sc.steps) for (auto &e : s.ev) if (e.kind != 'g') return none;   // (irq and reset instants move with the waits)
    Opts o = base_opts(); o.no_wait = true; o.strip_gate = true; Result b = exec(duts[0], sc, o, st, nullptr, nullptr);
    for (size_t i = 0; i < a.busy.size() && i < b.busy.size(); i++) if (a.busy[i] != b.busy[i]) {
      Viol v; v.hit = true; v.cls = "WAIT_COST"; v.tags = T(14); v.step = i + 1; u32 w = i + 1 < sc.steps.size() ? sc.steps[i + 1].insn : 0;
      v.detail = fmt("step %zu insn %08x takes %u cycles (wait states excluded) with this schedule of waits and %u without waits", i + 1, w, a.busy[i], b.busy[i]); return v; }
    return none;
  }
  if (!a.v.hit) return none;
  if (prop == 7) {
    if (a.v.tags & T(7) && strcmp(a.v.cls, "RESET_REQUEST") == 0) return a.v;
    if (a.last_reset_step < 0) return none;
    if (a.v.tags & T(7) && (a.v.fresh || a.v.boot)) return a.v;   // the reset state itself is wrong
    // Property 7 is "behaves after reset as from power-on": replay the suffix after the last reset from power-on.
    Scen s2 = sc; s2.steps.erase(s2.steps.begin() + 1, s2.steps.begin() + std::min<size_t>(s2.steps.size(), (size_t)a.last_reset_step + 1));
    s2.steps[0].ev.clear();
    bool irq_on = false;                       // keep the irq level reached so far
    for (int i = 0; i <= a.last_reset_step && i < (int)sc.steps.size(); i++) for (auto &e : sc.steps[i].ev) if (e.kind == 'i') irq_on = e.arg;
    if (irq_on) s2.steps[0].ev.push_back({'i', 0, 1});
    Result b = exec(duts[0], s2, base_opts(), st, nullptr, nullptr);
    if (b.v.hit) return none;
    Viol v = a.v; v.detail = "after reset (and not from power-on): " + v.detail; return v;
  }
  if (prop == 4) {
    if (!(a.v.tags & T(4))) return none;
    Opts o = base_opts(); o.no_irq = true; Scen s2 = sc;
    Result b = exec(duts[0], s2, o, st, nullptr, nullptr);
    if (b.v.hit) return none;                  // also without interrupts: some other guarantee
    return a.v;
  }
  return (a.v.tags & T(prop)) ? a.v : none;
}

static Viol check(Scen &sc, Stats &st, bool verbose = false) {
  Opts o = base_opts(); o.verbose = verbose;
  Result a = exec(main_dut(sc), sc, o, st, nullptr, nullptr);
  if (a.invalid && !two_run(prop)) return Viol();
  return judge(sc, a, st);
}

static void shrink(Scen &sc, double budget_s) {
  Stats st; auto t0 = std::chrono::steady_clock::now();
  auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget_s; };
  Viol v = check(sc, st); if (!v.hit) return;
  std::string cls = v.cls;
  auto bad = [&](Scen &s) { Viol w = check(s, st); return w.hit && cls == w.cls; };
  { Scen t = sc; if (v.step + 2 < t.steps.size()) { t.steps.resize(v.step + 2); if (bad(t)) sc = t; } }
  bool again = true;
  while (again && left()) {
    again = false;
    for (size_t ch = std::max<size_t>(1, sc.steps.size() / 2); ch >= 1 && left(); ch /= 2) {
      for (size_t i = sc.steps.size(); i > 1 && left();) {
        size_t b = i > ch ? i - ch : 1; if (b < 1) b = 1;
        Scen t = sc; t.steps.erase(t.steps.begin() + b, t.steps.begin() + i);
        if (bad(t)) { sc = t; again = true; i = std::min(b, sc.steps.size()); } else i = b;
        if (i <= 1) break;
      }
      if (ch == 1) break;
    }
    auto attempt = [&](Scen &t) { if (left() && bad(t)) { sc = t; again = true; return true; } return false; };
    for (size_t i = 0; i < sc.steps.size() && left(); i++) {
      for (size_t e = sc.steps[i].ev.size(); e-- > 0;) { Scen t = sc; t.steps[i].ev.erase(t.steps[i].ev.begin() + e); attempt(t); }
      for (size_t e = 0; e < sc.steps[i].ev.size(); e++) { auto &E = sc.steps[i].ev[e]; if (E.kind != 'i' && E.arg > 1) { Scen t = sc; t.steps[i].ev[e].arg = 1; if (!attempt(t)) { t = sc; t.steps[i].ev[e].arg /= 2; attempt(t); } } }
      for (u32 want : {1u, sc.steps[i].lf / 2, sc.steps[i].lf - 1}) if (want >= 1 && want < sc.steps[i].lf) { Scen t = sc; t.steps[i].lf = want; if (attempt(t)) break; }
      for (u32 want : {1u, sc.steps[i].ld / 2, sc.steps[i].ld - 1}) if (want >= 1 && want < sc.steps[i].ld) { Scen t = sc; t.steps[i].ld = want; if (attempt(t)) break; }
      if (sc.steps[i].ldata) { Scen t = sc; t.steps[i].ldata = 0; attempt(t); }
      if (i && sc.steps[i].insn != 0x13) { Scen t = sc; t.steps[i].insn = 0x13; attempt(t); }
    }
    if (sc.spur) { Scen t = sc; t.spur = 0; attempt(t); }
    if (sc.gmode) { Scen t = sc; t.gmode = 0; attempt(t); }
    if (prop == 3) { if (sc.spur2) { Scen t = sc; t.spur2 = 0; attempt(t); } if (sc.gmode2 > 1) { Scen t = sc; t.gmode2 = 1; attempt(t); } }
  }
}

static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o; }

static std::string describe(const Scen &sc, size_t maxn) {
  std::string s = fmt("seed %llu, %zu steps, garbage mode %u, spurious ack %u/256:", (unsigned long long)sc.seed, sc.steps.size() - 1, sc.gmode, sc.spur);
  for (size_t i = 0; i < sc.steps.size() && i < maxn; i++) {
    auto &t = sc.steps[i];
    s += i ? fmt(" | %08x lf=%u ld=%u", t.insn, t.lf, t.ld) : std::string(" power-on");
    for (auto &e : t.ev) s += fmt(" %c@%u=%u", e.kind, e.off, e.arg);
  }
  return s;
}

int main(int argc, char **argv) {
  std::map<std::string, std::string> a; std::vector<std::string> dl;
  std::string cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) { std::string k = argv[i]; if (k == "--dut") dl.push_back(argv[i + 1]); else a[k] = argv[i + 1]; }
  prop = atoi(a["--prop"].c_str());
  for (auto &p : profiles) if (p.prop == prop) prof = &p;
  if (!prof || dl.empty()) { fprintf(stderr, "harness error: bad arguments\n"); return 3; }
  for (auto &x : dl) { size_t e = x.find('='); dut_names.push_back(x.substr(0, e)); duts.push_back(load(x.substr(e + 1).c_str())); load_dict((x.substr(e + 1) + ".dict").c_str()); }

  for (auto *v : {&dict32, &dict12}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }

  if (cmd == "batch") {
    u64 base = strtoull(a["--seed"].c_str(), 0, 10), n = strtoull(a["--n"].c_str(), 0, 10), w = strtoull(a["--worker"].c_str(), 0, 10), W = strtoull(a["--workers"].c_str(), 0, 10);
    double limit = atof(a["--time"].c_str()); bool keep = a["--keep-going"] == "1"; bool log = !a["--log"].empty();
    FILE *lf = log ? fopen(a["--log"].c_str(), "w") : nullptr;
    auto t0 = std::chrono::steady_clock::now(); Stats st, st2; Cov cov; std::vector<u64> hashes; std::vector<std::string> samples;
    u64 done = 0, viols = 0, other = 0; long long vidx = -1; Viol v; bool timed = false; std::map<std::string, u64> otherc;
    u64 lo = strtoull(a["--lo"].c_str(), 0, 10);
    for (u64 i = lo + w; i < n; i += W) {
      if (limit > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) { timed = true; break; }
      u64 seed = Rng::mix(Rng::mix(base * 1000003ull + prop) + i);
      u64 f0 = st.waits + st.irq_edges + st.resets + st.gate_bursts + st.spur + st.garb_lanes, n0 = st.insns;
      Scen sc; Gen g(seed, *prof, sc); Result r = exec(main_dut(sc), sc, base_opts(), st, &cov, &g);
      if (r.invalid) st.invalid++;
      bool nontriv = !r.invalid && st.insns - n0 >= 8 && st.waits + st.irq_edges + st.resets + st.gate_bursts + st.spur + st.garb_lanes > f0;
      Viol x = judge(sc, r, st2); done++;
      if (nontriv) hashes.push_back(r.hash);
      if (lf) fprintf(lf, "%llu %016llx %zu %llu %s\n", (unsigned long long)i, (unsigned long long)r.hash, sc.steps.size(), (unsigned long long)r.cycles, r.v.hit ? r.v.cls : "ok");
      if (samples.size() < 3) samples.push_back(describe(sc, 12) + fmt(" ... -> %llu cycles, %s", (unsigned long long)r.cycles, r.invalid ? "abandoned" : x.hit ? x.cls : "no violation"));
      if (r.v.hit && !x.hit) { other++; otherc[r.v.cls]++; if (a["--dump-other"] == "1" && other <= 3) fprintf(stderr, "other: %s %s\n", r.v.cls, r.v.detail.c_str()); }
      if (x.hit) { viols++; if (vidx < 0) { vidx = (long long)i; v = x; save_scen(sc, a["--out"].c_str(), {fmt("property C%02d", prop), fmt("violation %s: %s", x.cls, x.detail.c_str())}); } if (!keep) break; }
    }
    if (lf) fclose(lf);
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (!a["--cov"].empty()) { FILE *f = fopen(a["--cov"].c_str(), "wb"); fwrite(cov.b.data(), 1, cov.b.size(), f); fclose(f); f = fopen((a["--cov"] + ".h").c_str(), "wb"); fwrite(hashes.data(), 8, hashes.size(), f); fclose(f); }
    printf("{\"done\":%llu,\"viols\":%llu,\"vidx\":%lld,\"cls\":\"%s\",\"detail\":\"%s\",\"other\":%llu,\"timed\":%d,\"wall\":%.3f,", (unsigned long long)done, (unsigned long long)viols, vidx, v.cls, jesc(v.detail).c_str(), (unsigned long long)other, timed, wall);
    printf("\"otherc\":{"); bool first = true; for (auto &o : otherc) { printf("%s\"%s\":%llu", first ? "" : ",", o.first.c_str(), (unsigned long long)o.second); first = false; } printf("},");
#define S(f) printf("\"" #f "\":%llu,", (unsigned long long)st.f);
    S(runs) S(cycles) S(gated) S(insns) S(txs) S(datas) S(traps_sync) S(traps_irq) S(resets) S(invalid) S(ambiguous) S(irq_edges) S(irq_glitch) S(waits) S(long_waits) S(spur) S(garb_lanes) S(garb_idle)
    S(gate_bursts) S(irq_gated) S(reset_in_wait) S(reset_in_exec) S(reset_in_reset) S(x0_writes) S(rvfi) S(mrets) S(csr_acc) S(deferred_irq)
    printf("\"second_cycles\":%llu,\"second_runs\":%llu,", (unsigned long long)st2.cycles, (unsigned long long)st2.runs);
    printf("\"cls_n\":{"); for (int i = 0; i < C_NCLS; i++) printf("%s\"%s\":[%llu,%u,%u]", i ? "," : "", cls_name[i], (unsigned long long)st.clsn[i], st.bmin[i] == ~0u ? 0 : st.bmin[i], st.bmax[i]); printf("},");
    printf("\"samples\":["); for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str()); printf("]}\n");
    return 0;
  }
  Scen sc; if (!load_scen(sc, a["--in"].c_str())) { fprintf(stderr, "harness error: cannot read %s\n", a["--in"].c_str()); return 3; }
  if (cmd == "shrink") {
    double b = atof(a["--time"].c_str()); shrink(sc, b > 0 ? b : 20); Stats st; Viol v = check(sc, st);
    if (!save_scen(sc, a["--out"].c_str(), {fmt("property C%02d", prop), fmt("violation %s: %s", v.cls, v.detail.c_str())})) return 3;
    printf("%s\t%zu\t%s\n", v.hit ? v.cls : "NONE", sc.steps.size() - 1, v.detail.c_str()); return 0;
  }
  if (cmd == "replay") {
    Stats st; Viol v = check(sc, st, a["-v"] == "1");
    printf("%s\t%zu\t%s\n", v.hit ? v.cls : "NONE", sc.steps.size() - 1, v.detail.c_str());
    return v.hit ? 1 : 0;
  }
  fprintf(stderr, "harness error: unknown command\n"); return 3;
}
