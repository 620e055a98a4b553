// Scenarios: the complete, concrete description of one simulated execution.
#pragma once
#include "isa.hpp"
#include <vector>
#include <cstdio>
#include <cstdlib>

struct Rng {                                   // xoshiro256**, seeded by splitmix64
  u64 s[4];
  static u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  explicit Rng(u64 seed) { for (int i = 0; i < 4; i++) s[i] = mix(seed + i * 0x632be59bd9b4e019ull); }
  static u64 rl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
  u64 next() { u64 r = rl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rl(s[3], 45); return r; }
  u32 u() { return (u32)(next() >> 32); }
  u32 below(u32 n) { return n ? (u32)(((u64)u() * n) >> 32) : 0; }
  u32 range(u32 a, u32 b) { return a + below(b - a + 1); }
  bool p(double q) { return (u() * (1.0 / 4294967296.0)) < q; }
  double f() { return u() * (1.0 / 4294967296.0); }
};

struct Ev { char kind; u32 off, arg; };        // i: irq level, r: reset length, g: clock-enable gap length
struct Step { u32 uid = 0, insn = 0x13, lf = 1, ld = 1, ldata = 0; std::vector<Ev> ev; };

struct Scen {
  u64 seed = 0;
  u32 gmode = 0, spur = 0, gmode2 = 0, spur2 = 0; u64 gseed = 0, gseed2 = 0;
  std::vector<Step> steps;                     // steps[0] is the power-on phase (events only)
};

static inline bool save_scen(const Scen &s, const char *path, const std::vector<std::string> &notes) {
  FILE *f = fopen(path, "w"); if (!f) return false;
  for (auto &n : notes) fprintf(f, "# %s\n", n.c_str());
  fprintf(f, "H seed=%llu garbage=%u,%llu,%u garbage2=%u,%llu,%u\n", (unsigned long long)s.seed, s.gmode, (unsigned long long)s.gseed, s.spur,
    s.gmode2, (unsigned long long)s.gseed2, s.spur2);
  for (auto &st : s.steps) {
    fprintf(f, "S %u insn=%08x lf=%u ld=%u ldata=%08x", st.uid, st.insn, st.lf, st.ld, st.ldata);
    for (auto &e : st.ev) fprintf(f, " %c@%u=%u", e.kind, e.off, e.arg);
    fprintf(f, "\n");
  }
  return fclose(f) == 0;
}

static inline bool load_scen(Scen &s, const char *path) {
  FILE *f = fopen(path, "r"); if (!f) return false;
  char *line = nullptr; size_t cap = 0; bool ok = false;
  while (getline(&line, &cap, f) > 0) {
    if (line[0] == 'H') {
      unsigned long long a, b, c;
      if (sscanf(line, "H seed=%llu garbage=%u,%llu,%u garbage2=%u,%llu,%u", &a, &s.gmode, &b, &s.spur, &s.gmode2, &c, &s.spur2) != 7) { fclose(f); return false; }
      s.seed = a; s.gseed = b; s.gseed2 = c; ok = true;
    } else if (line[0] == 'S') {
      Step t; int n = 0;
      if (sscanf(line, "S %u insn=%x lf=%u ld=%u ldata=%x%n", &t.uid, &t.insn, &t.lf, &t.ld, &t.ldata, &n) != 5) { fclose(f); return false; }
      char *p = line + n; Ev e; int m;
      while (sscanf(p, " %c@%u=%u%n", &e.kind, &e.off, &e.arg, &m) == 3) { t.ev.push_back(e); p += m; }
      s.steps.push_back(t);
    }
  }
  free(line); fclose(f); return ok && !s.steps.empty();
}
