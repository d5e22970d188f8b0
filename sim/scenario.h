// Scenarios: how a run's plan is generated and set up.
#pragma once
#include "rt.h"

namespace rt {
/// The plan generator's random numbers (never used during a run).
struct Gen {
  uint64_t s;
  explicit Gen(uint64_t seed) {
    // hashed: neighbouring seeds must not give shifted streams
    uint64_t z = seed + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 33)) * 0xff51afd7ed558ccdull;
    z = (z ^ (z >> 33)) * 0xc4ceb9fe1a85ec53ull;
    s = z ^ (z >> 33);
  }
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int64_t range(int64_t a, int64_t b) { // inclusive
    return a + (int64_t)(next() % (uint64_t)(b - a + 1));
  }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[next() % v.size()];
  }
};
struct Scenario {
  std::string name;
  void (*gen)(Plan &, Gen &);
  void (*setup)(const Plan &);
  // Runs in the driver before the run: computes what the run is judged
  // against, with runs of its own (`sub` returns what the sub-run stored with
  // setBlob, or fails if that run ended in a violation).
  bool (*prepare)(const Plan &,
                  const std::function<bool(const Plan &, std::string &)> &sub);
};
std::vector<Scenario> &scenarios();
struct Register {
  Register(const char *n, void (*g)(Plan &, Gen &), void (*s)(const Plan &),
           decltype(Scenario::prepare) p = nullptr) {
    scenarios().push_back({n, g, s, p});
  }
};
/// Hands data from a run to the driver.
void setBlob(const std::string &s);
/// Scheduling and fault knobs common to all scenarios, varied per run.
void genKnobs(Plan &P, Gen &G);
/// Splits an operation line into words.
std::vector<std::string> words(const std::string &s);
std::string hexEnc(const std::string &s);
std::string hexDec(const std::string &s);
} // namespace rt
