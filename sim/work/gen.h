// Random plans: histories of operations, configurations, swarm knobs.
#ifndef SIM_WORK_GEN_H_
#define SIM_WORK_GEN_H_
#include "work/common.h"

namespace sim {

struct Gen {
  Gen(const std::string& property, uint64_t seed, int tier, uint64_t index);
  Rng r;
  Plan p;
  int tier;
  uint64_t index;
  u128 m[2];                       // moduli in force: ZZ_p, zz_p
  double sec = 40;
  bool big = false;                // sizes far beyond the usual ones, few operations
  void tame();                     // a schedule that large sizes can be run under
  int64_t below(int64_t n) { return (int64_t)r.below((uint64_t)n); }
  int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); }
  bool chance(int percent) { return below(100) < percent; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below((int64_t)l.size())); }

  void knobs();                    // scheduler and network faults
  void config(int pairs);          // ids, channel mode, threads, moduli, security
  u128 gen_modulus(int type, bool any);
  bool supported(u128 m, double leaves) const;
  int any_type();
  int64_t size(int64_t max);
  int64_t request(int64_t n) { return chance(4) ? 0 : n; }   // of elements: an empty one is none
  // Each appends one op.
  Op& add(int pair, const std::string& kind);
  Op& abo(int pair, int ty, int64_t max);
  Op& spf(int pair, int ty, int64_t max);
  Op& gil(int pair, int ty, int64_t max);
  Op& gil_tight(int pair, int ty);   // over a modulus hashing is hardly or not uniform enough for
  Op& mpf(int pair, int ty, int64_t maxN, int64_t maxt);
  Op& hash(int pair, int64_t max);
  Op& vpre(int pair, int ty, int slot, int role, int64_t n);
  Op& vrun(int pair, int ty, int slot, int role, int64_t n);
  Op& msg(int pair);
  Op& nt(int pair);
  Op& mod(int pair, int type, bool any);
  void bad(int pair);
  Plan done() { return p; }
};

}  // namespace sim
#endif
