#include "work/gen.h"

#include <math.h>

#include <algorithm>

namespace sim {

static uint64_t str_hash(const std::string& s) { uint64_t h = 7; for (char c : s) h = mix2(h, (uint8_t)c); return h; }

Gen::Gen(const std::string& property, uint64_t seed, int t, uint64_t i) : tier(t), index(i) {
  r.reseed(mix2(mix2(seed, str_hash(property)), i));
  p.property = property;
  p.cfg.setu("seed", r.next() >> 16);
}

void Gen::knobs() {
  Fields& c = p.cfg;
  c.set("policy", pick({0, 1, 1, 2, 2, 3}));
  c.set("sw", pick({0, 5, 50, 200, 500, 900}));
  if (chance(20)) c.set("starve", pick({1, 2}));
  if (chance(25)) c.set("stall", pick({2, 10, 60}));
  if (chance(50)) c.set("lat", pick({30, 200, 700}));
  if (chance(40)) c.set("split", pick({50, 300, 800}));
  if (chance(35)) c.set("spill", pick({20, 200, 700}));
  if (chance(20)) c.set("outage", pick({5, 40, 150}));
  if (chance(50)) c.set("chunk", pick({100, 500, 1000}));
  if (chance(30)) c.set("short", pick({50, 400}));
  if (chance(10)) c.set("poison", 0);
}

void Gen::tame() {
  Fields& c = p.cfg;
  c.set("steps", 200000000);
  c.set("cpu", 150);
  for (const char* k : {"lat", "split", "spill", "outage", "short", "starve", "stall"}) c.kv.erase(k);
  c.set("sw", pick({0, 0, 2, 20}));
}

bool Gen::supported(u128 mod, double leaves) const {
  if (mod == 0) return true;
  u128 rem = (~(u128)0 % mod + 1) % mod;
  if (rem == 0) return true;
  return 128 - log2((double)rem) > sec + 6 + log2(leaves + 1);
}

u128 Gen::gen_modulus(int type, bool any) {
  if (type == kzzp) {
    static const uint64_t l[] = {2, 3, 5, 257, 65537, 1000003, 1000000007, 2305843009213693951ull & ((1ull << 59) - 1),
                                 1152921504606846883ull, 1125899906842597ull, 4294967291ull, 1ull << 20, 1ull << 40, 6, 255, 256};
    if (chance(60)) { uint64_t v = l[below(16)]; return v < (1ull << 60) ? v : 65537; }
    int bits = (int)range(2, 60);
    u128 v = (r.next() & ((1ull << bits) - 1)) | 1;
    if (bits == 60) v &= (1ull << 60) - 1;
    return v < 3 ? 3 : v;
  }
  const u128 one = 1;
  const u128 l[] = {2, 3, 65537, 1000000007, 256, 257, (one << 61) - 1, (one << 64) - 59, one << 64, (one << 89) - 1, (one << 100) - 15,
                    (one << 107) - 1, (one << 127) - 1, ~(u128)0 - 158, (one << 127), (one << 96), (one << 72) - 93, (one << 80) - 65};
  for (;;) {
    u128 v;
    if (any && chance(25)) {   // fills its bytes: little room between the modulus and what is hashed into it
      int k = (int)range(1, 15);
      v = (one << (8 * k - 1)) + (((one << (8 * k - 1)) / 16) * (u128)below(15)) + r.below(1ull << std::min(8 * k - 5, 50));
    }
    else if (chance(60)) v = l[below(18)];
    else {
      int bits = (int)range(2, any ? 127 : 64);
      v = (((u128)r.next() << 64) | r.next()) & ((one << bits) - 1);
      v |= one << (bits - 1);
      if (chance(50)) v |= 1;
      if (v < 2) v = 2;
    }
    if (any || supported(v, 300000)) return v;
  }
}

void Gen::config(int pairs) {
  Fields& c = p.cfg;
  switch (below(4)) {
    case 0: c.set("id0", 1); c.set("id1", 0); break;
    case 1: { int a = (int)below(50), b = (int)below(50); if (a == b) b++; c.set("id0", a); c.set("id1", b); break; }
    default: c.set("id0", 0); c.set("id1", 1);
  }
  c.set("meas", chance(40));
  c.set("nt0", pick({1, 2, 2, 3, 4, 5, 8}));
  c.set("nt1", pick({1, 2, 2, 3, 4, 5, 8}));
  if (chance(5)) c.set("nt0", pairs > 2 ? range(9, 14) : pick({9, 12, 16, 17, 24}));
  if (chance(5)) c.set("nt1", pairs > 2 ? range(9, 14) : pick({9, 12, 16, 17, 24}));
  if (chance(30)) { static const int s[] = {30, 35, 45, 50, 55, 60}; sec = s[below(6)]; c.set("sec", (int64_t)sec); }
  m[0] = gen_modulus(kZZp, false);
  m[1] = gen_modulus(kzzp, false);
  while (!supported(m[1], 300000)) m[1] = gen_modulus(kzzp, false);
  c.sets("m0", u128s(m[0]));
  c.sets("m1", u128s(m[1]));
  c.set("pairs", pairs);
}

int Gen::any_type() { return (int)below(kNumTypes); }

int64_t Gen::size(int64_t max) {
  int64_t v;
  switch (below(8)) {
    case 0: v = range(1, 4); break;
    case 1: { int64_t b = 1LL << below(14); v = b + range(-1, 1); break; }
    case 2: v = range(1, 17); break;
    case 3: v = range(1, max); break;
    case 4: v = range(1, std::max<int64_t>(1, max / 8)); break;
    default: v = range(1, std::min<int64_t>(64, max));
  }
  return std::max<int64_t>(1, std::min(v, max));
}

Op& Gen::add(int pair, const std::string& kind) {
  Op o;
  o.kind = kind;
  o.pair = pair;
  o.setu("s", r.next() >> 32);
  p.ops.push_back(o);
  return p.ops.back();
}

static void sizes_and_points(Gen& g, Op& o, int64_t max) {
  int64_t k = g.chance(40) ? 1 : g.range(1, g.chance(20) ? 12 : 5);
  std::vector<int64_t> n, x;
  if (g.big) {
    if (g.chance(50)) { k = g.chance(70) ? 1 : g.range(2, 4); max = g.chance(50) ? 20000 : g.chance(90) ? 140000 : 1200000; }   // deep trees
    else { k = g.range(20, g.chance(50) ? 400 : 1500); max = k * (g.chance(50) ? 8 : 40); }            // many trees
  }
  bool zeros = g.chance(25);
  for (int64_t i = 0; i < k; i++) {
    int64_t v = zeros && g.chance(30) ? 0 : g.size(max / k + 1);
    if (g.big && k <= 4) v = g.chance(40) ? (1LL << g.range(12, 17)) + g.range(-1, 1) : g.range(max / 4, max);
    n.push_back(v);
    int64_t e = v == 0 ? 0 : g.pick<int64_t>({0, v - 1, g.below(v), g.below(v), g.below(v)});
    x.push_back(e);
  }
  o.setl("n", n);
  o.setl("x", x);
}

Op& Gen::abo(int pair, int ty, int64_t max) {
  Op& o = add(pair, "abo");
  o.set("ty", ty);
  o.set("r", below(2));
  o.set("b", below(2));
  o.set("i", below(3) == 0);
  sizes_and_points(*this, o, max);
  if (chance(3)) { o.sets("n", ""); o.sets("x", ""); }   // empty batch
  return o;
}
Op& Gen::spf(int pair, int ty, int64_t max) {
  Op& o = add(pair, "spf");
  o.set("ty", ty);
  o.set("r", below(2));
  o.set("b", below(3));
  o.set("i", below(3) == 0);
  o.set("vs", chance(60) ? 0 : below(6));
  sizes_and_points(*this, o, max);
  return o;
}
Op& Gen::gil(int pair, int ty, int64_t max) {
  Op& o = add(pair, "gil");
  o.set("ty", ty);
  o.set("r", below(2));
  o.set("b", below(2));
  o.set("i", below(3) == 0);
  o.set("xs", chance(60) ? 0 : below(6));
  o.set("ys", chance(60) ? 0 : below(6));
  o.set("n", chance(4) ? 0 : big ? range(max, 4 * max) : size(max));
  return o;
}
Op& Gen::gil_tight(int pair, int ty) {
  int64_t n = chance(50) ? range(1, 60) : range(60, chance(30) ? 3000 : 600);
  for (int tries = 0; tries < 100; tries++) {
    int k = ty == kzzp ? (int)range(5, 7) : (int)range(5, 15), bits = 8 * k;
    double masks = (double)n * bits, up = 0.6 + below(1000) / 1000.0 * (chance(40) ? log2(masks) : chance(50) ? 1.5 : 5.0) - (chance(20) ? 5 : 0);
    double logr = bits - sec - log2(masks) + up;
    if (logr < 0 || logr > bits - 12) { if (chance(20)) n = range(1, 3000); continue; }
    u128 q = (u128)pick({1, 1, 1, 3, 7, 60}), mod = (((u128)1 << bits) - (u128)exp2(logr)) / q;
    if (mod >> (bits - 8) == 0) continue;
    Op& m = add(pair, "mod");
    m.set("ty", ty);
    m.sets("m", u128s(mod));
    break;
  }
  Op& o = gil(pair, ty, 2);
  o.set("n", n);
  return o;
}
Op& Gen::mpf(int pair, int ty, int64_t maxN, int64_t maxt) {
  Op& o = add(pair, "mpf");
  o.set("ty", ty);
  o.set("r", below(2));
  o.set("i", below(3) == 0);
  int64_t t = size(maxt);
  int64_t N = chance(15) ? t : t + size(maxN);
  if (big) {
    t = chance(50) ? range(1, 20) : range(200, 2500);
    N = chance(20) ? t : t + range(1, chance(50) ? 5000 : chance(85) ? 60000 : 400000);
  }
  o.set("t", t);
  o.set("N", N);
  o.set("ip", below(6));
  o.set("so", below(3));
  o.set("xs", chance(60) ? 0 : below(6));
  o.set("ys", chance(60) ? 0 : below(6));
  o.set("ub", below(4));
  return o;
}
Op& Gen::hash(int pair, int64_t max) {
  Op& o = add(pair, "hash");
  int nf = chance(70) ? 3 : (int)range(1, 4);
  o.set("nf", nf);
  int64_t n = chance(25) ? range(1, 12) : size(max);
  o.set("n", n);
  if (nf == 2 && n > 60) { n = 1 + n % 60; o.set("n", n); }   // two functions need very many buckets
  o.set("in", below(4));
  if (o.i("in") == 3) o.set("N", n + size(100000));
  if (nf == 2 || (nf == 3 && chance(60))) o.set("B", 0);
  else o.set("B", chance(20) ? range(1, 4) : std::max<int64_t>(1, n * range(1, 40) / 10 + range(0, 4)));
  if (o.i("B") && o.i("B") < n) o.set("what", 1);
  if (chance(25)) o.set("hs", o.i("B") ? pick({0, 10, 30, 60}) : nf == 2 ? pick({35, 38, 41}) : pick({35, 41, 50, 60}));
  return o;
}
Op& Gen::vpre(int pair, int ty, int slot, int role, int64_t n) {
  Op& o = add(pair, "vpre");
  o.set("ty", ty);
  o.set("i", slot);
  o.set("r", role);
  o.set("n", n);
  o.set("ds", chance(30) ? -1 : chance(60) ? 0 : below(5));
  return o;
}
Op& Gen::vrun(int pair, int ty, int slot, int role, int64_t n) {
  Op& o = add(pair, "vrun");
  o.set("ty", ty);
  o.set("i", slot);
  o.set("r", role);
  o.set("n", n);
  return o;
}
Op& Gen::msg(int pair) {
  Op& o = add(pair, "msg");
  o.set("r", below(2));
  o.set("n", chance(20) ? 0 : range(1, 400));
  return o;
}
Op& Gen::nt(int pair) {
  Op& o = add(pair, "nt");
  o.set("a", pick({1, 2, 3, 4, 6, 8}));
  o.set("b", pick({1, 2, 3, 4, 6, 8}));
  return o;
}
Op& Gen::mod(int pair, int type, bool any) {
  Op& o = add(pair, "mod");
  o.set("ty", type);
  u128 v;
  do v = gen_modulus(type, any); while (!any && !supported(v, 300000));
  o.sets("m", u128s(v));
  return o;
}
void Gen::bad(int pair) {
  static const char* k[] = {"abo_null", "abo_negsec", "spf_null", "spf_negsec", "gil_null", "gil_negsec", "mp_null", "mp_negsec",
                            "abo_neg", "abo_end", "abo_mismatch", "abo_bneg", "abo_bend",
                            "spf_vmismatch", "spf_imismatch", "spf_xmismatch", "spf_neg", "spf_end", "spf_bend", "spf_negsize", "spf_inegsize",
                            "gil_mismatch", "gil_neglen",
                            "mp_ylen", "mp_mismatch", "mp_short", "mp_empty", "mp_end", "mp_far", "mp_neg", "mp_dup",
                            "mp_vshort", "mp_w", "mp_u", "mp_v", "mp_ubneg", "mp_ubcount", "mp_nbneg",
                            "tree_arity", "tree_nokeys", "tree_leaves", "tree_level", "tree_node", "tree_leaf", "tree_rearity", "tree_releaves",
                            "tree_missneg", "tree_missend", "tree_keysfew", "tree_keysmany", "tree_moreleaves", "tree_levels", "tree_fewlevels", "tree_width",
                            "prg_seed", "prg_reseed", "ck_functions", "ck_hash", "ck_simple", "ck_cuckoo", "ck_many", "ck_one", "ck_opt", "ck_bits"};
  Op& o = add(pair, "bad");
  o.sets("k", k[below((int64_t)(sizeof k / sizeof *k))]);
  o.set("ty", any_type());
  o.set("p", below(2));
  o.set("n", range(1, 40));
  o.set("mt", range(1, 9));
  o.set("d", chance(50) ? below(3) : chance(80) ? below(200) : below(1ll << 40));
}

}  // namespace sim
