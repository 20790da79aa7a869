#include "work/common.h"

#include <math.h>
#include <string.h>

#include <algorithm>
#include <sstream>

#include "NTL/ZZ.h"

namespace sim {

std::string u128s(u128 v) {
  if (v == 0) return "0";
  std::string s;
  while (v) { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; }
  return s;
}
u128 parse_u128(const std::string& s) {
  u128 v = 0;
  for (char c : s) if (c >= '0' && c <= '9') v = v * 10 + (c - '0');
  return v;
}
int64_t Fields::i(const std::string& k, int64_t d) const { auto it = kv.find(k); return it == kv.end() || it->second.empty() ? d : strtoll(it->second.c_str(), 0, 10); }
uint64_t Fields::u(const std::string& k, uint64_t d) const { auto it = kv.find(k); return it == kv.end() || it->second.empty() ? d : strtoull(it->second.c_str(), 0, 10); }
double Fields::f(const std::string& k, double d) const { auto it = kv.find(k); return it == kv.end() || it->second.empty() ? d : strtod(it->second.c_str(), 0); }
std::string Fields::s(const std::string& k, const std::string& d) const { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
std::vector<int64_t> Fields::list(const std::string& k) const {
  std::vector<int64_t> v;
  auto it = kv.find(k);
  if (it == kv.end()) return v;
  std::stringstream ss(it->second);
  std::string x;
  while (std::getline(ss, x, ',')) if (!x.empty()) v.push_back(strtoll(x.c_str(), 0, 10));
  return v;
}
void Fields::setl(const std::string& k, const std::vector<int64_t>& v) {
  std::string s;
  for (size_t j = 0; j < v.size(); j++) s += (j ? "," : "") + std::to_string(v[j]);
  kv[k] = s;
}

std::string Plan::text() const {
  std::string o = "property " + property + "\n";
  o += "cfg";
  for (auto& x : cfg.kv) o += " " + x.first + "=" + x.second;
  o += "\n";
  for (auto& op : ops) {
    o += "op " + std::to_string(op.pair) + " " + op.kind;
    for (auto& x : op.kv) o += " " + x.first + "=" + x.second;
    o += "\n";
  }
  if (replay) o += "replay 1\n";
  for (auto& t : tape) o += "d " + std::to_string(t.key) + " " + std::to_string(t.val) + "\n";
  return o;
}
Plan Plan::parse(const std::string& text) {
  Plan p;
  std::stringstream ss(text);
  std::string line;
  while (std::getline(ss, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::stringstream ls(line);
    std::string w;
    ls >> w;
    auto rest = [&](Fields* f) {
      std::string x;
      while (ls >> x) { size_t e = x.find('='); if (e != std::string::npos) f->kv[x.substr(0, e)] = x.substr(e + 1); }
    };
    if (w == "property") ls >> p.property;
    else if (w == "cfg") rest(&p.cfg);
    else if (w == "op") { Op o; ls >> o.pair >> o.kind; rest(&o); p.ops.push_back(o); }
    else if (w == "replay") p.replay = true;
    else if (w == "d") { TapeEntry e; ls >> e.key >> e.val; p.tape.push_back(e); }
  }
  return p;
}

Knobs knobs_of(const Plan& p) {
  Knobs k;
  k.seed = p.cfg.u("seed", 1);
  k.policy = p.cfg.u("policy");
  k.p_switch = p.cfg.u("sw");
  k.starve = p.cfg.u("starve");
  k.p_stall = p.cfg.u("stall");
  k.p_latency = p.cfg.u("lat");
  k.p_split = p.cfg.u("split");
  k.p_spill = p.cfg.u("spill");
  k.p_outage = p.cfg.u("outage");
  k.p_chunk = p.cfg.u("chunk");
  k.p_short = p.cfg.u("short");
  k.preempt_mean = p.cfg.u("preempt");
  k.cpu_limit = p.cfg.u("cpu");
  k.poison = p.cfg.u("poison", 1);
  return k;
}

// ------------------------------------------------------------------ rings
const char* const kTypeNames[kNumTypes] = {"uint8", "uint16", "uint32", "uint64", "uint128", "gf128", "ZZ_p", "zz_p", "int16", "int64"};
int type_bits(int t) {
  static const int b[] = {8, 16, 32, 64, 128, 128, 0, 0, 16, 64};
  return b[t];
}
u128 Ring::mask() const { int b = type_bits(type); return b >= 128 || b == 0 ? ~(u128)0 : (((u128)1 << b) - 1); }
u128 Ring::reduce(u128 a) const { return is_ntl(type) ? (mod ? a % mod : a) : a & mask(); }
u128 Ring::add(u128 a, u128 b) const {
  if (type == kGF) return a ^ b;
  if (is_ntl(type)) {
    if (mod == 0) return a + b;
    u128 c = a + b;
    if (c < a || c >= mod) c -= mod;
    return c;
  }
  return (a + b) & mask();
}
u128 Ring::neg(u128 a) const {
  if (type == kGF) return a;
  if (is_ntl(type)) return a == 0 ? 0 : mod - a;
  return (0 - a) & mask();
}
static void zz_from(NTL::ZZ& z, u128 v) { unsigned char b[16]; memcpy(b, &v, 16); NTL::ZZFromBytes(z, b, 16); }
static u128 zz_to(const NTL::ZZ& z) { unsigned char b[16] = {0}; NTL::BytesFromZZ(b, z, 16); u128 v; memcpy(&v, b, 16); return v; }
static u128 gf_mul(u128 a, u128 b) {
  u128 r = 0;
  for (int i = 127; i >= 0; i--) {
    bool top = (r >> 127) & 1;
    r <<= 1;
    if (top) r ^= 0x87;
    if ((b >> i) & 1) r ^= a;
  }
  return r;
}
u128 Ring::mul(u128 a, u128 b) const {
  if (type == kGF) return gf_mul(a, b);
  if (is_ntl(type)) {
    if (!mod) return a * b;
    if (mod <= ((u128)1 << 64)) return (a % mod) * (b % mod) % mod;
    NTL::ZZ x, y, m;
    zz_from(x, a); zz_from(y, b); zz_from(m, mod);
    x = x * y % m;
    return zz_to(x);
  }
  return (a * b) & mask();
}
u128 Ring::random(Rng& r) const {
  u128 v = ((u128)r.next() << 64) | r.next();
  return reduce(v);
}
double Ring::bits() const { return is_ntl(type) ? (mod ? log2((double)mod) : 128) : type_bits(type); }

MulBy::MulBy(const Ring& r, u128 cc) : ring(r), c(cc) {
  if (r.type == kGF) {   // 16 byte-indexed tables
    tab.resize(16 * 256);
    u128 p = c;
    for (int i = 0; i < 16; i++)
      for (int b = 0; b < 8; b++) {
        for (int v = 0; v < (1 << b); v++) tab[i * 256 + (1 << b) + v] = tab[i * 256 + v] ^ p;
        bool top = (p >> 127) & 1;
        p <<= 1;
        if (top) p ^= 0x87;
      }
  }
}
u128 MulBy::operator()(u128 a) const {
  if (ring.type != kGF) return ring.mul(a, c);
  u128 r = 0;
  for (int i = 0; i < 16; i++) r ^= tab[i * 256 + (int)((a >> (8 * i)) & 255)];
  return r;
}

std::vector<u128> gen_values(const Ring& r, uint64_t seed, size_t n, int style) {
  Rng g(seed);
  std::vector<u128> v(n);
  for (auto& x : v) {
    switch (style) {
      case 1: x = 0; break;
      case 2: x = r.reduce(1); break;
      case 3: x = r.neg(r.reduce(1)); break;
      case 4: { u128 one = 1; x = r.reduce(one << g.below(128)); break; }
      case 5: x = g.below(3) ? 0 : r.random(g); break;
      default: x = r.random(g); break;
    }
  }
  return v;
}

const int kViewHead = 96, kViewTail = 32, kViewOT = 32;

// ------------------------------------------------------------------ registry
static TypeDriver* g_drivers[kNumTypes];
static TypeDriver* g_vdrivers[kNumTypes];
TypeDriver* driver(int t) { return g_drivers[t]; }
TypeDriver* vole_driver(int t) { return g_vdrivers[t]; }
void register_driver(int t, TypeDriver* d) { g_drivers[t] = d; }
void register_vole_driver(int t, TypeDriver* d) { g_vdrivers[t] = d; }
static std::map<std::string, Scenario*>& scen() { static std::map<std::string, Scenario*> m; return m; }
Scenario* scenario(const std::string& p) { auto it = scen().find(p); return it == scen().end() ? nullptr : it->second; }
void register_scenario(const std::string& p, Scenario* s) { scen()[p] = s; }
std::vector<std::string> scenario_names() { std::vector<std::string> v; for (auto& x : scen()) v.push_back(x.first); return v; }

}  // namespace sim
