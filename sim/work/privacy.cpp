// C13: what a party is sent and what it obtains, taken alone, is distributed
// as if it had nothing to do with the other party's inputs. Runs contribute to
// histograms; the batch as a whole is judged.
#include <math.h>
#include <string.h>

#include <algorithm>

#include "work/gen.h"
#include "work/twin.h"

namespace sim {
std::string vole_slot(const Op& op);
namespace {

// ---------------------------------------------------------- histograms
enum Cat {
  kAbo, kSpfVP, kSpfIP, kGilVec, kGilVal, kMpfIP, kMpfVP, kVoleU, kVoleV, kVoleW,
  kMsgAbo, kMsgSpf, kMsgGil, kMsgMpf, kMsgVole, kOtGil, kOtAbo, kNoiseVal, kRng, kSeedU, kSeedV, kSeedUV, kMaskGil, kScalar, kCats
};
const char* const kCatNames[kCats] = {
  "all-but-one OT elements", "point function shares of the value provider", "point function shares of the index provider",
  "product shares of the vector provider", "product shares of the value provider",
  "multi-point shares of the index provider", "multi-point shares of the value provider",
  "vector OLE u", "vector OLE v", "vector OLE w",
  "messages of all-but-one OT", "messages of point functions", "messages of the product", "messages of multi-point functions", "messages of the vector OLE",
  "masked values obtained in the product", "blocks obtained in all-but-one OT", "noise values", "generator output",
  "first seeds u of the vector OLE", "first seeds v of the vector OLE", "first seeds of the vector OLE, v - u", "masks drawn for the product", "scalars drawn by the receiver of the vector OLE"};
enum Sub { kAll, kSpecial, kFirst, kLast, kDiff, kRep, kSubs };
const char* const kSubNames[kSubs] = {"", " (special)", " at the first position", " at the last position", " (differences of neighbours)", " (differences between equal calls)"};
enum Cls { c8, c16, c32, c64, c128, cGF, cZs, cZm, cZl, czs, czl, cAny, kCls };
const char* const kClsNames[kCls] = {"uint8", "uint16", "uint32", "uint64", "uint128", "gf128", "ZZ_p (small)", "ZZ_p (up to 64 bits)", "ZZ_p (over 64 bits)", "zz_p (small)", "zz_p (large)", "any type of 2^k elements"};
const int kBins = 34;   // 16 by magnitude, 16 residues, 2 for values that reduction modulo m favours
struct Cell { double n = 0, o[kBins] = {0}, e[kBins] = {0}, v[kBins] = {0}; };
using Table = std::map<uint16_t, Cell>;
inline uint16_t key(int cat, int sub, int cls) { return (uint16_t)((cat * kSubs + sub) * kCls + cls); }

int cls_of(const Ring& r) {
  switch (r.type) {
    case kU8: return c8;
    case kU16: case kS16: return c16;
    case kU32: return c32;
    case kU64: case kS64: return c64;
    case kU128: return c128;
    case kGF: return cGF;
    case kZZp: return r.mod <= 65536 ? cZs : r.mod <= ((u128)1 << 64) ? cZm : cZl;
    default: return r.mod <= 65536 ? czs : czl;
  }
}
struct Binner {   // 16 bins by magnitude, 16 by residue
  Ring r;
  int bits;
  u128 m, q;
  double pt[16], pl[16];
  u128 low[2] = {0, 0};      // 2^w mod m: what w random bits reduced modulo m hit more often
  explicit Binner(const Ring& ring, bool nonzero = false) : r(ring) {
    bits = is_ntl(r.type) ? 0 : type_bits(r.type);
    m = r.mod;
    for (int b = 0; b < 16; b++) pt[b] = pl[b] = 1.0 / 16;
    if (bits) { if (nonzero) without_zero(pow(2.0, bits)); return; }
    q = m / 16 + (m % 16 != 0);
    for (int b = 0; b < 16; b++) {
      u128 lo = (u128)b * q, hi = b == 15 ? m : std::min(m, (u128)(b + 1) * q);
      if (b && lo / (u128)b != q) lo = m;
      if (lo > m) lo = m;
      if (hi < lo) hi = lo;
      pt[b] = (double)(hi - lo) / (double)m;
      pl[b] = ((double)(m / 16) + ((u128)b < m % 16)) / (double)m;
    }
    if (nonzero) { without_zero((double)m); return; }
    int w = 8;
    while (w < 128 && (m - 1) >> w) w += 8;
    for (int c = 0; c < 2; c++, w = 64) {
      if (c && (m >> 56 == 0 || m >> 64 != 0)) break;   // elsewhere 64 bits are plenty or too few
      u128 top = w == 128 ? ~(u128)0 : ((u128)1 << w) - 1;
      low[c] = (top % m + 1) % m;
    }
  }
  void without_zero(double R) {
    for (double* p : {pt, pl}) {
      p[0] = (p[0] * R - 1) / R;
      for (int b = 0; b < 16; b++) p[b] *= R / (R - 1);
    }
  }
  int top(u128 v) const { return bits ? (int)(v >> (bits - 4)) & 15 : (int)std::min<u128>(15, v / q); }
};
struct Stats {
  Table t;
  void add(int cat, int sub, const Binner& b, const u128* v, size_t n, bool low = true, bool any = false) {
    if (n == 0 || (is_ntl(b.r.type) && (b.r.mod < 2 || any))) return;
    Cell& c = t[key(cat, sub, any ? cAny : cls_of(b.r))];
    c.n += (double)n;
    for (size_t i = 0; i < n; i++) {
      c.o[b.top(v[i])]++;
      if (low) c.o[16 + (int)(v[i] & 15)]++;
      for (int k = 0; k < 2; k++) c.o[32 + k] += v[i] < b.low[k];
    }
    for (int k = 0; k < 2; k++) {
      double p = (double)b.low[k] / (double)b.m;
      c.e[32 + k] += (double)n * p;
      c.v[32 + k] += (double)n * p * (1 - p);
    }
    for (int k = 0; k < 16; k++) {
      c.e[k] += (double)n * b.pt[k];
      c.v[k] += (double)n * b.pt[k] * (1 - b.pt[k]);
      if (low) { c.e[16 + k] += (double)n * b.pl[k]; c.v[16 + k] += (double)n * b.pl[k] * (1 - b.pl[k]); }
    }
  }
  void vec(int cat, const Binner& b, const std::vector<u128>& v) {
    add(cat, kAll, b, v.data(), v.size());
    if (v.empty()) return;
    for (bool any : {false, true}) {
      add(cat, kFirst, b, &v[0], 1, true, any);
      add(cat, kLast, b, &v.back(), 1, true, any);
    }
    std::vector<u128> d;
    for (size_t i = 1; i < v.size(); i += 2) d.push_back(b.r.sub(v[i], v[i - 1]));
    add(cat, kDiff, b, d.data(), d.size());
  }
};

// ---------------------------------------------------------- experiment
// The same call with the same public parameters and one of two choices of
// secrets; what the parties are sent must not tell them apart.
struct Exp { const char* kind; int ty; const char* n; int t, N; };
const Exp kExps[] = {
  {"abo", kU64, "33", 0, 0}, {"abo", kGF, "5,9", 0, 0}, {"abo", kU8, "2", 0, 0}, {"abo", kZZp, "64", 0, 0},
  {"spf", kU8, "16", 0, 0}, {"spf", kU128, "7,1,40", 0, 0}, {"spf", kzzp, "100,3", 0, 0}, {"spf", kGF, "2", 0, 0}, {"spf", kU64, "0,5", 0, 0},
  {"gil", kU8, "5", 0, 0}, {"gil", kU64, "4", 0, 0}, {"gil", kU128, "3", 0, 0}, {"gil", kGF, "2", 0, 0}, {"gil", kzzp, "5", 0, 0}, {"gil", kZZp, "3", 0, 0},
  {"mpf", kU32, "", 3, 40}, {"mpf", kGF, "", 6, 100}, {"mpf", kU16, "", 1, 30}, {"mpf", kzzp, "", 4, 9}, {"mpf", kZZp, "", 10, 300},
  {"vrun", kU64, "100", 0, 0}, {"vrun", kGF, "60", 0, 0}};
const int kNumExps = (int)(sizeof kExps / sizeof *kExps);
const int kViewLen = 96 + 32 + 32 + 4;     // bytes, then lengths
const size_t kExpCells = (size_t)2 * kViewLen * 32 * 2;

const size_t kDense = 180;                 // positions watched one by one

struct Blob {   // payload a run hands to the batch
  std::vector<uint8_t> b;
  template <class T> void put(const T& v) { const uint8_t* p = (const uint8_t*)&v; b.insert(b.end(), p, p + sizeof v); }
};
struct BlobReader {
  const uint8_t* p;
  const uint8_t* e;
  template <class T> T get() { T v; if (p + sizeof v > e) harness_error("short statistics"); memcpy(&v, p, sizeof v); p += sizeof v; return v; }
  bool more() const { return p < e; }
};

struct C13 : Scenario {
  // batch totals
  Table total;
  std::vector<double> cells = std::vector<double>(kNumExps * kExpCells, 0);
  double pos[13] = {0}, pos_n = 0;
  double cnt_o = 0, cnt_e = 0, cnt_v = 0, ty_o[kNumTypes] = {0}, ty_e[kNumTypes] = {0}, ty_v[kNumTypes] = {0}, ty_s[kNumTypes] = {0}, ty_se[kNumTypes] = {0};
  double dense_o[kDense] = {0}, dense_n = 0, dense_runs = 0, tiny_o = 0, tiny_e = 0, tiny_v = 0;
  uint64_t runs[3] = {0, 0, 0}, samples = 0, blocks = 0, seeds = 0;

  Plan generate(uint64_t seed, int tier, uint64_t index) override {
    Gen g("C13", seed, tier, index);
    g.knobs();
    Fields& c = g.p.cfg;
    for (const char* k : {"stall", "outage", "starve"}) if (g.chance(70)) c.kv.erase(k);
    int mode = g.chance(20) ? 1 : g.chance(30) ? 2 : 0;
    if (mode == 1) { Plan p = twin_plan(g, g.pick({4, 5, 6, 6, 7, 7}), true); return p; }
    if (mode == 2) return experiment(g);
    int pairs = 1;
    g.config(pairs);
    bool vole = g.chance(25);
    if (vole) g.add(0, "vpar").set("vp", g.range(1, 3));
    if (g.chance(30)) { Op& o = g.add(0, "rng"); o.set("n", g.range(1, 400)); o.set("buf", g.range(0, 12)); }
    int n = (int)g.range(2, 8);
    int vty = g.any_type(), vr = (int)g.below(2);
    for (int k = 0; k < n; k++) {
      if (k && g.chance(25)) {    // the same call with the same inputs again
        size_t j = (size_t)g.below((int64_t)g.p.ops.size());
        if (is_value(g.p.ops[j].kind)) { Op o = g.p.ops[j]; g.p.ops.push_back(o); continue; }
      }
      int ty = g.any_type();
      if (is_ntl(ty) && !vole && g.chance(40)) g.mod(0, ty, false);
      if (vole && g.chance(40)) { if (g.chance(30)) g.vpre(0, vty, 0, vr, g.size(300)); else g.vrun(0, vty, 0, vr, g.size(500)); continue; }
      switch (g.below(4)) {
        case 0: g.abo(0, ty, 300); break;
        case 1: g.spf(0, ty, 300).set("vs", style(g)); break;
        case 2: {
          if (is_ntl(ty) && !vole && g.chance(35)) { g.gil_tight(0, ty); g.mod(0, ty, false); break; }
          bool word = false;
          if (is_ntl(ty) && !vole) {
            Op& m = g.mod(0, ty, true);
            if ((word = ty == kzzp && g.chance(60))) m.sets("m", u128s(((u128)1 << 58) + g.r.below(3ull << 58)));   // close to the word size
          }
          Op& o = g.gil(0, ty, 120);
          if (word) o.set("n", g.range(100, 700));
          o.set("xs", style(g));
          o.set("ys", style(g));
          if (is_ntl(ty) && !vole) g.mod(0, ty, false);
          break;
        }
        default: { Op& o = g.mpf(0, ty, 300, 40); o.set("xs", style(g)); o.set("ys", style(g)); }
      }
    }
    return g.done();
  }
  static bool is_value(const std::string& k) { return k == "abo" || k == "spf" || k == "gil" || k == "mpf"; }
  static int64_t style(Gen& g) { return g.pick({1, 1, 2, 3, 3, 4, 5, 0}); }

  Plan experiment(Gen& g) {
    g.config(1);
    Fields& c = g.p.cfg;
    int e = (int)g.below(kNumExps);
    c.set("mode", 2);
    c.set("exp", e);
    c.set("meas", 0);
    c.set("id0", e % 2);
    c.set("id1", 1 - e % 2);
    c.kv.erase("sec");
    g.sec = 40;
    c.sets("m0", "2305843009213693951");
    c.sets("m1", "1000003");
    const Exp& x = kExps[e];
    if (!strcmp(x.kind, "vrun")) g.add(0, "vpar").set("vp", 2);
    int n = !strcmp(x.kind, "vrun") ? 4 : 16;
    for (int i = 0; i < n; i++) {
      int za = (int)g.below(2), zb = (int)g.below(2);   // secrets of the first and second role
      std::string kind = x.kind;
      if (kind == "vrun") {
        Op& pre = g.add(0, "vpre");
        pre.set("ty", x.ty); pre.set("i", 0); pre.set("r", e / 2 % 2); pre.set("n", 120); pre.set("ds", zb ? 3 : 1);
        Op& o = g.add(0, "vrun");
        o.set("ty", x.ty); o.set("i", 0); o.set("r", e / 2 % 2); o.sets("n", x.n); o.set("za", za); o.set("zb", zb);
        continue;
      }
      Op& o = g.add(0, kind);
      o.set("ty", x.ty);
      o.set("r", e / 2 % 2);
      o.set("i", 0);
      o.set("b", 0);
      o.set("za", za);
      o.set("zb", zb);
      if (kind == "abo" || kind == "spf") {
        o.sets("n", x.n);
        std::vector<int64_t> nn = op_list(x.n), px;
        for (int64_t v : nn) px.push_back(zb && v ? v - 1 : 0);
        o.setl("x", px);
        o.set("vs", za ? 3 : 1);
        o.set("vt", zb ? 3 : 1);
      } else if (kind == "gil") {
        o.sets("n", x.n);
        o.set("xs", zb ? 3 : 1);
        o.set("ys", za ? 3 : 1);
      } else {
        o.set("t", x.t);
        o.set("N", x.N);
        o.set("ip", za ? 2 : 1);
        o.set("so", 2);
        o.set("xs", zb ? 3 : 1);
        o.set("ys", za ? 3 : 1);
        o.set("ub", 0);
      }
    }
    return g.done();
  }
  static std::vector<int64_t> op_list(const char* s) { Fields f; f.sets("n", s); return f.list("n"); }

  void execute(const Plan& p) override {
    int mode = (int)p.cfg.i("mode");
    if (mode == 1) { noise(p); return; }
    World w(p, 0);
    std::vector<const Op*> ops;
    for (auto& o : p.ops) ops.push_back(&o);
    int id0 = (int)p.cfg.i("id0", 0), id1 = (int)p.cfg.i("id1", 1);
    w.add_session(0, std::make_unique<Net>(0, 0, id0, id1, p.cfg.i("meas") != 0, 1), ops);
    Session& s = *w.sessions[0];
    s.net->ep[0].record = s.net->ep[1].record = true;
    w.start();
    w.wait();
    NoRace nr;
    RtScope rs;
    if (mode == 2) { views(p, s); return; }
    shares(s);
  }

  // ---- single shares and masked values
  void shares(Session& s) {
    Stats st;
    seeds = 0;
    std::set<u128> blocks_seen;
    std::map<std::string, size_t> first;
    uint64_t nblocks = 0;
    std::map<std::string, bool> scalar_settled;   // given by the caller, or counted already
    for (size_t k = 0; k < s.ops.size(); k++) {
      const Op& op = *s.ops[k];
      const std::string& kd = op.kind;
      int f = op.i("r") ? 1 : 0;
      OpOut &A = s.party[f].out[k], &B = s.party[1 - f].out[k];
      if (A.code || B.code) continue;
      const Ring& r = A.ring;
      bool vole = kd == "vrun" || kd == "vpre";
      if (kd == "rng") for (int side = 0; side < 2; side++) for (auto& v : s.party[side].out[k].vals) st.vec(kRng, Binner(Ring{kU64, 0}), v);
      if (!is_value(kd) && !vole) continue;
      if (is_ntl(r.type) && r.mod < 2) continue;
      Binner b(r), raw(Ring{kU128, 0});
      int ca = -1, cb = -1, cm = kMsgVole;
      if (kd == "abo") { ca = kAbo; cm = kMsgAbo; }
      else if (kd == "spf") { ca = kSpfVP; cb = kSpfIP; cm = kMsgSpf; }
      else if (kd == "gil") { ca = kGilVec; cb = kGilVal; cm = kMsgGil; }
      else if (kd == "mpf") { ca = kMpfIP; cb = kMpfVP; cm = kMsgMpf; }
      for (int side = 0; side < 2 && !vole; side++) {
        OpOut& o = side ? B : A;
        int cat = side ? cb : ca;
        if (cat < 0) continue;
        for (auto& v : o.vals) st.vec(cat, b, v);
        std::vector<u128> sp;
        if (kd == "spf") {
          auto x = op_indices(op);
          for (size_t i = 0; i < x.size() && i < o.vals.size(); i++) if (x[i] < (int64_t)o.vals[i].size()) sp.push_back(o.vals[i][x[i]]);
        } else if (kd == "mpf" && !o.vals.empty()) {
          for (int64_t x : mp_indices(op)) if (x < (int64_t)o.vals[0].size()) sp.push_back(o.vals[0][x]);
        }
        st.add(cat, kSpecial, b, sp.data(), sp.size());
      }
      if (vole) {
        bool& settled = scalar_settled[vole_slot(op)];
        if (kd == "vpre") settled = op.i("ds", -1) >= 0;
        else if (!settled) {
          settled = true;
          st.add(kScalar, kAll, b, &B.scalar, 1);
        }
      }
      if (kd == "vrun" && A.vals.size() == 2 && B.vals.size() == 1 && (!is_ntl(r.type) || r.mod >= 256)) {
        // elements are combinations of a small seed: pairwise independent, top bins only
        size_t n = std::min<size_t>(64, A.vals[0].size());
        st.add(kVoleU, kAll, b, A.vals[0].data(), n, false);
        st.add(kVoleV, kAll, b, A.vals[1].data(), n, false);
        st.add(kVoleW, kAll, b, B.vals[0].data(), std::min<size_t>(n, B.vals[0].size()), false);
      }
      for (OpOut* o : {&A, &B}) st.add(cm, kAll, b, o->got_msg.data(), o->got_msg.size(), !vole);
      // equal calls: nothing of the first may be reused in the second
      if (!vole) {
        Op same = op;
        same.kv.erase("i");
        std::string t = op_text(same);
        auto it = first.find(t);
        if (it == first.end()) first[t] = k;
        else if (s.party[f].out[it->second].ring.mod == r.mod) {
          for (int side = 0; side < 2; side++) {
            int cat = side ? cb : ca;
            if (cat < 0) continue;
            int ps = side ? 1 - f : f;
            OpOut &o1 = s.party[ps].out[it->second], &o2 = s.party[ps].out[k];
            std::vector<u128> d;
            for (size_t i = 0; i < o1.vals.size() && i < o2.vals.size(); i++)
              for (size_t j = 0; j < o1.vals[i].size() && j < o2.vals[i].size(); j++) d.push_back(r.sub(o2.vals[i][j], o1.vals[i][j]));
            st.add(cat, kRep, b, d.data(), d.size());
          }
        }
      }
      if (vole && A.put_ot.size() && B.got_first) first_seeds(st, b, A, B);
      // blocks obtained through OT
      if (kd == "gil" && B.got_ot.size()) {
        int bytes = is_ntl(r.type) ? (int)((bits_of(r.mod - 1) + 7) / 8) : type_bits(r.type) / 8;
        if (bytes < 1) bytes = 1;
        int64_t n = op.i("n"), stride = 16 / bytes, width = 8 * bytes;
        if ((int64_t)B.got_ot.size() == width * ((n + stride - 1) / stride)) {
          std::vector<u128> v;
          for (int64_t i = 0; i < n; i += stride)
            for (int64_t j = 0; j < width; j++) {
              u128 blk = B.got_ot[(size_t)((i / stride) * width + j)];
              for (int64_t e = 0; e < stride && i + e < n; e++) {
                u128 x = blk >> (8 * bytes * e);
                if (bytes < 16) x &= (((u128)1 << (8 * bytes)) - 1);
                if (is_ntl(r.type)) x %= r.mod;
                v.push_back(x);
              }
              if (i + stride <= n && r.bits() * (double)stride >= 100) {
                nblocks++;
                if (!blocks_seen.insert(blk).second) violation("mask_reused", "a masked value of a product repeats an earlier one: the mask was used twice (op " + std::to_string(k) + ": " + op_text(op) + ")");
              }
            }
          st.add(kOtGil, kAll, b, v.data(), v.size());
          // The masks themselves, where they are drawn and not hashed.
          if (A.cots1 == A.cots0 && A.put_ot.size() == 2 * B.got_ot.size()) {
            std::vector<u128> mask;
            for (int64_t i = 0; i < n; i += stride)
              for (int64_t j = 0; j < width; j++) {
                u128 blk = A.put_ot[(size_t)(2 * ((i / stride) * width + j))];
                for (int64_t e = 0; e < stride && i + e < n; e++) {
                  u128 x = blk >> (8 * bytes * e);
                  if (bytes < 16) x &= (((u128)1 << (8 * bytes)) - 1);
                  mask.push_back(x);
                }
              }
            st.add(kMaskGil, kAll, b, mask.data(), mask.size());
          }
          if (is_ntl(r.type) && r.mod >> (8 * bytes - 1)) st.add(kOtGil, kSpecial, b, v.data(), v.size());
        }
      }
      if (kd == "abo" || kd == "spf" || kd == "mpf") {
        for (OpOut* o : {&A, &B}) {
          st.add(kOtAbo, kAll, raw, o->got_ot.data(), o->got_ot.size());
          for (u128 v : o->got_ot) {
            nblocks++;
            if (!blocks_seen.insert(v).second) violation("mask_reused", "a random block obtained in an OT repeats an earlier one (op " + std::to_string(k) + ": " + op_text(op) + ")");
          }
        }
      }
    }
    Blob out;
    out.put<uint32_t>(0);
    out.put<uint64_t>(nblocks);
    out.put<uint64_t>(seeds);
    put_table(out, st.t);
    flush(out);
  }
  // The sender of a vector OLE masks what it sends with seeds of its own, drawn
  // in its precomputation. They never leave it, but they follow from what it
  // puts into the OTs and what it sends: u from the difference of a pair, v from
  // the message that opens the receiver's share.
  void first_seeds(Stats& st, const Binner& b, const OpOut& A, const OpOut& B) {
    const Ring& r = A.ring;
    int bytes = is_ntl(r.type) ? (int)((bits_of(r.mod - 1) + 7) / 8) : type_bits(r.type) / 8;
    if (bytes < 1) bytes = 1;
    int64_t n = (int64_t)B.got_first, stride = 16 / bytes, width = 8 * bytes;
    if ((int64_t)A.put_ot.size() < 2 * width * ((n + stride - 1) / stride)) return;
    MulBy twice(r, is_ntl(r.type) ? 2 % r.mod : 2);
    std::vector<u128> u(n), v(n), d(n);
    for (int64_t i = 0; i < n; i++) {
      u128 prev = 0, sum = 0;
      for (int64_t j = 0; j < width; j++) {
        size_t at = (size_t)(2 * ((i / stride) * width + j));
        u128 m[2];
        for (int c = 0; c < 2; c++) {
          m[c] = A.put_ot[at + c] >> (8 * bytes * (i % stride));
          if (bytes < 16) m[c] &= (((u128)1 << (8 * bytes)) - 1);
          if (is_ntl(r.type)) m[c] %= r.mod;
        }
        u128 diff = r.sub(m[1], m[0]);
        if (j == 0) u[i] = diff;
        else if (diff != twice(prev)) return;   // the product is computed in another way
        prev = diff;
        sum = r.add(sum, m[0]);
      }
      v[i] = r.add(B.got_msg[i], sum);
      d[i] = r.sub(v[i], u[i]);
    }
    st.vec(kSeedU, b, u);
    st.vec(kSeedV, b, v);
    st.vec(kSeedUV, b, d);
    seeds += (uint64_t)n;
  }
  static int bits_of(u128 v) { int n = 0; while (v) { n++; v >>= 1; } return n; }
  static void put_table(Blob& out, const Table& t) {
    out.put<uint32_t>((uint32_t)t.size());
    for (auto& c : t) { out.put<uint16_t>(c.first); out.put(c.second); }
  }
  static void flush(Blob& o) {
    if (o.b.size() > sizeof g_res->extra) harness_error("statistics do not fit");
    memcpy(g_res->extra, o.b.data(), o.b.size());
    g_res->extra_len = (uint32_t)o.b.size();
  }

  // ---- views of the two choices of secrets
  void views(const Plan& p, Session& s) {
    std::vector<uint16_t> c(kExpCells, 0);
    auto hit = [&](int side, int pos, int z, int byte) {
      size_t base = (((size_t)side * kViewLen + pos) * 32) * 2;
      c[base + (size_t)(byte >> 4) * 2 + z]++;
      c[base + (size_t)(16 + (byte & 15)) * 2 + z]++;
    };
    int v = kViewHead + kViewTail + kViewOT;
    for (size_t k = 0; k < s.ops.size(); k++) {
      const Op& op = *s.ops[k];
      if (!op.has("za")) continue;
      for (int side = 0; side < 2; side++) {
        // classified by the other party's secret
        int z = (int)op.i(side == (op.i("r") ? 1 : 0) ? "zb" : "za") & 1;
        OpOut& o = s.party[side].out[k];
        if (o.code || o.view.empty()) continue;
        // the first call also sets up the instance: only count what repeats
        bool cold = k < 2;
        if (cold) continue;
        if (op.kind == "vpre") continue;
        for (int i = 0; i < v; i++) hit(side, i, z, o.view[i]);
        hit(side, v, z, (int)(o.view_plain & 255));
        hit(side, v + 1, z, (int)((o.view_plain >> 8) & 255));
        hit(side, v + 2, z, (int)((o.view_ot / 16) & 255));
        hit(side, v + 3, z, (int)(o.view_msgs & 255));
      }
    }
    Blob out;
    out.put<uint32_t>(2);
    out.put<uint32_t>((uint32_t)p.cfg.i("exp"));
    for (uint16_t x : c) out.put(x);
    flush(out);
  }

  // ---- noise of an expansion
  void noise(const Plan& p) {
    TwinOut tw = twin_run(p);
    if (!tw.ok) return;
    NoRace nr;
    RtScope rs;
    Blob out;
    out.put<uint32_t>(1);
    int prof = 0;
    for (auto& o : p.ops) if (o.kind == "vpar") prof = (int)o.i("vp");
    const bool dense = prof == 7;
    size_t n = tw.u[0].size(), win = dense ? kDense : 1300;
    if (n < win) return;
    size_t d = 0;
    for (size_t j = 0; j < win; j++) d += tw.u[0][j] != tw.u[1][j];
    if (d * 2 > win) return;    // nothing of the old batch in front: not comparable
    double h[13] = {0}, hits = 0;
    uint8_t at[kDense] = {0};
    std::vector<u128> vals, of[3];
    for (size_t j = 0; j < win; j++)
      for (int a = 0; a < 3; a++) {
        int b = (a + 1) % 3, c = (a + 2) % 3;
        if (tw.u[b][j] == tw.u[c][j] && tw.u[a][j] != tw.u[b][j]) { if (dense) at[j]++; else h[j / 100]++; hits++; vals.push_back(tw.ring.sub(tw.u[a][j], tw.u[b][j])); of[a].push_back(vals.back()); }
      }
    // Values drawn with different randomness coincide by chance only.
    double same = 0, same_e = 0;
    for (int a = 0; a < 3; a++) {
      const auto &x = of[a], &y = of[(a + 1) % 3];
      std::map<u128, int> cnt;
      for (u128 q : x) cnt[q]++;
      for (u128 q : y) { auto it = cnt.find(q); if (it != cnt.end()) same += it->second; }
      same_e += (double)x.size() * (double)y.size() / (pow(2.0, tw.ring.bits()) - 1);
    }
    if (tw.ring.bits() > 50 && same > 0) violation("noise_not_fresh", "noise values of an expansion do not depend on the randomness drawn for it: " + std::to_string((int)same) + " equal values in twin runs with different randomness");
    if (tw.ring.bits() < 6) same = same_e = 0;
    Stats st;
    st.add(kNoiseVal, kAll, Binner(tw.ring, true), vals.data(), vals.size());
    for (double x : h) out.put(x);
    double e = 0, v = 0;
    if (prof >= 4 && vole_scaled(prof)) {
      double t = dense ? 40 : prof == 6 ? 30 : prof == 5 ? 21 : 20, seed = prof == 6 ? 60 : 40, top = dense ? 600 : prof == 6 ? 2600 : 2000, want = 1500;
      for (auto& o : p.ops) if (o.kind == "vpre") want = (double)o.i("n");
      double B = (double)optimal_buckets((int64_t)t, p.cfg.f("sec", 40) + log2(3) + 1);
      double L = std::min(want, top - seed - B) + seed + B;
      if (B > 0) {
        // Noise of value zero cannot be seen; two equal noise values cancel out.
        double R = pow(2.0, tw.ring.bits()), p1 = t / L * (1 - 1 / R);
        double hit = p1 * (1 - p1) * (1 - p1) + p1 * p1 / (R - 1) * (1 - p1 / (R - 1));
        e = 3 * (double)win * hit;
        v = e * (1 - e / (3 * t));
      }
    }
    out.put<uint32_t>((uint32_t)tw.ring.type);
    out.put<uint8_t>(dense);
    out.put<uint8_t>(tw.ring.bits() < 6);
    out.put(at);
    out.put(same);
    out.put(same_e);
    out.put(e > 0 ? hits : 0.0);
    out.put(e);
    out.put(v);
    put_table(out, st.t);
    flush(out);
  }

  // ---- batch
  bool aggregate(const Result& r, const Plan& p) override {
    if (r.extra_len < 4 || (Outcome)r.outcome != Outcome::kOk) return false;
    BlobReader b{r.extra, r.extra + r.extra_len};
    uint32_t kind = b.get<uint32_t>();
    if (kind > 2) return false;
    runs[kind]++;
    if (kind == 0) { blocks += b.get<uint64_t>(); seeds += b.get<uint64_t>(); }
    if (kind == 2) {
      uint32_t e = b.get<uint32_t>();
      for (size_t i = 0; i < kExpCells; i++) cells[e * kExpCells + i] += b.get<uint16_t>();
      return true;
    }
    if (kind == 1) {
      for (double& x : pos) { double v = b.get<double>(); x += v; pos_n += v; }
      uint32_t ty = b.get<uint32_t>() % kNumTypes;
      bool dense = b.get<uint8_t>(), tiny = b.get<uint8_t>();
      for (size_t i = 0; i < kDense; i++) { double v = b.get<uint8_t>(); dense_o[i] += v; dense_n += v; }
      dense_runs += dense;
      ty_s[ty] += b.get<double>();
      ty_se[ty] += b.get<double>();
      double o = b.get<double>(), ex = b.get<double>(), va = b.get<double>();
      cnt_o += o; cnt_e += ex; cnt_v += va;
      ty_o[ty] += o; ty_e[ty] += ex; ty_v[ty] += va;
      if (tiny) { tiny_o += o; tiny_e += ex; tiny_v += va; }
    }
    uint32_t n = b.get<uint32_t>();
    for (uint32_t i = 0; i < n; i++) {
      uint16_t k = b.get<uint16_t>();
      Cell c = b.get<Cell>(), &t = total[k];
      t.n += c.n;
      samples += (uint64_t)c.n;
      for (int j = 0; j < kBins; j++) { t.o[j] += c.o[j]; t.e[j] += c.e[j]; t.v[j] += c.v[j]; }
    }
    return true;
  }
  double worst = 0;
  std::string worst_at;
  static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.0f", x); return b; }
  std::string batch_verdict(std::string* cls) override {
    worst = 0;
    double most = 0;
    std::string msg;
    auto see = [&](double o, double e, double v, const char* c, const std::string& m) {
      double lim = 8 * sqrt(v) + 30, x = fabs(o - e) / lim;
      if (x > worst) { worst = x; worst_at = m; }
      if (x > 1 && x > most) { most = x; *cls = c; msg = m + ": " + num(o) + " observed, " + num(e) + " expected of a uniform distribution (tolerance " + num(lim) + ")"; }
    };
    for (auto& t : total) {
      int c = t.first % kCls, sub = t.first / kCls % kSubs, cat = t.first / kCls / kSubs;
      for (int j = 0; j < kBins; j++)
        see(t.second.o[j], t.second.e[j], t.second.v[j], "not_uniform",
            std::string(kCatNames[cat]) + kSubNames[sub] + ", " + kClsNames[c] + ", " + (j < 16 ? "magnitude bin " + std::to_string(j) : j < 32 ? "residue " + std::to_string(j % 16) : "values more frequent when " + std::string(j == 32 ? "whole bytes" : "64 bits") + " are reduced") + " (of " + num(t.second.n) + " elements)");
    }
    for (int j = 0; j < 13; j++)
      see(pos[j], pos_n / 13, pos_n / 13 * (12.0 / 13), "noise_not_uniform", "noise positions between " + std::to_string(100 * j) + " and " + std::to_string(100 * j + 99));
    // Single positions: binomial tails, Chernoff's bound.
    if (dense_runs > 0 && dense_n > 0) {
      double q = dense_n / (double)kDense / dense_runs;
      for (size_t j = 0; j < kDense && q < 1; j++) {
        double f = dense_o[j] / dense_runs, kl = 0;
        if (f > 0) kl += f * log(f / q);
        if (f < 1) kl += (1 - f) * log((1 - f) / (1 - q));
        double x = dense_runs * kl / 38;       // e^-38 < 10^-16
        if (x > worst) { worst = x; worst_at = "noise at position " + std::to_string(j); }
        if (x > 1 && x > most) {
          most = x;
          *cls = "noise_not_uniform";
          msg = "noise met position " + std::to_string(j) + " of an expansion " + num(dense_o[j]) + " times in " + num(dense_runs) + " runs, other positions " + num(q * dense_runs) + " times on average";
        }
      }
    }
    if (tiny_e > 0) see(tiny_o, tiny_e, tiny_v, "noise_missing", "noise positions per expansion over rings of a few elements, summed over the batch");
    if (cnt_e > 0) see(cnt_o, cnt_e, cnt_v, "noise_missing", "noise positions per expansion, summed over the batch");
    for (int j = 0; j < kNumTypes; j++) see(ty_s[j], ty_se[j], ty_se[j], "noise_not_fresh", std::string("equal noise values in twin runs with different randomness over ") + kTypeNames[j]);
    for (int j = 0; j < kNumTypes; j++)
      if (ty_e[j] > 0) see(ty_o[j], ty_e[j], ty_v[j], "noise_missing", std::string("noise positions per expansion over ") + kTypeNames[j] + ", summed over the batch");
    for (int e = 0; e < kNumExps; e++)
      for (int side = 0; side < 2; side++)
        for (int pos2 = 0; pos2 < kViewLen; pos2++) {
          const double* q = &cells[e * kExpCells + (((size_t)side * kViewLen + pos2) * 32) * 2];
          double n0 = 0, n1 = 0;
          for (int j = 0; j < 16; j++) { n0 += q[2 * j]; n1 += q[2 * j + 1]; }
          if (n0 < 30 || n1 < 30) continue;
          for (int j = 0; j < 32; j++) {
            double p = (q[2 * j] + q[2 * j + 1]) / (n0 + n1), diff = fabs(q[2 * j] / n0 - q[2 * j + 1] / n1);
            double lim = 8 * sqrt(p * (1 - p) * (1 / n0 + 1 / n1)) + 5 * (1 / n0 + 1 / n1);
            if (diff / lim > worst) { worst = diff / lim; worst_at = std::string("experiment ") + std::to_string(e) + " side " + std::to_string(side) + " pos " + std::to_string(pos2) + " bin " + std::to_string(j) + " " + num(q[2 * j]) + "/" + num(n0) + " " + num(q[2 * j + 1]) + "/" + num(n1); }
            if (diff > lim && diff / lim > most) {
              most = diff / lim;
              *cls = "input_dependent";
              int vh = kViewHead, vt = vh + kViewTail, vo = vt + kViewOT;
              std::string what = pos2 < vh ? "byte " + std::to_string(pos2) + " from the start of what it was sent" : pos2 < vt ? "byte " + std::to_string(pos2 - vh) + " from the end of what it was sent"
                                 : pos2 < vo ? "byte " + std::to_string(pos2 - vt) + " of what it obtained through OT" : pos2 < vo + 2 ? "the number of bytes it was sent" : pos2 == vo + 2 ? "the number of OTs" : "the number of messages";
              msg = std::string("what a party is sent depends on the inputs: ") + kExps[e].kind + " over " + kTypeNames[kExps[e].ty] + ", size " + (kExps[e].N ? std::to_string(kExps[e].N) : kExps[e].n) + ", party " + std::to_string(side) + ", " + what +
                    ": a value of frequency " + std::to_string(q[2 * j] / n0) + " with one choice of secrets has " + std::to_string(q[2 * j + 1] / n1) + " with the other";
            }
          }
        }
    return msg;
  }
  std::string describe() override {
    double exp_ops = 0;
    for (int e = 0; e < kNumExps; e++) for (int j = 0; j < 16; j++) exp_ops += cells[e * kExpCells + 2 * j] + cells[e * kExpCells + 2 * j + 1];
    return "runs with shares/noise/secrets experiments: " + std::to_string(runs[0]) + "/" + std::to_string(runs[1]) + "/" + std::to_string(runs[2]) + "; " + std::to_string(samples) + " sampled elements in " +
           std::to_string(total.size()) + " histograms of 34 bins; " + std::to_string(blocks) + " OT blocks compared; " + std::to_string(seeds) + " first seeds; " + num(pos_n) + " noise positions, " + num(cnt_o) + " counted of " + num(cnt_e) + " expected; " + num(exp_ops) +
           " calls with one of two choices of secrets; largest deviation " + std::to_string(worst) + " of its tolerance (8 sigma + 30 elements) in " + worst_at;
  }
};

struct Reg {
  Reg() { register_scenario("C13", new C13()); }
} reg_;
}  // namespace
}  // namespace sim
