// Two-party sessions: scripts, checks after every operation, worlds of several
// concurrent sessions.
#include <omp.h>

#include <algorithm>
#include <sstream>
#include <new>

#include "core/alloc.h"
#include "work/driver.h"

namespace sim {
void omp_release_pool();
void omp_release() { omp_release_pool(); }

Oracle g_oracle;

std::string op_text(const Op& op) {
  std::string s = op.kind;
  for (auto& x : op.kv) s += " " + x.first + "=" + x.second;
  return s;
}

Ring Party::ring(int type) const {
  if (type == kZZp) return ring_ntl[0];
  if (type == kzzp) return ring_ntl[1];
  return Ring{type, 0};
}

std::vector<int64_t> op_sizes(const Op& op) { return op.list("n"); }
std::vector<int64_t> op_indices(const Op& op) {
  auto n = op_sizes(op);
  auto x = op.list("x");
  std::vector<int64_t> r(n.size(), 0);
  for (size_t i = 0; i < n.size(); i++) {
    int64_t v = i < x.size() ? x[i] : 0;
    r[i] = n[i] <= 0 ? 0 : ((v % n[i]) + n[i]) % n[i];
  }
  return r;
}
std::vector<int64_t> mp_indices(const Op& op) {
  int64_t N = op.i("N"), t = std::min(op.i("t"), N);
  Rng g(op_seed(op, 41));
  std::set<int64_t> s;
  switch (op.i("ip")) {
    case 1: for (int64_t i = 0; i < t; i++) s.insert(i); break;
    case 2: for (int64_t i = 0; i < t; i++) s.insert(N - 1 - i); break;
    case 3: s.insert(0); if ((int64_t)s.size() < t) s.insert(N - 1); break;
    case 4: for (int64_t i = 0; i < t; i++) s.insert((int64_t)((__int128)i * N / t)); break;
    case 5: { int64_t b = (int64_t)g.below(N - t + 1); for (int64_t i = 0; i < t; i++) s.insert(b + i); break; }
    default: break;
  }
  if (t * 2 > N) {   // dense: choose the complement
    std::vector<int64_t> all;
    for (int64_t i = 0; i < N; i++) if (!s.count(i)) all.push_back(i);
    for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[g.below(i)]);
    for (size_t i = 0; (int64_t)s.size() < t; i++) s.insert(all[i]);
  }
  while ((int64_t)s.size() < t) s.insert((int64_t)g.below(N));
  std::vector<int64_t> v(s.begin(), s.end());
  if (op.i("so") == 1) std::reverse(v.begin(), v.end());
  else if (op.i("so") == 0) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.below(i)]);
  return v;
}

static NTL::ZZ zz_of(u128 v) { unsigned char b[16]; memcpy(b, &v, 16); return NTL::ZZFromBytes(b, 16); }
void set_modulus(int type, u128 mod) {
  if (type == kZZp) NTL::ZZ_p::init(zz_of(mod));
  else if (type == kzzp) NTL::zz_p::init((long)mod);
}
void set_modulus_wide(const std::string& dec) { NTL::ZZ m = NTL::conv<NTL::ZZ>(dec.c_str()); NTL::ZZ_p::init(m); }
static std::string modulus_text(int type) {
  std::ostringstream o;
  if (type == kZZp) o << NTL::ZZ_p::modulus();
  else o << NTL::zz_p::modulus();
  return o.str();
}

static const int kCodeInvalid = (int)mpc_utils::InvalidArgumentError("").code();

static const char* op_type_key(const Op& op) { (void)op; return "ty"; }
static int op_type(const Op& op) { return (int)op.i(op_type_key(op), kU64); }
static bool is_vole(const std::string& k) { return k == "vpre" || k == "vrun" || k == "vnew" || k == "vbad"; }

static uint8_t user_byte(const Op& op, int64_t i) { return (uint8_t)mix2(op_seed(op, 77), i); }

static void exec_plain(Party& p, const Op& op, OpOut& out);

// The modulus a call is made with may belong to the operation itself: it is
// installed for this call only.
void exec_op(Party& p, const Op& op, OpOut& out) {
  if (!op.has("um") && !op.has("uwide")) { exec_plain(p, op, out); return; }
  u128 old = p.ring_ntl[0].mod;
  std::string m0, m1;
  {
    NoRace nr;
    if (op.has("uwide")) { set_modulus_wide(op.s("uwide")); p.ring_ntl[0].mod = 0; }
    else { set_modulus(kZZp, parse_u128(op.s("um"))); p.ring_ntl[0].mod = parse_u128(op.s("um")); }
    m0 = modulus_text(kZZp);
  }
  exec_plain(p, op, out);
  NoRace nr;
  m1 = modulus_text(kZZp);
  if (g_oracle.modulus && m0 != m1) violation("modulus_changed", "party " + std::to_string(p.side) + " finds another modulus installed than it had set; " + op_text(op));
  set_modulus(kZZp, old);
  p.ring_ntl[0].mod = old;
}

static void exec_plain(Party& p, const Op& op, OpOut& out) {
  const std::string& k = op.kind;
  if (k == "mod") {       // caller installs another modulus
    int ty = op_type(op);
    NoRace nr;
    set_modulus(ty, parse_u128(op.s("m")));
    p.ring_ntl[ty == kzzp].mod = parse_u128(op.s("m"));
    return;
  }
  if (k == "nt") {        // caller changes its number of threads
    omp_set_num_threads((int)std::max<int64_t>(1, op.i(p.side ? "b" : "a", 1)));
    return;
  }
  if (k == "salt") {      // replaces one party's source of randomness (twin runs)
    if (op.i("r") == p.side && p.s->twin) { NoRace nr; set_rand_salt(p.s->pair, p.side, p.s->twin); seed_ntl_for(self()); }
    return;
  }
  if (k == "drop") {      // caller destroys an instance
    p.inst.erase(op.s("key"));
    return;
  }
  if (k == "msg") {       // the application's own traffic on the same channel
    int64_t n = op.i("n");
    if (op.i("r") == p.side) {
      std::vector<uint8_t> b(n);
      for (int64_t i = 0; i < n; i++) b[i] = user_byte(op, i);
      chan(p)->send(b);
      if (op.i("f", 1)) chan(p)->flush();
    } else {
      std::vector<uint8_t> b;
      chan(p)->recv(b);
      bool ok = (int64_t)b.size() == n;
      for (int64_t i = 0; ok && i < n; i++) ok = b[i] == user_byte(op, i);
      if (!ok) violation("desync", "application message between protocol runs arrived altered (" + op_text(op) + ")");
    }
    return;
  }
  if (k == "hash") { exec_hash(p, op, out); return; }
  if (k == "rng") { exec_rng(p, op, out); return; }
  if (k == "gen" || k == "gpar" || k == "tree" || k == "tpar") { exec_prim(p, op, out); return; }
  if (k == "vpar") return;   // done before the sessions start
  TypeDriver* d = is_vole(k) ? vole_driver(op_type(op)) : driver(op_type(op));
  if (!d || !d->exec(p, op, out)) harness_error("unknown operation: " + op_text(op));
}

// ------------------------------------------------------------------ checks
static std::string where(Session& s, size_t k) {
  return "session " + std::to_string(s.pair) + ", op " + std::to_string(k) + " (" + op_text(*s.ops[k]) + ")";
}
static std::string ring_text(const Ring& r) {
  return is_ntl(r.type) ? std::string(kTypeNames[r.type]) + " mod " + u128s(r.mod) : kTypeNames[r.type];
}
[[noreturn]] static void bad_share(Session& s, size_t k, const std::string& m) { violation("wrong_shares", m + "; " + where(s, k)); }

// Masked elements: whatever is sent under fresh masks cannot repeat.
static void note_sent(Session& s, const Ring& r, const std::vector<u128>& v, const std::string& what, std::map<u128, std::string> World::*in, const char* kind) {
  if (!g_oracle.fresh || r.bits() < 90) return;
  for (size_t i = 0; i < v.size(); i++) {
    auto ins = (s.w->*in).emplace(v[i], what + "[" + std::to_string(i) + "]");
    if (!ins.second)
      violation("not_fresh", std::string(kind) + " " + what + "[" + std::to_string(i) + "] = " + u128s(v[i]) + " repeats " + ins.first->second + " (session " + std::to_string(s.pair) + ")");
  }
}
void note_fresh(Session& s, const Ring& r, const std::vector<u128>& v, const std::string& what) {
  if (!g_oracle.fresh || r.bits() < 90) return;
  for (size_t i = 0; i < v.size(); i++) {
    auto ins = s.w->seen.emplace(v[i], what + "[" + std::to_string(i) + "]");
    if (!ins.second)
      violation("not_fresh", "element " + what + "[" + std::to_string(i) + "] = " + u128s(v[i]) + " repeats " + ins.first->second + " (session " + std::to_string(s.pair) + ")");
  }
  stat(kStValues, v.size());
}

static void need_sizes(Session& s, size_t k, const std::vector<std::vector<u128>>& v, const std::vector<int64_t>& n, const char* who) {
  if (v.size() != n.size()) bad_share(s, k, std::string("wrong number of outputs of ") + who);
  for (size_t i = 0; i < n.size(); i++)
    if ((int64_t)v[i].size() != n[i]) bad_share(s, k, std::string("output of ") + who + " has " + std::to_string(v[i].size()) + " elements, expected " + std::to_string(n[i]));
}

// Does any 16-byte window at the wire's granularity equal v?
static bool bytes_contain(const std::vector<uint8_t>& b, u128 v) {
  if (b.size() < 16) return false;
  for (size_t i = 0; i + 16 <= b.size(); i++) {
    u128 w;
    memcpy(&w, b.data() + i, 16);
    if (w == v) return true;
  }
  return false;
}

std::string vole_slot(const Op& op) {
  return op.s("i", "0") + "." + op.s("sec") + "." + std::to_string(op_type(op)) + "." + std::to_string(op.i("r") ? 1 : 0);
}

// Every expansion yields a batch of new elements, and none beyond it: what it
// produces on top of that is needed to start the next one. Elements handed out
// without an expansion having been run for them are therefore not fresh. The
// cost of an expansion is what the cheapest one cost; one expansion of slack.
static void count_batch(Session& s, const Op& op, SlotState& st, int64_t batch) {
  double sec = op.has("sec") ? op.f("sec", 40) : s.sec;
  st.batch = std::max<int64_t>(1, batch);
  st.counted = g_oracle.fresh && batch > 0 && batch <= vole_max_batch(sec);
  st.taken = st.expansions = 0;
  st.bytes = st.least = 0;
}
static void count_taken(Session& s, size_t k, SlotState& st, int64_t n, double bytes, bool first_use) {
  if (!st.counted) return;
  int64_t before = (st.taken + st.batch - 1) / st.batch;
  st.taken += n;
  int64_t need = (st.taken + st.batch - 1) / st.batch - before;
  if (first_use) return;             // traffic of the precomputation included
  st.expansions += need;
  st.bytes += bytes;
  if (need > 0 && bytes > 0) { double c = bytes / (double)need; st.least = st.least > 0 ? std::min(st.least, c) : c; }
  if (st.least > 0 && st.expansions > 2 && st.bytes < 0.98 * st.least * (double)(st.expansions - 1))
    violation("not_fresh", "the vector OLE handed out " + std::to_string(st.taken) + " elements in batches of " + std::to_string(st.batch) + " with the traffic of no more than " + std::to_string(st.bytes / st.least) +
              " of the " + std::to_string(st.expansions) + " expansions these elements take: some of them belong to the seeds of later ones; " + where(s, k));
  if (st.expansions > 2) probe(5);
}

// Correlated OT takes its masks from a hash, cut to whole bytes. With 2^bits =
// q*m + r, a mask modulo m deviates from uniform by r/2^bits * (m-r)/m, all
// masks of a call together by that much each; what a party is sent may deviate
// by 2^-security.
static void check_masks(Session& s, size_t k) {
  const Op& op = *s.ops[k];
  OpOut& o = s.party[0].out[k];
  double cots = (double)(o.cots1 - o.cots0);
  if (!is_ntl(op_type(op)) || cots == 0 || (op.kind != "gil" && op.kind != "vpre" && op.kind != "vrun")) return;
  u128 m = o.ring.mod;
  if (m < 2) return;
  int bytes = 0;
  for (u128 v = m - 1; v; v >>= 8) bytes++;
  int bits = 8 * bytes;
  u128 top = bits == 128 ? ~(u128)0 : ((u128)1 << bits) - 1, rem = (top % m + 1) % m;
  double eps = (double)rem / exp2(bits) * ((double)(m - rem) / (double)m);
  double masks = cots * (16 / bytes) * 0.9;
  if (op.kind == "gil") masks = (double)op.i("n") * bits;
  else if (cots < 64 * bits) return;
  double sec = op.has("sec") ? op.f("sec", 40) : s.sec;
  probe(6);
  if (eps * masks * exp2(sec) >= 1.5)
    violation("masks_not_uniform", "masks modulo " + u128s(m) + " were taken from " + std::to_string(bits) + " hashed bits: " + std::to_string((int64_t)masks) + " of them deviate from uniform by 2^" + std::to_string(log2(eps * masks)) +
              " together, more than 2^-" + std::to_string((int)sec) + "; " + where(s, k));
}

static void check_values(Session& s, size_t k) {
  const Op& op = *s.ops[k];
  const std::string& kind = op.kind;
  int ty = op_type(op);
  int first = op.i("r") ? 1 : 0;                     // side of the first role
  OpOut& A = s.party[first].out[k];
  OpOut& B = s.party[1 - first].out[k];
  const Ring& r = A.ring;
  std::string tag = kind + "#" + std::to_string(k) + "/s" + std::to_string(s.pair);
  if (kind == "spf" || kind == "vrun" || kind == "vpre")
    for (OpOut* o : {&A, &B}) note_sent(s, r, o->got_msg, tag + (o == &A ? ".to_first" : ".to_second"), &World::sent, "masked element");
  if (kind == "spf" || kind == "vrun" || kind == "vpre" || kind == "abo")
    for (OpOut* o : {&A, &B}) note_sent(s, r, o->got_diff, tag + (o == &A ? ".to_first" : ".to_second"), &World::apart, "difference of neighbouring masked elements");
  if (kind == "abo" && B.view_plain >= 32 && B.view_plain <= 64) {     // nothing but blocks
    std::vector<u128> d;
    for (size_t i = 0; i + 1 < B.got_plain.size(); i++)
      for (u128 x : {B.got_plain[i + 1] - B.got_plain[i], B.got_plain[i + 1] ^ B.got_plain[i]}) if (d.empty() || d.back() != x) d.push_back(x);
    note_sent(s, Ring{kU128, 0}, d, tag + ".blocks", &World::apart, "difference of neighbouring blocks");
  }
  if (kind == "abo") {
    auto n = op_sizes(op);
    auto x = op_indices(op);
    need_sizes(s, k, A.vals, n, "the sender");
    need_sizes(s, k, B.vals, n, "the receiver");
    for (size_t i = 0; i < n.size(); i++) {
      for (int64_t j = 0; j < n[i]; j++)
        if (j != x[i] && A.vals[i][j] != B.vals[i][j])
          bad_share(s, k, "all-but-one OT " + std::to_string(i) + ": position " + std::to_string(j) + " differs (sender " + u128s(A.vals[i][j]) + ", receiver " + u128s(B.vals[i][j]) + ", withheld " + std::to_string(x[i]) + ", " + ring_text(r) + ")");
      stat(kStValues, n[i]);
      if (n[i] > 0 && r.bits() >= 60 && A.vals[i][x[i]] == B.vals[i][x[i]])
        violation("withheld_obtained", "the receiver obtained the withheld element " + std::to_string(x[i]) + " of OT " + std::to_string(i) + "; " + where(s, k));
      if (n[i] > 0 && r.bits() > 120 && s.party[1 - first].ep->record) {
        u128 w = A.vals[i][x[i]];
        Endpoint* e = s.party[1 - first].ep;
        if (bytes_contain(e->seen_plain, w) || bytes_contain(e->seen_ot, w))
          violation("withheld_obtained", "the withheld element " + std::to_string(x[i]) + " of OT " + std::to_string(i) + " is among the bytes the receiver was sent; " + where(s, k));
        for (auto& o : B.vals)
          for (u128 v : o)
            if (v == w) violation("withheld_obtained", "the withheld element " + std::to_string(x[i]) + " of OT " + std::to_string(i) + " is among the receiver's outputs; " + where(s, k));
      }
      note_fresh(s, r, A.vals[i], tag + ".out" + std::to_string(i));
    }
    int64_t total = 0;
    for (int64_t v : n) total += v;
    if (r.bits() > 120 && s.party[1 - first].ep->record && total <= 48 && B.got_ot.size() <= 64) {
      std::vector<u128> secret;
      for (size_t i = 0; i < n.size(); i++) if (n[i] > 0) secret.push_back(A.vals[i][x[i]]);
      std::string how = derive_withheld(B.vals, x, secret, B.got_plain, B.got_ot, r);
      probe(3);
      if (!how.empty()) violation("withheld_obtained", "the receiver can compute a withheld element from " + how + "; " + where(s, k));
    }
  } else if (kind == "spf") {
    auto n = op_sizes(op);
    auto x = op_indices(op);
    need_sizes(s, k, A.vals, n, "the value provider");
    need_sizes(s, k, B.vals, n, "the index provider");
    auto v1 = gen_values(r, op_seed(op, 1), n.size(), op.i("vs")), v2 = gen_values(r, op_seed(op, 2), n.size(), op.i("vt", op.i("vs")));
    for (size_t i = 0; i < n.size(); i++) {
      for (int64_t j = 0; j < n[i]; j++) {
        u128 sum = r.add(A.vals[i][j], B.vals[i][j]), want = j == x[i] ? r.add(v1[i], v2[i]) : 0;
        if (sum != want)
          bad_share(s, k, "point function " + std::to_string(i) + ": shares at position " + std::to_string(j) + " add up to " + u128s(sum) + ", expected " + u128s(want) + " (point " + std::to_string(x[i]) + ", " + ring_text(r) + ")");
      }
      stat(kStValues, n[i]);
      note_fresh(s, r, A.vals[i], tag + ".share" + std::to_string(i));
    }
  } else if (kind == "gil") {
    int64_t n = op.i("n");
    need_sizes(s, k, A.vals, {n}, "the vector provider");
    need_sizes(s, k, B.vals, {n}, "the value provider");
    auto y = gen_values(r, op_seed(op, 1), n, op.i("ys"));
    u128 x = gen_values(r, op_seed(op, 2), 1, op.i("xs"))[0];
    MulBy mx(r, x);
    for (int64_t j = 0; j < n; j++) {
      u128 sum = r.add(A.vals[0][j], B.vals[0][j]), want = mx(y[j]);
      if (sum != want)
        bad_share(s, k, "product share " + std::to_string(j) + ": shares add up to " + u128s(sum) + ", expected " + u128s(want) + " (" + ring_text(r) + ", length " + std::to_string(n) + ")");
    }
    stat(kStValues, n);
    if (!A.vals.empty()) note_fresh(s, r, A.vals[0], tag + ".share");
  } else if (kind == "mpf") {
    int64_t N = op.i("N"), t = std::min(op.i("t"), N);
    need_sizes(s, k, A.vals, {N}, "the index provider");
    need_sizes(s, k, B.vals, {N}, "the value provider");
    auto y = gen_values(r, op_seed(op, 14), t, op.i("ys"));
    u128 x = gen_values(r, op_seed(op, 13), 1, op.i("xs"))[0];
    auto idx = mp_indices(op);
    MulBy mx(r, x);
    std::map<int64_t, u128> want;
    for (int64_t i = 0; i < t; i++) want[idx[i]] = mx(y[i]);
    for (int64_t j = 0; j < N; j++) {
      u128 sum = r.add(A.vals[0][j], B.vals[0][j]);
      auto it = want.find(j);
      u128 w = it == want.end() ? 0 : it->second;
      if (sum != w)
        bad_share(s, k, "multi-point function: shares at position " + std::to_string(j) + " of " + std::to_string(N) + " add up to " + u128s(sum) + ", expected " + u128s(w) + " (" + std::to_string(t) + " points, " + ring_text(r) + ")");
    }
    if (A.ints != B.ints) bad_share(s, k, "the parties computed different numbers of buckets");
    stat(kStValues, N);
    note_fresh(s, r, B.vals[0], tag + ".share");
  } else if (kind == "vpre" || kind == "vrun") {
    SlotState& st = s.slots[vole_slot(op)];
    if (kind == "vpre") {
      st.known = op.i("ds", -1) >= 0;
      if (st.known) st.delta = gen_values(B.ring, op_seed(op, 31), 1, (int)op.i("ds"))[0];
      count_batch(s, op, st, op.i("n"));
      return;
    }
    int64_t n = op.i("n");
    bool first_use = st.batch == 0;
    if (first_use) count_batch(s, op, st, n);
    count_taken(s, k, st, n, (double)(A.sent1 - A.sent0) + (double)(B.sent1 - B.sent0), first_use);
    need_sizes(s, k, A.vals, {n, n}, "the sender");
    need_sizes(s, k, B.vals, {n}, "the receiver");
    if (st.known && B.scalar != st.delta)
      bad_share(s, k, "the receiver's scalar changed: " + u128s(B.scalar) + " instead of " + u128s(st.delta));
    st.known = true;
    st.delta = B.scalar;
    MulBy md(r, B.scalar);
    for (int64_t j = 0; j < n; j++) {
      u128 want = r.add(md(A.vals[0][j]), A.vals[1][j]);
      if (want != B.vals[0][j])
        bad_share(s, k, "vector OLE: w[" + std::to_string(j) + "] of " + std::to_string(n) + " is " + u128s(B.vals[0][j]) + ", u*delta+v is " + u128s(want) + " (" + ring_text(r) + ")");
    }
    stat(kStValues, n);
    note_fresh(s, r, A.vals[0], tag + ".u");
    note_fresh(s, r, A.vals[1], tag + ".v");
    // w differs from v only if the offset does not annihilate u
    if (B.scalar != 0 && (r.type != kU128 || (B.scalar & 1))) note_fresh(s, r, B.vals[0], tag + ".w");
  } else if (kind == "hash") {
    if (g_oracle.agree && A.ints != B.ints) {
      size_t i = 0;
      while (i < A.ints.size() && i < B.ints.size() && A.ints[i] == B.ints[i]) i++;
      violation("wrong_hashing", "the parties hash the same inputs with the same seed to different buckets (first difference at item " + std::to_string(i) + "); " + where(s, k));
    }
  }
}

// What one party alone can be held to, right after its call returned.
static void check_party(Session& s, int side, size_t k) {
  const Op& op = *s.ops[k];
  OpOut& o = s.party[side].out[k];
  const std::string& kind = op.kind;
  if (g_oracle.modulus && !o.modulus_kept)
    violation("modulus_changed", "party " + std::to_string(side) + " finds another modulus installed than it had set; " + where(s, k));
  if (kind == "bad" || kind == "vbad") {
    if (op.i("p") != side) return;
    if (o.threw) violation("bad_argument", "an invalid argument caused an exception (" + o.msg + "); " + where(s, k));
    if (o.code == 0) violation("bad_argument", "a call with an invalid argument succeeded; " + where(s, k));
    if (o.code != kCodeInvalid) violation("bad_argument", "a call with an invalid argument failed with another error than INVALID_ARGUMENT (" + o.msg + "); " + where(s, k));
    if (o.sent1 != o.sent0 || o.recv1 != o.recv0)
      violation("bad_argument", "a call with an invalid argument exchanged data before it was refused; " + where(s, k));
    return;
  }
  if (op.i("unsup")) {
    if (o.code == 0) violation("unsupported", "party " + std::to_string(side) + " accepted parameters that cannot be supported; " + where(s, k));
    return;
  }
  if (s.faulted) return;
  // Cuckoo hashing may fail with the probability stated for it: not an error
  // of this run, but counted and judged over the batch.
  if (g_oracle.status && o.code != 0 && o.msg.find("maximum number of tries") != std::string::npos && (kind == "mpf" || kind == "vpre" || kind == "vrun") && !s.plan->cfg.i("strict")) {
    g_res->aux[1]++;
    finish_ok();
  }
  if (g_oracle.status && o.code != 0)
    violation("status", "party " + std::to_string(side) + ": a valid call failed: " + o.msg + "; " + where(s, k));
}

void check_op(Session& s, size_t k) {
  const Op& op = *s.ops[k];
  OpOut& a = s.party[0].out[k];
  OpOut& b = s.party[1].out[k];
  if (s.faulted && (a.code || b.code || a.threw || b.threw)) {
    // whatever a failed precomputation left behind, no scalar is agreed on
    if (op.kind == "vpre") s.slots[vole_slot(op)].known = false;
    return;
  }
  if (op.kind == "vpre" && (a.code || b.code)) s.slots[vole_slot(op)].known = false;
  if (g_oracle.drained && !s.broken) {
    for (int d = 0; d < 2; d++) {
      OpOut& f = d ? b : a;
      OpOut& t = d ? a : b;
      if (f.sent1 != t.recv1)
        violation("undrained", "when both calls had returned, party " + std::to_string(d) + " had sent " + std::to_string(f.sent1) + " bytes in total but party " + std::to_string(1 - d) + " had consumed " + std::to_string(t.recv1) + "; " + where(s, k));
    }
  }
  if (g_oracle.uniform && !op.i("unsup") && a.code == 0 && b.code == 0) check_masks(s, k);
  if (g_oracle.shares && !op.i("unsup") && a.code == 0 && b.code == 0) check_values(s, k);
}

void apply_vole_scale(const Op& op) {
  OpOut out;
  Party* none = nullptr;
  if (vole_driver(kU64)) vole_driver(kU64)->exec(*none, op, out);
}

// ------------------------------------------------------------------ script
static void party_main(Session* s, int side) {
  Party& p = s->party[side];
  Task* me = self();
  {
    NoRace nr;
    p.task = me;
    me->user = &p;
    me->on_alloc_fail = [](Task* t) {
      Party& q = *(Party*)t->user;
      q.stopped = true;
      q.out[q.finished].crashed = true;
      q.ep->crash_effects(false);
    };
    p.channel = std::make_shared<mpc_utils::comm_channel>(p.ep);
    omp_set_num_threads((int)s->plan->cfg.i(side ? "nt1" : "nt0", 2));
    u128 m0 = parse_u128(s->plan->cfg.s("m0", "18446744073709551557")), m1 = parse_u128(s->plan->cfg.s("m1", "1152921504606846883"));
    set_modulus(kZZp, m0);
    set_modulus(kzzp, m1);
    p.ring_ntl[0] = Ring{kZZp, m0};
    p.ring_ntl[1] = Ring{kzzp, m1};
  }
  for (size_t k = 0; k < s->ops.size() && !p.stopped; k++) {
    const Op& op = *s->ops[k];
    OpOut& out = p.out[k];
    std::string m0, m1;
    {
      NoRace nr;
      out.ran = true;
      out.ring = p.ring(op_type(op));
      out.sent0 = p.ep->sent();
      out.recv0 = p.ep->received();
      out.cots0 = p.ep->cots;
      out.ops0 = p.ep->ops;
      if (op.kind != "mod") { m0 = modulus_text(kZZp); m1 = modulus_text(kzzp); }
      logf("op %zu begin: %s", k, op_text(op).c_str());
      stat(kStOps);
    }
    yield("op_begin");
    me->alloc_fail_at = p.alloc_fail_at;
    try {
      exec_op(p, op, out);
    } catch (const CrashNow&) {
      out.crashed = true;
      p.stopped = true;
    } catch (const ConnectionLost& e) {
      out.threw = true;
      out.msg = e.what();
      s->broken = true;
      p.stopped = !s->go_on;
    } catch (const std::exception& e) {
      violation("uncaught_exception", std::string(typeid(e).name()) + ": " + e.what() + "; " + where(*s, k));
    }
    NoRace nr;
    me->alloc_fail_at = -1;
    out.sent1 = p.ep->sent();
    out.recv1 = p.ep->received();
    out.cots1 = p.ep->cots;
    out.unflushed = p.ep->unflushed();
    out.ops1 = p.ep->ops;
    if (op.kind != "mod") out.modulus_kept = m0 == modulus_text(kZZp) && m1 == modulus_text(kzzp);
    if (out.code) stat(kStOpsErr);
    logf("op %zu end code=%d%s%s", k, out.code, out.threw ? " threw " : "", out.msg.c_str());
    trace(10, k, (uint64_t)out.code << 1 | out.threw);
    if (p.stopped) break;
    out.done = true;
    p.finished = k + 1;
    bool expected_error = op.i("unsup") || op.kind == "bad" || op.kind == "vbad";
    check_party(*s, side, k);
    if (s->party[1 - side].out[k].done) check_op(*s, k);
    if (out.code && s->faulted && !expected_error) {
      s->broken = true;
      if (!s->go_on) { p.stopped = true; break; }
    }
  }
  NoRace nr;
  p.allocs = me->alloc_count;
  if (p.stopped || s->broken) p.ep->close();
  omp_release();
  p.inst.clear();
}

World::World(const Plan& pl, int w, bool f) : faulted(f), plan(pl), id(w) {}
void World::add_session(int pair, std::unique_ptr<Net> net, std::vector<const Op*> ops) {
  auto s = std::make_unique<Session>();
  s->plan = &plan;
  s->world = id;
  s->pair = pair;
  s->w = this;
  s->net = std::move(net);
  s->ops = std::move(ops);
  s->sec = plan.cfg.f("sec", 40);
  s->faulted = faulted;
  for (int i = 0; i < 2; i++) {
    s->party[i].s = s.get();
    s->party[i].side = i;
    s->party[i].ep = &s->net->ep[i];
    s->party[i].out.resize(s->ops.size());
  }
  sessions.push_back(std::move(s));
}
// Timed events may still point at the streams: networks live to the end of the run.
World::~World() { for (auto& s : sessions) s.release(); }
void World::start() {
  for (auto& s : sessions)
    for (int i = 0; i < 2; i++) {
      Session* sp = s.get();
      Task* t = spawn("party", id, s->pair, i, [sp, i] { party_main(sp, i); });
      tasks.push_back({t, t->uid});
    }
}
void World::wait() {
  RtScope rs;
  for (auto& t : tasks) {
    while (t.first->uid == t.second && alive(t.first)) block_on(t.first, "wait_world");
    hb::join(t.first, self());
  }
}

}  // namespace sim
