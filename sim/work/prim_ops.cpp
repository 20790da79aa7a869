// The symmetric primitives: generators as state machines with a history, trees
// built, taken apart and rebuilt, by single threads and by several at once.
#include <omp.h>
#include <openssl/aes.h>

#include <atomic>
#include <cmath>

#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
#include "distributed_vector_ole/ggm_tree.h"
#include "work/driver.h"

namespace sim {
namespace dvo = distributed_vector_ole;
using Gen128 = dvo::AESUniformBitGenerator;
using Tree = dvo::GGMTree;

// ---- reference
static absl::uint128 aes(const absl::uint128& key, const absl::uint128& in) {
  AES_KEY k;
  AES_set_encrypt_key((const uint8_t*)&key, 128, &k);
  absl::uint128 o;
  AES_encrypt((const uint8_t*)&in, (uint8_t*)&o, &k);
  return o;
}
struct RefGen {           // counter mode: key, then first counter block
  AES_KEY key;
  absl::uint128 nonce;
  uint64_t pos = 0;
  void seed(const std::vector<uint8_t>& s) {
    AES_set_encrypt_key(s.data(), 128, &key);
    memcpy((void*)&nonce, s.data() + 16, 16);
    pos = 0;
  }
  uint64_t next() {
    absl::uint128 c = nonce + pos / 2, o;
    AES_encrypt((const uint8_t*)&c, (uint8_t*)&o, &key);
    uint64_t h[2];
    memcpy(h, &o, 16);
    return h[pos++ & 1];
  }
};
static std::vector<std::vector<absl::uint128>> ref_tree(int arity, int levels, int64_t n, absl::uint128 root, const std::vector<absl::uint128>& keys) {
  std::vector<int64_t> size(levels);
  size[levels - 1] = n;
  for (int l = levels - 2; l >= 0; l--) size[l] = (size[l + 1] + arity - 1) / arity;
  std::vector<std::vector<absl::uint128>> v(levels);
  v[0].assign(1, root);
  std::vector<AES_KEY> ek(arity);
  for (int j = 0; j < arity; j++) AES_set_encrypt_key((const uint8_t*)&keys[j], 128, &ek[j]);
  for (int l = 1; l < levels; l++) {
    v[l].resize(size[l]);
    for (int64_t i = 0; i < size[l]; i++) {
      const absl::uint128& parent = v[l - 1][i / arity];
      AES_encrypt((const uint8_t*)&parent, (uint8_t*)&v[l][i], &ek[i % arity]);
      v[l][i] ^= parent;
    }
  }
  return v;
}

static std::vector<uint8_t> gen_seed(uint64_t s, int style, int len) {
  Rng g(s);
  std::vector<uint8_t> b(len);
  for (auto& x : b) x = (uint8_t)g.next();
  if (style == 1) for (auto& x : b) x = 0;
  if (style == 2) for (auto& x : b) x = 0xff;
  if (style == 3) for (int i = 16; i < 24; i++) b[i] = i == 16 ? (uint8_t)(0xff - g.below(40)) : 0xff;   // the low half of the counter wraps
  if (style == 4) for (int i = 16; i < 32; i++) b[i] = i == 16 ? (uint8_t)(0xff - g.below(40)) : 0xff;   // the counter wraps
  if (style == 5) for (int i = 0; i < 16; i++) b[i + 16] = b[i];
  return b;
}

// The same bytes at any address.
struct SeedAt {
  std::vector<uint8_t> raw;
  size_t off;
  SeedAt(const std::vector<uint8_t>& s, int64_t o) : raw(s.size() + 16), off((size_t)o % 16) { std::copy(s.begin(), s.end(), raw.begin() + off); }
  operator absl::Span<const uint8_t>() const { return absl::MakeConstSpan(raw.data() + off, raw.size() - 16); }
};

struct GenState {
  Gen128 g;
  RefGen r;
};

[[noreturn]] static void wrong(Party& p, const Op& op, const char* cls, const std::string& m) {
  NoRace nr;
  violation(cls, "party " + std::to_string(p.side) + ": " + m + " in " + op_text(op));
}

static void draw(Party& p, const Op& op, Gen128& g, RefGen& r, int64_t n, const char* what) {
  for (int64_t i = 0; i < n; i++) {
    uint64_t at = r.pos, want = r.next(), got = g();
    if (want != got) wrong(p, op, "wrong_generator", std::string("output ") + std::to_string(at) + " after seeding differs from counter mode, " + what);
  }
  NoRace nr;
  stat(kStValues, n);
}

static bool exec_gen(Party& p, const Op& op, OpOut& out) {
  std::string key = "gen." + op.s("i", "0");
  int64_t n = op.i("n");
  auto it = p.inst.find(key);
  int a = (int)op.i("a");
  if (a == 1 || it == p.inst.end()) {            // a new instance
    auto seed = gen_seed(op_seed(op, 61 + p.side), (int)op.i("ss"), 32 + (int)op.i("xl"));
    auto so = op.has("buf") ? Gen128::Create(SeedAt(seed, op.i("mis")), op.i("buf")) : Gen128::Create(SeedAt(seed, op.i("mis")));
    if (!note(out, so.status())) wrong(p, op, "wrong_generator", "creation failed");
    auto st = std::make_shared<GenState>(GenState{std::move(so).ValueOrDie(), RefGen()});
    st->r.seed(seed);
    p.inst[key] = st;
    it = p.inst.find(key);
  }
  GenState& st = *(GenState*)it->second.get();
  if (a == 2) {                                   // seed again
    auto seed = gen_seed(op_seed(op, 63 + p.side), (int)op.i("ss"), 32 + (int)op.i("xl"));
    if (!st.g.seed(SeedAt(seed, op.i("mis"))).ok()) wrong(p, op, "wrong_generator", "seeding again failed");
    st.r.seed(seed);
  }
  if (a == 3) {                                   // a copy goes its own way
    Gen128 c = st.g;
    RefGen r = st.r;
    draw(p, op, c, r, n / 2 + 1, "drawn from a copy");
  }
  if (a == 4) {                                   // a seed that is too short is refused and changes nothing
    auto seed = gen_seed(op_seed(op, 65), 0, (int)op.i("xl") % 32);
    if (st.g.seed(seed).ok()) wrong(p, op, "wrong_generator", "a seed that is too short was accepted");
  }
  draw(p, op, st.g, st.r, n, "drawn after other calls");
  return true;
}

// Every thread of a region has its own generator.
static bool exec_gpar(Party& p, const Op& op, OpOut&) {
  int64_t n = op.i("n"), k = op.i("k", 2);
  const Op* o = &op;
  Party* pp = &p;
#pragma omp parallel for schedule(dynamic)
  for (int64_t i = 0; i < k; i++) {
    auto seed = gen_seed(op_seed(*o, 70 + i) + pp->side, (int)((o->i("ss") + i) % 6), 32);
    auto so = Gen128::Create(seed, o->i("buf", 2) + i);
    if (!so.ok()) wrong(*pp, *o, "wrong_generator", "creation failed");
    Gen128 g = std::move(so).ValueOrDie();
    RefGen r;
    r.seed(seed);
    draw(*pp, *o, g, r, n, "drawn while other threads use other instances");
  }
  return true;
}

static void check_tree(Party& p, const Op& op, const Tree& t, const std::vector<std::vector<absl::uint128>>& ref, int64_t missing, const char* what) {
  int L = t.num_levels();
  int64_t m = missing;
  for (int l = L - 1; l >= 0; l--) {
    if (t.level_size(l) != (int64_t)ref[l].size())
      wrong(p, op, "wrong_tree", std::string("level ") + std::to_string(l) + " has " + std::to_string(t.level_size(l)) + " nodes, expected " + std::to_string(ref[l].size()) + ", " + what);
    for (int64_t i = 0; i < (int64_t)ref[l].size(); i++) {
      auto so = t.GetValueAtNode(l, i);
      if (!so.ok()) wrong(p, op, "wrong_tree", "reading a node failed");
      bool same = so.ValueOrDie() == ref[l][i];
      if (missing >= 0 && i == m) {
        if (same && ref[l][i] != 0) wrong(p, op, "wrong_tree", std::string("a node of the missing path is there, ") + what);
        continue;
      }
      if (!same) wrong(p, op, "wrong_tree", std::string("node ") + std::to_string(i) + " of level " + std::to_string(l) + " of " + std::to_string(L) + " is wrong, " + what);
    }
    m /= t.arity();
  }
  for (auto q : {std::make_pair(-1, (int64_t)0), std::make_pair(L, (int64_t)0), std::make_pair(0, (int64_t)-1), std::make_pair(L - 1, (int64_t)t.num_leaves())})
    if (t.GetValueAtNode(q.first, q.second).ok()) wrong(p, op, "wrong_tree", "a node outside the tree could be read");
  NoRace nr;
  for (auto& l : ref) stat(kStValues, l.size());
}

static void one_tree(Party& p, const Op& op, uint64_t s, int arity, int64_t n, int64_t missing, bool junk, const char* what) {
  Rng g(s);
  std::vector<absl::uint128> keys(arity);
  for (auto& k : keys) k = absl::MakeUint128(g.next(), g.next());
  if (op.i("eq")) for (auto& k : keys) k = keys[0];
  absl::uint128 root = op.i("ss") == 1 ? absl::uint128(0) : op.i("ss") == 2 ? absl::Uint128Max() : absl::MakeUint128(g.next(), g.next());
  auto so = Tree::Create(n, root, keys);
  if (!so.ok()) wrong(p, op, "wrong_tree", std::string("creation failed, ") + what);
  auto t = std::move(so).ValueOrDie();
  int L = t->num_levels();
  if (t->arity() != arity || t->num_leaves() != n) wrong(p, op, "wrong_tree", "arity or number of leaves differ from the arguments");
  double cap = 1;
  for (int l = 1; l < L; l++) cap *= arity;
  if (cap < (double)n) wrong(p, op, "wrong_tree", "too few levels for the number of leaves");
  auto ref = ref_tree(arity, L, n, root, keys);
  check_tree(p, op, *t, ref, -1, what);
  auto x = t->GetSiblingWiseXOR();
  if ((int)x.size() != L - 1) wrong(p, op, "wrong_tree", "wrong number of levels of sibling sums");
  for (int l = 0; l + 1 < L; l++) {
    std::vector<absl::uint128> want(arity, 0);
    for (int64_t i = 0; i < (int64_t)ref[l + 1].size(); i++) want[i % arity] ^= ref[l + 1][i];
    if ((int)x[l].size() != arity) wrong(p, op, "wrong_tree", "wrong number of sibling sums");
    for (int j = 0; j < arity; j++) if (x[l][j] != want[j]) wrong(p, op, "wrong_tree", std::string("sibling sum ") + std::to_string(j) + " below level " + std::to_string(l) + " is wrong, " + what);
  }
  // whoever rebuilds the tree does not know the sums on the path
  int64_t m = missing;
  for (int l = L - 2; l >= 0; l--) {
    x[l][m % arity] = junk ? absl::MakeUint128(g.next(), g.next()) : absl::uint128(0);
    m /= arity;
  }
  auto s2 = Tree::CreateFromSiblingWiseXOR(arity, n, missing, x, keys);
  if (!s2.ok()) wrong(p, op, "wrong_tree", std::string("rebuilding failed, ") + what);
  auto t2 = std::move(s2).ValueOrDie();
  if (t2->num_levels() != L || t2->arity() != arity || t2->num_leaves() != n) wrong(p, op, "wrong_tree", "the rebuilt tree has another shape");
  check_tree(p, op, *t2, ref, missing, what);
}

static bool exec_tree(Party& p, const Op& op, OpOut& out) {
  int64_t n = op.i("n");
  one_tree(p, op, op_seed(op, 81 + p.side), (int)op.i("ar", 2), n, std::min<int64_t>(op.i("m"), n - 1), op.i("jk"), "alone");
  out.code = 0;
  return true;
}
static bool exec_tpar(Party& p, const Op& op, OpOut&) {
  int64_t k = op.i("k", 2), n0 = op.i("n");
  const Op* o = &op;
  Party* pp = &p;
#pragma omp parallel for schedule(dynamic)
  for (int64_t i = 0; i < k; i++) {
    int64_t n = std::max<int64_t>(1, n0 - i);
    one_tree(*pp, *o, op_seed(*o, 90 + i) + pp->side, (int)o->i("ar", 2) + (int)i % 2, n, std::min<int64_t>(o->i("m"), n - 1), i & 1, "while other threads build others");
  }
  return true;
}

// ---- calls with an invalid argument
bool bad_prim(const Op& op, OpOut& out) {
  std::string k = op.s("k");
  int64_t n = op.i("n", 4), d = op.i("d");
  int ar = (int)op.i("mt", 2) + 1;                       // 2..10
  Rng g(op_seed(op, 71));
  auto code = [&](const mpc_utils::Status& s) { note(out, s); };
  absl::uint128 root = absl::MakeUint128(g.next(), g.next());
  std::vector<absl::uint128> keys(ar);
  for (auto& x : keys) x = absl::MakeUint128(g.next(), g.next());
  if (k.compare(0, 5, "tree_") == 0) {
    if (k == "tree_arity") { code(Tree::Create((int)(1 - d % 1000), n, root).status()); return true; }
    if (k == "tree_nokeys") { keys.resize(d & 1); code(Tree::Create(n, root, keys).status()); return true; }
    if (k == "tree_leaves") { code(Tree::Create(-d, root, keys).status()); return true; }
    auto so = Tree::Create(n, root, keys);
    if (!so.ok()) harness_error("tree");
    auto t = std::move(so).ValueOrDie();
    auto x = t->GetSiblingWiseXOR();
    int L = t->num_levels();
    int64_t m = d % n;
    auto re = [&](int a, int64_t leaves, int64_t miss) { code(Tree::CreateFromSiblingWiseXOR(a, leaves, miss, x, keys).status()); };
    if (k == "tree_level") code(t->GetValueAtNode(d & 1 ? L + (int)(d % 1000) : -1 - (int)(d % 1000), 0).status());
    else if (k == "tree_node") code(t->GetValueAtNode(L - 1, d & 1 ? n + d : -1 - d).status());
    else if (k == "tree_leaf") code(t->GetValueAtLeaf(d & 1 ? n + d : -1 - d).status());
    else if (k == "tree_rearity") re((int)(1 - d % 1000), n, m);
    else if (k == "tree_releaves") re(ar, -d, -1 - d);
    else if (k == "tree_missneg") re(ar, n, -1 - d);
    else if (k == "tree_missend") re(ar, n, n + d);
    else if (k == "tree_keysfew") { keys.resize(d % ar); re(ar, n, m); }
    else if (k == "tree_keysmany") { keys.resize(ar + 1 + d % 5, root); re(ar, n, m); }
    else if (k == "tree_moreleaves") { double cap = std::pow(ar, L - 1); re(ar, (int64_t)cap + 1 + d, m); }
    else if (k == "tree_levels") { x.resize(x.size() + 1 + d % 3, std::vector<absl::uint128>(ar, 1)); re(ar, n, m); }
    else if (k == "tree_fewlevels") { if (L < 3) { note(out, mpc_utils::InvalidArgumentError("")); return true; } x.pop_back(); if (std::pow(ar, x.size()) >= (double)n) x.pop_back(); re(ar, n, m); }
    else if (k == "tree_width") { if (x.empty()) x.resize(1); x[d % x.size()].resize(d & 1 ? ar + 1 : ar - 1); re(ar, n, m); }
    else return false;
    return true;
  }
  if (k == "prg_seed") { auto b = gen_seed(g.next(), 0, (int)(d % 32)); code(Gen128::Create(b).status()); return true; }
  if (k == "prg_reseed") {
    auto so = Gen128::Create(gen_seed(g.next(), 0, 32), 1 + n);
    if (!so.ok()) harness_error("generator");
    auto q = std::move(so).ValueOrDie();
    auto b = gen_seed(g.next(), 0, (int)(d % 32));
    code(q.seed(b));
    return true;
  }
  if (k == "ck_functions") { code(dvo::CuckooHasher::Create(root, (int)-(d % 1000)).status()); return true; }
  std::vector<int64_t> in(n);
  for (int64_t i = 0; i < n; i++) in[i] = i * 3;
  auto sp = absl::MakeConstSpan(in);
  double sec = k == "ck_bits" ? 130.0 + (double)(d % 100) : 40.0;
  int nf = k == "ck_one" ? 1 : k == "ck_unimplemented" ? 4 : 2 + (int)(d & 1);
  auto so = dvo::CuckooHasher::Create(root, nf, sec);
  if (!so.ok()) harness_error("hasher");
  auto h = std::move(so).ValueOrDie();
  if (k == "ck_hash") code(h->Hash<int64_t>(sp, -d).status());
  else if (k == "ck_simple") code(h->HashSimple<int64_t>(sp, -d).status());
  else if (k == "ck_cuckoo") code(h->HashCuckoo<int64_t>(sp, -d).status());
  else if (k == "ck_many") { in.resize(std::max<int64_t>(2, n)); code(h->HashCuckoo<int64_t>(absl::MakeConstSpan(in), (int64_t)in.size() - 1).status()); }
  else if (k == "ck_one") code(h->HashCuckoo<int64_t>(sp, n + d % 100).status());
  else if (k == "ck_opt") code(h->GetOptimalNumberOfBuckets(-1 - d).status());
  else if (k == "ck_bits") { if (d & 1) code(h->HashCuckoo<int64_t>(sp, n + 5).status()); else code(h->HashSimple<int64_t>(sp, n + 5).status()); }
  else return false;
  return true;
}

bool exec_prim(Party& p, const Op& op, OpOut& out) {
  if (op.kind == "gen") return exec_gen(p, op, out);
  if (op.kind == "gpar") return exec_gpar(p, op, out);
  if (op.kind == "tree") return exec_tree(p, op, out);
  if (op.kind == "tpar") return exec_tpar(p, op, out);
  return false;
}
}  // namespace sim
