// Hashing operations: every party hashes on its own, with its own thread count
// and schedule; the results have to agree and to be well formed.
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
#include <math.h>

#include "work/driver.h"

namespace sim {
namespace dvo = distributed_vector_ole;

// Can every input get a bucket of its own at all?
template <class H>
static bool placeable(const H& h, int64_t B) {
  std::vector<int64_t> owner(B, -1);
  for (size_t i = 0; i < h.size(); i++) {
    std::vector<char> seen(B, 0);
    std::function<bool(size_t)> go = [&](size_t e) {
      for (int64_t b : h[e]) {
        if (seen[b]) continue;
        seen[b] = 1;
        if (owner[b] < 0 || go(owner[b])) { owner[b] = e; return true; }
      }
      return false;
    };
    if (!go(i)) return false;
  }
  return true;
}

// Probability that n inputs cannot be placed into the number of buckets that the
// published formula (eprint 2018/579) recommends: union bound over sets of k
// inputs confined to k-1 buckets.
double insertion_failure(int64_t n, double sec, int nf) {
  if (nf != 3 || n < 2) return ldexp(1, -(int)sec);
  double ln = log2((double)n);
  double a = 123.5 / 2 * (1 + erf((ln - 6.3) / (2.3 * sqrt(2)))), b = -130.0 / 2 * (1 + erf((ln - 6.45) / (2.18 * sqrt(2)))) - ln;
  double B = ceil((sec - b) / a * (double)n), sum = pow(2, -sec);
  for (int k = 2; k <= 12 && k <= n && k <= B; k++)
    sum += exp(lgamma(n + 1.0) - lgamma(k + 1.0) - lgamma(n - k + 1.0) + lgamma(B + 1) - lgamma((double)k) - lgamma(B - k + 2) + 3 * k * log((k - 1) / B));
  return sum;
}

// The number of buckets the published formulas ask for.
double published_buckets(int64_t n, double sec, int nf) {
  if (n < 1) return 1;
  double ln = log2((double)n);
  if (nf == 3) {
    double a = 123.5 / 2 * (1 + erf((ln - 6.3) / (2.3 * sqrt(2)))), b = -130.0 / 2 * (1 + erf((ln - 6.45) / (2.18 * sqrt(2)))) - ln;
    return (sec - b) / a * (double)n;
  }
  if (nf != 2) return 0;
  double lo = 1, hi = 1;
  auto f = [&](double e) { return 3.3 * log2(e) - 0.8 + ln - (5 * ln + 14) * pow(e, -2.5); };
  while (f(hi) < sec && hi < 1e15) hi *= 2;
  for (int i = 0; i < 60; i++) (f((lo + hi) / 2) < sec ? lo : hi) = (lo + hi) / 2;
  return lo * (double)n;
}

template <class K>
static void run_hash(Party& p, const Op& op, OpOut& out, const std::vector<K>& in) {
  int nf = op.i("nf", 3);
  int64_t n = in.size();
  u128 seed = gen_values(Ring{kU128, 0}, op_seed(op, 21), 1, 0)[0];
  auto so = op.has("hs") ? dvo::CuckooHasher::Create(Conv<absl::uint128>::from(seed), nf, op.f("hs", 40))
                         : dvo::CuckooHasher::Create(Conv<absl::uint128>::from(seed), nf);   // for 40
  if (!note(out, so.status())) return;
  auto h = std::move(so).ValueOrDie();
  int64_t B = op.i("B");
  bool recommended = B == 0;
  if (recommended) {
    NoRace nr;
    g_res->aux[2] += (uint64_t)(ldexp(1.0, 55) * std::min(1.0, insertion_failure(n, op.f("hs", 40), nf)));
  }
  if (recommended) {
    auto nb = h->GetOptimalNumberOfBuckets(n);
    if (!note(out, nb.status())) return;
    B = nb.ValueOrDie();
    NoRace nr;
    Rng q(op_seed(op, 22));
    for (int i = 0; i < 4; i++) {
      int64_t m = i == 0 ? n : (int64_t)(1 + q.below(1ull << (1 + q.below(30))));
      auto rb = h->GetOptimalNumberOfBuckets(m);
      double want = published_buckets(m, op.f("hs", 40), nf);
      if (want > 1e15) continue;
      if (!rb.ok()) violation("too_few_buckets", "no number of buckets is recommended for " + std::to_string(m) + " inputs: " + std::string(rb.status().message()));
      if ((double)rb.ValueOrDie() < want * 0.995 - 1)
        violation("too_few_buckets", "party " + std::to_string(p.side) + ": " + std::to_string(rb.ValueOrDie()) + " buckets are recommended for " + std::to_string(m) + " inputs, " + std::to_string(want) +
                                         " are needed for a failure probability of 2^-" + std::to_string(op.f("hs", 40)) + " in " + op_text(op));
    }
  }
  auto fail = [&](const std::string& m) { NoRace nr; violation("wrong_hashing", "party " + std::to_string(p.side) + ": " + m + " in " + op_text(op)); };
  absl::Span<const K> sp(in);
  auto hs = h->Hash(sp, B);
  if (!note(out, hs.status())) return;
  auto H = std::move(hs).ValueOrDie();
  std::vector<int64_t> flat{B};
  if ((int64_t)H.size() != n) fail("Hash returned the wrong number of elements");
  for (int64_t i = 0; i < n; i++) {
    if ((int)H[i].size() != nf) fail("Hash returned the wrong number of buckets");
    for (int j = 0; j < nf; j++) {
      if (H[i][j] < 0 || H[i][j] >= B) fail("bucket number out of range");
      flat.push_back(H[i][j]);
    }
  }
  if (op.i("what", 3) & 1) {
    auto ss = h->HashSimple(sp, B);
    if (!note(out, ss.status())) return;
    auto S = std::move(ss).ValueOrDie();
    if ((int64_t)S.size() != B) fail("HashSimple returned the wrong number of buckets");
    // Expected: bucket b holds, in ascending order, i once for every function
    // that sends input i to b.
    std::vector<std::vector<int64_t>> want(B);
    for (int64_t i = 0; i < n; i++) for (int j = 0; j < nf; j++) want[H[i][j]].push_back(i);
    for (int64_t b = 0; b < B; b++) {
      if (S[b] != want[b]) fail("bucket " + std::to_string(b) + " of simple hashing is not the ascending list of the inputs hashed to it (" + std::to_string(S[b].size()) + " entries, expected " + std::to_string(want[b].size()) + ")");
      flat.push_back((int64_t)S[b].size());
      for (int64_t i : S[b]) flat.push_back(i);
    }
    stat(kStValues, n * nf);
  }
  if ((op.i("what", 3) & 2) && nf >= 2) {
    auto cs = h->HashCuckoo(sp, B);
    if (!note(out, cs.status())) {
      if (recommended) {
        // Inputs that cannot be placed by anyone may be met, but only with the
        // stated probability, which is judged over the whole batch.
        std::string m = "cuckoo insertion into the recommended number of buckets (" + std::to_string(B) + ") failed: " + out.msg;
        if (placeable(H, B) || op.i("strict")) fail(m);
        NoRace nr;
        g_res->aux[0]++;
      }
      flat.push_back(-7);
      out.code = 0;   // agreed on below
    } else {
      auto C = std::move(cs).ValueOrDie();
      if ((int64_t)C.size() != B) fail("HashCuckoo returned the wrong number of buckets");
      std::vector<char> seen(n, 0);
      int64_t placed = 0;
      for (int64_t b = 0; b < B; b++) {
        int64_t i = C[b];
        flat.push_back(i);
        if (i == -1) continue;
        if (i < 0 || i >= n) fail("HashCuckoo returned an unknown input");
        if (seen[i]) fail("HashCuckoo placed an input twice");
        seen[i] = 1;
        placed++;
        bool cand = false;
        for (int j = 0; j < nf; j++) cand |= H[i][j] == b;
        if (!cand) fail("HashCuckoo placed an input into a bucket it does not hash to");
      }
      if (placed != n) fail("HashCuckoo lost an input");
      stat(kStValues, n);
    }
  }
  // Distinct seeds hash differently, so that parties with unequal seeds are
  // told apart: recorded for the comparison of both parties.
  out.ints = std::move(flat);
}

bool exec_hash(Party& p, const Op& op, OpOut& out) {
  int64_t n = op.i("n", 10);
  Rng g(op_seed(op, 22));
  switch (op.i("in")) {
    case 1: {
      std::set<uint64_t> s;
      while ((int64_t)s.size() < n) s.insert(g.next());
      std::vector<uint64_t> v(s.begin(), s.end());
      for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.below(i)]);
      run_hash<uint64_t>(p, op, out, v);
      break;
    }
    case 2: {
      std::vector<absl::uint128> v;
      for (int64_t i = 0; i < n; i++) v.push_back(absl::MakeUint128(g.next(), g.next()));
      run_hash<absl::uint128>(p, op, out, v);
      break;
    }
    case 3: {   // distinct indices of a large range, the way the protocols use it
      std::set<int64_t> s;
      int64_t N = std::max<int64_t>(n, op.i("N", 1000000));
      while ((int64_t)s.size() < n) s.insert((int64_t)g.below(N));
      std::vector<int64_t> v(s.begin(), s.end());
      for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.below(i)]);
      run_hash<int64_t>(p, op, out, v);
      break;
    }
    default: {
      std::vector<int64_t> v;
      for (int64_t i = 0; i < n; i++) v.push_back(i);
      run_hash<int64_t>(p, op, out, v);
    }
  }
  return true;
}

int64_t optimal_buckets(int64_t n, double sec) {
  auto so = dvo::CuckooHasher::Create(absl::uint128(1), 3, sec);
  if (!so.ok()) return 0;
  auto nb = so.ValueOrDie()->GetOptimalNumberOfBuckets(n);
  return nb.ok() ? nb.ValueOrDie() : 0;
}
// Draws from the library's byte generator with buffers of any size.
bool exec_rng(Party& p, const Op& op, OpOut& out) {
  Rng g(op_seed(op, 51 + p.side));
  std::vector<uint8_t> seed(32);
  for (auto& b : seed) b = (uint8_t)g.next();
  auto so = dvo::AESUniformBitGenerator::Create(seed, op.i("buf"));
  if (!note(out, so.status())) return true;
  auto rng = std::move(so).ValueOrDie();
  std::vector<u128> v;
  for (int64_t i = 0; i < op.i("n"); i++) v.push_back(rng());
  out.vals.push_back(v);
  return true;
}
}  // namespace sim
