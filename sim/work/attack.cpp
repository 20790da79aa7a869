// What a receiver of all-but-one OT can compute from what it was sent: a small
// search with the operations it performs itself (block cipher under the keys
// of the tree, forwards and backwards, and sums of elements).
#include "openssl/aes.h"

#include <string.h>

#include <algorithm>
#include <unordered_set>

#include "work/common.h"

namespace sim {
namespace {
struct Cipher { AES_KEY e, d; };
u128 enc(const Cipher& c, u128 x) { u128 r; AES_encrypt((const uint8_t*)&x, (uint8_t*)&r, &c.e); return r; }
u128 dec(const Cipher& c, u128 x) { u128 r; AES_decrypt((const uint8_t*)&x, (uint8_t*)&r, &c.d); return r; }
struct Hash128 { size_t operator()(u128 v) const { return (size_t)mix2((uint64_t)v, (uint64_t)(v >> 64)); } };
}  // namespace

// Elements that can be reached; an empty message if none of `secret` is.
std::string derive_withheld(const std::vector<std::vector<u128>>& got, const std::vector<int64_t>& withheld,
                            const std::vector<u128>& secret, const std::vector<u128>& keys, const std::vector<u128>& blocks,
                            const Ring& ring) {
  std::vector<Cipher> ks;
  for (u128 k : keys) {
    Cipher c;
    AES_set_encrypt_key((const uint8_t*)&k, 128, &c.e);
    AES_set_decrypt_key((const uint8_t*)&k, 128, &c.d);
    ks.push_back(c);
  }
  std::unordered_set<u128, Hash128> want;
  for (u128 s : secret) want.insert(s);
  std::unordered_set<u128, Hash128> seen;
  std::vector<u128> all;
  std::string found;
  auto red = [&](u128 v) { return ring.reduce(v); };
  auto reach = [&](u128 v, const char* how) {
    if (!found.empty() || !seen.insert(v).second) return;
    all.push_back(v);
    if (want.count(red(v))) found = how;
  };
  for (u128 b : blocks) reach(b, "an obtained block");
  // Sums of elements at the positions of one parity.
  for (size_t i = 0; i < got.size(); i++) {
    u128 s[2] = {0, 0};
    for (size_t j = 0; j < got[i].size(); j++) if ((int64_t)j != withheld[i]) s[j & 1] ^= got[i][j];
    for (u128 b : blocks) { reach(b ^ s[0], "an obtained block and elements at even positions"); reach(b ^ s[1], "an obtained block and elements at odd positions"); }
  }
  for (auto& v : got) for (size_t j = 0; j < v.size(); j++) reach(v[j], "the receiver's elements");
  // Upwards: a node from its child, if the generator can be inverted.
  size_t begin = 0;
  const size_t kMax = 60000;
  for (int depth = 0; depth < 6 && found.empty() && all.size() < kMax / 8; depth++) {
    size_t end = all.size();
    for (size_t i = begin; i < end && found.empty() && all.size() < kMax / 8; i++)
      for (auto& c : ks) reach(dec(c, all[i]), "inverting the generator");
    begin = end;
  }
  // Downwards.
  begin = 0;
  for (int depth = 0; depth < 7 && found.empty() && all.size() < kMax; depth++) {
    size_t end = all.size();
    for (size_t i = begin; i < end && found.empty() && all.size() < kMax; i++)
      for (auto& c : ks) {
        u128 y = enc(c, all[i]);
        reach(y, "the generator without feed-forward");
        reach(y ^ all[i], "the generator");
      }
    begin = end;
  }
  return found;
}
}  // namespace sim
