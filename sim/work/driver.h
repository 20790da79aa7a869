// Per-type execution of operations against the real library.
#ifndef SIM_WORK_DRIVER_H_
#define SIM_WORK_DRIVER_H_
#include <string.h>

#include <algorithm>
#include <type_traits>

#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "distributed_vector_ole/gf128.h"
#include "mpc_utils/comm_channel.hpp"
#include "mpc_utils/statusor.h"
#include "work/common.h"

namespace sim {

template <class T> struct TypeTag;
template <> struct TypeTag<uint8_t> { static const int id = kU8; };
template <> struct TypeTag<uint16_t> { static const int id = kU16; };
template <> struct TypeTag<uint32_t> { static const int id = kU32; };
template <> struct TypeTag<uint64_t> { static const int id = kU64; };
template <> struct TypeTag<absl::uint128> { static const int id = kU128; };
template <> struct TypeTag<distributed_vector_ole::gf128> { static const int id = kGF; };
template <> struct TypeTag<NTL::ZZ_p> { static const int id = kZZp; };
template <> struct TypeTag<NTL::zz_p> { static const int id = kzzp; };
template <> struct TypeTag<int16_t> { static const int id = kS16; };
template <> struct TypeTag<int64_t> { static const int id = kS64; };

template <class T, class = void> struct Conv {
  static u128 to(const T& t) { return (u128)(std::make_unsigned_t<T>)t; }
  static T from(u128 v) { return (T)v; }
};
template <> struct Conv<absl::uint128> {
  static u128 to(const absl::uint128& t) { return ((u128)absl::Uint128High64(t) << 64) | absl::Uint128Low64(t); }
  static absl::uint128 from(u128 v) { return absl::MakeUint128((uint64_t)(v >> 64), (uint64_t)v); }
};
template <> struct Conv<distributed_vector_ole::gf128> {
  static u128 to(const distributed_vector_ole::gf128& t) {
    absl::uint128 x = static_cast<absl::uint128>(t);
    return Conv<absl::uint128>::to(x);
  }
  static distributed_vector_ole::gf128 from(u128 v) { return distributed_vector_ole::gf128((uint64_t)(v >> 64), (uint64_t)v); }
};
template <> struct Conv<NTL::ZZ_p> {
  static u128 to(const NTL::ZZ_p& t) {
    unsigned char b[16] = {0};
    NTL::BytesFromZZ(b, NTL::rep(t), 16);
    u128 v;
    memcpy(&v, b, 16);
    return v;
  }
  static NTL::ZZ_p from(u128 v) {
    unsigned char b[16];
    memcpy(b, &v, 16);
    return NTL::conv<NTL::ZZ_p>(NTL::ZZFromBytes(b, 16));
  }
};
template <> struct Conv<NTL::zz_p> {
  static u128 to(const NTL::zz_p& t) { return (u128)(uint64_t)NTL::rep(t); }
  static NTL::zz_p from(u128 v) { return NTL::conv<NTL::zz_p>((long)(v % (u128)NTL::zz_p::modulus())); }
};

template <class T, class It>
std::vector<u128> to_vals(It b, It e) {
  std::vector<u128> v;
  v.reserve(e - b);
  for (; b != e; ++b) v.push_back(Conv<T>::to(*b));
  return v;
}
template <class T, class C>
std::vector<u128> to_vals(const C& c) {
  std::vector<u128> v;
  v.reserve(c.size());
  for (int64_t i = 0; i < (int64_t)c.size(); i++) v.push_back(Conv<T>::to(c[i]));
  return v;
}
template <class T>
std::vector<T> from_vals(const std::vector<u128>& v) {
  std::vector<T> o;
  o.reserve(v.size());
  for (u128 x : v) o.push_back(Conv<T>::from(x));
  return o;
}

inline mpc_utils::comm_channel* chan(Party& p) { return static_cast<mpc_utils::comm_channel*>(p.channel.get()); }
bool bad_prim(const Op& op, OpOut& out);
inline bool note(OpOut& out, const mpc_utils::Status& s) {
  out.code = (int)s.code();
  out.msg = s.message();
  return s.ok();
}
template <class C>
C* instance(Party& p, const std::string& key, OpOut& out, double sec) {
  auto it = p.inst.find(key);
  if (it != p.inst.end()) return static_cast<C*>(it->second.get());
  auto so = sec == 40 ? C::Create(chan(p)) : C::Create(chan(p), sec);   // 40 is the default
  if (!note(out, so.status())) return nullptr;
  std::shared_ptr<C> sp(std::move(so).ValueOrDie());
  C* r = sp.get();
  p.inst[key] = sp;
  return r;
}
inline double op_sec(Party& p, const Op& op) { return op.has("sec") ? op.f("sec", 40) : p.s->sec; }
inline std::string op_slot(const char* base, const Op& op) {
  // one instance per protocol, slot and security level
  return std::string(base) + "." + op.s("i", "0") + "." + op.s("sec", "");
}

// Elements a party of a recording session was sent during an operation.
struct Mark { size_t msgs = 0, ot = 0, plain = 0, in = 0; };
inline Mark mark(Party& p) { return Mark{p.ep->msgs.size(), p.ep->seen_ot.size(), p.ep->seen_plain.size(), p.ep->seen_in.size()}; }
template <class C>
bool decode(const std::vector<uint8_t>& b, C* c) {
  Reader r(b);
  try {
    r.get(*c);
    return r.done();
  } catch (const WireError&) {
    return false;
  }
}
template <class T>
void collect(Party& p, const Mark& m, OpOut& out) {
  if (!p.ep->record) return;
  NoRace nr;
  RtScope rs;
  for (size_t i = m.msgs; i < p.ep->msgs.size(); i++) {
    std::vector<T> v;
    Eigen::Matrix<T, 1, Eigen::Dynamic> e;
    size_t first = out.got_msg.size();
    if (decode(p.ep->msgs[i], &v)) { for (auto& x : v) out.got_msg.push_back(Conv<T>::to(x)); }
    else if (decode(p.ep->msgs[i], &e)) { for (int64_t j = 0; j < (int64_t)e.size(); j++) out.got_msg.push_back(Conv<T>::to(e[j])); }
    if (i == m.msgs) out.got_first = out.got_msg.size();
    for (size_t j = first; j + 1 < out.got_msg.size(); j++) out.got_diff.push_back(out.ring.sub(out.got_msg[j + 1], out.got_msg[j]));
  }
  for (size_t i = m.ot; i + 16 <= p.ep->seen_ot.size(); i += 16) {
    u128 b;
    memcpy(&b, p.ep->seen_ot.data() + i, 16);
    out.got_ot.push_back(b);
  }
  for (size_t i = m.in; i + 16 <= p.ep->seen_in.size(); i += 16) {
    u128 b;
    memcpy(&b, p.ep->seen_in.data() + i, 16);
    out.put_ot.push_back(b);
  }
  const std::vector<uint8_t>&pl = p.ep->seen_plain, &ot = p.ep->seen_ot;
  out.view_plain = pl.size() - m.plain;
  std::set<size_t> at;                    // blocks counted from both ends
  for (size_t i = 0; i < 4 && out.view_plain >= 16 * (i + 1); i++) { at.insert(m.plain + 16 * i); at.insert(pl.size() - 16 * (i + 1)); }
  for (size_t i : at) {
    u128 b;
    memcpy(&b, pl.data() + i, 16);
    out.got_plain.push_back(b);
  }
  out.view_ot = ot.size() - m.ot;
  out.view_msgs = p.ep->msgs.size() - m.msgs;
  out.view.assign(kViewHead + kViewTail + kViewOT, 0);
  for (size_t i = 0; i < (size_t)kViewHead && i < out.view_plain; i++) out.view[i] = pl[m.plain + i];
  for (size_t i = 0; i < (size_t)kViewTail && i < out.view_plain; i++) out.view[kViewHead + i] = pl[pl.size() - 1 - i];
  for (size_t i = 0; i < (size_t)kViewOT && i < out.view_ot; i++) out.view[kViewHead + kViewTail + i] = ot[m.ot + i];
}

// Inputs of an operation, derived from its fields alone.
std::vector<int64_t> op_sizes(const Op& op);
inline uint64_t op_seed(const Op& op, uint64_t what) { return mix2(op.u("s", 1), what); }

}  // namespace sim
#endif
