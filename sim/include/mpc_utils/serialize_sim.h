// Minimal archive used by the simulated channel. Payloads carry a structural
// type tag so that a send that meets a recv of another shape is reported as a
// desynchronised protocol rather than silently misread.
#ifndef SIM_MPC_UTILS_SERIALIZE_H_
#define SIM_MPC_UTILS_SERIALIZE_H_
#include <array>
#include <cstring>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "Eigen/Dense"
#include "NTL/ZZ.h"
#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "NTL/vector.h"
#include "absl/numeric/int128.h"
#include "absl/types/optional.h"
#include "absl/types/span.h"
#include "boost/serialization/access.hpp"
#include "boost/serialization/base_object.hpp"

namespace sim {

struct WireError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

class Writer {
 public:
  static constexpr bool is_saving = true;
  std::vector<uint8_t> buf;
  void raw(const void* p, size_t n) {
    size_t o = buf.size();
    buf.resize(o + n);
    if (n) std::memcpy(buf.data() + o, p, n);
  }
  void tag(char c) { raw(&c, 1); }
  void len(uint64_t n) { raw(&n, 8); }
  template <class T>
  Writer& operator&(const T& t) { put(t); return *this; }
  template <class T>
  Writer& operator<<(const T& t) { put(t); return *this; }

  template <class T>
  typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type
  put(const T& t) {
    tag(std::is_floating_point<T>::value ? 'f' : char('0' + sizeof(T)));
    raw(&t, sizeof(T));
  }
  void put(const absl::uint128& t) { tag('q'); raw(&t, 16); }
  void put(const std::string& s) { tag('s'); len(s.size()); raw(s.data(), s.size()); }
  void put(const NTL::ZZ& z) {
    tag('z');
    int64_t n = NTL::NumBytes(z);
    std::vector<uint8_t> b(n);
    NTL::BytesFromZZ(b.data(), z, n);
    len(n);
    uint8_t neg = NTL::sign(z) < 0;
    raw(&neg, 1);
    raw(b.data(), n);
  }
  // Modular integers are written with the fixed width of the current modulus,
  // so the size of a message says nothing about the values in it.
  void put(const NTL::ZZ_p& t) {
    tag('p');
    int64_t n = NTL::NumBytes(NTL::ZZ_p::modulus());
    std::vector<uint8_t> b(n);
    NTL::BytesFromZZ(b.data(), NTL::rep(t), n);
    len(n);
    raw(b.data(), n);
  }
  void put(const NTL::zz_p& t) { tag('l'); long v = NTL::rep(t); raw(&v, sizeof v); }
  template <class A, class B>
  void put(const std::pair<A, B>& t) { tag('P'); put(t.first); put(t.second); }
  template <class T>
  void put_seq(const T* p, uint64_t n) {
    tag('V');
    len(n);
    for (uint64_t i = 0; i < n; i++) put(p[i]);
  }
  template <class T> void put(const std::vector<T>& v) { put_seq(v.data(), v.size()); }
  void put(const std::vector<bool>& v) { tag('V'); len(v.size()); for (bool b : v) put(b); }
  template <class T> void put(const absl::Span<T>& v) { put_seq(v.data(), v.size()); }
  template <class T> void put(const NTL::Vec<T>& v) { put_seq(v.elts(), v.length()); }
  template <class T, size_t N> void put(const std::array<T, N>& v) { put_seq(v.data(), N); }
  template <class T, size_t N> void put(const T (&v)[N]) { put_seq(&v[0], N); }
  template <class T>
  void put(const absl::optional<T>& v) { tag('O'); put(v.has_value()); if (v) put(*v); }
  template <class T, int R, int C, int O, int MR, int MC>
  void put(const Eigen::Matrix<T, R, C, O, MR, MC>& m) {
    tag('M');
    len(m.rows());
    len(m.cols());
    put_seq(m.data(), m.size());
  }
  template <class T>
  typename std::enable_if<std::is_class<T>::value>::type put(const T& t) {
    tag('C');
    boost::serialization::access::serialize(*this, const_cast<T&>(t), 0u);
  }
};

class Reader {
 public:
  static constexpr bool is_saving = false;
  explicit Reader(const std::vector<uint8_t>& b) : b_(b) {}
  bool done() const { return pos_ == b_.size(); }
  void raw(void* p, size_t n) {
    if (b_.size() - pos_ < n) throw WireError("message shorter than expected");
    if (n) std::memcpy(p, b_.data() + pos_, n);
    pos_ += n;
  }
  void tag(char want) {
    char c;
    raw(&c, 1);
    if (c != want)
      throw WireError(std::string("message has another type than the receiver expects: got '") +
                      c + "' want '" + want + "'");
  }
  uint64_t len() {
    uint64_t n;
    raw(&n, 8);
    if (n > (1ull << 32)) throw WireError("message length field too large");
    return n;
  }
  template <class T>
  Reader& operator&(T& t) { get(t); return *this; }
  template <class T>
  Reader& operator>>(T& t) { get(t); return *this; }

  template <class T>
  typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type
  get(T& t) {
    tag(std::is_floating_point<T>::value ? 'f' : char('0' + sizeof(T)));
    raw(&t, sizeof(T));
  }
  void get(absl::uint128& t) { tag('q'); raw(&t, 16); }
  void get(std::string& s) { tag('s'); s.resize(len()); raw(&s[0], s.size()); }
  void get(NTL::ZZ& z) {
    tag('z');
    uint64_t n = len();
    uint8_t neg;
    raw(&neg, 1);
    std::vector<uint8_t> b(n);
    raw(b.data(), n);
    NTL::ZZFromBytes(z, b.data(), n);
    if (neg) z = -z;
  }
  void get(NTL::ZZ_p& t) {
    tag('p');
    uint64_t n = len();
    std::vector<uint8_t> b(n);
    raw(b.data(), n);
    NTL::ZZ z;
    NTL::ZZFromBytes(z, b.data(), n);
    if (z >= NTL::ZZ_p::modulus()) throw WireError("residue out of range for the receiver's modulus");
    NTL::conv(t, z);
  }
  void get(NTL::zz_p& t) {
    tag('l');
    long v;
    raw(&v, sizeof v);
    if (v < 0 || v >= NTL::zz_p::modulus()) throw WireError("residue out of range for the receiver's modulus");
    t = NTL::conv<NTL::zz_p>(v);
  }
  template <class A, class B>
  void get(std::pair<A, B>& t) { tag('P'); get(t.first); get(t.second); }
  template <class T>
  void get(std::vector<T>& v) {
    tag('V');
    uint64_t n = len();
    v.resize(n);
    for (auto& x : v) get(x);
  }
  void get(std::vector<bool>& v) {
    tag('V');
    uint64_t n = len();
    v.resize(n);
    for (uint64_t i = 0; i < n; i++) { bool x; get(x); v[i] = x; }
  }
  template <class T>
  void get(NTL::Vec<T>& v) {
    tag('V');
    uint64_t n = len();
    v.SetLength(n);
    for (uint64_t i = 0; i < n; i++) get(v[i]);
  }
  template <class T, size_t N> void get(std::array<T, N>& v) { get_fixed(v.data(), N); }
  template <class T, size_t N> void get(T (&v)[N]) { get_fixed(&v[0], N); }
  template <class T>
  void get(absl::optional<T>& v) { tag('O'); bool h; get(h); if (h) { v = T(); get(*v); } else v.reset(); }
  template <class T, int R, int C, int O, int MR, int MC>
  void get(Eigen::Matrix<T, R, C, O, MR, MC>& m) {
    tag('M');
    uint64_t r = len(), c = len();
    m.resize(r, c);
    get_fixed(m.data(), r * c);
  }
  template <class T>
  typename std::enable_if<std::is_class<T>::value>::type get(T& t) {
    tag('C');
    boost::serialization::access::serialize(*this, t, 0u);
  }

 private:
  template <class T>
  void get_fixed(T* p, uint64_t n) {
    tag('V');
    if (len() != n) throw WireError("sequence has another length than the receiver expects");
    for (uint64_t i = 0; i < n; i++) get(p[i]);
  }
  const std::vector<uint8_t>& b_;
  size_t pos_ = 0;
};

}  // namespace sim
#endif
