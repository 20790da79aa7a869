#ifndef SIM_WORK_VOLE_IMPL_H_
#define SIM_WORK_VOLE_IMPL_H_
#include "distributed_vector_ole/distributed_vector_ole.h"
#include "work/driver.h"

namespace sim {
namespace dvo = distributed_vector_ole;

// Number of expansion stages and sizes are compile-time data of the library; a
// scenario may scale them down so that histories with many expansions are
// cheap. The protocol code is the same.
template <class V>
void scale_vec(const V& v, const std::vector<int>& to) {
  if constexpr (std::is_same<V, std::vector<int>>::value) const_cast<std::vector<int>&>(v) = to;
  else if constexpr (std::is_same<V, std::vector<int64_t>>::value) const_cast<std::vector<int64_t>&>(v).assign(to.begin(), to.end());
}
struct ParamTable { std::vector<int> out, seed, noise; };
inline ParamTable param_profile(int profile) {
  switch (profile) {
    case 1: return {{160, 320, 900}, {30, 40, 60}, {4, 6, 9}};
    case 2: return {{260}, {40}, {6}};
    case 3: return {{130, 200, 300, 450}, {20, 30, 44, 60}, {3, 4, 5, 7}};
    case 4: return {{2000}, {40}, {20}};
    case 5: return {{2000}, {40}, {21}};
    case 6: return {{1550, 2600}, {40, 60}, {8, 30}};
    case 7: return {{600}, {40}, {40}};
    default: return {};
  }
}
template <class P>
auto scale_params(P*, int profile) -> decltype((void)P::output_size, (void)P::seed_size, (void)P::num_noise_indices) {
  ParamTable t = param_profile(profile);
  if (t.out.empty()) return;
  scale_vec(P::output_size, t.out);
  scale_vec(P::seed_size, t.seed);
  scale_vec(P::num_noise_indices, t.noise);
}
inline void scale_params(void*, int) {}   // the table has another form: run at full size
template <class P>
auto scaled_to(P*, int profile) -> decltype(P::num_noise_indices.size() == 1) {
  ParamTable t = param_profile(profile);
  auto same = [](const auto& v, const std::vector<int>& w) {
    if (v.size() != w.size()) return false;
    for (size_t i = 0; i < w.size(); i++) if ((int64_t)v[i] != w[i]) return false;
    return true;
  };
  return same(P::output_size, t.out) && same(P::seed_size, t.seed) && same(P::num_noise_indices, t.noise);
}
inline bool scaled_to(void*, int) { return false; }
template <class P>
auto small_table(P*) -> decltype(P::output_size.back() > 0) { return P::output_size.back() < 100000; }
inline bool small_table(void*) { return false; }

template <class P>
auto max_batch(P*, double sec) -> decltype((int64_t)P::output_size.back() + P::seed_size.back() + P::num_noise_indices.back()) {
  int64_t t = (int64_t)P::num_noise_indices.back(), b = optimal_buckets(t, sec + log2(3) + 1);
  return b <= 0 ? 0 : (int64_t)P::output_size.back() - (int64_t)P::seed_size.back() - b;
}
inline int64_t max_batch(void*, double) { return 1000; }

template <class T>
struct VoleImpl : TypeDriver {
  using V = dvo::DistributedVectorOLE<T>;

  bool exec(Party& p, const Op& op, OpOut& out) override {
    if (op.kind == "vpar") {
      scale_params((dvo::VOLEParameters*)nullptr, (int)op.i("vp"));
      return true;
    }
    Mark m = mark(p);
    bool known = run(p, op, out);
    if (known && out.code == 0) collect<T>(p, m, out);
    return known;
  }
  bool run(Party& p, const Op& op, OpOut& out) {
    const std::string& k = op.kind;
    bool sender = op.i("r") == p.side;
    if (k == "vbad") return bad(p, op, out);
    auto* v = instance<V>(p, std::string(op_slot("vole", op)) + "." + kTypeNames[TypeTag<T>::id], out, op_sec(p, op));
    if (!v) return true;
    Ring r = p.ring(TypeTag<T>::id);
    if (k == "vnew") return true;
    if (k == "vpre") {
      int64_t b = op.i("n");
      // "As much as possible" is asked for with the scaled sizes only.
      if (b > 1000000 && !small_table((dvo::VOLEParameters*)nullptr)) b = 1500;
      if (sender) {
        note(out, v->PrecomputeSender(b));
      } else if (op.i("ds", -1) < 0) {
        note(out, v->PrecomputeReceiver(b));
      } else {
        T d = Conv<T>::from(gen_values(r, op_seed(op, 31), 1, (int)op.i("ds"))[0]);
        note(out, v->PrecomputeReceiver(b, d));
      }
      return true;
    }
    if (k == "vrun") {
      int64_t n = op.i("n");
      if (sender) {
        auto so = v->RunSender(n);
        if (note(out, so.status())) {
          auto res = so.ValueOrDie();
          out.vals.push_back(to_vals<T>(res.u));
          out.vals.push_back(to_vals<T>(res.v));
        }
      } else {
        auto so = v->RunReceiver(n);
        if (note(out, so.status())) {
          auto res = so.ValueOrDie();
          out.vals.push_back(to_vals<T>(res.w));
          out.scalar = Conv<T>::to(res.delta);
        }
      }
      return true;
    }
    return false;
  }

  bool bad(Party& p, const Op& op, OpOut& out) {
    if (op.i("p") != p.side) return true;
    std::string k = op.s("k");
    int64_t d = op.i("d");
    if (k == "v_null") { note(out, V::Create(nullptr).status()); return true; }
    if (k == "v_negsec") { note(out, V::Create(chan(p), -0.75 - d).status()); return true; }
    auto* v = instance<V>(p, std::string(op_slot("vole", op)) + "." + kTypeNames[TypeTag<T>::id], out, op_sec(p, op));
    if (!v) harness_error("bad op before the instance exists");
    if (k == "v_spre") note(out, v->PrecomputeSender(-d));
    else if (k == "v_rpre") note(out, v->PrecomputeReceiver(-d));
    else if (k == "v_srun") note(out, v->RunSender(-1 - d).status());
    else if (k == "v_rrun") note(out, v->RunReceiver(-1 - d).status());
    else return false;
    return true;
  }
};

template <class T>
struct RegisterVole {
  RegisterVole() { static VoleImpl<T> d; register_vole_driver(TypeTag<T>::id, &d); }
};
}  // namespace sim
#endif
