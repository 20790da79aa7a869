#ifndef SIM_WORK_DRIVER_IMPL_H_
#define SIM_WORK_DRIVER_IMPL_H_
#include "distributed_vector_ole/all_but_one_random_ot.h"
#include "distributed_vector_ole/mpfss_known_indices.h"
#include "distributed_vector_ole/scalar_vector_gilboa_product.h"
#include "distributed_vector_ole/spfss_known_index.h"
#include "work/driver.h"

namespace sim {
namespace dvo = distributed_vector_ole;

template <class T>
struct DriverImpl : TypeDriver {
  static std::vector<std::vector<T>> buffers(const Ring& r, const Op& op, const std::vector<int64_t>& n, int side) {
    // Output arrays hold arbitrary values before the call.
    std::vector<std::vector<T>> b(n.size());
    for (size_t i = 0; i < n.size(); i++) b[i] = from_vals<T>(gen_values(r, op_seed(op, 1000 + 2 * i + side), n[i], 0));
    return b;
  }
  static void store(OpOut& out, const std::vector<std::vector<T>>& b) {
    for (auto& v : b) out.vals.push_back(to_vals<T>(v));
  }

  bool abo(Party& p, const Op& op, OpOut& out) {
    bool sender = op.i("r") == p.side;
    auto* ot = instance<dvo::AllButOneRandomOT>(p, op_slot("abo", op), out, op_sec(p, op));
    if (!ot) return true;
    Ring r = p.ring(TypeTag<T>::id);
    auto n = op_sizes(op);
    auto x = op_indices(op);
    auto b = buffers(r, op, n, p.side);
    std::vector<absl::Span<T>> sp;
    for (auto& v : b) sp.push_back(absl::MakeSpan(v));
    bool single = op.i("b") == 0 && n.size() == 1;
    bool ok;
    if (sender)
      ok = note(out, single ? ot->RunSender<T>(sp[0]) : ot->RunSenderBatched<T>(absl::MakeSpan(sp)));
    else
      ok = note(out, single ? ot->RunReceiver<T>(x[0], sp[0]) : ot->RunReceiverBatched<T>(x, absl::MakeSpan(sp)));
    (void)ok;
    store(out, b);
    return true;
  }

  bool spfss(Party& p, const Op& op, OpOut& out) {
    bool vp = op.i("r") == p.side;
    auto* sp_ = instance<dvo::SPFSSKnownIndex>(p, op_slot("spfss", op), out, op_sec(p, op));
    if (!sp_) return true;
    Ring r = p.ring(TypeTag<T>::id);
    auto n = op_sizes(op);
    auto x = op_indices(op);
    auto b = buffers(r, op, n, p.side);
    std::vector<absl::Span<T>> sp;
    for (auto& v : b) sp.push_back(absl::MakeSpan(v));
    std::vector<T> vals = from_vals<T>(gen_values(r, op_seed(op, vp ? 1 : 2), n.size(), vp ? op.i("vs") : op.i("vt", op.i("vs"))));
    int api = n.size() == 1 ? (int)op.i("b") : 1;
    if (api == 2) {
      auto so = vp ? sp_->RunValueProvider<T>(vals[0], n[0]) : sp_->RunIndexProvider<T>(vals[0], x[0], n[0]);
      if (note(out, so.status())) b[0] = so.ValueOrDie();
    } else if (api == 0) {
      note(out, vp ? sp_->RunValueProvider<T>(vals[0], sp[0]) : sp_->RunIndexProvider<T>(vals[0], x[0], sp[0]));
    } else {
      note(out, vp ? sp_->RunValueProviderBatched<T>(vals, absl::MakeSpan(sp)) : sp_->RunIndexProviderBatched<T>(vals, x, absl::MakeSpan(sp)));
    }
    store(out, b);
    return true;
  }

  bool gilboa(Party& p, const Op& op, OpOut& out) {
    bool vp = op.i("r") == p.side;   // r: vector provider
    auto* g = instance<dvo::ScalarVectorGilboaProduct>(p, op_slot("gil", op), out, op_sec(p, op));
    if (!g) return true;
    Ring r = p.ring(TypeTag<T>::id);
    int64_t n = op.i("n");
    std::vector<T> o = buffers(r, op, {n}, p.side)[0];
    if (vp) {
      std::vector<T> y = from_vals<T>(gen_values(r, op_seed(op, 1), n, op.i("ys")));
      if (op.i("b")) {
        auto so = g->RunVectorProvider<T>(absl::MakeConstSpan(y));
        if (note(out, so.status())) o = so.ValueOrDie();
      } else {
        note(out, g->RunVectorProvider<T>(absl::MakeConstSpan(y), absl::MakeSpan(o)));
      }
    } else {
      T x = Conv<T>::from(gen_values(r, op_seed(op, 2), 1, op.i("xs"))[0]);
      if (op.i("b")) {
        auto so = g->RunValueProvider<T>(x, n);
        if (note(out, so.status())) o = so.ValueOrDie();
      } else {
        note(out, g->RunValueProvider<T>(x, absl::MakeSpan(o)));
      }
    }
    store(out, {o});
    return true;
  }

  bool mpfss(Party& p, const Op& op, OpOut& out) {
    bool ip = op.i("r") == p.side;   // r: index provider
    auto* m = instance<dvo::MPFSSKnownIndices>(p, op_slot("mpfss", op), out, op_sec(p, op));
    if (!m) return true;
    Ring r = p.ring(TypeTag<T>::id);
    int64_t N = op.i("N"), t = op.i("t");
    auto nb = m->NumBuckets(t);
    if (!note(out, nb.status())) return true;
    int64_t B = nb.ValueOrDie();
    out.ints = {B};
    if (op.i("ub") & (1 << p.side))
      if (!note(out, m->UpdateBuckets(N, t))) return true;
    // Correlation w = u x + v from a trusted dealer.
    std::vector<u128> u = gen_values(r, op_seed(op, 11), B, 0), v = gen_values(r, op_seed(op, 12), B, 0);
    u128 x = gen_values(r, op_seed(op, 13), 1, op.i("xs"))[0];
    std::vector<T> o = buffers(r, op, {N}, p.side)[0];
    if (ip) {
      std::vector<T> y = from_vals<T>(gen_values(r, op_seed(op, 14), t, op.i("ys")));
      std::vector<int64_t> idx = mp_indices(op);
      std::vector<T> U = from_vals<T>(u), V = from_vals<T>(v);
      note(out, m->RunIndexProviderVectorOLE<T>(y, idx, U, V, absl::MakeSpan(o)));
    } else {
      MulBy mx(r, x);
      std::vector<u128> w(B);
      for (int64_t i = 0; i < B; i++) w[i] = r.add(mx(u[i]), v[i]);
      std::vector<T> W = from_vals<T>(w);
      note(out, m->RunValueProviderVectorOLE<T>(Conv<T>::from(x), t, W, absl::MakeSpan(o)));
    }
    store(out, {o});
    return true;
  }

  // One party calls with arguments the interface excludes; the peer does not
  // take part. out.ints[0] = bytes that left or waited to leave this party.
  bool bad(Party& p, const Op& op, OpOut& out) {
    if (op.i("p") != p.side) return true;
    Ring r = p.ring(TypeTag<T>::id);
    std::string k = op.s("k");
    auto val = [&](int64_t n) { return from_vals<T>(gen_values(r, op_seed(op, 5), n < 0 ? 0 : n, 0)); };
    int64_t n = op.i("n", 4), d = op.i("d", 0);
    auto code = [&](const mpc_utils::Status& s) { note(out, s); };
    if (k == "abo_null") code(dvo::AllButOneRandomOT::Create(nullptr).status());
    else if (k == "abo_negsec") code(dvo::AllButOneRandomOT::Create(chan(p), -1.0 - d).status());
    else if (k == "spf_null") code(dvo::SPFSSKnownIndex::Create(nullptr).status());
    else if (k == "spf_negsec") code(dvo::SPFSSKnownIndex::Create(chan(p), -0.5 - d).status());
    else if (k == "gil_null") code(dvo::ScalarVectorGilboaProduct::Create(nullptr).status());
    else if (k == "gil_negsec") code(dvo::ScalarVectorGilboaProduct::Create(chan(p), -0.25 - d).status());
    else if (k == "mp_null") code(dvo::MPFSSKnownIndices::Create(nullptr).status());
    else if (k == "mp_negsec") code(dvo::MPFSSKnownIndices::Create(chan(p), -0.125 - d).status());
    else if (k.compare(0, 5, "tree_") == 0 || k.compare(0, 4, "prg_") == 0 || k.compare(0, 3, "ck_") == 0) return bad_prim(op, out);
    else if (k.compare(0, 4, "abo_") == 0) {
      auto* ot = instance<dvo::AllButOneRandomOT>(p, op_slot("abo", op), out, op_sec(p, op));
      if (!ot) harness_error("bad op before the instance exists");
      std::vector<T> o = val(n), o2 = val(n);
      std::vector<absl::Span<T>> sp{absl::MakeSpan(o), absl::MakeSpan(o2)};
      if (k == "abo_neg") code(ot->RunReceiver<T>(-1 - d, sp[0]));
      else if (k == "abo_end") code(ot->RunReceiver<T>(n + d, sp[0]));
      else if (k == "abo_mismatch") { std::vector<int64_t> x(1 + 2 * (d & 1), 0); code(ot->RunReceiverBatched<T>(x, absl::MakeSpan(sp))); }
      else if (k == "abo_bneg") { std::vector<int64_t> x{0, -1 - d}; code(ot->RunReceiverBatched<T>(x, absl::MakeSpan(sp))); }
      else if (k == "abo_many") {          // 2^32 elements and a few more, all in the same place
        std::vector<T> big((size_t)1 << 20), few((size_t)(1 + d % 50));
        std::vector<absl::Span<T>> m(4096, absl::MakeSpan(big));
        m.push_back(absl::MakeSpan(few));
        std::vector<int64_t> x(m.size(), 0);
        code(ot->RunReceiverBatched<T>(x, absl::MakeSpan(m)));
      }
      else if (k == "abo_bend") { std::vector<int64_t> x{0, n + d}; code(ot->RunReceiverBatched<T>(x, absl::MakeSpan(sp))); }
      else return false;
    } else if (k.compare(0, 4, "spf_") == 0) {
      auto* s = instance<dvo::SPFSSKnownIndex>(p, op_slot("spfss", op), out, op_sec(p, op));
      if (!s) harness_error("bad op before the instance exists");
      std::vector<T> o = val(n), o2 = val(n), v = val(2), v3 = val(1 + 2 * (d & 1));
      std::vector<absl::Span<T>> sp{absl::MakeSpan(o), absl::MakeSpan(o2)};
      if (k == "spf_vmismatch") code(s->RunValueProviderBatched<T>(v3, absl::MakeSpan(sp)));
      else if (k == "spf_imismatch") { std::vector<int64_t> x{0, 0}; code(s->RunIndexProviderBatched<T>(v3, x, absl::MakeSpan(sp))); }
      else if (k == "spf_xmismatch") { std::vector<int64_t> x(1 + 2 * (d & 1), 0); code(s->RunIndexProviderBatched<T>(v, x, absl::MakeSpan(sp))); }
      else if (k == "spf_neg") code(s->RunIndexProvider<T>(v[0], -1 - d, sp[0]));
      else if (k == "spf_end") code(s->RunIndexProvider<T>(v[0], n + d, sp[0]));
      else if (k == "spf_negsize") code(s->RunValueProvider<T>(v[0], (int64_t)(-1 - d)).status());
      else if (k == "spf_inegsize") code(s->RunIndexProvider<T>(v[0], 0, (int64_t)(-1 - d)).status());
      else if (k == "spf_bend") { std::vector<int64_t> x{0, n + d}; code(s->RunIndexProviderBatched<T>(v, x, absl::MakeSpan(sp))); }
      else return false;
    } else if (k.compare(0, 4, "gil_") == 0) {
      auto* g = instance<dvo::ScalarVectorGilboaProduct>(p, op_slot("gil", op), out, op_sec(p, op));
      if (!g) harness_error("bad op before the instance exists");
      std::vector<T> y = val(n), o = val(d & 1 ? n + 1 : n - 1);
      if (k == "gil_mismatch") code(g->RunVectorProvider<T>(absl::MakeConstSpan(y), absl::MakeSpan(o)));
      else if (k == "gil_neglen") code(g->RunValueProvider<T>(y[0], (int64_t)(-1 - d)).status());
      else return false;
    } else if (k.compare(0, 3, "mp_") == 0) {
      auto* m = instance<dvo::MPFSSKnownIndices>(p, op_slot("mpfss", op), out, op_sec(p, op));
      if (!m) harness_error("bad op before the instance exists");
      int64_t t = std::max<int64_t>(1, op.i("mt", 2));
      int64_t N = n + t;
      auto nb = m->NumBuckets(t);
      int64_t B = nb.ok() ? nb.ValueOrDie() : 1;
      std::vector<T> y = val(t), u = val(B), o = val(N);
      std::vector<int64_t> x(t);
      for (int64_t i = 0; i < t; i++) x[i] = i;
      int64_t pos = d % t;
      if (k == "mp_ylen") code(m->RunValueProviderVectorOLE<T>(y[0], (int)-(d % 1000), u, absl::MakeSpan(o)));
      else if (k == "mp_vshort") { std::vector<T> so = val(std::max<int64_t>(0, t - 1 - d % t)); code(m->RunValueProviderVectorOLE<T>(y[0], (int)t, u, absl::MakeSpan(so))); }
      else if (k == "mp_w") { std::vector<T> w = val(d & 1 ? B + 1 : B - 1); code(m->RunValueProviderVectorOLE<T>(y[0], (int)t, w, absl::MakeSpan(o))); }
      else if (k == "mp_u") { std::vector<T> w = val(d & 1 ? B + 1 : B - 1); code(m->RunIndexProviderVectorOLE<T>(y, x, w, u, absl::MakeSpan(o))); }
      else if (k == "mp_v") { std::vector<T> w = val(d & 1 ? B + 1 : B - 1); code(m->RunIndexProviderVectorOLE<T>(y, x, u, w, absl::MakeSpan(o))); }
      else if (k == "mp_ubneg") code(m->UpdateBuckets(-1 - d, (int)t));
      else if (k == "mp_ubcount") code(m->UpdateBuckets(N, (int)(-1 - d % 100000)));
      else if (k == "mp_nbneg") code(m->NumBuckets((int)(-1 - d % 100000)).status());
      else if (k == "mp_mismatch") { x.push_back(t); code(m->RunIndexProviderVectorOLE<T>(y, x, u, u, absl::MakeSpan(o))); }
      else if (k == "mp_short") { std::vector<T> so = val(t - 1); code(m->RunIndexProviderVectorOLE<T>(y, x, u, u, absl::MakeSpan(so))); }
      else if (k == "mp_empty") { y.clear(); x.clear(); code(m->RunIndexProviderVectorOLE<T>(y, x, u, u, absl::MakeSpan(o))); }
      else if (k == "mp_end") { x[pos] = N; code(m->RunIndexProviderVectorOLE<T>(y, x, u, u, absl::MakeSpan(o))); }
      else if (k == "mp_far") { x[pos] = N + 1 + d; code(m->RunIndexProviderVectorOLE<T>(y, x, u, u, absl::MakeSpan(o))); }
      else if (k == "mp_neg") { x[pos] = -1 - d; code(m->RunIndexProviderVectorOLE<T>(y, x, u, u, absl::MakeSpan(o))); }
      else if (k == "mp_dup") {   // one index five times can never be placed
        t = 5 + d % 4;
        nb = m->NumBuckets(t);
        B = nb.ok() ? nb.ValueOrDie() : 1;
        y = val(t); u = val(B); o = val(N + t);
        x.assign(t, (int64_t)(d % (N + t)));
        code(m->RunIndexProviderVectorOLE<T>(y, x, u, u, absl::MakeSpan(o)));
      }
      else return false;
      // placing the indices may fail with the probability stated for it
      if ((k == "mp_u" || k == "mp_v") && out.msg.find("maximum number of tries") != std::string::npos) out.code = (int)mpc_utils::StatusCode::kInvalidArgument;
    } else return false;
    return true;
  }

  bool exec(Party& p, const Op& op, OpOut& out) override {
    Mark m = mark(p);
    bool known = run(p, op, out);
    if (known && out.code == 0) collect<T>(p, m, out);
    return known;
  }
  bool run(Party& p, const Op& op, OpOut& out) {
    const std::string& k = op.kind;
    if (k == "abo") return abo(p, op, out);
    if (k == "spf") return spfss(p, op, out);
    if (k == "gil") return gilboa(p, op, out);
    if (k == "mpf") return mpfss(p, op, out);
    if (k == "bad") return bad(p, op, out);
    return false;
  }
};

template <class T>
struct RegisterDriver {
  RegisterDriver() { static DriverImpl<T> d; register_driver(TypeTag<T>::id, &d); }
};
}  // namespace sim
#endif
