#ifndef SIM_MPC_UTILS_STATUSOR_H_
#define SIM_MPC_UTILS_STATUSOR_H_
#include <cstdio>
#include <cstdlib>
#include <type_traits>

#include "absl/types/optional.h"
#include "mpc_utils/canonical_errors.h"
#include "mpc_utils/status.h"
namespace mpc_utils {
template <typename T>
class StatusOr {
 public:
  using element_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : status_(s) { CheckNotOk(); }
  StatusOr(Status&& s) : status_(std::move(s)) { CheckNotOk(); }
  StatusOr(const T& v) : value_(v) {}
  StatusOr(T&& v) : value_(std::move(v)) {}
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  template <typename U, typename std::enable_if<
                            std::is_convertible<U, T>::value &&
                                !std::is_same<U, T>::value,
                            int>::type = 0>
  StatusOr(const StatusOr<U>& o) : status_(o.status()) {
    if (o.ok()) value_ = o.ValueOrDie();
  }
  template <typename U, typename std::enable_if<
                            std::is_convertible<U, T>::value &&
                                !std::is_same<U, T>::value,
                            int>::type = 0>
  StatusOr(StatusOr<U>&& o) : status_(o.status()) {
    if (o.ok()) value_ = std::move(o).ValueOrDie();
  }
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return status_; }
  const T& ValueOrDie() const& { Check(); return *value_; }
  T& ValueOrDie() & { Check(); return *value_; }
  T&& ValueOrDie() && { Check(); return std::move(*value_); }
  const T&& ValueOrDie() const&& { Check(); return std::move(*value_); }

 private:
  void Check() const {
    if (!status_.ok()) {
      std::fprintf(stderr, "StatusOr::ValueOrDie on error: %s\n",
                   status_.ToString().c_str());
      std::abort();
    }
  }
  void CheckNotOk() const {
    if (status_.ok()) {
      std::fprintf(stderr, "StatusOr constructed from OK status\n");
      std::abort();
    }
  }
  Status status_;
  absl::optional<T> value_;
};
}  // namespace mpc_utils
#endif
