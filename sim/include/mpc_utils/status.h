// Stand-in for mpc_utils/status.h (not available offline). Same surface as the
// part of the library under test uses.
#ifndef SIM_MPC_UTILS_STATUS_H_
#define SIM_MPC_UTILS_STATUS_H_
#include <cmath>
#include <cstdint>
#include <memory>
#include <numeric>
#include <ostream>
#include <string>
#include <utility>
#include <vector>

#include "absl/memory/memory.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"

namespace mpc_utils {

enum class StatusCode : int {
  kOk = 0,
  kCancelled = 1,
  kUnknown = 2,
  kInvalidArgument = 3,
  kDeadlineExceeded = 4,
  kNotFound = 5,
  kAlreadyExists = 6,
  kPermissionDenied = 7,
  kResourceExhausted = 8,
  kFailedPrecondition = 9,
  kAborted = 10,
  kOutOfRange = 11,
  kUnimplemented = 12,
  kInternal = 13,
  kUnavailable = 14,
  kDataLoss = 15,
  kUnauthenticated = 16,
};

class Status {
 public:
  Status() : code_(StatusCode::kOk) {}
  Status(StatusCode code, absl::string_view message)
      : code_(code), message_(message) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  StatusCode error_code() const { return code_; }
  const std::string& message() const { return message_; }
  const std::string& error_message() const { return message_; }
  std::string ToString() const {
    return ok() ? "OK" : absl::StrCat("code ", static_cast<int>(code_), ": ", message_);
  }
  bool operator==(const Status& o) const {
    return code_ == o.code_ && message_ == o.message_;
  }
  bool operator!=(const Status& o) const { return !(*this == o); }
  void IgnoreError() const {}

 private:
  StatusCode code_;
  std::string message_;
};
inline std::ostream& operator<<(std::ostream& os, const Status& s) {
  return os << s.ToString();
}
inline Status OkStatus() { return Status(); }
}  // namespace mpc_utils
#endif
