#ifndef SIM_MPC_UTILS_CANONICAL_ERRORS_H_
#define SIM_MPC_UTILS_CANONICAL_ERRORS_H_
#include "mpc_utils/status.h"
namespace mpc_utils {
#define SIM_CANON(Name)                                        \
  inline Status Name##Error(absl::string_view m) {             \
    return Status(StatusCode::k##Name, m);                     \
  }                                                            \
  inline bool Is##Name(const Status& s) {                      \
    return s.code() == StatusCode::k##Name;                    \
  }
SIM_CANON(Cancelled)
SIM_CANON(Unknown)
SIM_CANON(InvalidArgument)
SIM_CANON(DeadlineExceeded)
SIM_CANON(NotFound)
SIM_CANON(AlreadyExists)
SIM_CANON(PermissionDenied)
SIM_CANON(ResourceExhausted)
SIM_CANON(FailedPrecondition)
SIM_CANON(Aborted)
SIM_CANON(OutOfRange)
SIM_CANON(Unimplemented)
SIM_CANON(Internal)
SIM_CANON(Unavailable)
SIM_CANON(DataLoss)
SIM_CANON(Unauthenticated)
#undef SIM_CANON
}  // namespace mpc_utils
#endif
