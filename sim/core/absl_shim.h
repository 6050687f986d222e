// Force-included into the instrumented code. Marks allocations that Abseil's hash tables make while
// growing: version 20220623 changes the table before it allocates, so a failure there corrupts the
// table whatever wrenfold does (known finding C04-absl). Such allocations fail only on request.
#pragma once
#ifdef __cplusplus
#include <absl/base/config.h>
#include <absl/container/internal/container_memory.h>
namespace sim {
void third_party_begin();
void third_party_end();
}
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace container_internal {
template <size_t Alignment, typename Alloc>
void* SimAllocate(Alloc* alloc, size_t n) {
  struct guard {
    guard() { sim::third_party_begin(); }
    ~guard() { sim::third_party_end(); }
  } g;
  return Allocate<Alignment>(alloc, n);
}
}  // namespace container_internal
ABSL_NAMESPACE_END
}  // namespace absl
#define Allocate SimAllocate
#include <absl/container/internal/raw_hash_set.h>
#undef Allocate
#endif
