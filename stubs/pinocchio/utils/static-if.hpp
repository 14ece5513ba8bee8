// Stand-in for pinocchio/utils/static-if.hpp (pinocchio is not installed): the
// value semantics of pinocchio::internal::if_then_else for floating point types.
#ifndef VF_STUB_PINOCCHIO_STATIC_IF_HPP
#define VF_STUB_PINOCCHIO_STATIC_IF_HPP
namespace pinocchio {
namespace internal {
enum ComparisonOperators { LT, LE, EQ, GE, GT };
template <typename L, typename R, typename T, typename E>
inline T if_then_else(const ComparisonOperators op, const L& l, const R& r,
                      const T& then_value, const E& else_value) {
  switch (op) {
    case LT: return l < r ? then_value : else_value;
    case LE: return l <= r ? then_value : else_value;
    case EQ: return l == r ? then_value : else_value;
    case GE: return l >= r ? then_value : else_value;
    case GT: return l > r ? then_value : else_value;
  }
  return else_value;
}
}  // namespace internal
}  // namespace pinocchio
#endif
