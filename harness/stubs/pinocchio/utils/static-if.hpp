// Scalar-only stand-in for pinocchio's branch-free conditional (pinocchio is not installed here).
// Semantics from pinocchio/utils/static-if.hpp for non-AD scalars: compare lhs to rhs with the given
// operator and return the corresponding value.
#ifndef PINOCCHIO_STATIC_IF_STUB
#define PINOCCHIO_STATIC_IF_STUB
namespace pinocchio {
namespace internal {
enum ComparisonOperators { LT, LE, EQ, GE, GT };
template <typename S, typename T>
inline T if_then_else(const ComparisonOperators op, const S& lhs, const S& rhs, const T& then_value,
                      const T& else_value) {
  switch (op) {
    case LT: return lhs < rhs ? then_value : else_value;
    case LE: return lhs <= rhs ? then_value : else_value;
    case EQ: return lhs == rhs ? then_value : else_value;
    case GE: return lhs >= rhs ? then_value : else_value;
    case GT: return lhs > rhs ? then_value : else_value;
  }
  return else_value;
}
}  // namespace internal
}  // namespace pinocchio
#endif
