// Precompiled prelude of every translation unit built for model checking: third-party headers only,
// plus Eigen's index/size checks turned into a hook that the explorer reports as a violation.
#ifndef MC_PRELUDE_HPP
#define MC_PRELUDE_HPP
namespace mc {
[[noreturn]] void eigen_assert_failed(const char* expr, const char* file, int line);
}
#define eigen_assert(X) \
  do {                  \
    if (!(X)) ::mc::eigen_assert_failed(#X, __FILE__, __LINE__); \
  } while (0)
#include <Eigen/Cholesky>
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/LU>
#include <Eigen/StdVector>
#include <algorithm>
#include <boost/core/demangle.hpp>
#include <cmath>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <utility>
#include <vector>
#endif
