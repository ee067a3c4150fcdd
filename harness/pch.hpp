// precompiled: the compatibility header of the official build and the heavy external headers
#include "compat.hpp"
#include "detail/config.hpp"   // must precede Eigen
#include <Eigen/Core>
#include <Eigen/SparseCore>
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <vector>
