// Stand-in for the folly headers the repository includes: folly itself is not
// installed in this sandbox.  Only what the checks need, same observable contract.
#pragma once
#include <sys/types.h>
#include <unistd.h>
#include <pthread.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cctype>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <ostream>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#define FOLLY_MAYBE_UNUSED [[maybe_unused]]
#define FOLLY_NODISCARD [[nodiscard]]
#define FOLLY_ALWAYS_INLINE inline __attribute__((always_inline))
#define FOLLY_NOINLINE __attribute__((noinline))
#define FOLLY_LIKELY(x) (__builtin_expect(!!(x), 1))
#define FOLLY_UNLIKELY(x) (__builtin_expect(!!(x), 0))
#ifndef LIKELY
#define LIKELY(x) (__builtin_expect(!!(x), 1))
#define UNLIKELY(x) (__builtin_expect(!!(x), 0))
#endif
#define FOLLY_FALLTHROUGH [[fallthrough]]
