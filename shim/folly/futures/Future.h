#pragma once
#ifdef VF_FUTURES
#include <folly/futures/VfFuture.h>
#else
namespace folly {
template <class T> class Future; template <class T> class SemiFuture; template <class T> class Promise;
}
#endif
