#pragma once
#include <folly/Portability.h>
