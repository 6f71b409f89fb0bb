#pragma once
#include <vfrpc/types.h>
