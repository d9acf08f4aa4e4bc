// Force-included for fuse_hook.cpp only: apt's abseil 20220623 has no %v; its one log line is not formatted.
#pragma once
#include "logger.h"
#undef INFO_LOG
#define INFO_LOG(...) do { } while (0)
