#pragma once
#include <uni_algo/conv.h>
