#include "aoclda.h"
#include "aoclda.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <random>
#include <set>
#define CK(c) do { da_status s_ = (c); if (s_) { printf("demo: %s -> status %d\n", #c, (int)s_); exit(1); } } while (0)
#define FAILED(...) do { printf("demo: "); printf(__VA_ARGS__); printf("\n"); exit(1); } while (0)
