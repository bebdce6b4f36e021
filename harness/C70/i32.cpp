// MON: shards=2
#define COORDINATE_TYPE int
#define MULTIPLIED_TYPE long long
#define IG_BIG 1000000000LL
#include "ig.hpp"
