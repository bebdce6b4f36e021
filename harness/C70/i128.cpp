// MON: shards=2
#define COORDINATE_TYPE long long
#define MULTIPLIED_TYPE __int128_t
#define IG_BIG 1000000000000000000LL
#include "ig.hpp"
