// MON: shards=2
#define IG_BIG 1000000000LL
#include "ig.hpp"
