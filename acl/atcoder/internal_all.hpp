// Stand-in for AtCoder Library (absent from the sandbox), written for the monitors:
// same public names and behaviour, simple code.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <iostream>
#include <limits>
#include <numeric>
#include <queue>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <functional>
#include <random>
#include <set>
#include <map>
