#pragma once
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <math.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <random>
#include "vc.h"
// the contracts speak about representation as well as interface
#define private public
#define protected public
#define CONTRACT(n) extern "C" void c_##n()
#define SPEC(n) extern "C" n
// natively: indices are drawn from the range they are required to be in
static inline long below(long k, long n) { return vc_engine() || n <= 0 ? k : k % n; }
