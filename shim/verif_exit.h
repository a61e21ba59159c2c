// Forced include. exit() called by the code under test goes through verif_exit(): the real exit()
// in the executable, an exception in the in-process libraries.
#pragma once
#include <cstdlib>
#include <stdlib.h>
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <execution>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
[[noreturn]] void verif_exit(int code);
namespace std { using ::verif_exit; }
#define exit verif_exit
struct VerifExit { int code; };
