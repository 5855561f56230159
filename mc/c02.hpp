#pragma once
#include <array>
#include <cstdint>
#include <vector>
struct Grid { size_t npts = 0; std::vector<std::array<long double, 3>> p; std::vector<long double> w; };
Grid grid_f(int fam, int64_t n);
Grid grid_d(int fam, int64_t n);
Grid grid_l(int fam, int64_t n);
