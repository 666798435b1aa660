// Declarations only (sphericart is not installed).
#pragma once
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <vector>
namespace sphericart {
template <typename T> class SphericalHarmonics {
public:
    SphericalHarmonics(std::size_t l_max);
    void compute(const std::vector<T>& xyz, std::vector<T>& sph);
    void compute_with_gradients(const std::vector<T>& xyz, std::vector<T>& sph, std::vector<T>& dsph);
};
}
