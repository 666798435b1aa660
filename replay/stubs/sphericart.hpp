// Stand-in for sphericart (not installed): real spherical harmonics of the direction of each vector and their
// gradients, with sphericart's interface and memory layout: sph[n][lm], dsph[n][3][lm].
#pragma once
#include <cmath>
#include <stdexcept>
#include <vector>
namespace sphericart {
template <typename T> class SphericalHarmonics {
    int l_max;
    // solid harmonics and gradients by the standard recurrences, then divided by r^l
    void one(const T* v, T* s, T* ds, int stride) const {
        const int n = (l_max+1)*(l_max+1);
        const T r2 = v[0]*v[0]+v[1]*v[1]+v[2]*v[2], r = std::sqrt(r2);
        const T x = v[0]/r, y = v[1]/r, z = v[2]/r;
        // c_m + i s_m = (x+iy)^m and derivatives
        std::vector<T> c(l_max+1), si(l_max+1);
        c[0] = 1; si[0] = 0;
        for (int m=1; m<=l_max; ++m) { c[m] = x*c[m-1]-y*si[m-1]; si[m] = x*si[m-1]+y*c[m-1]; }
        // P_l^m(z)/(1-z^2)^(m/2) and its derivative with respect to z
        std::vector<T> P(n, 0), D(n, 0);
        auto id = [](int l, int m) { return l*l+l+m; };
        for (int m=0; m<=l_max; ++m) {
            T d = 1;
            for (int k=1; k<=m; ++k) d *= (2*k-1);
            P[id(m,m)] = d;
            for (int l=m+1; l<=l_max; ++l) {
                const T a = (2*l-1)*z, b = l+m-1;
                const T p2 = l-2 >= m ? P[id(l-2,m)] : T(0), d2 = l-2 >= m ? D[id(l-2,m)] : T(0);
                P[id(l,m)] = (a*P[id(l-1,m)]-b*p2)/(l-m);
                D[id(l,m)] = ((2*l-1)*P[id(l-1,m)]+a*D[id(l-1,m)]-b*d2)/(l-m);
            }
        }
        for (int l=0; l<=l_max; ++l)
            for (int m=-l; m<=l; ++m) {
                const int a = m < 0 ? -m : m;
                T f = (2*l+1)/(4*M_PI);
                for (int k=l-a+1; k<=l+a; ++k) f /= k;
                f = std::sqrt(f)*(m == 0 ? 1 : std::sqrt(2.0));
                const T ang = m < 0 ? si[a] : c[a];
                T gx = 0, gy = 0;
                if (a > 0) {
                    gx = m < 0 ? a*si[a-1] : a*c[a-1];
                    gy = m < 0 ? a*c[a-1] : -a*si[a-1];
                }
                const T p = P[id(l,a)];
                s[id(l,m)] = f*p*ang;
                if (ds) {
                    const T g[3] = {f*p*gx, f*p*gy, f*D[id(l,a)]*ang};
                    const T dot = g[0]*x+g[1]*y+g[2]*z;
                    const T u[3] = {x, y, z};
                    for (int q=0; q<3; ++q) ds[q*stride+id(l,m)] = (g[q]-dot*u[q])/r;
                }
            }
    }
public:
    SphericalHarmonics(size_t l) : l_max(l) {}
    void compute(const std::vector<T>& xyz, std::vector<T>& sph) {
        const int n = (l_max+1)*(l_max+1);
        if (sph.size() != xyz.size()/3*n) throw std::runtime_error("SphericalHarmonics::compute: wrong size of sph");
        for (size_t i=0; i<xyz.size()/3; ++i) one(xyz.data()+3*i, sph.data()+i*n, nullptr, n);
    }
    void compute_with_gradients(const std::vector<T>& xyz, std::vector<T>& sph, std::vector<T>& dsph) {
        const int n = (l_max+1)*(l_max+1);
        if (sph.size() != xyz.size()/3*n || dsph.size() != xyz.size()*n)
            throw std::runtime_error("SphericalHarmonics::compute_with_gradients: wrong size of the results");
        for (size_t i=0; i<xyz.size()/3; ++i) one(xyz.data()+3*i, sph.data()+i*n, dsph.data()+3*i*n, n);
    }
};
}
